"""Builders of small worlds: a patcher CDN, a RADS CDN, fake patches"""
import itertools
import json
import os

from . import enc
from .http import net

BASE = 'https://lol.dyn.riotcdn.net/'
CLIENT_URL = 'https://clientconfig.rpg.riotgames.com/api/v1/config/public?namespace=keystone.products.league_of_legends.patchlines'
HASH_URL = 'https://raw.communitydragon.org/data/hashes/lol/'


def game_url(platform):
    return f"https://sieve.services.riotcdn.net/api/v1/products/lol/version-sets/{platform}?q[platform]=windows&q[published]=true"


def quoted(url):
    """URL as sent by requests"""
    import requests
    return requests.Request('GET', url).prepare().url


def manifest_url(mid):
    return f"{BASE}channels/public/releases/{mid:016X}.manifest"


def bundle_url(bid):
    return f"{BASE}channels/public/bundles/{bid:016X}.bundle"


class CDN:
    """chunks: {chunk id: bytes}; bundles: {bundle id: [chunk ids]}"""

    def __init__(self, chunks, bundles):
        self.chunks = chunks
        self.bundles = bundles
        self.owner = {c: b for b, cs in bundles.items() for c in cs}
        self.stored = {c: enc.zstd(d) for c, d in chunks.items()}
        self.manifests = {}   # {mid: bytes}
        self.files = {}       # {mid: files}

    def data(self, chunk_ids):
        return b''.join(self.chunks[c] for c in chunk_ids)

    def manifest(self, mid, files, bundles=None):
        """files: [(path, [chunk ids], langs or None, link or None)]"""
        names = []
        for _, _, langs, _ in files:
            for lang in langs or ():
                if lang not in names:
                    names.append(lang)
        dirs = {}
        table = []
        out = []
        for i, (path, chunk_ids, langs, link) in enumerate(files):
            parts = path.split('/')
            did = None
            for n in range(1, len(parts)):
                key = '/'.join(parts[:n])
                if key not in dirs:
                    dirs[key] = 0x100 + len(dirs)
                    table.append((dirs[key], did, parts[n - 1]))
                did = dirs[key]
            mask = None
            if langs:
                mask = sum(1 << names.index(lang) for lang in langs)
            out.append(dict(id=0x1000 + i, dir=did, size=len(self.data(chunk_ids)), name=parts[-1], mask=mask, chunks=chunk_ids, link=link))
        used = [b for b in self.bundles if bundles is None or b in bundles]
        self.manifests[mid] = enc.rman(
            [(b, [(c, len(self.stored[c]), len(self.chunks[c])) for c in self.bundles[b]]) for b in used],
            [(i + 1, n) for i, n in enumerate(names)], out, table)
        self.files[mid] = files
        return manifest_url(mid)

    def publish(self):
        for mid, data in self.manifests.items():
            net.routes[manifest_url(mid)] = data
        for bid, cs in self.bundles.items():
            net.routes[bundle_url(bid)] = b''.join(self.stored[c] for c in cs)


def rotated(items, n):
    return items[n:] + items[:n]


def announce(client_mid, game_mid, patchline='live'):
    """Set the answers of the version endpoints"""
    region, platform = ('PBE', 'PBE1') if patchline == 'pbe' else ('EUW', 'EUW1')
    url = quoted(CLIENT_URL)
    lines = _announced.setdefault(id(net.routes), {})
    lines[patchline] = (region, client_mid)
    # noise around the wanted entries: other regions, in both orders
    turn = (client_mid + game_mid) % 5   # the wanted one is at any place
    net.routes[url] = json.dumps({
        f"keystone.products.league_of_legends.patchlines.{p}": {"platforms": {"win": {"configurations": rotated([
            {"id": "NA", "patch_url": manifest_url(0xBAD1)},
            {"id": f"{r}2", "patch_url": manifest_url(0xBAD4)},
            {"id": f"X{r}", "patch_url": manifest_url(0xBAD5)},
            {"id": r, "patch_url": manifest_url(m)},
            {"id": "KR", "patch_url": manifest_url(0xBAD2)}], turn)},
            "mac": {"configurations": [{"id": r, "patch_url": manifest_url(0xBAD3)}]}}}
        for p, (r, m) in lines.items()}).encode()
    net.routes[quoted(game_url(platform))] = json.dumps(
        {"releases": [{"release": {}, "download": {"url": manifest_url(game_mid)}}]}).encode()


_announced = {}


def reset_net():
    net.reset()
    _announced.clear()


def write_release(path, ts, client=None, game=None, patchline='live'):
    """Record a release in a storage, as a poll would have done"""
    base = f"{path}/cdtb/releases/{patchline}"
    os.makedirs(f"{base}/{ts}", exist_ok=True)
    data = {}
    if client is not None:
        data['client_patch_url'] = manifest_url(client)
    if game is not None:
        data['game_patch_url'] = manifest_url(game)
    with open(f"{base}/{ts}/release.json", 'w') as f:
        json.dump(data, f)
    with open(f"{base}/latest.timestamp", 'w') as f:
        f.write(f"{ts}\n")


def system_yaml(version):
    return f"# generated\nproduct: lol\ngame-branch: 'Release/{version}'\n".encode()


def content_metadata(version):
    return json.dumps({"version": f"{version}.123.4567+branch.releases.content.release"}).encode()


def subsets(items):
    items = list(items)
    for n in range(len(items) + 1):
        yield from itertools.combinations(items, n)


def sequences(items, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(items, repeat=n)


# ---------------------------------------------------------------- RADS

RADS_BASE = 'http://l3cdn.riotgames.com/releases/live/'
RADS_PBE = 'http://l3cdn.riotgames.com/releases/pbe/'


def solution_manifest(name, version, projects, langs, eol='\r\n', magic='RADS Solution Manifest', fmt='1.0.0.0'):
    """projects: [(name, version, required)]; langs: [(lang, [project names])]"""
    lines = [magic, fmt, name, version, str(len(projects))]
    for pname, pversion, required in projects:
        lines += [pname, pversion, '0' if required else '10', '0']
    lines.append(str(len(langs)))
    for lang, deps in langs:
        lines += [lang, '0', str(len(deps)), *deps]
    return ''.join(line + eol for line in lines).encode()


def package_manifest(files, eol='\r\n', magic='PKG1'):
    """files: [(path, package, offset, size, type)]"""
    return (magic + eol + ''.join(f"/{p},{pkg},{offset},{size},{typ}{eol}" for p, pkg, offset, size, typ in files)).encode()


class RadsCDN:
    """solutions: {name: [(version, [(project, version, required)], [(lang, [project names])])]}
    projects: {(name, version): [(relative path, data, compressed)] or None if not available}"""

    def __init__(self, solutions, projects, base=RADS_BASE):
        self.solutions, self.projects, self.base = solutions, projects, base

    def path(self, name, version, rel):
        return f"projects/{name}/releases/{version}/files/{rel}"

    def publish(self):
        import zlib
        for sln, versions in self.solutions.items():
            net.routes[f"{self.base}solutions/{sln}/releases/releaselisting"] = ''.join(f"{v[0]}\r\n" for v in versions).encode()
            for version, projects, langs in versions:
                net.routes[f"{self.base}solutions/{sln}/releases/{version}/solutionmanifest"] = solution_manifest(sln, version, projects, langs)
        for (name, version), files in self.projects.items():
            if files is None:
                continue
            url = f"{self.base}projects/{name}/releases/{version}"
            table, body = [], b''
            for rel, data, compressed in files:
                stored = zlib.compress(data) if compressed else data
                table.append((self.path(name, version, rel) + ('.compressed' if compressed else ''), 'BIN_0x00000000', len(body), len(stored), 0))
                body += stored
            net.routes[f"{url}/packages/files/packagemanifest"] = package_manifest(table)
            net.routes[f"{url}/packages/files/BIN_0x00000000"] = body
            net.routes[f"{url}/releasemanifest"] = b'RLSM'
