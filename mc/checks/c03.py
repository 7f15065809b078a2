"""Downloads of patcher releases: files, requests, listed paths"""
import itertools
import os
import shutil

from .. import fsx, world
from ..http import net
from ..world import CDN
from cdtb.patcher import PatcherStorage, PatcherRelease, PatcherPatchElement

ID = 'C03'
LEVEL = 'exploration'
RULE = 'distinct (manifest, language selection, layout, former selection) combinations; non-trivial when at least a file is selected'
BOUNDS = {'quick': 'all manifests of 1 file (9 chunk lists x 8 flag sets x 5 paths x link or not), all pairs over 5 chunk lists x 4 flag sets each, all triples over 3 chunk lists x 3 flag sets (half of them with paths differing by their case only), 4 bundle layouts; 10 language selections, former download of another selection, both extraction layouts; releases of 1200 chunks, 300 bundles, 700 files, chunks up to 9 MB',
          'thorough': 'as quick with pairs over all chunk lists and flag sets and triples over 6 chunk lists x 4 flag sets'}
ASSUMPTIONS = ['files of a manifest have distinct paths, none of which is a directory of another one', 'flags of languages are like xx_YY']

CHUNKS = {1: b'one' * 40, 2: b'\x00\xff2', 3: b'', 4: b'4' * 5000, 5: b'unused'}
LAYOUTS = [
    {0xB1: [1, 2, 3, 4, 5]},
    {0xB1: [1, 2], 0xB2: [3, 4], 0xB3: [5]},
    {0xFFFFFFFFFFFFFFFF: [4, 1], 0xB2: [2], 0x1: [5, 3]},
    {0xB4: [1], 0xB3: [2], 0xB2: [3], 0xB1: [4], 0xB0: [5]},
]
LISTS = [[], [1], [2], [1, 2], [2, 1], [1, 1], [3], [4, 3, 2], [1, 2, 4]]
FLAGS = [None, ['fr_FR'], ['en_US'], ['windows'], ['en_US', 'fr_FR'], ['windows', 'en_US'], ['macos', 'windows'], ['zh_CN', 'de_DE', 'fr_FR']]
PATHS = ['a.txt', 'D/b.TXT', 'D/e/c d.wad.client', 'Plugins/x/y/z.json', 'é/ü.bin']
LANGS = [True, False, 'en_US', 'FR_fr', 'xx_XX', ['en_US'], ['fr_FR', 'en_us'], ['fr_FR', 'xx_XX'], [], ('en_US', 'fr_FR')]
TS = 1600000000


def is_locale(flag):
    return '_' in flag and len(flag) == 5


def selected(files, langs):
    """Files of a selection, from the documentation of PatchElement"""
    def wanted(flags):
        if langs is True:
            return True
        if langs is False:
            return not any(is_locale(f) for f in flags or ())
        names = {lang.lower() for lang in ([langs] if isinstance(langs, str) else langs)}
        return any(f.lower() in names for f in flags or ())
    return [f for f in files if wanted(f[2]) and not f[3]]


def one_case(ctx, cdn, files, url, langs, former, symlinks, tmp):
    path = f"{tmp}/cdn"
    shutil.rmtree(path, ignore_errors=True)
    net.log.clear()
    world.write_release(path, TS, game=0xA1)
    storage = PatcherStorage(path)
    storage.use_extract_symlinks = symlinks
    base = f"{path}/cdtb/releases/live/{TS}/files"

    def element():
        return PatcherPatchElement(PatcherRelease(storage, TS).element('game'))

    os.makedirs(f"{path}/cdtb/releases/live/{TS}", exist_ok=True)
    with open(f"{path}/cdtb/releases/live/{TS}/patch_version.game", 'w') as f:
        f.write('9.1\n')
    have = {}
    bundles = set()
    for sel in ([former] if former is not None else []) + [langs]:
        net.log.clear()
        elem = element()
        elem.download(langs=sel)
        want = selected(files, sel)
        need = {cdn.owner[c] for p, cs, _, _ in want if p not in have for c in cs}
        have.update((p, cdn.data(cs)) for p, cs, _, _ in want)
        requests = [u for u in net.gets() if '/bundles/' in u]
        ctx.equal(len(requests), len(set(requests)), f"bundles requested several times: {requests}")
        ctx.check(set(requests) <= {world.bundle_url(b) for b in need - bundles}, f"requests {requests}: needed bundles are {sorted(need - bundles)}")
        bundles |= need
        others = [u for u in net.gets() if '/bundles/' not in u]
        ctx.check(set(others) <= {world.manifest_url(0xA1)} and len(others) <= 1, f"other requests: {others}")
        ctx.equal(fsx.view(base) if os.path.isdir(base) else {}, have, 'extracted files')
        expected = sorted((f"{base}/{p}", p.lower()) for p, *_ in want)
        ctx.equal(sorted((os.path.normpath(a), b) for a, b in elem.paths(langs=sel)), expected, 'listed paths')
        pairs = list(elem.paths(langs=sel))
        ctx.equal(list(elem.fspaths(langs=sel)), [a for a, _ in pairs], 'paths on disk')
        ctx.equal(list(elem.relpaths(langs=sel)), [b for _, b in pairs], 'relative paths')
        ctx.outcome((len(want), len(requests)))
    if have:
        ctx.nontrivial((files, str(langs), str(former), symlinks, sorted(map(str, cdn.bundles.items()))))


def manifests(unit, tier):
    kind, sub = unit['kind'], unit['sub']
    if kind == 1:
        for cs, flags, path, link in itertools.product(LISTS, FLAGS, PATHS, (None, 'target.txt')):
            if LISTS.index(cs) % 4 == sub:
                yield [(path, cs, flags, link)]
    elif kind == 2:
        alpha = list(itertools.product(LISTS, FLAGS) if tier == 'thorough' else itertools.product(LISTS[3:8], [FLAGS[0], FLAGS[1], FLAGS[3], FLAGS[4]]))
        for i, (x, y) in enumerate(itertools.product(alpha, repeat=2)):
            if i % 16 == sub:
                yield [('D/a', x[0], x[1], None), ('D/B/c.txt', y[0], y[1], None), ('D/link', [2], None, 'a')]
    else:
        lists, flags = (LISTS[2:5], FLAGS[:3]) if tier == 'quick' else (LISTS[:6], FLAGS[:4])
        alpha = list(itertools.product(lists, flags))
        for i, t in enumerate(itertools.product(alpha, repeat=3)):
            if i % 16 == sub:
                yield [(p, cs, fl, None) for p, (cs, fl) in zip((('a', 'd/b', 'd/e/f'), ('D/a', 'd/A', 'D/A'))[i // 16 % 2], t)]


def run(unit, ctx):
    fsx.install()
    if unit['kind'] == 'urls':
        return run_urls(ctx)
    if unit['kind'] == 'large':
        return run_large(ctx)
    with ctx.tmp() as tmp:
        for n, files in enumerate(manifests(unit, ctx.tier)):
            world.reset_net()
            cdn = CDN(CHUNKS, LAYOUTS[(n + unit.get('layout', 0)) % len(LAYOUTS)])
            url = cdn.manifest(0xA1, files)
            cdn.publish()
            if unit['kind'] == 1:
                combos = [(langs, former, symlinks) for langs in LANGS for former in (None,) for symlinks in ((True, False) if ctx.tier == 'thorough' else (bool((n + LANGS.index(langs)) % 2),))]
            else:
                # selections, formers and layouts are all met for each manifest of the rotation
                k = n // 16
                combos = [(LANGS[(k + i) % len(LANGS)], f, bool((k + i + j) % 2)) for i in (0, 3, 7) for j, f in enumerate((None, LANGS[(k + 2 * i + 1) % len(LANGS)]))] if unit['kind'] == 3 or ctx.tier == 'quick' else [(a, b, (k + i) % 2 == 0) for i, (a, b) in enumerate(itertools.product(LANGS, (None, False, 'en_US')))]
            for langs, former, symlinks in combos:
                with ctx.case(lambda: {'files (path, chunks, flags, link)': files, 'bundles': cdn.bundles, 'langs': langs, 'former download': former, 'extract symlinks': symlinks}):
                    one_case(ctx, cdn, files, url, langs, former, symlinks, tmp)


def run_urls(ctx):
    """Manifest URLs: location of manifests, refused URLs"""
    base = 'lol.dyn.riotcdn.net/channels/public/releases/'
    good = {f"https://{base}00000000000000A1.manifest": 'channels/public/releases/00000000000000A1.manifest',
            f"https://{base.replace('dyn', 'secure.dyn')}00000000000000A1.manifest": 'channels/public/releases/00000000000000A1.manifest',
            f"https://{base}FEDCBA9876543210.manifest": 'channels/public/releases/FEDCBA9876543210.manifest',
            0xA1: 'channels/public/releases/00000000000000A1.manifest'}
    bad = [f"http://{base}00000000000000A1.manifest", 'https://lol.dyn.riotcdn.com/channels/public/releases/00000000000000A1.manifest',
           f"https://{base}0000000000000A1.manifest", f"https://{base}00000000000000A1.manifest.bak", f"https://{base}../00000000000000A1.manifest",
           'https://lol.dyn.riotcdn.net/channels/public/bundles/00000000000000A1.bundle', f"https://{base}00000000000000a1.manifest", '']
    with ctx.tmp() as tmp:
        for i, (url, path) in enumerate(good.items()):
            for again in (False, True):
                with ctx.case({'manifest URL': url, 'again': again}):
                    world.reset_net()
                    net.routes[f"https://lol.dyn.riotcdn.net/{path}"] = b'content'
                    storage = PatcherStorage(f"{tmp}/g{i}")
                    ctx.equal(storage.download_manifest(url), path, 'path of the manifest')
                    with open(storage.fspath(path), 'rb') as f:
                        ctx.equal(f.read(), b'content', 'content')
                    ctx.equal(len(net.log), 0 if again else 1, 'requests')
                    ctx.nontrivial((url, again))
        for url in bad:
            with ctx.case({'refused manifest URL': url}):
                world.reset_net()
                storage = PatcherStorage(f"{tmp}/b")
                try:
                    storage.download_manifest(url)
                except ValueError:
                    pass
                else:
                    ctx.fail('not refused')
                ctx.equal((net.log, os.path.exists(f"{tmp}/b")), ([], False), 'requests and files')
                ctx.nontrivial(url)


def run_large(ctx):
    """Many files, chunks and bundles, large chunks"""
    big = bytes(range(251)) * 10001
    chunks = {i: b'%d,' % i * (i % 4) for i in range(1, 1201)}
    mixed = {**CHUNKS, 6: big, 7: big[::-1], 8: b'\0' * 9000001}
    cases = [
        ('a file of many chunks of a bundle', chunks, {0xB1: list(chunks)}, [('D/a', list(chunks), None, None), ('D/b', list(chunks)[::-1], ['fr_FR'], None)]),
        ('a file of many bundles', chunks, {0x1000 + i: [i, i + 300, i + 600, i + 900] for i in range(1, 301)}, [('D/a', list(chunks), None, None), ('b', list(chunks)[5::7], ['fr_FR'], None)]),
        ('a file with the same chunk many times', chunks, {0xB1: [1, 2, 3], 0xB2: [4, 5]}, [('a', [1, 5, 2] * 400, None, None), ('b', [3, 2] * 300, ['fr_FR'], None)]),
        ('many files', chunks, {0xB1: list(chunks)[:600], 0xB2: list(chunks)[600:]}, [(f"d{i % 300}/e{i}/f{i}.txt", [i, 1201 - i], ['fr_FR'] if i % 3 else None, None) for i in range(1, 701)]),
        ('large chunks', mixed, {0xB1: [1, 6, 2], 0xB2: [7, 4, 8]}, [('a', [6, 7, 8, 1], None, None), ('b', [2, 8, 6], ['fr_FR'], None)]),
    ]
    with ctx.tmp() as tmp:
        for name, data, bundles, files in cases:
            for langs, former, symlinks in ((True, None, True), (False, None, False), ('fr_FR', None, True), (True, False, False)):
                world.reset_net()
                cdn = CDN(data, bundles)
                url = cdn.manifest(0xA1, files)
                cdn.publish()
                with ctx.case({'release': name, 'langs': langs, 'former download': former, 'extract symlinks': symlinks}):
                    one_case(ctx, cdn, files, url, langs, former, symlinks, tmp)


def units(tier):
    u = [{'kind': 'urls'}, {'kind': 'large'}]
    u += [{'kind': 1, 'sub': s, 'layout': n} for s in range(4) for n in range(len(LAYOUTS) if tier == 'thorough' else 1)]
    u += [{'kind': k, 'sub': s} for k in (2, 3) for s in range(16)]
    return u
