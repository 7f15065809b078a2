"""Lists of patches of patcher and RADS storages, lookups"""
import itertools
import os
import shutil
import zlib

from .. import enc, fsx, world
from ..http import net
from ..world import CDN, RadsCDN
from cdtb.patcher import PatcherStorage
from cdtb.rads import RadsStorage
from cdtb.storage import PatchVersion

ID = 'C07'
LEVEL = 'exploration'
RULE = 'distinct (storage type, history of versions) combinations; non-trivial with at least two patches'
BOUNDS = {'quick': 'patcher: all histories of up to 4 releases whose (game, client) versions never decrease over 3 patches, all histories of up to 2 releases with missing elements and of 3 releases with one missing, beta; RADS: all pairs of non-decreasing histories of up to 3 solution versions over 3 patches, one version of one of them possibly unknown, game versions from executables or from the cache; 20 forms of version files; all lookups; stored or not',
          'thorough': 'up to 5 releases (3 with missing elements, 4 with up to two missing) and 4 patches; RADS: up to 4 solution versions'}
ASSUMPTIONS = ['versions of successive releases of an element never decrease (documented)']

VERSIONS = ['8.9', '8.10', '9.1', '10.24']
UNKNOWN = ['8.1', '9.10', '11.0', '8']


def lookups(ctx, storage, expected, ident, stored):
    """expected: [(version, {name: identity})] from the latest"""
    if not stored and expected:
        # the first access, which finds what is published: each kind of access in turn
        k, (v, d) = zlib.crc32(repr(expected).encode()) % 5, expected[-1]
        if k == 0:
            p = storage.patch(v)
            ctx.equal(p and (str(p.version), sorted(e.name for e in p.elements)), (v, sorted(d)), 'first access: oldest patch')
        elif k in (1, 2):
            v, d = expected[0]
            p = storage.patch(v) if k == 1 else storage.patch()
            ctx.equal(p and (str(p.version), sorted(e.name for e in p.elements)), (v, sorted(d)), 'first access: latest patch')
        elif k == 3:
            name = sorted(d)[0]
            e = storage.patch_element(name, v)
            ctx.equal(e and (e.name, str(e.version)), (name, v), 'first access: oldest element')
    got, listed = [], []
    for p in storage.patches(stored=stored):
        names = [e.name for e in p.elements]
        ctx.equal(len(names), len(set(names)), f"elements of {p.version}: {names}")
        ctx.check(all(e.version == p.version for e in p.elements), f"version of elements of {p.version}: {p.elements}")
        got.append((str(p.version), {e.name: ident(e) for e in p.elements}))
        listed.append(p)
    ctx.equal(got, expected, 'patches')
    # patches are ordered from the latest, as listed
    ctx.equal(sorted(reversed(listed)), listed, 'sorted patches')
    for p in listed:
        ctx.equal([q == p for q in listed], [q is p for q in listed], f"equality with {p}")
    d = dict(expected)
    for v in [x for x, _ in expected] + UNKNOWN:
        for version in ((v, PatchVersion(v)) if v in d else (v,)):
            p = storage.patch(version, stored=stored)
            ctx.equal(None if p is None else (str(p.version), {e.name: ident(e) for e in p.elements}), (v, d[v]) if v in d else None, f"patch {version!r}")
            for name in ('game', 'client'):
                e = storage.patch_element(name, version, stored=stored)
                ctx.equal(None if e is None else (e.name, str(e.version), ident(e)), (name, v, d[v][name]) if name in d.get(v, ()) else None, f"element {name} {version!r}")
    p = storage.patch(stored=stored)
    ctx.equal(None if p is None else str(p.version), expected[0][0] if expected else None, 'latest patch')
    if p is not None:
        ctx.equal({e.name: ident(e) for e in p.latest().elements}, expected[0][1], 'latest elements of the latest patch')
    for name in ('game', 'client'):
        e = storage.patch_element(name, stored=stored)
        want = next(((v, x[name]) for v, x in expected if name in x), None)
        ctx.equal(None if e is None else (str(e.version), ident(e)), want, f"latest element {name}")


def model(history, order):
    """history: [{name: version or None}] from the oldest; identities are indices"""
    table = {}
    for i, release in enumerate(history):
        for name, v in release.items():
            if v is not None:
                table.setdefault(v, {})[name] = i
    return [(v, table[v]) for v in reversed(order) if v in table]


# ---------------------------------------------------------------- patcher

def patcher_cdn(versions):
    chunks = {}
    for i, v in enumerate(versions):
        chunks[0x10 + i] = world.content_metadata(v)
        chunks[0x20 + i] = world.system_yaml(v)
    cdn = CDN(chunks, {0xB000 + c: [c] for c in chunks})
    return cdn


def patcher_case(ctx, tmp, history, stored, pbe):
    path = f"{tmp}/cdn"
    shutil.rmtree(path, ignore_errors=True)
    world.reset_net()
    cdn = patcher_cdn(VERSIONS)
    line = 'pbe' if pbe else 'live'
    for i, release in enumerate(history):
        g, c = release.get('game'), release.get('client')
        kw = {}
        for name, v, base, fname, chunk in (('game', g, 0x100, 'content-metadata.json', 0x10), ('client', c, 0x200, 'system.yaml', 0x20)):
            if v is not None:
                cdn.manifest(base + i, [(fname, [chunk + VERSIONS.index(v)], None, None), ('other', [], None, None)])
                kw[name] = base + i
        last = i == len(history) - 1
        if stored or not last:
            world.write_release(path, 999 + i, patchline=line, **kw)
        if last and not stored:
            world.announce(kw['client'], kw['game'], line)
    cdn.publish()
    storage = PatcherStorage(path, line)
    expected = model([{k: 'main' if pbe and v else v for k, v in r.items()} for r in history], ['main'] if pbe else VERSIONS)
    times = {}

    def ident(e):
        ts = {int(p.split(f"/cdtb/releases/{line}/")[1].split('/')[0]) for p in e.fspaths()}
        ctx.equal(len(ts), 1, f"releases of {e}")
        if not times:
            times.update((t, i) for i, t in enumerate(sorted(int(x) for x in os.listdir(f"{path}/cdtb/releases/{line}") if x.isdigit())))
        return times[ts.pop()]

    lookups(ctx, storage, expected, ident, stored)
    # versions are remembered: no more file is needed
    net.log.clear()
    again = PatcherStorage(path, line)
    ctx.equal([str(p.version) for p in again.patches(stored=True)], [v for v, _ in expected], 'patches listed again')
    ctx.equal(net.log, [], 'requests when listing again')
    ctx.outcome(tuple((v, sorted(x.items())) for v, x in expected))
    if len(expected) > 1:
        ctx.nontrivial(('patcher', pbe, stored, [sorted(r.items()) for r in history]))


def monotone(values, n):
    return itertools.combinations_with_replacement(values, n)


def patcher_histories(unit, tier):
    versions = VERSIONS[:4 if tier == 'thorough' else 3]
    n = unit['n']
    for g in monotone(versions, n):
        for c in monotone(versions, n):
            yield [{'game': a, 'client': b} for a, b in zip(g, c)]
    if 0 < n <= (4 if tier == 'thorough' else 3):
        for g in monotone(versions, n):
            for c in monotone(versions, n):
                for mask in itertools.product(((1, 1), (1, 0), (0, 1), (0, 0)), repeat=n):
                    if any(m != (1, 1) for m in mask) and (n < 3 or tier == 'thorough' and n == 3 or sum(map(sum, mask)) >= 2 * n - (2 if tier == 'thorough' else 1)):
                        yield [{k: v for k, v, keep in (('game', a, m[0]), ('client', b, m[1])) if keep} for a, b, m in zip(g, c, mask)]


# ---------------------------------------------------------------- RADS

def rads_case(ctx, tmp, games, clients, stored, pbe, cached=True):
    """games, clients: versions from the oldest, None when unknown"""
    path = f"{tmp}/rads"
    shutil.rmtree(path, ignore_errors=True)
    world.reset_net()
    # order of the list of releases does not matter; solution versions have several digits
    numbers = ['0.0.0.9', '0.0.0.10', '0.0.1.2', '0.1.0.0']
    base = world.RADS_PBE if pbe else world.RADS_BASE
    solutions = {'league_client_sln': [], 'lol_game_client_sln': []}
    projects = {}
    for i, v in enumerate(clients):
        solutions['league_client_sln'].insert(i % 2, (numbers[i], [('league_client', f"0.0.0.{10 + i}", True), ('league_client_fr_fr', f"0.0.0.{10 + i}", False)], [('fr_fr', ['league_client_fr_fr'])]))
        projects['league_client', f"0.0.0.{10 + i}"] = None if v is None else [('system.yaml', world.system_yaml(v), True)]
        projects['league_client_fr_fr', f"0.0.0.{10 + i}"] = [('x', b'x', False)]
    for i, v in enumerate(games):
        solutions['lol_game_client_sln'].insert(0, (numbers[i], [('lol_game_client', f"0.0.0.{20 + i}", True)], []))
        projects['lol_game_client', f"0.0.0.{20 + i}"] = None if v is None else [('League of Legends.exe.txt', enc.exe('1.1.1.1'), False), ('Other League of Legends.exe', enc.exe('1.2.1.1'), True), ('League of Legends.exe', enc.exe(f"{v}.190.{i}", '1.3.1.1'), True), ('Old/LeagueofLegends.exe', enc.exe('1.4.1.1'), True)]
        if v is not None and cached:
            os.makedirs(f"{path}/solutions/lol_game_client_sln/releases/{numbers[i]}")
            with open(f"{path}/solutions/lol_game_client_sln/releases/{numbers[i]}/_patch_version", 'w') as f:
                f.write(f"{v}\n")
    RadsCDN(solutions, projects, base).publish()
    if stored:
        for name, seq in (('league_client_sln', clients), ('lol_game_client_sln', games)):
            for i in range(len(seq)):
                os.makedirs(f"{path}/solutions/{name}/releases/{numbers[i]}", exist_ok=True)
        for sln in solutions:
            net.routes.pop(f"{base}solutions/{sln}/releases/releaselisting")
    storage = RadsStorage(path, base)
    # the current directory may be another storage
    for project, number, names in (('league_client', 10, ('system.yaml',)), ('lol_game_client', 20, ('League of Legends.exe',))):
        for i in range(4):
            d = f"{tmp}/other/projects/{project}/releases/0.0.0.{number + i}/files"
            if not os.path.isdir(d):
                os.makedirs(d)
                for x in names:
                    with open(f"{d}/{x}", 'wb') as f:
                        f.write(world.system_yaml('1.7') if x == 'system.yaml' else enc.exe('1.7.190.1'))
    os.chdir(f"{tmp}/other")
    order = ['main'] if pbe else VERSIONS
    f = (lambda v: 'main') if pbe else (lambda v: v)
    expected = {}
    for name, seq in (('client', clients), ('game', games)):
        for i, v in enumerate(seq):
            if f(v) is not None:
                expected.setdefault(f(v), {})[name] = i
    expected = [(v, expected[v]) for v in reversed(order) if v in expected]

    def ident(e):
        return numbers.index(str(e.solution_version.version))
    lookups(ctx, storage, expected, ident, stored)
    ctx.outcome(('rads', tuple((v, sorted(x.items())) for v, x in expected)))
    if len(expected) > 1:
        ctx.nontrivial(('rads', games, clients, stored, pbe))


def rads_sequences(n, versions):
    for k in range(n + 1):
        for seq in monotone(versions, k):
            yield list(seq)
            # some of them unknown
            for i in range(k):
                yield [None if j == i else v for j, v in enumerate(seq)]


# ---------------------------------------------------------------- version files

SYSTEM_YAML = [
    ("game-branch: 'Release/{v}'\n", True), ('game-branch: "Release/{v}"\n', True), ('game-branch: Release/{v}\n', True), ("game-branch: '{v}'\n", True), ('game-branch: "{v}"\n', True),
    ('    branch: Release/{v}\n', True), ('branch: releases/{v}\n', True), ("x: y\n\n# c\nbranch: '{v}'\nz: t\n", True), ("game-branch: 'Release/{v}'", True), ("  game-branch: 'x/y/{v}'\nother: 1\n", True),
    ("other-branch: 'Release/1.1'\ngame-branch: 'Release/{v}'\n", True), ("game-branch: 'Release/{v}'\nbranch: 'Release/1.1'\n", True),
    ('nothing: here\n', False), ('', False),
]
METADATA = ['{"version": "{v}.123.4567+branch.releases.content.release"}', '{"a": [1], "version": "{v}.1", "z": null}', '\n {"version":"{v}.99999999.x"}']


def run_files(ctx, tmp):
    for v in VERSIONS + ['7.1', '9.24', '14.10']:
        for kind, forms in (('client', SYSTEM_YAML), ('game', [(m, True) for m in METADATA])):
            for text, ok in forms:
                with ctx.case({'version file': text, 'version': v}):
                    path = f"{tmp}/cdn"
                    shutil.rmtree(path, ignore_errors=True)
                    world.reset_net()
                    data = text.replace('{v}', v).encode()
                    cdn = CDN({1: data[:5], 2: data[5:]}, {0xB1: [1], 0xB2: [2]})
                    cdn.manifest(0xA1, [({'client': 'system.yaml', 'game': 'content-metadata.json'}[kind], [1, 2], None, None)])
                    cdn.publish()
                    world.write_release(path, 5, **{kind: 0xA1})
                    storage = PatcherStorage(path)
                    if ok:
                        for again in (False, True):
                            ctx.equal([(str(p.version), [e.name for e in p.elements]) for p in storage.patches(stored=True)], [(v, [kind])], 'patches')
                        storage = PatcherStorage(path)
                        storage.use_extract_symlinks = len(text) % 2
                        # what was stored is lost or damaged: retrieved again
                        files = [os.path.join(d, f) for d, _, fs in os.walk(path) for f in fs if f in ('system.yaml', 'content-metadata.json') or f.startswith('patch_version') or f.endswith('.bundle')]
                        for f in files:
                            os.unlink(f)
                            if f.endswith(('.yaml', '.json')):
                                with open(f, 'w') as out:
                                    out.write('x\n')
                        ctx.equal([(str(p.version), [e.name for e in p.elements]) for p in storage.patches(stored=True)], [(v, [kind])], 'patches after damage')
                        ctx.nontrivial((text, v))
                    else:
                        try:
                            got = list(storage.patches(stored=True))
                        except Exception:
                            pass
                        else:
                            ctx.check(not any(p.version for p in got), f"version from nothing: {got}")


def run_rads_errors(ctx, tmp):
    """Versions which cannot be known: not published anymore (404), or old without the file (documented); anything else is an error"""
    path, base = f"{tmp}/rads", world.RADS_BASE
    numbers = ['0.0.0.9', '0.0.0.10', '0.0.1.2']
    for projects in (['0.0.0.41', '0.0.0.42', '0.0.0.43'], ['0.0.0.42', '0.0.0.43', '0.0.0.44'], ['0.0.0.43', '0.0.0.100', '0.0.1.1']):
        for k in range(3):
            # requests of the k-th version which may fail
            for game, what in itertools.product((False, True), ('packagemanifest', 'BIN_0x00000000', 'solutionmanifest', 'releaselisting', 'no file')):
                sln, project, file = ('lol_game_client_sln', 'lol_game_client', 'League of Legends.exe') if game else ('league_client_sln', 'league_client', 'system.yaml')
                for fault in ((404, 403, 500, 503, 'connect', 'timeout') if what != 'no file' else (None,)):
                    with ctx.case({'project': project, 'versions': projects, 'failing': k, 'request': what, 'fault': fault}):
                        shutil.rmtree(path, ignore_errors=True)
                        world.reset_net()
                        solutions = {'league_client_sln': [], 'lol_game_client_sln': [], sln: [(numbers[i], [(project, projects[i], True)], []) for i in range(3)]}
                        files = [[('a/x', b'x', False), (file, enc.exe(f"{VERSIONS[i]}.5.6") if game else world.system_yaml(VERSIONS[i]), bool(i % 2))] for i in range(3)]
                        if what == 'no file':
                            files[k][1] = (f"a/{file}.txt", b'x', False)
                        RadsCDN(solutions, {(project, projects[i]): files[i] for i in range(3)}, base).publish()
                        failing = {'packagemanifest': f"{base}projects/{project}/releases/{projects[k]}/packages/files/packagemanifest",
                                   'BIN_0x00000000': f"{base}projects/{project}/releases/{projects[k]}/packages/files/BIN_0x00000000",
                                   'solutionmanifest': f"{base}solutions/{sln}/releases/{numbers[k]}/solutionmanifest",
                                   'releaselisting': f"{base}solutions/{sln}/releases/releaselisting"}.get(what)
                        hit = []

                        def inject(index, method, u, body):
                            if u == failing:
                                hit.append(u)
                                return ('status', fault) if isinstance(fault, int) else (fault,)
                        net.fault = inject
                        absent = what == 'packagemanifest' and fault == 404 or what == 'no file' and not game and [int(x) for x in projects[k].split('.')] <= [0, 0, 0, 43]
                        got, error = [], None
                        try:
                            for p in RadsStorage(path).patches():
                                got.append(str(p.version))
                        except Exception as e:
                            error = e
                        everything = [VERSIONS[i] for i in (2, 1, 0)]
                        if what != 'no file':
                            ctx.check(bool(hit), 'the failing file was not requested')
                        if absent:
                            ctx.check(error is None, lambda: f"unexpected error: {error!r}")
                            ctx.equal(got, [v for v in everything if v != VERSIONS[k]], 'patches')
                        else:
                            ctx.check(error is not None, lambda: f"no error: {got}")
                            ctx.equal(got, everything[:len(got)], 'patches before the error')
                        if what != 'no file':
                            net.fault = None
                            ctx.equal([str(p.version) for p in RadsStorage(path).patches()], everything, 'patches after the failure')
                        ctx.nontrivial((project, projects, k, what, fault))
                        ctx.outcome((project, what, fault, absent))


def run(unit, ctx):
    fsx.install()
    with ctx.tmp() as tmp:
        if unit['kind'] == 'rads errors':
            return run_rads_errors(ctx, tmp)
        if unit['kind'] == 'files':
            return run_files(ctx, tmp)
        if unit['kind'] == 'patcher':
            for n, history in enumerate(patcher_histories(unit, ctx.tier)):
                if n % unit['parts'] != unit['part']:
                    continue
                full = history and len(history[-1]) == 2
                for stored, pbe in ((True, False), (False, False), (True, True)):
                    if not stored and not full:
                        continue
                    if n % 3 and pbe:
                        continue
                    with ctx.case(lambda: {'releases': history, 'stored': stored, 'beta': pbe}):
                        patcher_case(ctx, tmp, history, stored, pbe)
        else:
            n, versions = (4, VERSIONS[:3]) if ctx.tier == 'thorough' else (3, VERSIONS[:3])
            for i, (games, clients) in enumerate(itertools.product(rads_sequences(n, versions), repeat=2)):
                if i % unit['parts'] != unit['part']:
                    continue
                if ctx.tier == 'quick' and None in games and None in clients:
                    continue
                stored, pbe = bool((i // unit['parts']) % 2), (i // unit['parts']) % 10 == 3
                with ctx.case(lambda: {'game solutions': games, 'client solutions': clients, 'stored': stored, 'beta': pbe}):
                    try:
                        rads_case(ctx, tmp, games, clients, stored, pbe, cached=bool(i // unit['parts'] % 2))
                    finally:
                        os.chdir('/')


def units(tier):
    u = [{'kind': 'files'}, {'kind': 'rads errors'}]
    for n in range(6 if tier == 'thorough' else 5):
        parts = [1, 1, 2, 8, 8, 16][n]
        u += [{'kind': 'patcher', 'n': n, 'parts': parts, 'part': k} for k in range(parts)]
    u += [{'kind': 'rads', 'parts': 16, 'part': k} for k in range(16)]
    return u
