"""RADS objects: component texts, listings, orders, downloads of several versions"""
import itertools
import os
import shutil

from .. import fsx, world
from ..http import net
from ..world import RadsCDN
from cdtb.rads import RadsStorage, RadsProject, RadsProjectVersion, RadsSolution, RadsSolutionVersion, RadsVersion, parse_rads_component
from cdtb.storage import Patch, PatchVersion

ID = 'C33'
LEVEL = 'exploration'
RULE = 'distinct (component text, published versions), sets of stored directories, sets of objects, downloads; non-trivial when something is designated'
BOUNDS = {'quick': 'component texts: 3 prefixes x 6 names x 12 versions x 6 listings; 40 malformed ones; all subsets of 6 stored directories of projects and solutions; orders of all triples of 27 objects (3 names x 3 versions x 3 kinds); downloads of all subsets of 3 versions x 4 file tables x language selections, once and repeated, and of patches with their two solutions',
          'thorough': 'as quick with 4 names and 4 versions in orders'}
ASSUMPTIONS = ['versions of a project are published from the latest (those of a solution in any order)', 'a component text without type which names a solution ends in _sln']

NAMES = ['league_client', 'abc', 'league_client_sln', 'lol_game_client_sln', 'x_sln', 'patch2', 'a_sln_b']
# the version parts do not compare like texts
VERSIONS = ['0.0.1.2', '0.0.0.255', '0.0.0.10', '0.0.0.9']


def designated(typ, name, version, listings):
    """(class, name, version) expected, None when refused, 'error' when the version cannot exist"""
    kind = {'p:': 'p', 's:': 's'}.get(typ) or ('s' if name.endswith('_sln') else 'p')
    cls = {'p': (RadsProject, RadsProjectVersion), 's': (RadsSolution, RadsSolutionVersion)}[kind]
    if version is None:
        return cls[0], name, None
    if version == '':
        listing = listings.get((kind, name))
        if not listing:
            return None
        return cls[1], name, max(listing, key=lambda v: [int(x) for x in v.split('.')])
    if len(version.split('.')) != 4 or version == 'main':
        return None
    return cls[1], name, version


def describe(x):
    if isinstance(x, (RadsProject, RadsSolution)):
        return type(x), x.name, None
    parent = x.project if isinstance(x, RadsProjectVersion) else x.solution
    return type(x), parent.name, str(x.version)


def publish(listings):
    world.reset_net()
    for (kind, name), versions in listings.items():
        net.routes[f"{world.RADS_BASE}{'projects' if kind == 'p' else 'solutions'}/{name}/releases/releaselisting"] = ''.join(f"{v}\r\n" for v in versions).encode()


def run_components(unit, ctx):
    every = [{}, *({k: v} for k, v in [(('p', 'abc'), VERSIONS), (('s', 'x_sln'), VERSIONS[::-1])])]
    every.append({('p', n): VERSIONS[i % 3:] for i, n in enumerate(NAMES)} | {('s', n): VERSIONS[::-1][i % 2:] for i, n in enumerate(NAMES)})
    every.append({('p', n): VERSIONS[-1:] for n in NAMES} | {('s', n): VERSIONS[:1] for n in NAMES})
    every.append({('s', n): [VERSIONS[1], VERSIONS[0], VERSIONS[3], VERSIONS[2]] for n in NAMES})
    with ctx.tmp() as tmp:
        storage = RadsStorage(f"{tmp}/rads")
        for n, listings in enumerate(every):
            for typ, name, version in itertools.product(('', 'p:', 's:'), NAMES, (None, '', *VERSIONS, '9.9.9.9', '0.0.0.0', '7.1', 'main', '1', '0.0.0.1.2')):
                text = f"{typ}{name}" + ('' if version is None else f"={version}")
                with ctx.case({'component': text, 'listings': n}):
                    publish(listings)
                    want = designated(typ, name, version, listings)
                    try:
                        got = parse_rads_component(storage, text)
                    except Exception as e:
                        ctx.check(want is None, f"{type(e).__name__}: {e}")
                        continue
                    ctx.check(want is not None, lambda: f"accepted: {got}")
                    ctx.equal(describe(got), want, 'designated object')
                    base = f"{'projects' if want[0] in (RadsProject, RadsProjectVersion) else 'solutions'}/{name}/releases"
                    ctx.equal(got.path, base if want[2] is None else f"{base}/{want[2]}", 'path')
                    ctx.equal(len(net.gets()), 1 if version == '' else 0, 'requests')
                    ctx.nontrivial((text, n))
                    ctx.outcome(want[0].__name__)
        for text in ('', '=', ':', 'p:', 's:=', 'p:=0.0.0.1', 'x:abc', 'P:abc', 'abc=x', 'abc=0.0.0.', 'abc=.0.0.0.1', 'abc=0..0.1', 'abc==', 'abc= 0.0.0.1', ' abc', 'abc ', 'a-b', 'a.b', 'a/b', '../abc', 'p:s:abc', 'abc=0.0.0.1=', 'abc=0.0.0.1 ', 'abc=0,0,0,1', 'abc=-1',
                     'abc=Main', 'patch', 'p', 'patch=x', 'patch=1.', 'patch=.', 's:abc=0.0.0.x', 'abc=main.1', 'abc\n=0.0.0.1', 'abc=0.0.0.1;'):
            with ctx.case({'malformed component': text}):
                publish(every[3])
                if text == 'p':
                    ctx.equal(describe(parse_rads_component(storage, text)), (RadsProject, 'p', None), 'project')
                    continue
                try:
                    got = parse_rads_component(storage, text)
                except Exception:
                    ctx.nontrivial(text)
                else:
                    ctx.fail(f"accepted: {got}")


def run_patches(unit, ctx):
    """patch=VERSION: elements of both solutions whose patch version is stored"""
    slns = ['league_client_sln', 'lol_game_client_sln']
    vers = VERSIONS[:3]
    choices = [None, '7.9', '7.10']
    k = 0
    for assigned in itertools.product(choices, repeat=6):
        # in a solution, later versions have later patches
        per = {s: dict(zip(vers, assigned[3 * i:3 * i + 3])) for i, s in enumerate(slns)}
        if any([choices.index(v) for v in p.values() if v] != sorted([choices.index(v) for v in p.values() if v], reverse=True) for p in per.values()):
            continue
        k += 1
        with ctx.tmp() as tmp:
            path = f"{tmp}/rads"
            for s, p in per.items():
                for v, patch in p.items():
                    os.makedirs(f"{path}/solutions/{s}/releases/{v}")
                    with open(f"{path}/solutions/{s}/releases/{v}/_patch_version", 'w') as f:
                        f.write(f"{patch or ''}\n")
            for text, version in (('patch=', 'latest'), ('patch=7.9', '7.9'), ('patch=7.10', '7.10'), ('patch=7.1', '7.1'), ('patch=7.9.1', '7.9.1'), ('patch=7', None), ('patch', 'refused')):
                with ctx.case({'patch versions': per, 'component': text}):
                    publish({('s', s): vers[::-1 if k % 2 else 1] for s in slns})
                    elements = {}
                    for s, p in per.items():
                        for v in vers:
                            if p[v]:
                                elements.setdefault(p[v], {}).setdefault(s, v)
                    want = max(elements, key=PatchVersion, default=None) if version == 'latest' else version
                    storage = RadsStorage(path)
                    try:
                        got = parse_rads_component(storage, text)
                    except Exception as e:
                        ctx.check(version in (None, 'refused'), f"{type(e).__name__}: {e}")
                        continue
                    ctx.check(version != 'refused', 'a patch without version is accepted')
                    if want is None or want not in elements:
                        ctx.equal(got, None, 'patch')
                        continue
                    ctx.check(isinstance(got, Patch), 'not a patch')
                    ctx.equal(str(got.version), want, 'version of the patch')
                    ctx.equal({e.solution_version.solution.name: str(e.solution_version.version) for e in got.elements}, elements[want], 'elements of the patch')
                    ctx.equal(len(got.elements), len(elements[want]), 'number of elements')
                    ctx.nontrivial((sorted(map(repr, per.items())), text))
                    ctx.outcome((want, len(elements[want])))


def run_listing(unit, ctx):
    """Projects and solutions in storage are those with a directory of releases"""
    entries = [('abc', 'd'), ('b.c', 'd'), ('empty', 'e'), ('file', 'f'), ('zz_sln', 'd'), ('releases', 'r')]
    with ctx.tmp() as tmp:
        for sub in world.subsets(entries):
            for kind in ('projects', 'solutions'):
                with ctx.case({'stored': sub, 'kind': kind}):
                    path = f"{tmp}/rads"
                    shutil.rmtree(path, ignore_errors=True)
                    os.makedirs(f"{path}/{kind}")
                    for name, t in sub:
                        if t == 'f':
                            with open(f"{path}/{kind}/{name}", 'w') as f:
                                f.write('releases')
                            continue
                        os.makedirs(f"{path}/{kind}/{name}" + ('/releases' if t != 'e' else '/other'))
                    storage = RadsStorage(path)
                    got = storage.list_projects() if kind == 'projects' else storage.list_solutions()
                    ctx.equal(sorted(x.name for x in got), sorted(n for n, t in sub if t in 'dr'), f"{kind} of the storage")
                    ctx.equal({type(x) for x in got}, {RadsProject if kind == 'projects' else RadsSolution} if got else set(), 'kind of objects')
                    ctx.check(all(x.storage is storage and x.path == f"{kind}/{x.name}/releases" for x in got), 'storage or path of objects')
                    ctx.nontrivial((sub, kind))
        for names in itertools.product((None, 'd', 'f'), repeat=len(VERSIONS)):
            with ctx.case({'stored versions': names}):
                path = f"{tmp}/rads"
                shutil.rmtree(path, ignore_errors=True)
                storage = RadsStorage(path)
                sln = RadsSolution(storage, 'abc_sln')
                world.reset_net()
                ctx.equal(sln.versions(stored=True), [], 'versions in an empty storage')
                for v, t in zip(VERSIONS, names):
                    if t:
                        os.makedirs(f"{path}/solutions/abc_sln/releases", exist_ok=True)
                        os.makedirs(f"{path}/solutions/abc_sln/releases/{v}") if t == 'd' else open(f"{path}/solutions/abc_sln/releases/{v}", 'w').close()
                ctx.equal([str(v.version) for v in sln.versions(stored=True)], [v for v, t in zip(VERSIONS, names) if t == 'd'], 'stored versions')
                ctx.equal(net.log, [], 'requests')
                ctx.nontrivial(names)
        for perm in itertools.chain.from_iterable(itertools.permutations(VERSIONS, n) for n in range(5)):
            with ctx.case({'published versions': perm}):
                publish({('s', 'abc_sln'): perm, ('p', 'abc'): perm})
                storage = RadsStorage(f"{tmp}/rads2")
                got = RadsSolution(storage, 'abc_sln').versions()
                ctx.equal([str(v.version) for v in got], [v for v in VERSIONS if v in perm], 'versions of the solution')
                got = RadsProject(storage, 'abc').versions()
                ctx.equal(sorted(str(v.version) for v in got), sorted(perm), 'versions of the project')
                ctx.check(not os.path.exists(f"{tmp}/rads2"), 'listings are stored')
                ctx.nontrivial(perm)


def run_orders(unit, ctx):
    deep = ctx.tier == 'thorough'
    names = ['abc', 'ab', 'b_sln', 'B'][:4 if deep else 3]
    versions = (VERSIONS if deep else VERSIONS[:3])
    storages = [RadsStorage('/nonexistent/a'), RadsStorage('/nonexistent/a')]
    P = lambda n, s=0: RadsProject(storages[s], n)
    S = lambda n, s=0: RadsSolution(storages[s], n)
    makers = {
        'project': [((n,), lambda n=n: P(n)) for n in names],
        'solution': [((n,), lambda n=n: S(n)) for n in names],
        'project version': [((n, v), lambda n=n, v=v: RadsProjectVersion(P(n), RadsVersion(v))) for n in names for v in versions],
        'solution version': [((n, v), lambda n=n, v=v: RadsSolutionVersion(S(n), RadsVersion(v))) for n in names for v in versions],
    }

    def key(k):
        return (k[0],) + tuple(-int(x) for v in k[1:] for x in v.split('.'))
    for kind, items in makers.items():
        for (ka, fa), (kb, fb) in itertools.product(items, repeat=2):
            with ctx.case({'kind': kind, 'pair': (ka, kb)}):
                a, b = fa(), fb()
                ctx.equal(a == b, ka == kb, 'equality')
                ctx.equal(a != b, ka != kb, 'difference')
                if ka == kb:
                    ctx.equal(hash(a), hash(b), 'hash')
                ctx.equal(a < b, key(ka) < key(kb), 'lower')
                ctx.equal(a > b, key(ka) > key(kb), 'greater')
                ctx.equal(len({a, b}), len({ka, kb}), 'elements of a set')
                ctx.nontrivial((kind, ka, kb))
        for triple in itertools.permutations(items, 3):
            with ctx.case({'kind': kind, 'sorted': [k for k, _ in triple]}):
                got = sorted(f() for _, f in triple)
                want = [f() for _, f in sorted(triple, key=lambda t: key(t[0]))]
                ctx.equal(got, want, 'sorted objects')
                ctx.equal(min(f() for _, f in triple), want[0], 'first object')
    for ka, kb in itertools.permutations(makers, 2):
        for (na, fa), (nb, fb) in itertools.product(makers[ka], makers[kb]):
            with ctx.case({'kinds': (ka, kb), 'pair': (na, nb)}):
                ctx.check(fa() != fb() and not fa() == fb(), 'objects of different kinds are equal')
                ctx.check(fa() != na and fa() != str(fa()) and fa() is not None, 'equal to a text')
                try:
                    fa() < fb()
                except TypeError:
                    pass
                else:
                    ctx.fail('objects of different kinds are ordered')


TABLES = [
    [('system.yaml', b'a: %s', False), ('Data/x.bin', b'x %s', True)],
    [('Data/x.bin', b'x %s', False)],
    [],
    [('a.txt', b'', False), ('b/c d.txt', b'%s' * 50, True), ('b/e', b'e', False)],
]


def files_of(table, tag):
    return [(rel, data.replace(b'%s', tag.encode()), comp) for rel, data, comp in TABLES[table]]


def tree(path):
    out = {}
    for base in ('projects', 'solutions'):
        if os.path.isdir(f"{path}/{base}"):
            out |= {f"{base}/{k}": x[1] for k, x in fsx.snapshot(f"{path}/{base}").items() if x[0] == 'f' and '/files/' in k}
    return out


def run_downloads(unit, ctx):
    vers = VERSIONS[:3]
    for tables in itertools.product((None, 0, 1, 2, 3), repeat=3):
        published = [v for v, t in zip(vers, tables) if t is not None]
        projects = {('abc', v): files_of(t, v) for v, t in zip(vers, tables) if t is not None}
        with ctx.case({'project': tables}), ctx.tmp() as tmp:
            publish({('p', 'abc'): published})
            RadsCDN({}, projects).publish()
            path = f"{tmp}/rads"
            want = {f"projects/abc/releases/{v}/files/{rel}": data for (_, v), fs in projects.items() for rel, data, _ in fs}
            for again in (False, True):
                net.log.clear()
                RadsProject(RadsStorage(path), 'abc').download()
                ctx.equal(tree(path), want, 'downloaded files')
                got = sorted(u for u in net.gets() if '/BIN_' in u)
                ctx.equal(got, [] if again else sorted(f"{world.RADS_BASE}projects/abc/releases/{v}/packages/files/BIN_0x00000000" for (_, v), fs in projects.items() if fs), 'packages requested')
            ctx.nontrivial(('project', tables))
        # one version through its component text
        for v in published:
            with ctx.case({'project': tables, 'version': v}), ctx.tmp() as tmp:
                publish({('p', 'abc'): published})
                RadsCDN({}, projects).publish()
                for text in (f"p:abc={v}",) + (('abc=',) if v == published[0] else ()):
                    path = f"{tmp}/{len(text)}"
                    parse_rads_component(RadsStorage(path), text).download()
                    ctx.equal(tree(path), {f"projects/abc/releases/{v}/files/{rel}": data for rel, data, _ in projects['abc', v]}, 'downloaded files')
                    ctx.nontrivial(('version', tables, text))


def run_solutions(unit, ctx):
    """Solutions of two versions with shared and language projects, and patches of two solutions"""
    langs = [True, False, 'fr_fr', ['fr_fr', 'en_us']]
    for tables in [unit['tables']]:
        for shared, common in itertools.product((False, True), repeat=2):
            for sel in langs:
                for what in ('solution', 'versions', 'patch', 'latest patch'):
                    with ctx.case({'tables': tables, 'project version shared': shared, 'languages in common': common, 'langs': sel, 'downloaded': what}), ctx.tmp() as tmp:
                        path = f"{tmp}/rads"
                        slns, projects, want = {}, {}, {}
                        for s, (sln, main) in enumerate((('league_client_sln', 'league_client'), ('lol_game_client_sln', 'lol_game_client'))):
                            slns[sln] = []
                            for i, v in enumerate(('0.0.1.0', '0.0.0.99')):
                                pv = '0.0.0.5' if shared else f"0.0.0.{5 + i}"
                                projects[main, pv] = files_of(tables[s], f"{main}{pv}")
                                for l in ('fr_fr', 'en_us'):
                                    projects[f"{main}_{l}", v] = files_of((tables[s] + 1) % 4, f"{l}{v}")
                                slns[sln].append((v, [(main, pv, True), (f"{main}_fr_fr", v, False), (f"{main}_en_us", v, False)],
                                                  [('fr_fr', [main, f"{main}_fr_fr"] if common else [f"{main}_fr_fr"]), ('en_us', [f"{main}_en_us"])]))
                                os.makedirs(f"{path}/solutions/{sln}/releases/{v}")
                                with open(f"{path}/solutions/{sln}/releases/{v}/_patch_version", 'w') as f:
                                    f.write(f"{('7.10', '7.9')[i]}\n")
                                chosen = {'solution': s == 0, 'versions': s == 1, 'patch': i == 1, 'latest patch': i == 0}[what]
                                codes = {True: ['fr_fr', 'en_us'], False: []}.get(sel if isinstance(sel, bool) else None, [sel] if isinstance(sel, str) else sel)
                                if chosen:
                                    for p, ver in ([(main, pv)] if isinstance(sel, bool) or common else []) + [(f"{main}_{l}", v) for l in codes]:
                                        want |= {f"projects/{p}/releases/{ver}/files/{rel}": (p, ver, rel) for rel, _, _ in projects[p, ver]}
                        world.reset_net()
                        RadsCDN(slns, projects).publish()
                        want = {k: dict((r, d) for r, d, _ in projects[p, ver])[rel] for k, (p, ver, rel) in want.items()}
                        for again in (False, True):
                            storage = RadsStorage(path)
                            net.log.clear()
                            if what == 'solution':
                                RadsSolution(storage, 'league_client_sln').download(sel)
                            elif what == 'versions':
                                for v in parse_rads_component(storage, 'lol_game_client_sln').versions():
                                    v.download(sel)
                            else:
                                storage.patch('7.9' if what == 'patch' else None).download(langs=sel)
                            got = tree(path)
                            ctx.equal(got, want, 'downloaded files')
                            if again:
                                ctx.equal([u for u in net.gets() if '/BIN_' in u], [], 'packages requested again')
                        ctx.nontrivial((tables, shared, common, repr(sel), what))


def units(tier):
    return [{'kind': k} for k in ('components', 'patches', 'listing', 'orders', 'downloads')] + [{'kind': 'solutions', 'tables': t} for t in itertools.product((0, 1, 3), repeat=2)]


def run(unit, ctx):
    fsx.install()
    globals()[f"run_{unit['kind']}"](unit, ctx)
