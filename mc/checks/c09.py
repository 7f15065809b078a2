"""RADS solutions: projects and files of each language selection"""
import itertools
import os
import shutil

from .. import fsx, world
from ..http import net
from ..world import RadsCDN, solution_manifest
from cdtb.data import Language
from cdtb.rads import RadsStorage, RadsSolution, RadsSolutionVersion, RadsVersion, RadsPatchElement

ID = 'C09'
LEVEL = 'exploration'
RULE = 'distinct (solution manifest, language selection) combinations; non-trivial when a project is selected'
BOUNDS = {'quick': 'all manifests of 0 to 3 projects (each required or not) and up to 2 languages with every subset of the projects, and up to 3 languages with 2 projects; 20 language selections by codes and enumeration members; listings and downloads of each; 30 refused manifests',
          'thorough': 'as quick with 4 projects, and 3 languages with 3 projects'}
ASSUMPTIONS = ['selecting a language which the solution does not have selects nothing or fails']

SLN, VER = 'league_client_sln', '0.0.1.99'
LANGS = ['fr_fr', 'en_us', 'zh_cn']
NAMES = ['league_client', 'league_client_fr_fr', 'other', 'zz_4']


def build(required, langs, order):
    """required: [bool] by project; langs: [set of project indices]"""
    projects = [(NAMES[i], f"0.0.0.{i + 7}", r) for i, r in enumerate(required)]
    deps = [(LANGS[i], [NAMES[j] for j in sorted(d, reverse=bool(order))]) for i, d in enumerate(langs)]
    if order:
        projects.reverse()
        deps.reverse()
    return projects, deps


def manifests(unit, tier):
    n, nl = unit['projects'], unit['langs']
    subsets = list(world.subsets(range(n)))
    k = 0
    for required in itertools.product((True, False), repeat=n):
        for langs in itertools.product(subsets, repeat=nl):
            k += 1
            if k % unit['parts'] == unit['part']:
                yield required, langs, k % 2


SELECTIONS = [False, True, *LANGS, 'FR_fr', *(Language(x) for x in LANGS), ['fr_fr'], [Language.fr_fr], ['en_us', 'fr_fr'], (Language.en_us, 'fr_fr'), ['zh_cn', 'zh_cn'], LANGS, [Language(x) for x in LANGS], [], 'de_de', ['de_de', 'fr_fr']]


def expected(required, langs, sel):
    """Indices of selected projects, None when a language is missing"""
    common = {i for i, r in enumerate(required) if r}
    if sel is False:
        return common
    if sel is True:
        return common.union(*langs)
    codes = [x.value if isinstance(x, Language) else x.lower() for x in ([sel] if isinstance(sel, (str, Language)) else sel)]
    got = set()
    for code in codes:
        if code not in LANGS[:len(langs)]:
            return None
        got |= set(langs[LANGS.index(code)])
    return got


def run(unit, ctx):
    fsx.install()
    with ctx.tmp() as tmp:
        if unit['kind'] == 'refused':
            return run_refused(ctx, tmp)
        files = {i: [('system.yaml' if i != 1 else 'a/files/B.files', b'y%d' % i, True), ('Sub/D%d.TXT' % i, b'data %d' % i, False)] if i != 2 else [] for i in range(4)}
        for n, (required, langs, order) in enumerate(manifests(unit, ctx.tier)):
            projects, deps = build(required, langs, order)
            world.reset_net()
            path = f"{tmp}/rads"
            shutil.rmtree(path, ignore_errors=True)
            RadsCDN({SLN: [(VER, projects, deps)]}, {(NAMES[i], f"0.0.0.{i + 7}"): files[i] for i in range(len(required))}).publish()
            if n % 3 == 1:
                net.routes[f"{world.RADS_BASE}solutions/{SLN}/releases/{VER}/solutionmanifest"] = solution_manifest(SLN, VER, projects, deps, eol='\n')
            os.makedirs(f"{path}/solutions/{SLN}/releases/{VER}")
            with open(f"{path}/solutions/{SLN}/releases/{VER}/_patch_version", 'w') as f:
                f.write('8.9\n')
            storage = RadsStorage(path)
            sv = RadsSolutionVersion(RadsSolution(storage, SLN), RadsVersion(VER))
            for sel in SELECTIONS:
                with ctx.case(lambda: {'projects (name, version, required)': projects, 'languages': deps, 'langs': sel}):
                    want = expected(required, langs, sel)
                    try:
                        got = sv.projects(sel)
                        paths = list(sv.filepaths(sel))
                    except (KeyError, ValueError):
                        ctx.check(want is None, 'refused')
                        continue
                    got = [(pv.project.name, str(pv.version)) for pv in got]
                    if want is None:
                        # a missing language adds nothing
                        ctx.check(set(got) <= {(NAMES[i], f"0.0.0.{i + 7}") for d in langs for i in d}, f"projects: {got}")
                        continue
                    ctx.equal(sorted(got), sorted((NAMES[i], f"0.0.0.{i + 7}") for i in want), 'projects')
                    base = lambda i: f"projects/{NAMES[i]}/releases/0.0.0.{i + 7}/files/"
                    table = sorted((base(i) + rel, data) for i in want for rel, data, _ in files[i])
                    ctx.equal(sorted(paths), [p for p, _ in table], 'paths')
                    elem = RadsPatchElement(sv)
                    ctx.equal(sorted(elem.fspaths(sel)), [f"{path}/{p}" for p, _ in table], 'paths on disk')
                    ctx.equal(sorted(elem.relpaths(sel)), sorted(p.split('/files/', 1)[1].lower() for p, _ in table), 'relative paths')
                    ctx.equal(sorted(elem.paths(sel)), [(f"{path}/{p}", p.split('/files/', 1)[1].lower()) for p, _ in table], 'pairs of paths')
                    if n % 4 == 0:
                        shutil.rmtree(f"{path}/projects", ignore_errors=True)
                        RadsPatchElement(RadsSolutionVersion(RadsSolution(storage, SLN), RadsVersion(VER))).download(sel)
                        snap = {f"projects/{k}": x[1] for k, x in fsx.snapshot(f"{path}/projects").items() if '/files/' in k} if os.path.isdir(f"{path}/projects") else {}
                        ctx.equal(snap, dict(table), 'downloaded files')
                    ctx.outcome((sorted(want), len(langs)))
                    if want:
                        ctx.nontrivial((projects, deps, repr(sel)))


def run_refused(ctx, tmp):
    good = dict(name=SLN, version=VER, projects=[(NAMES[0], '0.0.0.7', True)], langs=[('fr_fr', [NAMES[0]])])
    variants = [dict(magic='RADS Release Manifest'), dict(magic='rads solution manifest'), dict(magic=''), dict(fmt='1.0.0.1'), dict(fmt='2.0.0.0'), dict(fmt='1.0'), dict(name='lol_game_client_sln'), dict(name=''), dict(version='0.0.1.98'), dict(version='0.0.1.099'), dict(version='1.0.0.0'),
                dict(langs=[('xx_xx', [])]), dict(langs=[('fr_fr', ['missing'])])]
    path = f"{tmp}/rads"
    for v in [{}, *variants]:
        for sel in SELECTIONS[:12]:
            with ctx.case({'solution manifest': {**good, **v}, 'langs': sel}):
                world.reset_net()
                shutil.rmtree(path, ignore_errors=True)
                net.routes[f"{world.RADS_BASE}solutions/{SLN}/releases/{VER}/solutionmanifest"] = solution_manifest(**{**good, **v})
                sv = RadsSolutionVersion(RadsSolution(RadsStorage(path), SLN), RadsVersion(VER))
                try:
                    sv.projects(sel)
                except (AssertionError, ValueError, KeyError):
                    ctx.check(v or sel not in (False, True, 'fr_fr', 'FR_fr', Language.fr_fr, ['fr_fr'], [Language.fr_fr]), 'refused')
                else:
                    ctx.check(not v, 'not refused')
                ctx.nontrivial((sorted(v.items()), repr(sel)))


def units(tier):
    u = [{'kind': 'refused'}]
    sizes = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (1, 3), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (2, 3), (3, 2)]
    if tier == 'thorough':
        sizes += [(4, 1), (4, 2), (3, 3)]
    for projects, langs in sizes:
        parts = 8 if (1 << (projects * (langs + 1))) >= 256 else 1
        u += [{'kind': 'solutions', 'projects': projects, 'langs': langs, 'parts': parts, 'part': k} for k in range(parts)]
    return u
