"""File lists of exports, after any sequence of exports"""
import itertools
import os
import shutil

from .. import families, fsx, patches
from ..families import FAMILIES, PlainFamily, MixedFamily
from ..patches import Store, RawExporter, Wad, element

ID = 'C24'
LEVEL = 'exploration'
RULE = 'distinct (previous patch, patch, options) or export sequences; non-trivial when at least a file is exported'
BOUNDS = {'quick': 'all pairs of states of 9 families (one in 11 for those of more than 60 states), each followed by two other exports in the same directory; all sequences of 3 exports of 9 patches with or without links; all subsets of 6 entry kinds in 2 archives',
          'thorough': 'all pairs of states of all families; all sequences of 4 exports; all subsets of entry kinds'}
ASSUMPTIONS = ['all exported assets can be converted', 'the previous patch was exported with the same hash lists']
HASHFILES = families.HASHFILES
NAMES = ['multi', 'multi2', 'plain', 'plaingame', 'mixed', 'duplicate', 'lang1', 'v1', 'elements']


def read(path):
    with open(path, newline='') as f:
        data = f.read()
    return data


def lines_of(ctx, data, what):
    ctx.check(data == '' or data.endswith('\n') and '\r' not in data, f"{what}: malformed lines")
    return data.split('\n')[:-1]


def exported_names(out):
    """Names of what is exported, reading through links (a directory of generated files counts as one)"""
    names = [k for k, v in fsx.view(out).items() if not k.startswith('cdragon/')]
    dirs = tuple(k[:-4] + '/' for k in names if k.endswith('.skn'))
    return sorted({n for n in names if not n.startswith(dirs)} | {d[:-1] for d in dirs})


def verify(ctx, out, unknown=()):
    exported = lines_of(ctx, read(f"{out}/cdragon/files.exported.txt"), 'exported files')
    ctx.equal(exported, exported_names(out), 'list of exported files')
    u = lines_of(ctx, read(f"{out}/cdragon/files.unknown.txt"), 'unknown hashes')
    ctx.equal(u, sorted(u), 'order of the unknown hashes')
    ctx.equal(sorted(set(u)), sorted(f"{h:016x}" for h in unknown), 'unknown hashes')
    links = sorted(k for k, v in fsx.snapshot(out).items() if v[0] == 'l')
    path = f"{out}/cdragon/files.links.txt"
    if links:
        ctx.check(os.path.exists(path), 'no list of links')
        ctx.equal(lines_of(ctx, read(path), 'links'), links, 'list of links')
    else:
        ctx.check(not os.path.lexists(path), 'list of links but no link')
    ctx.outcome((exported, u, links))
    return exported


def unknown_of(family, state):
    return {families.UNKNOWN} if family.describe(state).get('unknown' if isinstance(family, MixedFamily) else families.UNKNOWN) is not None else set()


def run_family(unit, ctx):
    family = FAMILIES[unit['family']]()
    states = [s for s in family.states() if not (unit['family'] == 'multi2' and s[2] == 1)]
    pv, v = family.prev_version, family.version
    every = 11 if ctx.tier == 'quick' and len(states) > 60 else 1
    with ctx.tmp() as tmp:
        store = Store(f"{tmp}/store")
        cur = {s: patches.patch(family.build(store, s, v)) for s in states}
        for i in range(unit['index'], len(states), 8):
            base = f"{tmp}/base"
            out = f"{base}/{v}"
            prev = patches.patch(family.build(store, states[i], pv))
            RawExporter(f"{base}/{pv}", prev).process()
            for j, s in enumerate(states):
                if (i + j) % every:
                    continue
                other = states[(j + i + 1) % len(states)]
                for n, (state, p) in enumerate([(s, prev), (other, None), (s, prev)]):
                    with ctx.case(lambda: {'family': unit['family'], 'previous': family.describe(states[i]), 'exports': [family.describe(x) for x in (s, other, s)][:n + 1]}):
                        RawExporter(out, cur[state], p).process(overwrite=n != 2)
                        if verify(ctx, out, unknown_of(family, state)):
                            ctx.nontrivial((unit['family'], i, j, n))
                shutil.rmtree(out, ignore_errors=True)
            shutil.rmtree(base)


def run_history(unit, ctx):
    family = PlainFamily(['d/a.txt', 'd/b.txt'], (0, 1))
    states = family.states()
    n = 3 if ctx.tier == 'quick' else 4
    ops = [(s, linked) for s in states for linked in (False, True)]
    with ctx.tmp() as tmp:
        store = Store(f"{tmp}/store")
        base = f"{tmp}/base"
        prev = patches.patch(family.build(store, (0, 1), '14.5'))
        RawExporter(f"{base}/14.5", prev).process()
        cur = {s: patches.patch(family.build(store, s, '14.6')) for s in states}
        out = f"{base}/14.6"
        for rest in itertools.product(ops, repeat=n - 1):
            with ctx.case(lambda: {'exports': [(family.describe(s), 'linked' if k else 'full') for s, k in (ops[unit['first']], *rest)]}):
                for s, linked in (ops[unit['first']], *rest):
                    RawExporter(out, cur[s], prev if linked else None).process()
                    verify(ctx, out)
                ctx.nontrivial((unit['first'], rest))
            shutil.rmtree(out, ignore_errors=True)


KINDS = [('assets/x.txt', None, b'x', 'raw'), ('assets/y.txt', None, b'to', 'link'), (None, 0x1, b'{"a": 1}', 'zstd'), (None, 0xfedcba9876543210, b'OggS', 'raw'),
         (None, 0x2, b'elsewhere', 'link'), (None, 0x00000000abcdef01, b'', 'raw')]


def run_unknown(unit, ctx):
    for b in range(64):
        for wads in (['data/final/a.wad.client', 'plugins/rcp-fe-x/assets.wad'], ['plugins/rcp-fe-x/assets.wad', 'plugins/rcp-fe-y/assets.wad']):
            sel = [[k for n, k in enumerate(KINDS) if mask >> n & 1] for mask in (unit['mask'], b)]
            with ctx.case({'archives': wads, 'entries': [[k[:2] for k in s] for s in sel]}), ctx.tmp() as tmp:
                store = Store(f"{tmp}/store")
                out = f"{tmp}/out/14.6"
                RawExporter(out, patches.patch([element(store, 'game', '14.6', [('a.txt', b'a', '')], [Wad(w, s) for w, s in zip(wads, sel)])])).process()
                verify(ctx, out, {h for s in sel for p, h, _, k in s if h is not None and k != 'link'})
                ctx.nontrivial((wads, unit['mask'], b))


def units(tier):
    names = NAMES if tier == 'quick' else list(FAMILIES)
    return [{'family': n, 'index': i} for n in names for i in range(8)] + [{'first': i} for i in range(18)] + [{'mask': i} for i in range(64)]


def run(unit, ctx):
    if 'family' in unit:
        run_family(unit, ctx)
    elif 'mask' in unit:
        run_unknown(unit, ctx)
    else:
        run_history(unit, ctx)
