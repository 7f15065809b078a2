"""Linked exports against full exports: every pair (and chain of three) of patches of each family"""
import itertools
import os
import shutil

from .. import families, fsx, patches
from ..families import FAMILIES
from ..patches import Store, RawExporter

ID = 'C23'
LEVEL = 'exploration'
RULE = 'distinct (previous patch, patch) pairs or chains; non-trivial when the linked export holds links'
BOUNDS = {'quick': 'all pairs of the states of 15 families (one in 5 of the pairs for the largest one), all chains of 3 patches of 3 files with 2 contents',
          'thorough': 'all pairs of all families, all chains of 4 patches of 3 files'}
ASSUMPTIONS = ['the previous patch was exported with the same hash lists', 'files in several WADs of a patch have the same content in each', 'conversions of unchanged binary files do not depend on the patch']
HASHFILES = families.HASHFILES
CHAIN = ['d/a.txt', 'd/e/b.txt', 'd/e/c.txt']


def units(tier):
    u = []
    for name, make in FAMILIES.items():
        n = len(make().states())
        step = max(1, n // 12)
        u += [{'family': name, 'from': i, 'to': min(n, i + step)} for i in range(0, n, step)]
    u += [{'chain': i} for i in range(27)]
    return u


def resolves_inside(ctx, out, links, bases):
    for rel in links:
        path = os.path.join(out, rel)
        target = os.readlink(path)
        ctx.check(not os.path.isabs(target), f"absolute link {rel} -> {target}")
        real = os.path.realpath(path)
        ctx.check(any(real.startswith(os.path.realpath(b) + '/') for b in bases), f"link {rel} -> {target} leaves the previous export")


def content_of(root):
    # a file which could not be converted is not in the previous export: its link reads as nothing
    return {k: v for k, v in fsx.view(root).items() if v is not None and not k.startswith('cdragon/')}


def links_of(snap):
    return [k for k, v in snap.items() if v[0] == 'l']


def run_family(unit, ctx):
    family = FAMILIES[unit['family']]()
    states = family.states()
    pv, v = family.prev_version, family.version
    with ctx.tmp() as tmp:
        store = Store(f"{tmp}/store")
        cur = {}
        full = {}
        for s in states:
            cur[s] = patches.patch(family.build(store, s, v))
            RawExporter(f"{tmp}/full/{v}", cur[s]).process()
            full[s] = content_of(f"{tmp}/full/{v}")
            shutil.rmtree(f"{tmp}/full")
        every = 5 if ctx.tier == 'quick' and len(states) > 200 else 1
        for i in range(unit['from'], unit['to']):
            prev = patches.patch(family.build(store, states[i], pv))
            base = f"{tmp}/base"
            RawExporter(f"{base}/{pv}", prev).process()
            before = fsx.snapshot(f"{base}/{pv}")
            for j, s in enumerate(states):
                if (i + j) % every:
                    continue
                desc = lambda: {'family': unit['family'], 'previous': family.describe(states[i]), 'patch': family.describe(s), 'versions': [pv, v]}
                with ctx.case(desc):
                    out = f"{base}/{v}"
                    RawExporter(out, cur[s], prev).process()
                    ctx.equal(content_of(out), full[s], 'files read through the links')
                    snap = fsx.snapshot(out)
                    links = links_of(snap)
                    resolves_inside(ctx, out, links, [f"{base}/{pv}"])
                    again = written_again(family, states[i], s, full, out)
                    ctx.check(not again, f"files which are the same in both patches are not linked: {again}")
                    ctx.equal(fsx.snapshot(f"{base}/{pv}"), before, 'previous export')
                    if links:
                        ctx.nontrivial((unit['family'], i, j))
                    ctx.outcome((unit['family'], sorted(links)))
                shutil.rmtree(f"{base}/{v}", ignore_errors=True)
            shutil.rmtree(base)


def written_again(family, prev, state, full, out):
    """Files of the export itself, though what they are made from did not change"""
    same = family.unchanged(prev, state)
    others = [g for g in family.groups or [(n,) for n in range(len(state))] if g not in same]
    made = lambda g: full.get(family.alone(state, g), {})
    changed = set().union(*(made(g) for g in others))
    real = os.path.realpath(out) + '/'
    return sorted(p for g in same for p in made(g) if p in full[state] and p not in changed and os.path.realpath(f"{out}/{p}").startswith(real))


def spelled(path, n):
    """The same directory, written in one of several ways; relative ones are from its parent"""
    parent, name = os.path.split(path)
    os.chdir(parent if n % 8 >= 4 else '/')
    return [path, f"{path}/", f"{parent}//./{name}", f"{parent}/x/../{name}///", name, f"./{name}", f"{name}/", f"x/../{name}"][n % 8]


def run_chain(unit, ctx):
    family = families.PlainFamily(CHAIN, (0, 1))
    states = family.states()
    versions = ['14.5', '14.6', '14.7', '14.8']
    n = 3 if ctx.tier == 'quick' else 4
    with ctx.tmp() as tmp:
        store = Store(f"{tmp}/store")
        made = {(k, s): patches.patch(family.build(store, s, versions[k])) for k in range(n) for s in states}
        full = {s: {p: b'text %d' % x for p, x in zip(CHAIN, s) if x is not None} for s in states}
        base = f"{tmp}/base"
        os.makedirs(f"{base}/x")
        n_exports = 0

        def go(k, chain):
            nonlocal n_exports
            for s in states if k else [states[unit['chain']]]:
                out = f"{base}/{versions[k]}"
                before = [fsx.snapshot(f"{base}/{v}") for v in versions[:k]]
                chain2 = chain + [s]
                ok = False
                n_exports += 1
                spelling = spelled(out, n_exports)
                # the directory of a patch may be elsewhere (on another disk)
                real = f"{tmp}/far/away/{versions[k]}"
                if n_exports % 3 == 1:
                    os.makedirs(real)
                    os.symlink(os.path.relpath(real, base) if n_exports % 2 else real, out)
                with ctx.case(lambda: {'chain': [family.describe(x) for x in chain2], 'output': spelling, 'patches in other directories': [v for v in versions[:k + 1] if os.path.islink(f"{base}/{v}")]}):
                    RawExporter(spelling, made[k, s], made[k - 1, chain[-1]] if k else None).process()
                    ctx.equal(content_of(out), full[s], 'files read through the links')
                    links = links_of(fsx.snapshot(out))
                    resolves_inside(ctx, out, links, [f"{base}/{v}" for v in versions[:k]])
                    ctx.equal([fsx.snapshot(f"{base}/{v}") for v in versions[:k]], before, 'previous exports')
                    if links:
                        ctx.nontrivial(tuple(chain2))
                    ctx.outcome(sorted(links))
                    ok = True
                if ok and k + 1 < n:
                    go(k + 1, chain2)
                if os.path.islink(out):
                    os.remove(out)
                    shutil.rmtree(real)
                shutil.rmtree(out, ignore_errors=True)
        go(0, [])


def run(unit, ctx):
    if 'chain' in unit:
        try:
            run_chain(unit, ctx)
        finally:
            os.chdir('/')
    else:
        run_family(unit, ctx)
