"""Path reduction: all triples of path lists over small trees"""
import itertools

from cdtb.export import reduce_common_paths

ID = 'C21'
LEVEL = 'exploration'
RULE = 'distinct (given, previous, excluded) triples; non-trivial when at least one path is given'
BOUNDS = {'quick': 'all labellings (given, previous only, excluded, excluded and previous) of all sets of up to 5 paths over trees with 2 names and depth 3; sets of 4 paths with 3 names at depth 2; in every labelling, lists and sets, both orders',
          'thorough': 'as quick with 6 paths'}
ASSUMPTIONS = ['given and excluded paths are disjoint parts of the files of one tree, given paths are in the previous list']


def tree(names, depth):
    out = []
    for d in range(1, depth + 1):
        for parts in itertools.product(names, repeat=d):
            out.append('/'.join(parts))
    return out


def above(p):
    parts = p.split('/')
    return ['/'.join(parts[:i]) for i in range(1, len(parts))]


def reference(given, prev, excl):
    ret = set()
    usable = {}
    def ok(d):
        if d not in usable:
            pre = d + '/'
            usable[d] = ({p for p in given if p.startswith(pre)} == {p for p in prev if p.startswith(pre)}
                         and not any(p.startswith(pre) for p in excl))
        return usable[d]
    for p in given:
        for d in above(p):
            if ok(d):
                ret.add(d)
                break
        else:
            ret.add(p)
    return ret


UNIVERSES = [tree(('a', 'ab'), 3), tree(('x', 'x.y', 'z'), 2)]


def antichains(universe, maxn):
    """Sets of up to maxn paths, none being inside another"""
    ups = {p: set(above(p)) for p in universe}
    def rec(i, cur):
        yield cur
        if len(cur) == maxn:
            return
        for j in range(i, len(universe)):
            p = universe[j]
            if any(q in ups[p] or p in ups[q] for q in cur):
                continue
            yield from rec(j + 1, cur + (p,))
    return list(rec(0, ()))


def units(tier):
    k = 8 if tier == 'quick' else 64
    return [{'u': 0, 'k': i, 'n': k} for i in range(k)] + [{'u': 1, 'k': i, 'n': 4} for i in range(4)]


def check_one(ctx, given, prev, excl, full):
    exp = reference(given, prev, excl)
    got = reduce_common_paths(given, prev, excl)
    ctx.check(len(got) == len(set(got)), lambda: f"duplicates in {got}")
    ctx.equal(set(got), exp, 'reduced paths')
    if full:
        got = reduce_common_paths(set(given), set(reversed(prev)), set(excl))
        ctx.equal(sorted(got), sorted(exp), 'reduced paths, from sets')
        got = reduce_common_paths(given[::-1], prev[::-1], excl[::-1])
        ctx.equal(sorted(got), sorted(exp), 'reduced paths, reversed lists')
    ctx.outcome((len(exp), sum('/' in p for p in exp)))


def run(unit, ctx):
    universe = UNIVERSES[unit['u']]
    maxn = (6 if ctx.tier == 'thorough' else 5) if unit['u'] == 0 else (5 if ctx.tier == 'thorough' else 4)
    ups = {p: set(above(p)) for p in universe}
    conflict = {(p, q) for p in universe for q in universe if p in ups[q] or q in ups[p]}
    for i, base in enumerate(antichains(universe, maxn)):
        if i % unit['n'] != unit['k']:
            continue
        for labels in itertools.product('GPEB', repeat=len(base)):
            given = [p for p, l in zip(base, labels) if l == 'G']
            prev = [p for p, l in zip(base, labels) if l in 'GPB']
            excl = [p for p, l in zip(base, labels) if l in 'EB']
            # also paths of the new tree which conflict with paths only in the previous one
            extras = [()]
            if len(base) < maxn and 'P' in labels:
                new = given + excl
                extras += [(q,) for q in universe if q not in prev and not any((q, p) in conflict or p == q for p in new)
                           and any((q, p) in conflict for p in prev)]
            for extra in extras:
                e = excl + list(extra)
                with ctx.case(lambda: {'given': given, 'previous': prev, 'excluded': e}):
                    check_one(ctx, given, prev, e, True)
                    if given:
                        ctx.nontrivial((given, prev, e))
