"""Versions: order, equality, hash and refusals"""
import itertools
import operator
import re

from cdtb.rads import RadsProject, RadsProjectVersion, RadsSolution, RadsSolutionVersion, RadsVersion
from cdtb.storage import BaseVersion, PatchElement, PatchVersion, Storage

ID = 'C29'
LEVEL = 'exploration'
RULE = 'distinct (class, version or pair of versions or text); non-trivial when a version is accepted'
BOUNDS = {'quick': 'all pairs of versions of 1 and 2 components over 0..2, 9..11, 99..101, 255, 256, of 3 and 4 components over 0, 1, 10, 256, in text and tuple form, for each class; all texts up to 5 characters over 12 characters; all tuples up to 3 components over 12 values; all integer forms up to 50.99; all pairs and triples of solutions, projects, their versions, patches; all pairs of elements',
          'thorough': 'as quick with 3 and 4 components over 0, 1, 9, 10, 99, 256, and all texts up to 6 characters'}
ASSUMPTIONS = ['seasons below 99 and patch numbers below 100, for the integer form', 'leading zeros are either refused or normalised']

WIDE = (0, 1, 2, 9, 10, 11, 99, 100, 101, 255, 256)
OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
CHARS = '012.-+ _a\n\u0663\u00b2'
VALUES = [0, 1, 10, 256, -1, '1', '10', 'a', '', None, 1.5, '1.2']
OTHERS = [None, 0, 9.1, [9, 1], object(), b'9.1', '', (), 'x', {9: 1}]


def text(t):
    return '.'.join(str(x) for x in t)


def tuples(tier):
    deep = (0, 1, 10, 256) if tier == 'quick' else (0, 1, 9, 10, 99, 256)
    return [t for n in (1, 2) for t in itertools.product(WIDE, repeat=n)] + [t for n in (3, 4) for t in itertools.product(deep, repeat=n)]


def lengths(cls):
    return {BaseVersion: (1, 2, 3, 4), PatchVersion: (2, 3, 4), RadsVersion: (4,)}[cls]


CLASSES = {'BaseVersion': BaseVersion, 'PatchVersion': PatchVersion, 'RadsVersion': RadsVersion}


def kept(cls, t):
    return t[:2] if cls is PatchVersion else t


def accept(ctx, cls, v):
    try:
        return cls(v)
    except (ValueError, TypeError, AssertionError):
        return None


def same(ctx, a, t, cls):
    """Whole observable state of a version"""
    ctx.check(type(a) is cls and a.t == t and type(a.t) is tuple, f"numbers: {a.t!r}, not {t!r}")
    ctx.check(str(a) == text(t), f"text: {str(a)!r}")
    ctx.check(a == t and not a != t and a == text(t) and not a != text(t), 'equal to its text and tuple')
    ctx.check(hash(a) == hash(cls(text(t))) == hash(text(t)), 'hash')


def run(unit, ctx):
    kind = unit['kind']
    if kind == 'pairs':
        return run_pairs(unit, ctx)
    if kind == 'texts':
        return run_texts(unit, ctx)
    if kind == 'tuples':
        return run_tuples(ctx)
    if kind == 'named':
        return run_named(ctx)
    run_main(ctx)


def run_pairs(unit, ctx):
    cls = CLASSES[unit['class']]
    ts = [t for t in tuples(ctx.tier) if len(t) in lengths(cls)]
    forms = []
    for t in ts:
        with ctx.case({'class': cls.__name__, 'version': t}):
            a, b = cls(t), cls(text(t))
            same(ctx, a, kept(cls, t), cls)
            same(ctx, b, kept(cls, t), cls)
            ctx.check(a == b and hash(a) == hash(b) and not a < b and not a > b, 'text and tuple forms')
            for o in OTHERS:
                ctx.check(not a == o and a != o and not o == a, f"compared with {o!r}")
            forms.append((kept(cls, t), a, b))
            ctx.nontrivial((cls.__name__, t))
    n = len(forms)
    for i in range(unit['part'], n, unit['parts']):
        t1, a1, b1 = forms[i]
        with ctx.case({'class': cls.__name__, 'version': str(a1), 'compared with': 'all others'}):
            for t2, a2, b2 in forms:
                for name, op in OPS.items():
                    want = op(t1, t2)
                    if op(a1, a2) is not want or op(b1, a2) is not want or op(a1, b2) is not want:
                        ctx.fail(f"{t1} {name} {t2} is not {want}")
                if (a1 == text(t2)) is not (t1 == t2) or (a1 == t2) is not (t1 == t2) or (a1 != text(t2)) is not (t1 != t2):
                    ctx.fail(f"{t1} compared with the text and tuple of {t2}")
                if t1 == t2 and hash(a1) != hash(b2):
                    ctx.fail(f"hashes of {t1}")
                ctx.state((cls.__name__, t1 < t2, t1 == t2))
            ctx.transition(n)
    if unit['part'] == 0:
        with ctx.case({'class': cls.__name__, 'sort': 'all'}):
            for rev in (False, True):
                for objs in ([f[1] for f in forms], [f[2] for f in forms[::-1]], [f[1 + k % 2] for k, f in enumerate(forms[::2] + forms[1::2])]):
                    ctx.equal([o.t for o in sorted(objs, reverse=rev)], sorted((f[0] for f in forms), reverse=rev), 'sorted')
            ctx.equal(len({o for f in forms for o in f[1:]}), len({f[0] for f in forms}), 'set')
            ctx.equal(max(f[1] for f in forms).t, max(f[0] for f in forms), 'max')
        small = forms[::max(1, len(forms) // 12)]
        for c in itertools.permutations(small, 3):
            with ctx.case({'class': cls.__name__, 'sort': [str(f[1]) for f in c]}):
                ctx.equal([o.t for o in sorted(f[2] for f in c)], sorted(f[0] for f in c), 'sorted')
        # versions of different classes
        with ctx.case({'class': cls.__name__, 'compared with': 'other classes'}):
            for t, a, b in forms[:200]:
                for other in CLASSES.values():
                    o = accept(ctx, other, t)
                    if o is not None:
                        ctx.check((a == o) is (t == kept(other, t)) and (a != o) is (t != kept(other, t)), f"{t} and {other.__name__}")
                        if a == o:
                            ctx.check(hash(a) == hash(o), f"hash of {t}")


def run_texts(unit, ctx):
    size = 5 if ctx.tier == 'quick' else 6
    valid = re.compile(r'[0-9]+(\.[0-9]+)*')
    canon = re.compile(r'(0|[1-9][0-9]*)(\.(0|[1-9][0-9]*))*')
    for n in range(size):
        for rest in itertools.product(CHARS, repeat=n):
            s = unit['first'] + ''.join(rest)
            ok = valid.fullmatch(s)
            with ctx.case({'text': s}):
                for name, cls in CLASSES.items():
                    v = accept(ctx, cls, s)
                    if not ok:
                        ctx.check(v is None, f"{name} not refused")
                        continue
                    t = tuple(int(x) for x in s.split('.'))
                    if len(t) not in {BaseVersion: range(1, 9), PatchVersion: range(2, 9), RadsVersion: (4,)}[cls]:
                        ctx.check(v is None, f"{name} not refused")
                        continue
                    if v is None:
                        ctx.check(not canon.fullmatch(s), f"{name} refused")
                    else:
                        same(ctx, v, kept(cls, t), cls)
                        ctx.nontrivial((name, s))


def run_tuples(ctx):
    for n in range(4):
        for t in itertools.product(VALUES, repeat=n):
            with ctx.case({'tuple': t}):
                for name, cls in CLASSES.items():
                    v = accept(ctx, cls, t)
                    ints = all(type(x) is int and x >= 0 for x in t)
                    if v is None:
                        ctx.check(not ints or n not in lengths(cls), f"{name} refused")
                        continue
                    ctx.check(n in lengths(cls), f"{name}: number of components")
                    # texts of numbers are not versions: either refused, or taken as numbers
                    ctx.check(all(type(x) is int and x >= 0 or isinstance(x, str) and x.isdecimal() for x in t), f"{name} not refused")
                    same(ctx, v, kept(cls, tuple(int(x) for x in t)), cls)
                    ctx.nontrivial((name, t))
    for v in [None, 0, 1, 9.1, [9, 1], b'9.1', {'9': 1}, set(), object(), '', (), 'Main', 'MAIN', ' main', 'main.1', '9.main', ('main',), 'live']:
        with ctx.case({'value': repr(v) if type(v) is not object else 'object'}):
            for name, cls in CLASSES.items():
                ctx.check(accept(ctx, cls, v) is None, f"{name} not refused")
    with ctx.case({'value': 'main'}):
        for cls in (BaseVersion, RadsVersion):
            ctx.check(accept(ctx, cls, 'main') is None, f"{cls.__name__} not refused")


def run_main(ctx):
    with ctx.case({'version': 'main'}):
        a, b = PatchVersion('main'), PatchVersion('main')
        ctx.check(a == b and not a != b and hash(a) == hash(b) and a <= b and a >= b and not a < b and not a > b, 'compared with itself')
        ctx.check(a == 'main' and not a != 'main' and str(a) == 'main' and len({a, b}) == 1, 'text')
        for o in OTHERS:
            ctx.check(not a == o and a != o, f"compared with {o!r}")
    ints = set()
    for t in itertools.product(range(51), range(100)):
        with ctx.case({'version': t}):
            v = PatchVersion(t)
            ctx.check(not a == v and a != v and not v == a and v != a and not a == text(t) and not a == t, 'equal to main')
            for op in (operator.lt, operator.le, operator.gt, operator.ge):
                for x, y in ((a, v), (v, a)):
                    try:
                        op(x, y)
                    except TypeError:
                        pass
                    else:
                        ctx.fail(f"{x} ordered with {y}")
            n = v.as_int()
            ctx.equal(n, t[0] * 100 + t[1], 'number')
            ctx.equal(PatchVersion(text(t)).as_int(), n, 'number of the text')
            ctx.equal(PatchVersion(text(t) + '.3').as_int(), n, 'number of a mid-patch update')
            ctx.check(type(n) is int and n < a.as_int() and n not in ints, 'distinct, below main')
            ints.add(n)
            ctx.nontrivial(('int', t))


def run_named(ctx):
    """What has a name and a version: sorted by name, then from the latest"""
    versions = [(0, 0, 0, 1), (0, 0, 0, 2), (0, 0, 0, 10), (0, 0, 1, 0), (0, 0, 1, 9), (1, 0, 0, 0)]
    names = ['a', 'a_b', 'b']
    storage = object()

    class Listed(Storage):
        def __init__(self, elements):
            self.elements = elements

        def patch_elements(self, stored=False):
            return iter(self.elements)

    kinds = {
        'solution': ([(n,) for n in names], lambda n: RadsSolution(storage, n)),
        'project': ([(n,) for n in names], lambda n: RadsProject(storage, n)),
        'solution version': (list(itertools.product(names, versions)), lambda n, v: RadsSolutionVersion(RadsSolution(storage, n), RadsVersion(v))),
        'project version': (list(itertools.product(names, versions)), lambda n, v: RadsProjectVersion(RadsProject(storage, n), RadsVersion(text(v)))),
        'element': (list(itertools.product(PatchElement.names, [(8, 9), (8, 10), (9, 1), (10, 9)])), lambda n, v: PatchElement(n, PatchVersion(v))),
        'patch': ([(v,) for v in ((8, 9), (8, 10), (9, 1), (10, 9))], lambda v: next(Listed([PatchElement('game', PatchVersion(text(v)))]).patches())),
    }
    everything = [make(*key) for keys, make in kinds.values() for key in keys]
    for kind, (keys, make) in kinds.items():
        rank = sorted(keys, key=lambda k: (k[:-1], tuple(-c for c in k[-1])) if isinstance(k[-1], tuple) else k)
        for x, y in itertools.product(keys, repeat=2):
            with ctx.case({'kind': kind, 'first': x, 'second': y}):
                a, b = make(*x), make(*y)
                ctx.equal((a == b, a != b, b == a), (x == y, x != y, x == y), 'equal')
                ctx.check(x != y or hash(a) == hash(b), 'hashes of equal objects differ')
                ctx.equal(len({a, b}), len({x, y}), 'set of both')
                if kind != 'element':
                    ctx.equal(a < b, rank.index(x) < rank.index(y), 'order')
                for other in (x, y, text(x[-1]) if isinstance(x[-1], tuple) else x[0], None):
                    ctx.check(not a == other and a != other, lambda: f"equal to {other!r}")
                ctx.nontrivial((kind, x, y))
        for key in keys:
            a = make(*key)
            with ctx.case({'kind': kind, 'object': key, 'with': 'other kinds'}):
                ctx.equal(sum(1 for o in everything if o == a), 1, 'equal objects of every kind')
        for order in itertools.permutations(keys, 3) if kind != 'element' else ():
            with ctx.case({'kind': kind, 'sorted': order}):
                got = sorted(make(*k) for k in order)
                ctx.check(got == [make(*k) for k in sorted(order, key=rank.index)], lambda: f"got {got}")
                ctx.nontrivial((kind, order))


def units(tier):
    u = [{'kind': 'main'}, {'kind': 'tuples'}, {'kind': 'named'}]
    u += [{'kind': 'texts', 'first': c} for c in CHARS]
    for name, parts in (('BaseVersion', 8), ('PatchVersion', 4), ('RadsVersion', 4)):
        u += [{'kind': 'pairs', 'class': name, 'parts': parts, 'part': k} for k in range(parts)]
    return u
