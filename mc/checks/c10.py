"""Manifest decoding: every manifest of a bounded grammar against the abstract manifest"""
import io
import itertools

from .. import enc
from ..world import subsets
from cdtb.patcher import PatcherManifest

ID = 'C10'
LEVEL = 'exploration'
RULE = 'distinct abstract manifests (bundles, directories, files, layout); non-trivial when it holds at least one bundle, file or directory'
BOUNDS = {'quick': 'bundles: up to 3 x 3 chunks over 4 sizes; directory forests of up to 4 nodes in all table orders; all optional field sets; masks: every bit, every pair; paddings 0..9 x 0..4; versions 0..3 x 0..3; 254 to 70001 bundles, chunks, files, directories, bytes of names',
          'thorough': 'bundles: up to 4 x 3 chunks over 5 sizes; forests of up to 5 nodes; two-file products; same layouts'}
ASSUMPTIONS = ['32-bit table offsets', 'manifest body zstd-compressed in one frame']


def decode(data):
    m = PatcherManifest(io.BytesIO(data))
    return view(m)


def view(m):
    return (
        [(b.bundle_id, [(c.chunk_id, c.offset, c.size, c.target_size) for c in b.chunks]) for b in m.bundles],
        dict(m.flags),
        {name: (f.name, f.size, f.link, None if f.flags is None else list(f.flags), [(c.chunk_id, c.bundle.bundle_id, c.offset) for c in f.chunks]) for name, f in m.files.items()},
    )


def expected(bundles, flags, files, dirs):
    where = {}
    eb = []
    for bid, chunks in bundles:
        off = 0
        ec = []
        for cid, size, usize in chunks:
            ec.append((cid, off, size, usize))
            where[cid] = (cid, bid, off)
            off += size
        eb.append((bid, ec))
    names = {d: (n, p) for d, p, n in dirs}
    ef = {}
    ids = dict(flags)
    for f in files:
        parts = [f['name']]
        d = f['dir']
        while d is not None:
            n, d = names[d]
            parts.insert(0, n)
        path = '/'.join(parts)
        fl = [ids[i + 1] for i in range(64) if (f['mask'] or 0) >> i & 1] or None
        ef[path] = (path, f['size'] or 0, f.get('link'), fl, [where[c] for c in f['chunks']])
    return eb, ids, ef


def one(ctx, what, bundles=(), flags=(), files=(), dirs=(), **kw):
    desc = {'what': what, 'bundles': bundles, 'flags': len(flags), 'files': files, 'dirs': dirs, **kw}
    with ctx.case(desc):
        data = enc.rman(list(bundles), list(flags), list(files), list(dirs), **kw)
        got = decode(data)
        exp = expected(bundles, flags, files, dirs)
        for name, g, e in zip(('bundles', 'flags', 'files'), got, exp):
            ctx.equal(g, e, name)
        ctx.nontrivial((bundles, flags, files, dirs, kw))
        ctx.outcome(got)


def file(name='f', dir=None, size=0, mask=None, chunks=(), link=None, id=1, extra=False):
    return dict(id=id, dir=dir, size=size, name=name, mask=mask, chunks=list(chunks), link=link, extra=extra)


def units(tier):
    u = [{'part': 'bundles', 'n': n} for n in range(0, 4 if tier == 'quick' else 5)]
    u += [{'part': 'dirs', 'n': n} for n in range(0, 5 if tier == 'quick' else 6)]
    u += [{'part': p} for p in ('fields', 'masks', 'layout', 'refuse', 'chunks', 'input')]
    u += [{'part': 'pairs', 'first': i} for i in range(8)]
    u += [{'part': 'large', 'what': x} for x in ('bundles', 'chunks', 'files', 'dirs', 'depth', 'file chunks', 'names')]
    return u


def field_files():
    for dir, mask, link, extra, size, name, id in itertools.product(
            (None, 7, 2**64 - 1), (None, 1, 2**63), (None, '', '/usr/lib', 'é'), (False, True), (None, 0, 1, 2**32 - 1),
            ('a', 'Ü n.x', 'x' * 300), (1, None)):
        yield file(name, dir, size, mask, (5,), link, id, extra)


def run(unit, ctx):
    part = unit['part']
    quick = ctx.tier == 'quick'
    B1 = ((0x10, ((5, 9, 10), (6, 3, 4))),)
    ALL = tuple((i + 1, f"fl_{i:02d}") for i in range(64))
    if part == 'bundles':
        sizes = [(1, 2), (7, 0), (2**32 - 1, 2**32 - 1)] + ([(0, 0)] if quick else [(0, 0), (2**31, 5)])
        maxc = 3 if unit['n'] < 3 else (2 if quick or unit['n'] > 3 else 3)
        if unit['n'] == 4:
            maxc = 1
        lists = list(itertools.chain.from_iterable(itertools.product(range(len(sizes)), repeat=n) for n in range(maxc + 1)))
        if unit['n'] == 3:
            lists = lists[:21] if quick else lists[:31]
        for combo in itertools.product(lists, repeat=unit['n']):
            cid = 0
            bundles = []
            for b, lst in enumerate(combo):
                chunks = []
                for s in lst:
                    chunks.append(((2**64 - 1 - cid) if cid % 2 else cid, *sizes[s]))
                    cid += 1
                bundles.append(((0, 2**64 - 1, 0xABCDEF, 5)[b], tuple(chunks)))
            # a file over all the chunks, in reverse order
            ids = [c[0] for b in bundles for c in b[1]][::-1]
            one(ctx, 'bundles', tuple(bundles), (), (file('f', chunks=ids, size=3),))
    elif part == 'dirs':
        n = unit['n']
        ids = [2**63 + 11, 2, 3, 0xFFFFFFFF, 77][:n]
        names = ['A', 'bb', 'A', 'd.e', ' x'][:n]
        for parents in itertools.product(range(-1, n), repeat=n):
            if any(p >= i for i, p in enumerate(parents)):
                continue  # parents come first: forests up to renumbering
            for order in itertools.permutations(range(n)):
                dirs = tuple((ids[i], None if parents[i] < 0 else ids[parents[i]], names[i]) for i in order)
                for root in (False, True):
                    d = dirs + (((None, None, None),) if root else ())
                    files = tuple(file(f"f{i}", ids[i]) for i in range(n)) + (file('top'),)
                    one(ctx, 'dirs', B1, (), files, d)
    elif part == 'fields':
        dirs = ((7, None, 'D'), (2**64 - 1, 7, 'E'))
        for f in field_files():
            one(ctx, 'fields', B1, ALL, (f,), dirs)
    elif part == 'large':
        what = unit['what']
        for n in enc.LARGE:
            bundles, files, dirs = B1, [file(chunks=(5, 6))], ()
            if what == 'bundles':
                bundles = [(i, ((2**32 + i, i % 7 + 1, 3),)) for i in range(n)]
                files = [file(chunks=[2**32 + i for i in (0, n // 2, n - 1)])]
            elif what == 'chunks':
                bundles = [(9, [(2**32 + i, i % 7 + 1, 3) for i in range(n)])]
                files = [file(chunks=[2**32 + i for i in (n - 1, 0, n // 2)])]
            elif what == 'files':
                files = [file(f"f{i}", None, i, None, (5, 6)[:i % 3], id=i) for i in range(n)]
            elif what == 'dirs':
                dirs = [(2**40 + i, None, f"d{i}") for i in range(n)]
                files = [file('f', 2**40 + i, chunks=(6,)) for i in (0, n // 2, n - 1)]
            elif what == 'depth':
                if n > 1000:
                    continue
                dirs = [(2**40 + i, 2**40 + i - 1 if i else None, f"d{i}") for i in range(n)]
                files = [file('f', 2**40 + i, chunks=(6,)) for i in (0, n // 2, n - 1)]
            elif what == 'file chunks':
                files = [file('f', chunks=[(5, 6)[i * i % 5 % 2] for i in range(n)]), file('g', chunks=(6,))]
            else:
                dirs = [(7, None, 'd' * n)]
                files = [file('n' * n, 7), file('o' * n, link='l' * n), file('p')]
            with ctx.case({'large': what, 'n': n}):
                got = decode(enc.rman(bundles, (), files, dirs))
                exp = expected(bundles, (), files, dirs)
                for name, g, e in zip(('bundles', 'flags', 'files'), got, exp):
                    ctx.check(g == e, f"{name} differ")
                ctx.nontrivial((what, n))
                ctx.outcome((what, n))
    elif part == 'pairs':
        # two successive entries: no leak from one to the next
        dirs = ((7, None, 'D'),)
        variants = [file('a', d, s, m, c, lk) for d in (None, 7) for m, s in ((None, 1), (5, 2)) for c, lk in (((), None), ((6, 5), 'x'))]
        for v in variants:
            f, g = dict(variants[unit['first']]), dict(v, name='b')
            for mid in ((), (file('m', 7, 9, 2, (5, 5, 5), 'q', extra=True),)):
                one(ctx, 'pairs', B1, ALL, (f, *mid, g), dirs)
    elif part == 'masks':
        for i in range(64):
            for j in range(i, 64):
                one(ctx, 'masks', B1, ALL, (file(mask=1 << i | 1 << j),))
        one(ctx, 'masks', B1, ALL, (file(mask=2**64 - 1),))
        one(ctx, 'masks', B1, ALL[::-1], (file(mask=0xF0F0),))
        one(ctx, 'masks', B1, ALL, (file(mask=0),))
        # flags are identified by their ID, not by their position
        for ids in itertools.permutations((1, 2, 9, 64), 3):
            flags = tuple((i, f"n_{i}") for i in ids)
            for s in subsets(ids):
                one(ctx, 'masks', B1, flags, (file(mask=sum(1 << (i - 1) for i in s)),))
    elif part == 'chunks':
        bundles = ((1, ((1, 5, 6), (2, 7, 8))), (2, ((3, 2, 2),)), (3, ()), (4, ((4, 1, 9),)))
        for n in range(0, 5 if quick else 6):
            for seq in itertools.product((1, 2, 3, 4), repeat=n):
                one(ctx, 'chunks', bundles, (), (file(chunks=seq, size=n),))
    elif part == 'layout':
        files = (file('a', 7, 5, 3, (5, 6), 'l'), file('b', None, 6, None, ()))
        for hp, pad, version in itertools.product(range(10), range(5), ((2, 0), (2, 1))):
            one(ctx, 'layout', B1, ALL[:2], files, ((7, None, 'D'),), header_pad=hp, pad=pad, version=version)
        for present in itertools.product((0, 1), repeat=4):
            one(ctx, 'layout', B1 if present[0] else (), ALL if present[1] else (),
                (file('a', 7 if present[3] else None, 5, 3 if present[1] else None, (5,) if present[0] else ()),) if present[2] else (),
                ((7, None, 'D'),) if present[3] else ())
    elif part == 'input':
        data = enc.rman(list(B1), list(ALL), [file('a', 7, 5, 3, (5, 6), 'l')], [(7, None, 'D')])
        with ctx.tmp() as tmp:
            with open(f"{tmp}/m", 'wb') as f:
                f.write(data)
            with ctx.case({'what': 'path and open file'}):
                a = view(PatcherManifest(f"{tmp}/m"))
                with open(f"{tmp}/m", 'rb') as f:
                    b = view(PatcherManifest(f))
                ctx.equal(a, b, 'decoded from an open file')
                ctx.equal(a, expected(B1, ALL, [file('a', 7, 5, 3, (5, 6), 'l')], [(7, None, 'D')]), 'decoded')
                ctx.nontrivial('input')
    elif part == 'refuse':
        for version in itertools.product(range(4), repeat=2):
            for magic in (b'RMAN', b'RMAM', b'rman', b'\0\0\0\0'):
                with ctx.case({'what': 'refuse', 'version': version, 'magic': magic.decode()}):
                    data = enc.rman(list(B1), [], [], [], version=version, magic=magic)
                    ok = magic == b'RMAN' and version in ((2, 0), (2, 1))
                    try:
                        decode(data)
                    except Exception as e:
                        ctx.check(not ok, f'refused: {e!r}')
                    else:
                        ctx.check(ok, 'accepted')
                    ctx.nontrivial((version, magic))
