"""Extraction from RADS packages, under every fragmentation of the HTTP bodies"""
import gzip
import itertools
import os
import shutil
import zlib

from .. import fsx, world
from ..http import net
from cdtb.rads import RadsStorage, RadsProject, RadsProjectVersion, RadsVersion

ID = 'C08'
LEVEL = 'exploration'
RULE = 'distinct (layout, listing order, present files, wanted files, fragmentation) combinations; non-trivial when a file is extracted'
BOUNDS = {'quick': 'all layouts of 3 files with sizes 0..3, gaps 0..1 and a tail, with all fragmentations up to 5 bytes, and on a third of them up to 7 bytes and all pairs of cuts above; all listing orders x present files x wanted files x 4 fragmentations on 40 layouts; 3 files over 2 packages; compressed files (zlib, gzip) with all single cuts and one pair of cuts in 24; all pairs of 13 file names x compressions; packages cut at every position; bodies larger than the buffers; files around the size of the pieces asked for',
          'thorough': 'sizes 0..4, all fragmentations up to 9 bytes; orders, present and wanted files on all layouts'}
ASSUMPTIONS = ['files of a package do not overlap']

NAME, VERSION = 'lol_game_client', '0.0.1.7'
URL = f"{world.RADS_BASE}projects/{NAME}/releases/{VERSION}/packages/files"
PATHS = ['a.txt', 'D/b c.dat', 'D/e/f']


def content(i, size):
    return bytes((17 * i + j + 1) % 251 for j in range(size))


class Layout:
    """files: [(relative path, package index, data, compression)] in order of offset; gaps before each file"""

    def __init__(self, files, gaps, tail=0):
        self.files, self.bodies, self.table = files, {}, []
        for (rel, pkg, data, comp), gap in zip(files, gaps):
            body = self.bodies.get(pkg, b'')
            stored = {None: lambda d: d, 'zlib': zlib.compress, 'gzip': lambda d: gzip.compress(d, mtime=0), 'stored': lambda d: zlib.compress(d, 0)}[comp](data)
            body += b'\xdd' * gap
            self.table.append((f"projects/{NAME}/releases/{VERSION}/files/{rel}{'.compressed' if comp else ''}", f"BIN_0x0000000{pkg}", len(body), len(stored), 0))
            self.bodies[pkg] = body + stored
        self.bodies = {k: v + b'\xdd' * tail for k, v in self.bodies.items()}

    def describe(self):
        return [(t[0].rsplit('/files/', 1)[1], *t[1:4]) for t in self.table]


def fragment(body, cuts):
    points = [0, *cuts, len(body)]
    return [body[a:b] for a, b in zip(points, points[1:])]


def compositions(n):
    """All sets of cut positions"""
    for mask in range(1 << max(0, n - 1)):
        yield [i + 1 for i in range(n - 1) if mask >> i & 1]


def pairs_of_cuts(n):
    for a in range(n + 1):
        for b in range(a, n + 1):
            yield [a, b]


def one_case(ctx, tmp, layout, order, present, wanted, cuts):
    """cuts: {package index: cut positions} or a function of the body"""
    path = f"{tmp}/rads"
    shutil.rmtree(path, ignore_errors=True)
    world.reset_net()
    net.routes[f"{URL}/packagemanifest"] = world.package_manifest([layout.table[i] for i in order])
    for pkg, body in layout.bodies.items():
        net.routes[f"{URL}/BIN_0x0000000{pkg}"] = body
    net.fragmenter = lambda url, body: fragment(body, cuts(body)) if '/BIN_' in url else [body]
    storage = RadsStorage(path)
    pv = RadsProjectVersion(RadsProject(storage, NAME), RadsVersion(VERSION))
    full = lambda i: f"{path}/projects/{NAME}/releases/{VERSION}/files/{layout.files[i][0]}"
    expected = {}
    for i in present:
        os.makedirs(os.path.dirname(full(i)), exist_ok=True)
        with open(full(i), 'wb') as f:
            f.write(b'present')
        expected[layout.files[i][0]] = b'present'
    if wanted is None:
        pv.extract()
    else:
        pv.extract([f"projects/{NAME}/releases/{VERSION}/files/{layout.files[i][0]}" for i in wanted])
    todo = [i for i in (range(len(layout.files)) if wanted is None else wanted) if i not in present]
    for i in todo:
        expected[layout.files[i][0]] = layout.files[i][2]
    base = f"{path}/projects/{NAME}/releases/{VERSION}/files"
    got = {k: x[1] for k, x in fsx.snapshot(base).items()} if os.path.isdir(base) else {}
    ctx.equal(got, expected, 'extracted files')
    ctx.equal(sorted(u for u in net.gets() if '/BIN_' in u), sorted({f"{URL}/BIN_0x0000000{layout.files[i][1]}" for i in todo}), 'requested packages')
    paths = [f"projects/{NAME}/releases/{VERSION}/files/{f[0]}" for f in layout.files]
    ctx.equal(sorted(pv.filepaths()), sorted(paths), 'paths of the project')
    ctx.outcome((len(todo), len(layout.bodies)))
    if todo:
        ctx.nontrivial((layout.describe(), order, present, wanted, [cuts(b) for b in layout.bodies.values()]))


def short_case(ctx, tmp, layout, order, end, cuts):
    """A package body which ends too soon: an error, and no wrong content"""
    path = f"{tmp}/rads"
    shutil.rmtree(path, ignore_errors=True)
    world.reset_net()
    net.routes[f"{URL}/packagemanifest"] = world.package_manifest([layout.table[i] for i in order])
    net.routes[f"{URL}/BIN_0x00000000"] = layout.bodies[0][:end]
    net.fragmenter = lambda url, body: fragment(body, cuts(body)) if '/BIN_' in url else [body]
    pv = RadsProjectVersion(RadsProject(RadsStorage(path), NAME), RadsVersion(VERSION))
    short = any(t[2] + t[3] > end for t in layout.table if t[3])
    try:
        pv.extract()
    except Exception:
        ctx.check(any(t[2] + t[3] > end or t[2] > end for t in layout.table), 'error though the package holds all the files')
    else:
        ctx.check(not short, 'files are missing in the package, and no error is reported')
    base = f"{path}/projects/{NAME}/releases/{VERSION}/files"
    for k, x in (fsx.snapshot(base) if os.path.isdir(base) else {}).items():
        f = [f for f in layout.files if f[0] == k]
        ctx.check(x == ('d',) or f and x[1] == f[0][2], f"wrong content of {k}: {x}")
    if short:
        ctx.nontrivial(('short', layout.describe(), order, end, cuts(b'')))
    ctx.outcome(('short', short))


def plain_layouts(nfiles, maxsize, gaps=(0, 1)):
    for sizes in itertools.product(range(maxsize + 1), repeat=nfiles):
        for g in itertools.product(gaps, repeat=nfiles):
            for tail in (0, 1):
                yield Layout([(PATHS[i], 0, content(i, s), None) for i, s in enumerate(sizes)], g, tail)


def describe(layout, order, present, wanted, cuts):
    return lambda: {'files (path, package, offset, size)': layout.describe(), 'listing order': order, 'present': present, 'wanted': wanted, 'cuts': {k: cuts(b) for k, b in layout.bodies.items() if len(b) < 200}}


def run(unit, ctx):
    fsx.install()
    deep = ctx.tier == 'thorough'
    with ctx.tmp() as tmp:
        def go(layout, order, present, wanted, cuts):
            with ctx.case(describe(layout, order, present, wanted, cuts)):
                one_case(ctx, tmp, layout, order, present, wanted, cuts)

        kind, part, parts = unit['kind'], unit['part'], unit['parts']
        n = 0
        if kind == 'fragments':
            for layout in plain_layouts(unit['files'], 4 if deep else 3):
                n += 1
                if n % parts != part:
                    continue
                size = len(layout.bodies[0])
                if not deep and (size > 7 and n % 12 >= 2 or size > 5 and unit['files'] == 3 and n % 3):
                    continue
                for cuts in compositions(size) if size <= (9 if deep else 6 if unit['files'] == 3 else 7) else pairs_of_cuts(size):
                    go(layout, range(unit['files']), (), None, lambda body, cuts=cuts: cuts)
        elif kind == 'orders':
            layouts = list(plain_layouts(3, 2))
            for layout in layouts if deep else layouts[::11]:
                for order in itertools.permutations(range(3)):
                    for present in world.subsets(range(3)):
                        for wanted in (None, *world.subsets(range(3)), (2, 0), (2, 1, 0)):
                            n += 1
                            if n % parts != part:
                                continue
                            size = len(layout.bodies[0])
                            cuts = [[], list(range(1, size)), list(range(2, size, 2)), list(range(1, size, 3))][n // parts % 4]
                            go(layout, order, present, wanted, lambda body: [c for c in cuts if c < len(body)])
        elif kind == 'packages':
            for pkgs in itertools.product((0, 1), repeat=3):
                for sizes in itertools.product((0, 1, 3), repeat=3):
                    for gaps in ((0, 0, 0), (1, 0, 2), (0, 2, 1)):
                        layout = Layout([(PATHS[i], pkgs[i], content(i, s), None) for i, s in enumerate(sizes)], gaps)
                        for order in itertools.permutations(range(3)):
                            for present in world.subsets(range(3)):
                                n += 1
                                if n % parts != part or not deep and n // parts % 3:
                                    continue
                                step = n // parts % 3 + 1
                                go(layout, order, present, None, lambda body: list(range(step, len(body), step)))
        elif kind == 'compressed':
            for comps in itertools.product((None, 'zlib', 'gzip', 'stored'), repeat=2):
                for sizes in itertools.product((0, 1, 40), repeat=2):
                    layout = Layout([(PATHS[i], 0, content(i, s), c) for i, (s, c) in enumerate(zip(sizes, comps))], (1, 1), 1)
                    size = len(layout.bodies[0])
                    for cuts in pairs_of_cuts(size):
                        n += 1
                        if n % parts == part and (deep or n // parts % 24 == 0 or cuts[0] == cuts[1]):
                            go(layout, (1, 0), (), None, lambda body: cuts)
                    go(layout, (0, 1), (), (1,), lambda body: range(1, size))
        elif kind == 'names':
            # what is not the suffix of a compressed file
            names = ['a.txt', 'a.compressed.txt', 'd.compressed/b', 'acompressed', 'c.Compressed', 'e.compressed', 'a.txt.compressed.d/.compressed.txt', 'z.compressed_', 'gz/f.gz', 'sp ace/f(1).x', '\xe9/\xfc.txt', '.h', 'releases/files/f']
            for (i, x), (j, y) in itertools.permutations(enumerate(names), 2):
                for comps in itertools.product((None, 'zlib', 'gzip'), repeat=2):
                    if any(c is None and f.endswith('.compressed') for f, c in zip((x, y), comps)):
                        continue
                    layout = Layout([(x, 0, content(i, 9), comps[0]), (y, 0, content(j, 7), comps[1])], (0, 0))
                    for wanted in (None, (1,)):
                        go(layout, (0, 1), (), wanted, lambda body: [4])
        elif kind == 'short':
            # the package ends before a listed file does
            for layout in plain_layouts(3, 2 if not deep else 3):
                n += 1
                if n % parts != part:
                    continue
                for end in range(len(layout.bodies[0])):
                    for step in (1, 2, 100):
                        for order in ((0, 1, 2), (2, 0, 1)):
                            cuts = range(step, end, step)
                            with ctx.case(describe(layout, order, (), None, lambda body: list(cuts)), timeout=10):
                                short_case(ctx, tmp, layout, order, end, lambda body: list(cuts))
        else:
            # larger than any buffer, fragments of common sizes
            for sizes in ((70000, 3, 200000), (8192, 16384, 8191), (65536, 0, 65537)):
                for comp in (None, 'zlib', 'stored'):
                    layout = Layout([(PATHS[i], 0, content(i, s), comp if i != 1 else None) for i, s in enumerate(sizes)], (0, 100, 1), 5)
                    for step in (1024, 4096, 8192, 10000, 65536, 10**7):
                        for present in world.subsets(range(3)):
                            go(layout, (2, 0, 1), present, None, lambda body: list(range(step, len(body), step)))
            # as large as the pieces which are asked for
            piece = 10 * 2**20
            for sizes in ((piece, 5, piece), (piece - 1, 1, 7), (piece + 1, piece - 2, 7)):
                layout = Layout([(PATHS[i], 0, (content(i, 251) * (s // 251 + 1))[:s], None) for i, s in enumerate(sizes)], (0, 0, 1), 5)
                for step in (piece, 2**20):
                    go(layout, (2, 0, 1), (), None, lambda body: list(range(step, len(body), step)))


def units(tier):
    u = []
    for kind, parts, extra in (('fragments', 4, {'files': 1}), ('fragments', 8, {'files': 2}), ('fragments', 24, {'files': 3}), ('orders', 8, {}), ('packages', 8, {}), ('compressed', 8, {}), ('names', 1, {}), ('short', 4, {}), ('large', 1, {})):
        u += [{'kind': kind, 'parts': parts, 'part': k, **extra} for k in range(parts)]
    return u
