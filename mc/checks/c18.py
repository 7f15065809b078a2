"""Skin models: decoding and OBJ text, for all small models"""
import io
import itertools
import os
import re
import struct

from ..enc import LARGE, skn
from .. import fsx
from cdtb.sknfile import SknFile
from cdtb.export import SknConverter

ID = 'C18'
LEVEL = 'exploration'
RULE = 'distinct (model, version, vertex type) cases; non-trivial when the model has a face'
BOUNDS = {'quick': 'versions 0..4, vertex types 0..2; single parts: all index triples over 4 vertices, all pairs of triangles over 2 vertices; two parts: all sizes up to 3 x 2, all gaps 0..2, both orders, shared vertices; counts and sizes around 2**8, 2**15 and 2**16',
          'thorough': 'as quick with all pairs of triangles over 3 vertices and 3 parts'}
ASSUMPTIONS = ['part names are distinct', 'indices of a part lie in its range of vertices (or are relative to it and below its start)']

VERSIONS = [(0, 0, 0), (0, 1, 0), (1, 1, 0), (2, 1, 0), (3, 0, 0), (4, 1, 0), (4, 1, 1), (4, 2, 2)]


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def vertex(i):
    k = float(i + 1)
    return dict(position=(f32(0.1 * k), -k, 1e-5 if i % 2 else 3e7 * k), bones=(i % 256, 255 - i % 256, 0, 7), weight=(f32(0.3), 0.25, k, 0.0),
                normal=(0.0, -1.0, f32(0.7 / k)), uv=(f32(k / 3), 1.0 - k), color=(i % 256, 1, 2, 255), tangent=(k, f32(0.2), -k, 1.0))


def vlist(n):
    out = []
    for i in range(n):
        v = vertex(i)
        v['position'] = tuple(f32(x) for x in v['position'])
        out.append(v)
    return out


def parse_obj(ctx, text):
    v, vt, vn, faces = [], [], [], []
    for line in text.splitlines():
        fields = line.split(' ')
        if fields[0] in ('v', 'vt', 'vn'):
            dst, n = {'v': (v, 3), 'vt': (vt, 2), 'vn': (vn, 3)}[fields[0]]
            ctx.equal(len(fields), n + 1, f"fields of {line!r}")
            dst.append(tuple(float(x) for x in fields[1:]))
        elif fields[0] == 'f':
            m = re.fullmatch(r'f (\d+)/(\d+)/(\d+) (\d+)/(\d+)/(\d+) (\d+)/(\d+)/(\d+)', line)
            ctx.check(m, f"malformed face {line!r}")
            idx = [int(x) for x in m.groups()]
            ctx.check(idx[0] == idx[1] == idx[2] and idx[3] == idx[4] == idx[5] and idx[6] == idx[7] == idx[8], f"face {line!r}")
            faces.append((idx[0], idx[3], idx[6]))
        else:
            ctx.check(not line.strip() or line.startswith('#'), f"unexpected line {line!r}")
    return v, vt, vn, faces


def check_model(ctx, tmp, desc, ver, parts, nverts, indices, raw={}):
    """parts: [(name, start vertex, vertex count, start index, index count, expected faces)]"""
    major, minor, vtype = ver
    vertices = vlist(nverts)
    with ctx.case(desc):
        data = skn(major, minor, [(raw.get(p[0], p[0]), *p[1:5]) for p in parts], indices, vertices, vtype, unknown=3)
        path = f"{tmp}/in.skn"
        with open(path, 'wb') as f:
            f.write(data)
        for src in (io.BytesIO(data), path):
            s = SknFile(src)
            ctx.equal((s.major, s.minor), (major, minor), 'version')
            ctx.equal([e['name'] for e in s.entries], [p[0] for p in parts], 'names')
            for e, p in zip(s.entries, parts):
                vs = vertices[p[1]:p[1] + p[2]]
                ctx.equal(len(e['vertices']), len(vs), 'number of vertices')
                for a, b in zip(e['vertices'], vs):
                    ctx.equal((a['position'], a['bone_indices'], a['weight'], a['normal'], a['uv']), (b['position'], b['bones'], b['weight'], b['normal'], b['uv']), 'vertex')
                    ctx.equal(a['color'], b['color'] if major == 4 and vtype >= 1 else None, 'color')
                    ctx.equal(a['tangent'], b['tangent'] if major == 4 and vtype == 2 else None, 'tangent')
                ctx.equal(list(e['indices']), [x for f in p[5] for x in f], 'indices')
                check_obj(ctx, s.to_obj(e), vs, p[5])
        out = f"{tmp}/out"
        os.makedirs(f"{out}/game/m", exist_ok=True)
        with open(f"{out}/game/m/stale.obj", 'w') as f:
            f.write('stale')
        SknConverter().convert(io.BytesIO(data), out, 'game/m.skn')
        snap = fsx.snapshot(out)
        exp = {'game/m.skn'} | {f"game/m/{p[0]}.obj" for p in parts}
        ctx.equal(sorted(k for k, v in snap.items() if v[0] != 'd'), sorted(exp), 'files of the conversion')
        ctx.check(snap['game/m.skn'][1] == data, 'the raw copy differs')
        for p in parts:
            check_obj(ctx, snap[f"game/m/{p[0]}.obj"][1].decode(), vertices[p[1]:p[1] + p[2]], p[5])
        if any(p[5] for p in parts):
            ctx.nontrivial(desc)
        ctx.outcome([(p[2], p[5]) for p in parts])


def check_obj(ctx, text, vs, faces):
    v, vt, vn, f = parse_obj(ctx, text)
    ctx.equal(v, [x['position'] for x in vs], 'OBJ positions')
    ctx.equal(vt, [x['uv'] for x in vs], 'OBJ texture coordinates')
    ctx.equal(vn, [x['normal'] for x in vs], 'OBJ normals')
    ctx.equal(f, [tuple(x) for x in faces], 'OBJ faces')


def units(tier):
    return [{'part': p, 'ver': v} for v in VERSIONS for p in ('single', 'multi', 'names', 'two', 'large')] + [{'part': 'refused'}]


def flat(tris):
    return [x for t in tris for x in t]


def up(tris, n=1):
    return [tuple(x + n for x in t) for t in tris]


def run(unit, ctx):
    part = unit['part']
    if part == 'refused':
        for bad in (b'', b'\x33\x22\x11', b'\x00\x11\x22\x33' + b'\0' * 60, b'33\x11\0' + b'\0' * 60):
            with ctx.case({'refused': repr(bad[:4])}):
                try:
                    SknFile(io.BytesIO(bad))
                except ValueError:
                    pass
                else:
                    ctx.fail('no error')
        return
    ver = tuple(unit['ver'])
    name = 'Unknown' if ver[0] == 0 else 'Body_Mat'
    with ctx.tmp() as tmp:
        if part == 'large':
            for n in LARGE if ver in (VERSIONS[0], VERSIONS[2], VERSIONS[-1]) or ctx.tier == 'thorough' else (257, 65537):
                # triangles, vertices (as long as indices reach them), parts
                tris = [(i % 5, (i + 1) % 5, (i * i + 2) % 5) for i in range(n // 3)]
                check_model(ctx, tmp, {'indices': n, 'ver': ver}, ver, [(name, 0, 5, 0, len(tris) * 3, up(tris))], 5, flat(tris))
                v = min(n, 65536)
                tris = [(v - 1, 0, v // 2), (1, v - 2, v - 1)]
                check_model(ctx, tmp, {'vertices': v, 'ver': ver}, ver, [(name, 0, v, 0, 6, up(tris))], v, flat(tris))
                if ver[0]:
                    # start of the indices, of the vertices (absolute and relative indices)
                    tri = [(0, 1, 2), (2, 1, 0)]
                    check_model(ctx, tmp, {'start of indices': n, 'ver': ver}, ver, [('first', 0, 3, 0, 3, [(1, 2, 3)]), ('second', 0, 3, n, 6, up(tri))], 3, [0, 1, 2] + [0] * (n - 3) + flat(tri))
                    check_model(ctx, tmp, {'start of vertices (relative)': n, 'ver': ver}, ver, [('first', 0, 3, 3, 3, [(1, 2, 3)]), ('second', n, 3, 6, 6, up(tri))], n + 3, [0, 1, 2] * 2 + flat(tri))
                    if n + 3 <= 65536:
                        check_model(ctx, tmp, {'start of vertices': n, 'ver': ver}, ver, [('first', 0, 3, 3, 3, [(1, 2, 3)]), ('second', n, 3, 6, 6, up(tri))], n + 3, [0, 1, 2] * 2 + [i + n for i in flat(tri)])
                if ver[0] and n <= 257:
                    tris = [(0, 1, 2)] * n
                    check_model(ctx, tmp, {'parts': n, 'ver': ver}, ver, [(f"part{i}", 0, 3, 3 * i, 3, [(1, 2, 3)]) for i in range(n)], 3, flat(tris))
        elif part == 'single':
            shapes = [(n, []) for n in range(5)]
            shapes += [(n, [t]) for n in range(1, 5) for t in itertools.product(range(n), repeat=3)]
            m = 3 if ctx.tier == 'thorough' else 2
            shapes += [(m, [a, b]) for a in itertools.product(range(m), repeat=3) for b in itertools.product(range(m), repeat=3)]
            shapes += [(300, [(0, 255, 256), (299, 1, 2), (3, 4, 5), (65, 66, 67)])]
            for n, tris in shapes:
                check_model(ctx, tmp, {'ver': ver, 'vertices': n, 'triangles': tris}, ver, [(name, 0, n, 0, 3 * len(tris), up(tris))], n, flat(tris))
        elif ver[0] == 0:
            return
        elif part == 'multi':
            # one part anywhere, unused vertices and indices around it
            for sv, n, si, after, relative in itertools.product(range(5), range(1, 4), (0, 1, 3, 4), (0, 2), (False, True)):
                if relative and n >= sv:
                    continue
                for tris in ([], [(0, n - 1, 0)], [(n - 1, 0, n // 2), (0, 0, n - 1)]):
                    idx = [0] * si + flat(up(tris, 0 if relative else sv)) + [0] * after
                    check_model(ctx, tmp, {'ver': ver, 'start': sv, 'n': n, 'start index': si, 'after': after, 'relative': relative, 'triangles': tris}, ver,
                                [(name, sv, n, si, 3 * len(tris), up(tris))], sv + n + after, idx)
        elif part == 'names':
            for nm in ('a', 'x' * 63, 'y' * 64, 'h\u00e9_\u4e2d', 'with space', 'dot.ted', 'UPPER'):
                check_model(ctx, tmp, {'ver': ver, 'name': nm}, ver, [(nm, 0, 2, 0, 3, [(1, 2, 1)])], 2, [0, 1, 0])
            check_model(ctx, tmp, {'ver': ver, 'parts': 0}, ver, [], 0, [])
            check_model(ctx, tmp, {'ver': ver, 'parts': 0, 'vertices': 2}, ver, [], 2, [0, 1, 1])
            for junk in (b'\0x', b'\0' * 3 + b'\xff\xfe', b'\0' + b'z' * 60):
                check_model(ctx, tmp, {'ver': ver, 'name': repr(junk)}, ver, [('ab', 0, 2, 0, 3, [(1, 2, 1)])], 2, [0, 1, 0], {'ab': b'ab' + junk})
            # parts without vertices
            for n, sv in itertools.product((1, 2), (0, 1, 2)):
                check_model(ctx, tmp, {'ver': ver, 'empty part': (n, sv)}, ver, [('empty', sv, 0, 0, 0, []), ('full', 0, n, 0, 3, [(1, n, 1)])], n + sv, [0, n - 1, 0])
        elif part == 'two':
            nparts = 3 if ctx.tier == 'thorough' else 2
            for sizes in itertools.product((1, 2, 3), repeat=nparts):
                for gap, swap, share in itertools.product((0, 1, 2), (False, True), (False, True)):
                    for ntris in itertools.product((0, 1, 2), repeat=nparts):
                        parts, idx, sv = [], [], gap
                        for k, (n, nt) in enumerate(zip(sizes, ntris)):
                            tris = [(0, n - 1, (k + 1) % n), (n - 1, 0, n - 1)][:nt]
                            parts.append((f"part{k}", sv, n, len(idx) + gap, 3 * nt, up(tris)))
                            idx += flat(up(tris, sv))
                            if not share:
                                sv += n + gap
                        total = max(p[1] + p[2] for p in parts) + gap
                        if swap:
                            parts.reverse()
                        check_model(ctx, tmp, {'ver': ver, 'sizes': sizes, 'gap': gap, 'swap': swap, 'share': share, 'triangles': ntris}, ver, parts, total, [0] * gap + idx)
