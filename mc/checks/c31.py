"""Atlases and champion skins: all small tables, both atlas formats"""
import io
import itertools
import json
import os
import re
import struct

from ..enc import LARGE, atlas_old, atlas_new, championskins, wad_hash
from .. import fsx
from cdtb.export import AtlasInfoConverter, ChampionSkinInfoConverter, FileConversionError

ID = 'C31'
LEVEL = 'exploration'
RULE = 'distinct tables; non-trivial when the table has a texture or a skin, or is refused as expected'
BOUNDS = {'quick': 'atlases: 0..3 paths x 0..2 textures over all names, indexes and boxes, 3 textures over all indexes, both formats; skins: 0..2 champions x 0..2 skins over names, ids and flags 0..5, 255; all other versions 0..255 and magic codes',
          'thorough': 'as quick with 3 textures over all names and indexes, and 3 skins'}
ASSUMPTIONS = ['names of textures and of champions are distinct in a table']

PATHS = ['ASSETS/UX/Atlas_0.dds', 'assets/ux/atlas_1.TEX', 'assets/plain.png', 'no_extension', 'a.dds/b.tex.dds', 'h\u00e9/X.Dds', 'p2202']   # the last one has a small hash
TEXTURES = ['ASSETS/Icons/First.dds', 't141', '', 'h\u00e9 "x"/\u4e2d.tex']
BOXES = [(0.0, 0.0, 1.0, 1.0), (0.125, 0.5, 0.1, 2.5e-8), (-1.0, 3e8, 0.3333, 7.0)]
KNOWN = {wad_hash(p): p for p in PATHS[:4] + TEXTURES[:1]}
HASHFILES = {'hashes.game.txt': {**KNOWN, wad_hash(TEXTURES[3]): TEXTURES[3]}}
KNOWN = HASHFILES['hashes.game.txt']


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def png_path(p):
    p = p.lower()
    for ext in ('.dds', '.tex'):
        if p.endswith(ext):
            return p[:-4] + '.png'
    return p


def convert(ctx, conv, data, path):
    with ctx.tmp() as tmp:
        ctx.check(conv.is_handled(path), f"{path} not handled")
        ctx.equal(list(conv.converted_paths(path)), [path + '.json'], 'converted paths')
        try:
            conv.convert(io.BytesIO(data), tmp, path)
        except FileConversionError:
            ok = False
        else:
            ok = True
        got = {k: v for k, v in fsx.snapshot(tmp).items() if v[0] != 'd' and k != '.sentinel'}
        ctx.equal(sorted(got), [path + '.json'] if ok else [], 'files')
        return json.loads(got[path + '.json'][1].decode('utf-8'), object_pairs_hook=unique(ctx)) if ok else None


def unique(ctx):
    def hook(pairs):
        ctx.check(len({k for k, _ in pairs}) == len(pairs), 'duplicate JSON keys')
        return dict(pairs)
    return hook


ATLAS = AtlasInfoConverter(re.compile(r'atlas_info\.bin$'))
APATH = 'game/assets/items/icons2d/autoatlas/small/atlas_info.bin'
SPATH = 'game/global/champions/championskins.info'


def check_atlas(ctx, desc, paths, textures):
    """textures: [(name, box, index)], both formats"""
    for fmt in ('old', 'new'):
        with ctx.case({**desc, 'format': fmt}):
            if fmt == 'old':
                data = atlas_old(paths, textures)
                name = lambda n: n
                apath = png_path
            else:
                data = atlas_new([wad_hash(p) for p in paths], [(wad_hash(n), b, i) for n, b, i in textures])
                name = lambda n: KNOWN.get(wad_hash(n), f"{{{wad_hash(n):016x}}}")
                apath = lambda p: png_path(KNOWN[wad_hash(p)]) if wad_hash(p) in KNOWN else f"{{{wad_hash(p):016x}}}"
            if any(i >= len(paths) for _, _, i in textures):
                ctx.equal(convert(ctx, ATLAS, data, APATH), None, 'conversion of a table with a dangling index')
                continue
            exp = {}
            for n, b, i in textures:
                x0, y0, x1, y1 = map(f32, b)
                exp[name(n)] = {'atlasPath': apath(paths[i]), 'startX': x0, 'startY': y0, 'endX': x1, 'endY': y1}
            got = convert(ctx, ATLAS, data, APATH)
            ctx.equal(got, exp, 'atlas')
            if textures:
                ctx.nontrivial((desc, fmt))
            ctx.outcome(sorted(exp.items(), key=repr))


def check_skins(ctx, desc, champions):
    with ctx.case(desc):
        got = convert(ctx, ChampionSkinInfoConverter(), championskins(champions), SPATH)
        ctx.equal(got, {c: {str(i): {'name': n, 'prestige': flag == 4} for i, flag, n in skins} for c, skins in champions}, 'skins')
        if any(s for _, s in champions):
            ctx.nontrivial(desc)
        ctx.outcome(repr(champions))


def units(tier):
    return [{'part': 'atlas', 'n': n, 'k': k} for n in range(4) for k in range(3)] + [{'part': 'skins', 'k': k} for k in range(6)] + [{'part': 'large', 'what': w} for w in ('atlases', 'textures', 'champions', 'skins', 'names')] + [{'part': 'refused'}, {'part': 'handled'}]


def run(unit, ctx):
    part = unit['part']
    if part == 'atlas':
        i = 0
        for paths in itertools.permutations(PATHS, unit['n']):
            i += 1
            if i % 3 != unit['k']:
                continue
            full = set(paths) <= set(PATHS[:4])
            check_atlas(ctx, {'paths': paths}, list(paths), [])
            cells = [(t, b, x) for t in TEXTURES for b in BOXES for x in range(len(paths) + 1)]
            for c in cells:
                check_atlas(ctx, {'paths': paths, 'textures': [c]}, list(paths), [c])
            if len(paths) <= 2 or i % 8 == 0:
                for c in itertools.product(cells, repeat=2):
                    if c[0][0] != c[1][0] and c[0][1] != c[1][1] and max(x[2] for x in c) < len(paths):
                        check_atlas(ctx, {'paths': paths, 'textures': c}, list(paths), list(c))
            if len(paths) == 3 and full or ctx.tier == 'thorough':
                names = itertools.permutations(TEXTURES, 3) if ctx.tier == 'thorough' else [TEXTURES[:3], TEXTURES[:0:-1]]
                for t in names:
                    for idx in itertools.product(range(len(paths)), repeat=3):
                        check_atlas(ctx, {'paths': paths, 'three': (t, idx)}, list(paths), list(zip(t, BOXES, idx)))
    elif part == 'large':
        what = unit['what']
        for n in LARGE:
            desc = {'large': what, 'n': n}
            if what == 'atlases':
                check_atlas(ctx, desc, [f"a/{i}.dds" for i in range(n)], [(f"t{i}", BOXES[0], i) for i in (0, n // 2, n - 1)])
            elif what == 'textures':
                check_atlas(ctx, desc, list(PATHS[:2]), [(f"t{i}", BOXES[i % len(BOXES)], i % 2) for i in range(n)])
            elif what == 'champions':
                check_skins(ctx, desc, [(f"Champ{i}", [(i, i % 5, f"skin {i}")]) for i in range(n)])
            elif what == 'skins':
                check_skins(ctx, desc, [('Annie', [(i, i % 5, f"skin {i}") for i in range(n)]), ('Olaf', [(1, 4, 'x')])])
            else:
                check_skins(ctx, desc, [('x' * n, [(1, 4, 'y' * n), (2, 0, 'z')]), ('Olaf', [(1, 4, 'x')])])
    elif part == 'skins':
        ids = (0, 1, 2, 2**32 - 1, 10001)
        names = ('', 'Skin \u00e9"', 'x' * 300)
        flags = (0, 1, 2, 3, 4, 5, 255)
        cells = [(a, f, n) for a in ids for f in flags for n in names]
        lists = [[]] + [[c] for c in cells]
        if unit['k'] == 0:
            check_skins(ctx, {'champions': 0}, [])
            for cn in ('Annie', '', "Kai'Sa \u4e2d"):
                for s in lists:
                    check_skins(ctx, {'champion': cn, 'skins': s}, [(cn, s)])
        pairs = [list(p) for p in itertools.product(cells[::4], cells[1::5]) if p[0][0] != p[1][0]]
        for j, s in enumerate(pairs):
            if j % 6 == unit['k']:
                check_skins(ctx, {'two skins': s}, [('Annie', s)])
                check_skins(ctx, {'two champions': s}, [('Olaf', s[:1]), ('Annie', s[::-1]), ('X', [])])
        if ctx.tier == 'thorough':
            for j, s in enumerate(itertools.permutations(cells[::2], 3)):
                if j % 6 == unit['k'] and len({c[0] for c in s}) == 3:
                    check_skins(ctx, {'three skins': s}, [('Annie', list(s))])
    elif part == 'refused':
        champs = [('Annie', [(1, 4, 'x')])]
        for version in list(range(256)) + [2**16 + 2, 2**32 - 1]:
            if version == 2:
                continue
            with ctx.case({'version': version}):
                ctx.equal(convert(ctx, ChampionSkinInfoConverter(), championskins(champs, version), SPATH), None, 'conversion')
                ctx.nontrivial(('v', version))
        for magic in (b'Cham', b'mahc', b'MAHC', b'\0\0\0\0', b'IMAA', b'mahC'[::-1]):
            with ctx.case({'magic': repr(magic)}):
                ctx.equal(convert(ctx, ChampionSkinInfoConverter(), championskins(champs, 2, magic), SPATH), None, 'conversion')
                ctx.nontrivial(('m', magic))
        for magic in (b'AAMI', b'IMAa', b'PROP', b'\xff\xff\xff\xff'):
            with ctx.case({'atlas magic': repr(magic)}):
                data = magic + atlas_new([1], [(2, BOXES[0], 0)])[4:]
                ctx.equal(convert(ctx, ATLAS, data, APATH), None, 'conversion')
                ctx.nontrivial(('a', magic))
    elif part == 'handled':
        for p in (SPATH, 'game/global/champions/championskins.infox', 'global/champions/championskins.info', 'game/x/global/champions/championskins.info', ''):
            with ctx.case({'handled': p}):
                ctx.equal(ChampionSkinInfoConverter().is_handled(p), p == SPATH, 'handled')
                ctx.nontrivial(p)
