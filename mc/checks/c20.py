"""Malformed assets in an export: every truncation and every change of a byte of an asset of each kind"""
import io
import itertools
import json
import os
import re
import struct

from PIL import Image

from .. import enc, fsx, patches
from ..enc import V, wad_hash
from ..patches import Wad, Store, element, RawExporter, outputs, sample

ID = 'C20'
LEVEL = 'exploration'
RULE = 'distinct (asset kind, place, malformed content) combinations; non-trivial when the content differs from the valid one'
BOUNDS = {'quick': 'names and directories of 200 to 300 characters; 22 assets (images, textures, bin, skn, string tables, atlases, champion skins, extensionless and unknown files): every truncation, every byte changed to 8 values, each 16-bit and 32-bit little-endian field to 4 values, in a WAD between other files; undecodable entries (subchunks without match) at every pair of places',
          'thorough': 'as quick with all 256 values of each byte, one third of them over a former export as well, as a plain file as well'}
ASSUMPTIONS = ['the archives themselves are valid: only the content of an asset is malformed, or its subchunks match no entry of the table']

# kind: path in the archive (None: unknown hash)
PATHS = {'dds': 'assets/bad.dds', 'ddsdxt': 'assets/bad.dds', 'tga': 'assets/bad.tga', 'tex': 'assets/bad.tex', 'texmips': 'assets/bad.tex', 'texdxt': 'assets/bad.tex', 'texbc7': 'assets/bad.tex', 'bin': 'data/bad.bin', 'bin2': 'data/bad.bin',
         'ptch': 'data/bad.bin', 'skn0': 'assets/bad.skn', 'skn2': 'assets/bad.skn', 'skn4': 'assets/bad.skn', 'rst2': 'data/menu/bad.txt', 'rst3': 'data/menu/en_us/bad.stringtable', 'rst5': 'data/menu/en_us/bad.stringtable',
         'atlas': 'assets/bad', 'imaa': 'assets/items/icons2d/autoatlas/bad/atlas_info.bin', 'champ': 'global/champions/championskins.info', 'json': 'assets/noext', 'unknown': None, 'deep': None}
GOOD = {'assets/a.dds': 'dds', 'assets/z.txt': 'txt', 'data/g.bin': 'bin', 'assets/g.skn': 'skn'}
# names of undecodable entries
BAD = ['assets/bad.dds', 'assets/bad.txt', 'data/bad.bin', 'assets/bad']
# names which are too long for a file system, or whose outputs are
LENGTHS = [200, 250, 251, 252, 255, 256, 257, 300]


def long_path(kind, length, where):
    if where == 'directory':
        return f"assets/{'d' * length}/f.{kind}"
    if where == 'both':
        return f"assets/{'d' * length}/{'n' * (length - len(kind) - 1)}.{kind}"
    return f"assets/{'n' * (length - len(kind) - 1)}.{kind}"


LONG = [long_path(k, n, w) for k in ('txt', 'dds', 'bin', 'skn') for n in LENGTHS for w in ('name', 'directory', 'both')]
HASHFILES = {**patches.RST_HASHFILES, 'hashes.game.txt': {wad_hash(p): p for p in [*PATHS.values(), *GOOD, *BAD, *LONG] if p}, 'hashes.lcu.txt': {}}
UNKNOWN = {'unknown': 0x99, 'deep': 0x9a}


def _vertex(n):
    return dict(position=(1.0, 2.0, float(n)), bones=(0, 1, 2, 3), weight=(1.0, 0.0, 0.0, 0.0), normal=(0.0, 0.0, 1.0), uv=(0.25, 0.5), color=(1, 2, 3, 4), tangent=(0.0,) * 4)


def valid(kind):
    if kind in ('dds', 'tga', 'bin'):
        if kind != 'bin':
            return sample(kind, 1)
        return enc.binfile([('e', 't', [('a', V('u32', 7)), ('l', V('list', [V('u8', 1), V('u8', 2)], 'u8')), ('s', V('string', 'text')), ('p', V('struct', [('x', V('float', 1.0))], 'c'))]),
                            ('e2', 't', [('m', V('map', [(V('u8', 1), V('string', 'v'))], 'u8', 'string')), ('o', V('option', V('u16', 3), 'u16'))])], linked=['a/b.bin'])
    if kind == 'ddsdxt':
        return b'DDS ' + struct.pack('<7L44x', 124, 0x1007, 4, 4, 8, 0, 0) + struct.pack('<LL4s20x', 32, 4, b'DXT1') + struct.pack('<L16x', 0x1000) + b'\x12\x34\x56\x78\x9a\xbc\xde\xf0'
    if kind == 'tex':
        return enc.tex(2, 2, 0x14, False, bytes(range(16)))
    if kind == 'texmips':
        return enc.tex(2, 2, 0x14, True, bytes(range(4)) + bytes(range(16)))
    if kind == 'texdxt':
        return enc.tex(4, 8, 0x0a, False, bytes(range(16)))
    if kind == 'texbc7':
        return enc.tex(4, 4, 0x0d, False, b'\x40' + bytes(15))
    if kind == 'bin2':
        return enc.binfile([('e', 't', [('v', V('vec3', (1.0, 2.0, 3.0))), ('b', V('bool', True)), ('h', V('hash', 'x')), ('k', V('link', 'y')), ('e', V('embedded', [('z', V('s64', -1))], 'd'))])], version=2)
    if kind == 'ptch':
        return enc.binfile([('e', 't', [('a', V('u8', 7))])], patch=[('e', 'a.b', V('u8', 3)), ('e', 'c', V('string', 'zz'))])
    if kind == 'skn0':
        return enc.skn(0, 1, [], [0, 1, 2], [_vertex(n) for n in range(3)])
    if kind == 'skn2':
        return enc.skn(2, 1, [('body', 0, 3, 0, 3), ('arm', 1, 2, 0, 0)], [0, 1, 2], [_vertex(n) for n in range(3)])
    if kind == 'skn4':
        return enc.skn(4, 1, [('body', 0, 3, 0, 3)], [0, 1, 2], [_vertex(n) for n in range(3)], 2)
    if kind == 'rst2':
        return enc.rst(2, [(5, b'abc'), (6, b'\xc3\xa9')], 1000, font_config='[x]')
    if kind == 'rst3':
        return enc.rst(3, [(5, b'abc'), (6, ('enc', b'\x01\x02'))], 1000, trenc=True)
    if kind == 'rst5':
        return enc.rst(5, [(5, b'abc'), (6, b'')], 1502)
    if kind == 'atlas':
        return enc.atlas_old(['a.dds', 'b.tex'], [('t0', (0.0, 0.0, 1.0, 1.0), 0), ('t1', (0.0, 0.5, 1.0, 1.0), 1)])
    if kind == 'imaa':
        return enc.atlas_new([1, 2], [(5, (0.0, 0.0, 1.0, 1.0), 0), (6, (0.0, 0.0, 1.0, 1.0), 1)])
    if kind == 'champ':
        return enc.championskins([('Annie', [(1, 0, 'x'), (2, 4, 'y')]), ('Ok', [])])
    if kind in ('json', 'unknown'):
        return b'{"a": [1, "b", null]}'
    return b'[0]'


def changes(kind, tier):
    """Yield malformed contents"""
    data = valid(kind)
    seen = {data}

    def new(d):
        if d not in seen:
            seen.add(d)
            return True
        return False
    if kind == 'deep':
        # contents which are not malformed byte by byte but for the size of what they declare
        for d in (b'[' * 100, b'[' * 100000, b'{"a":' * 50000, b'1' * 5000, b'[' + b'9' * 100000 + b']', b'-' + b'1' * 4301, b'1e' + b'9' * 5000, b'"' + b'a' * 100000, b'\xff\xfe[\x00', b'\0' * 7, b'TEX', b'TEX\0', b'PROP', b'PTCH', b'DDS ',
                  b'IMAA', b'RST', b'\x33\x22\x11\x00', b'\xef\xbb\xbf[]', b'NaN', b'[' * 990 + b']' * 990, b'\xed\xa0\x80', b'"\\ud800"', b'\x00', b'\xff' * 64):
            yield d
        return
    for n in range(len(data)):
        if new(data[:n]):
            yield data[:n]
    values = (0, 1, 0x7f, 0x80, 0xff, 0x2f, 0x2e, None) if tier == 'quick' else range(256)
    for i in range(len(data)):
        for v in values:
            d = data[:i] + bytes((v if v is not None else data[i] ^ 1,)) + data[i + 1:]
            if new(d):
                yield d
    for i in range(len(data) - 3):
        for f in (b'\xff\xff\xff\xff', b'\0\0\0\x80', b'\xff\xff', b'\0\0\0\0', b'\0\0\x01\0'):
            d = data[:i] + f + data[i + len(f):]
            if new(d):
                yield d
    for extra in (b'\0', b'\xff' * 5, data):
        if new(data + extra):
            yield data + extra


def whole(ctx, name, data, is_obj=False):
    """Whether an output is a complete conversion"""
    if name.endswith('.png'):
        im = Image.open(io.BytesIO(data))
        ctx.equal(im.format, 'PNG', f"format of {name}")
        im.load()
        ctx.check(data.endswith(b'IEND\xaeB`\x82'), f"truncated {name}")
    elif name.endswith('.json'):
        try:
            json.loads(data)
        except ValueError as e:
            ctx.fail(f"{name} is not complete: {e}: {data[-60:]!r}")
    elif name.endswith('.obj'):
        text = data.decode()
        ctx.check(text == '' or text.endswith('\n'), f"truncated {name}")
        for line in text.split('\n')[:-1]:
            ctx.check(re.match(r'^($|#|(?:[a-z]+ |[a-z]+$))', line), f"malformed line in {name}: {line!r}")
            if line.startswith('f '):
                ctx.equal(len(line.split()), 4, f"face of {name}")
    else:
        ctx.fail(f"unexpected output {name}")


def skn_parts(data):
    """Names of the parts of a model, None if they cannot be got"""
    try:
        if struct.unpack_from('<H', data, 4)[0] == 0:
            return {'Unknown'}
        count = struct.unpack_from('<I', data, 8)[0]
        return {struct.unpack_from('64s', data, 12 + 80 * i)[0].split(b'\0')[0].decode() for i in range(count)}
    except (struct.error, UnicodeDecodeError):
        return None


def elements(store, kind, data, place):
    good = [(p, None, sample(k, 1), 'zstd') for p, k in GOOD.items()]
    plain = [('a.txt', b'a', ''), ('z.txt', b'z', '')]
    if data is not None:
        if place == 'plain':
            ext = os.path.splitext(PATHS[kind])[1]
            plain.insert(1, ('bad' + ext, data, ''))
        else:
            good.insert(2, (PATHS[kind], UNKNOWN[kind] if PATHS[kind] is None else None, data, 'raw'))
    return [element(store, 'game', '14.6', plain, [Wad('data/final/a.wad.client', good)])]


def snapshot(out):
    return {k: v for k, v in fsx.snapshot(out).items() if v != ('d',) and not k.startswith('cdragon/')}


def verify(ctx, out, kind, data, place, others, refresh):
    got = snapshot(out)
    for k, v in others.items():
        if got.pop(k, None) != v:
            ctx.fail(f"other file {k} differs")
    if place == 'plain':
        path = 'bad' + os.path.splitext(PATHS[kind])[1]
        allowed = outputs(path)
    elif PATHS[kind] is None:
        path = None
        allowed = None
    else:
        path = 'game/' + PATHS[kind]
        allowed = None
    for name, (t, content) in got.items():
        ctx.equal(t, 'f', f"type of {name}")
        if path is None or kind == 'json':
            ctx.check(name.startswith('game/unknown/%016x' % UNKNOWN[kind] if path is None else f"game/{PATHS[kind]}.cdtb"), f"unexpected output {name}")
            if name.endswith('.json') and content != data:
                whole(ctx, name, content)
            elif name.endswith(('.png', '.obj')) and content != data:
                whole(ctx, name, content)
            else:
                ctx.check(content == data, f"altered copy {name}")
            continue
        stem = os.path.splitext(path)[0]
        if kind == 'atlas':
            ctx.check(name.startswith(path + '.cdtb'), f"unexpected output {name}")
            whole(ctx, name, content)
        elif name == path:
            ctx.check(content == data, f"altered copy {name}")
        else:
            exp = outputs(path)
            ctx.check(name in exp or stem in exp and name.startswith(stem + '/') and name.endswith('.obj') and '/' not in name[len(stem) + 1:], f"unexpected output {name}")
            whole(ctx, name, content)
    if kind.startswith('skn'):
        parts = {os.path.basename(n)[:-4] for n in got if n.endswith('.obj')}
        ctx.check(not parts or parts == skn_parts(data), lambda: f"exported parts of a model: {sorted(parts)}, instead of all or none")
    if path is not None and kind not in ('atlas', 'json') and path in outputs(path):
        ctx.check(path in got, f"missing raw copy {path}")
    return got


def units(tier):
    u = [{'kind': k, 'place': 'wad', 'part': i} for k in PATHS for i in range(3)]
    if tier == 'thorough':
        u += [{'kind': k, 'place': 'wad', 'part': i, 'former': True} for k in PATHS for i in range(1)]
    u += [{'kind': k, 'place': 'plain', 'part': i} for k in ('dds', 'tga', 'tex', 'skn2') for i in range(3) if tier == 'thorough' or i == 0]
    u.append({'undecodable': True})
    u += [{'long': k} for k in ('txt', 'dds', 'bin', 'skn')]
    return u


def run_undecodable(ctx):
    """Entries whose subchunks match no entry of the table: as if absent"""
    stored = [(0x14, b'baad', 4), (0x24, b'baad' * 3, 40), (0x14, b'', 5), (0x34, sample('dds', 1), 8), 'link']
    names = [*BAD, 'assets/unknown.dds']
    for places in itertools.product((None, 0, 1, 2, 3, 4), repeat=2):
        for n, s in enumerate(stored):
            for with_toc in (False, True):
                bad = [(p, wad_hash(names[(i * 2 + n + with_toc) % len(names)]), s) for i, p in enumerate(places) if p is not None]
                with ctx.case({'undecodable entries at': places, 'stored': n, 'with a table': with_toc}), ctx.tmp() as tmp:
                    trees = []
                    for present in (True, False):
                        entries = [enc.WadEntry(wad_hash(p), sample(k, 1), 'zstd') for p, k in GOOD.items()]
                        if with_toc:
                            entries.append(enc.WadEntry(wad_hash('data/final/a.wad.subchunktoc'), enc.subchunk_blob([(b'good', False), (b'z' * 90, True)])[1]))
                        if present:
                            for i, (p, h, x) in enumerate(bad):
                                entries.insert(p, enc.WadEntry(h, b'assets/target', 'link') if x == 'link' else enc.WadEntry(h, None, 'stored4', subchunks=x, first=i))
                        e = [element(Store(f"{tmp}/store{present}"), 'game', '14.6', [('a.txt', b'a', '')], [Wad('data/final/a.wad.client', entries)])]
                        RawExporter(f"{tmp}/out{present}/x", patches.patch(e)).process()
                        trees.append(fsx.view(f"{tmp}/out{present}/x"))
                    # the list of unknown files may have them
                    trees = [{k: v for k, v in t.items() if not k.startswith('cdragon/')} for t in trees]
                    ctx.equal(trees[0], trees[1], 'export, with and without the undecodable entries')
                    ctx.check(len(trees[1]) > len(GOOD), 'nothing is exported')
                    if bad:
                        ctx.nontrivial(('undecodable', places, n, with_toc))
                    ctx.outcome(('undecodable', len(bad)))


def run_long(unit, ctx):
    """Assets whose path has too long components are ignored, the other ones are exported"""
    kind = unit['long']

    def archive(tmp, name, version, paths, n, position, changed=()):
        good = [(p, None, sample(k, 1 + (version == '14.5' and p in changed)), 'zstd') for p, k in GOOD.items()]
        for p in paths:
            good.insert(position, (p, None, sample(kind, n), 'raw'))
        return patches.patch([element(Store(f"{tmp}/store-{name}"), 'game', version, [('a.txt', b'a', '')], [Wad('data/final/a.wad.client', good)])])

    def snapshot(out):
        return {k: v for k, v in fsx.view(out).items() if not k.startswith('cdragon/')}

    for length, where, position in itertools.product(LENGTHS, ('name', 'directory', 'both'), (0, 2, len(GOOD))):
        path = long_path(kind, length, where)
        # long names are shortened
        base, name = os.path.split(path)
        ext = f".{kind}"
        if len(name) >= 250:
            name = f"{name[:250 - 17 - len(ext)]}.{wad_hash(path):016x}{ext}"
        outs = patches.outputs(f"game/{base}/{name}")
        fits = [all(len(c) <= 255 for c in o.split('/')) for o in outs]
        # with a former export; a previous patch having the same file, another one or none
        for former, previous, lazy in itertools.product((False, True), ('none', 'same', 'same, others change', 'other', 'absent'), (False, True)):
            if former and length not in (255, 256, 300):
                continue
            with ctx.case({'kind': kind, 'length': length, 'where': where, 'position': position, 'over a former export': former, 'previous patch': previous, 'lazy': lazy}), ctx.tmp() as tmp:
                p = archive(tmp, 'new', '14.6', [path], 1, position)
                other = archive(tmp, 'other', '14.6', [], 1, position)
                prev = None
                if previous != 'none':
                    prev = archive(tmp, 'prev', '14.5', [] if previous == 'absent' else [path], 1 if 'same' in previous else 2, position, [] if previous == 'same' else ['assets/z.txt', 'data/g.bin'])
                    for out in ('out', 'ref'):
                        RawExporter(f"{tmp}/{out}/14.5", prev).process()
                if former:
                    RawExporter(f"{tmp}/out/14.6", p, prev).process()
                RawExporter(f"{tmp}/out/14.6", p, prev).process(overwrite=not lazy)
                RawExporter(f"{tmp}/ref/14.6", other, prev).process()
                got, exp = snapshot(f"{tmp}/out/14.6"), snapshot(f"{tmp}/ref/14.6")
                mine = {k: got.pop(k) for k in list(got) if 'nnnn' in k or 'dddd' in k}
                ctx.equal(got, exp, 'other files')
                files = {k: v for k, v in mine.items() if v != ('d',)}
                for o, fit in zip(outs, fits):
                    found = [k for k in files if k == o or k.startswith(f"{o}/")]
                    ctx.check(fit or not found, lambda: f"unexpected outputs: {found}")
                    ctx.check(found or not all(fits), f"{o} is not exported")
                ctx.check(all(any(k == o or k.startswith(f"{o}/") for o in outs) for k in files), lambda: f"unexpected files: {list(files)}")
                if not all(fits):
                    ctx.nontrivial((unit, length, where, position, former, previous, lazy))
                ctx.outcome((kind, tuple(fits), len(files)))


def run(unit, ctx):
    if 'undecodable' in unit:
        return run_undecodable(ctx)
    if 'long' in unit:
        return run_long(unit, ctx)
    kind, place, former = unit['kind'], unit['place'], unit.get('former')
    with ctx.tmp() as tmp:
        ref = f"{tmp}/ref/x"
        RawExporter(ref, patches.patch(elements(Store(f"{tmp}/refstore"), kind, None, place))).process()
        others = snapshot(ref)
    every = list(changes(kind, ctx.tier))
    with ctx.tmp() as tmp0:
        out = f"{tmp0}/out/x"
        if former:
            good = patches.patch(elements(Store(f"{tmp0}/good"), kind, valid(kind), place))
        for i in range(unit['part'], len(every), 3):
            data = every[i]
            with ctx.case(lambda: {'asset': kind, 'place': place, 'over a former export': bool(former), 'content': data.hex() if len(data) < 400 else f"{data[:40]!r}... ({len(data)})"}):
                if former:
                    RawExporter(out, good).process()
                elif os.path.exists(out):
                    import shutil
                    shutil.rmtree(out)
                with ctx.tmp() as tmp:
                    p = patches.patch(elements(Store(f"{tmp}/store"), kind, data, place))
                    RawExporter(out, p).process()
                    got = verify(ctx, out, kind, data, place, others, former)
                    if former:
                        # nothing of the former content of the asset
                        RawExporter(f"{tmp}/fresh/x", p).process()
                        ctx.check(got == {k: v for k, v in snapshot(f"{tmp}/fresh/x").items() if k not in others}, 'outputs over a former export')
                ctx.nontrivial((kind, place, bool(former), data))
                ctx.outcome((kind, tuple(sorted(got)), place))
                if not any(k.endswith(('.png', '.json', '.obj')) for k in got):
                    ctx.bump('not converted')
