"""BIN files: every value type, nested, in every patch era, against an independent encoder"""
import io
import json
import re
import struct

from ..enc import LARGE, V, binfile, fnv, hname, wad_hash
from ..world import subsets
from cdtb.binfile import (BinFile, BinType, BinList, BinStruct, BinEmbedded, BinOption, BinMap, BinField, BinFieldName, BinTypeName, BinEntryPath, BinHashValue, BinPathValue)
from cdtb.export import BinConverter, FileConversionError

ID = 'C16'
LEVEL = 'exploration'
RULE = 'distinct (file, era) cases; non-trivial when at least one value is decoded'
BOUNDS = {'quick': 'all leaf types and boundary values; all containers of each leaf type with 0..2 elements (maps: all key types); all containers of these (depth 2); 6 patch eras; header versions 1..3, patch variant; all field lists up to 3 over 4 names with duplicates x all lookups; counts and sizes around 2**8, 2**15 and 2**16',
          'thorough': 'as quick with depth 3 and all pairs of entries'}
ASSUMPTIONS = ['BIN hash collisions are out of scope', 'JSON keys of maps are strings, hashes or integers']

NAMES = {
    'hashes.binfields.txt': ['mKnown', 'Other', 'shared'],
    'hashes.bintypes.txt': ['KnownType', 'Sub', 'shared'],
    'hashes.binentries.txt': ['Known/Entry', 'Link/Target', 'shared'],
    'hashes.binhashes.txt': ['knownhash', 'with space', 'shared'],
}
HASHFILES = {name: {fnv(s): s for s in texts} for name, texts in NAMES.items()}
HASHFILES['hashes.game.txt'] = {wad_hash(s): s for s in ('assets/known.dds', 'shared')}
KIND = {'field': 'hashes.binfields.txt', 'type': 'hashes.bintypes.txt', 'link': 'hashes.binentries.txt', 'hash': 'hashes.binhashes.txt', 'path': 'hashes.game.txt'}


def shown(kind, n):
    """A hash as displayed"""
    if kind == 'path':
        h = n if isinstance(n, int) else wad_hash(n)
        return HASHFILES[KIND[kind]].get(h, f"{{{h:016x}}}")
    h = hname(n)
    return HASHFILES[KIND[kind]].get(h, f"{{{h:08x}}}")


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


LEAVES = {
    'empty': [(0, 0, 0), (1, 2, 65535)],
    'bool': [True, False],
    's8': [-128, -1, 127], 'u8': [0, 128, 255], 's16': [-32768, -2, 32767], 'u16': [0, 0x8000, 65535],
    's32': [-2**31, -3, 2**31 - 1], 'u32': [0, 2**31, 2**32 - 1], 's64': [-2**63, -4, 2**63 - 1], 'u64': [1, 2**63, 2**64 - 1],
    'float': [0.0, f32(0.1), -1.5, f32(3e38), f32(1e-45), float('inf')],
    'vec2': [(1.0, -2.0)], 'vec3': [(1.0, 2.5, f32(-0.3))], 'vec4': [(1.0, 2.0, 3.0, 4.0)],
    'matrix': [tuple(tuple(float(4 * i + j) for j in range(4)) for i in range(4))],
    'rgba': [(1, 2, 3, 255)],
    'string': ['', 'text', 'h\u00e9 \u4e2d/"\\', 'x' * 300],
    'hash': ['knownhash', 'unknownhash', 'shared', 'mKnown', 0, 0xabc],
    'path': ['assets/known.dds', 'assets/unknown.dds', 'shared', 'knownhash', 0, 2**64 - 1],
    'link': ['Known/Entry', 'unknown/entry', 'shared', 'knownhash', 0x1f],
    'flag': [0, 1, 200],
}
ENUM = {'vec2': 'VEC2_FLOAT', 'vec3': 'VEC3_FLOAT', 'vec4': 'VEC4_FLOAT', 'matrix': 'MATRIX4X4'}
JSON_KEYS = ('s8', 'u8', 's16', 'u16', 's32', 'u32', 's64', 'u64', 'string', 'hash', 'path', 'link', 'flag')
ERAS = (None, 801, 922, 923, 1007, 1008, 1502)


def btype(t):
    return BinType[ENUM.get(t, t.upper())]


def allowed(v, era):
    """Types exist from a given patch"""
    era = era or 1008
    if v.t == 'list2' or v.a == 'list2' and v.t in ('list', 'option', 'map') or v.b == 'list2':
        if era < 1008:
            return False
    if v.t == 'path' or 'path' in (v.a, v.b) and v.t not in ('struct', 'embedded'):
        if era < 1008:
            return False
    if v.t in ('list', 'list2'):
        return all(allowed(x, era) for x in v.v)
    if v.t == 'option':
        return v.v is None or allowed(v.v, era)
    if v.t == 'map':
        return all(allowed(k, era) and allowed(x, era) for k, x in v.v)
    if v.t in ('struct', 'embedded'):
        return all(allowed(x, era) for _, x in v.v)
    return True


def plain(v):
    """Expected value, as a structure comparable with `decoded()`"""
    t = v.t
    if t in ('hash', 'link'):
        return (t, hname(v.v), shown(t, v.v))
    if t == 'path':
        return (t, v.v if isinstance(v.v, int) else wad_hash(v.v), shown(t, v.v))
    if t in ('list', 'list2'):
        return ('L', btype(v.a), [plain(x) for x in v.v])
    if t == 'option':
        return ('O', btype(v.a), None if v.v is None else plain(v.v))
    if t == 'map':
        return ('M', btype(v.a), btype(v.b), [(plain(k), plain(x)) for k, x in v.v])
    if t in ('struct', 'embedded'):
        return ('S' if t == 'struct' else 'E', hname(v.a), shown('type', v.a), [pfield(n, x) for n, x in v.v])
    return v.v


def pfield(n, x):
    return (hname(n), shown('field', n), btype(x.t), plain(x))


def decoded(v):
    if isinstance(v, BinList):
        return ('L', v.vtype, [decoded(x) for x in v.values])
    if isinstance(v, BinOption):
        return ('O', v.vtype, None if v.value is None else decoded(v.value))
    if isinstance(v, BinMap):
        return ('M', v.ktype, v.vtype, [(decoded(k), decoded(x)) for k, x in v.values.items()])
    if isinstance(v, BinStruct):
        return ('S', v.type.h, str(v.type), [dfield(f) for f in v.fields])
    if isinstance(v, BinEmbedded):
        return ('E', v.type.h, str(v.type), [dfield(f) for f in v.fields])
    kind = {'BinHashValue': 'hash', 'BinPathValue': 'path', 'BinEntryPath': 'link'}.get(type(v).__name__)
    if kind:
        return (kind, v.h, str(v))
    return v


def dfield(f):
    return (f.name.h, str(f.name), f.type, decoded(f.value))


def jsonv(v):
    t = v.t
    if t in ('hash', 'link', 'path'):
        return shown(t, v.v)
    if t in ('list', 'list2'):
        return [jsonv(x) for x in v.v]
    if t == 'option':
        return None if v.v is None else jsonv(v.v)
    if t == 'map':
        return {str(jsonv(k)): jsonv(x) for k, x in v.v}
    if t == 'struct' and hname(v.a) == 0:
        return None
    if t in ('struct', 'embedded'):
        return {**{shown('field', n): jsonv(x) for n, x in v.v}, '__type': shown('type', v.a)}
    if isinstance(v.v, tuple):
        return [list(x) if isinstance(x, tuple) else x for x in v.v]
    return v.v


def json_ok(v):
    """Whether the JSON form is covered: map keys, and finite numbers"""
    if v.t in ('list', 'list2'):
        return all(json_ok(x) for x in v.v)
    if v.t == 'option':
        return v.v is None or json_ok(v.v)
    if v.t == 'map':
        return v.a in JSON_KEYS and all(json_ok(x) for _, x in v.v)
    if v.t in ('struct', 'embedded'):
        return all(json_ok(x) for _, x in v.v)
    return not (v.t == 'float' and v.v == float('inf'))


def same(a, b):
    """Equality which tells numbers, booleans and float signs apart"""
    return a == b and repr(a) == repr(b)


def check_file(ctx, tmp, entries, version=3, linked=(), era=None, patch=None, convert=True):
    data = binfile(entries, version, linked, era or 1008, patch)
    f = BinFile(io.BytesIO(data), btype_version=era)
    ctx.equal(f.version, version, 'version')
    ctx.equal(f.is_patch, patch is not None, 'is_patch')
    ctx.equal(f.linked_files, list(linked) if version >= 2 else None, 'linked files')
    got = [(e.path.h, str(e.path), e.type.h, str(e.type), [dfield(x) for x in e.fields]) for e in f.entries]
    exp = [(hname(p), shown('link', p), hname(t), shown('type', t), [pfield(n, x) for n, x in fields]) for p, t, fields in entries]
    ctx.check(same(got, exp), lambda: f"entries: got {got!r:.700}, expected {exp!r:.700}")
    groups = {}
    if patch is not None and version >= 3:
        for p, obj, v in patch:
            groups.setdefault(hname(p), []).append((obj, v))
        got = [(e.path.h, str(e.path), [(x.path, x.type, decoded(x.value)) for x in e.fields]) for e in f.patch_entries]
        exp = [(h, shown('link', h), [(obj, btype(v.t), plain(v)) for obj, v in fs]) for h, fs in groups.items()]
        ctx.check(same(got, exp), lambda: f"patch entries: got {got!r:.700}, expected {exp!r:.700}")
    else:
        ctx.equal(f.patch_entries, None, 'patch entries')
    if not convert or not all(json_ok(x) for _, _, fields in entries for _, x in fields) or not all(json_ok(x) for _, _, x in patch or ()):
        return
    expj = {shown('link', p): {**{shown('field', n): jsonv(x) for n, x in fields}, '__type': shown('type', t)} for p, t, fields in entries}
    if version >= 2:
        expj['__linked'] = list(linked)
    if patch is not None and version >= 3:
        expj['__patches'] = {shown('link', h): {obj: jsonv(v) for obj, v in fs} for h, fs in groups.items()}
    conv = BinConverter(re.compile(r'\.bin$'), era)
    conv.convert(io.BytesIO(data), tmp, 'game/x.bin')
    with open(f"{tmp}/game/x.bin", 'rb') as fin:
        ctx.check(fin.read() == data, 'the raw copy differs from the file')
    with open(f"{tmp}/game/x.bin.json", 'rb') as fin:
        gotj = json.loads(fin.read())
    ctx.check(same(gotj, json.loads(json.dumps(expj))) or _same_unordered(gotj, json.loads(json.dumps(expj))), lambda: f"JSON: got {gotj!r:.700}, expected {expj!r:.700}")


def _same_unordered(a, b):
    return repr(_sorted(a)) == repr(_sorted(b))


def _sorted(x):
    if isinstance(x, dict):
        return sorted((k, _sorted(v)) for k, v in x.items())
    if isinstance(x, list):
        return [_sorted(v) for v in x]
    return x


def leaves():
    for t, values in LEAVES.items():
        for x in values:
            yield V(t, x)


def level1():
    """Containers of leaves"""
    yield V('struct', [], 0)
    for t in ('struct', 'embedded'):
        for a in ('KnownType', 'Unknown', 'shared'):
            yield V(t, [], a)
            for leaf in leaves():
                if a == 'KnownType' or leaf.t == 'u32':
                    yield V(t, [('mKnown', leaf)], a)
            yield V(t, [('mKnown', V('u8', 1)), ('unknownField', V('string', 's')), ('shared', V('vec2', (0.0, 1.0)))], a)
    for t, values in LEAVES.items():
        first, last = V(t, values[0]), V(t, values[-1])
        for lt in ('list', 'list2'):
            yield V(lt, [], t)
            yield V(lt, [first], t)
            yield V(lt, [first, last], t)
            yield V(lt, [V(t, x) for x in values] * 2, t)
        yield V('option', None, t)
        for x in values:
            yield V('option', V(t, x), t)
    for kt, keys in LEAVES.items():
        if kt in ('matrix', 'empty'):
            continue
        for vt, values in LEAVES.items():
            yield V('map', [], kt, vt)
            yield V('map', [(V(kt, keys[0]), V(vt, values[0]))], kt, vt)
            if len(keys) > 1:
                yield V('map', [(V(kt, k), V(vt, values[i % len(values)])) for i, k in enumerate(keys)], kt, vt)


def wrap(inner):
    """Containers of containers"""
    other = V('embedded', [('Other', V('s16', -5))], 'Sub')
    for x in inner:
        yield V('list', [x], x.t)
        yield V('list2', [x, x], x.t)
        yield V('option', x, x.t)
        yield V('map', [(V('hash', 'knownhash'), x), (V('hash', 'other'), x)], 'hash', x.t)
        yield V('struct', [('mKnown', x), ('Other', other)], 'KnownType')
        yield V('embedded', [('unk', x), ('shared', V('u8', 9))], 'Sub')


def representative():
    """One value of each shape"""
    yield from (V(t, v[0]) for t, v in LEAVES.items())
    yield V('list', [V('u8', 1), V('u8', 2)], 'u8')
    yield V('list2', [V('embedded', [('mKnown', V('u8', 1))], 'Sub')], 'embedded')
    yield V('option', V('string', 'o'), 'string')
    yield V('option', None, 'link')
    yield V('map', [(V('string', 'k'), V('float', 1.5))], 'string', 'float')
    yield V('struct', [('Other', V('flag', 1))], 'KnownType')
    yield V('struct', [], 0)
    yield V('embedded', [], 'Unknown')


def units(tier):
    u = [{'part': 'leaf', 'era': e} for e in ERAS]
    u += [{'part': 'level1', 'era': e, 'k': k} for e in ERAS for k in range(2)]
    u += [{'part': 'level2', 'era': e, 'k': k} for e in ERAS for k in range(4)]
    u += [{'part': p} for p in ('headers', 'lookup', 'hashes', 'refused')]
    u += [{'part': 'pairs', 'k': k} for k in range(4)]
    u += [{'part': 'large', 'what': x} for x in ('list', 'list2', 'map', 'fields', 'struct', 'string', 'entries', 'linked', 'patches', 'nested')]
    if tier == 'thorough':
        u += [{'part': 'level3', 'era': e, 'k': k} for e in ERAS for k in range(16)]
    return u


def values(ctx, it, era, k=0, n=1):
    with ctx.tmp() as tmp:
        for i, v in enumerate(it):
            if i % n != k or not allowed(v, era):
                continue
            with ctx.case(lambda: {'value': repr(v)[:400], 'era': era}):
                check_file(ctx, tmp, [('Known/Entry', 'KnownType', [('mKnown', v), ('Other', V('u32', 77))]), ('other/entry', 'Unknown', [])], era=era)
                ctx.nontrivial((repr(v), era))
                ctx.outcome(v.t)


def run(unit, ctx):
    part = unit['part']
    if part == 'leaf':
        values(ctx, leaves(), unit['era'])
    elif part == 'level1':
        values(ctx, level1(), unit['era'], unit['k'], 2)
    elif part == 'level2':
        values(ctx, wrap(level1()), unit['era'], unit['k'], 4)
    elif part == 'level3':
        values(ctx, wrap(wrap(level1())), unit['era'], unit['k'], 16)
    elif part == 'headers':
        reps = list(representative())
        with ctx.tmp() as tmp:
            for version in (1, 2, 3, 4):
                for linked in ((), ('a.bin',), ('DATA/a.bin', '', 'h\u00e9.bin')):
                    for era in ERAS:
                        for nentries in range(4):
                            entries = [(('Known/Entry', 'e2', 'shared')[i], ('KnownType', 'T', 'shared')[i], [('mKnown', r) for r in [reps[(i * 7 + version) % len(reps)]] if allowed(r, era)]) for i in range(nentries)]
                            patches = [None, []]
                            patches += [[('Known/Entry', 'a.b.c', r)] for r in reps if allowed(r, era)] if nentries < 2 else []
                            patches += [[('Known/Entry', 'a', V('u8', 1)), ('unk', 'b{1}', V('string', 'z')), ('Known/Entry', 'c', V('list', [V('s8', -1)], 's8'))]]
                            for patch in patches:
                                with ctx.case(lambda: {'version': version, 'linked': linked, 'era': era, 'entries': nentries, 'patch': repr(patch)}):
                                    check_file(ctx, tmp, entries, version, linked, era, patch)
                                    ctx.nontrivial(('h', version, linked, era, nentries, repr(patch)))
    elif part == 'large':
        what, era = unit['what'], 1502
        with ctx.tmp() as tmp:
            for n in LARGE:
                if what in ('fields', 'struct', 'string') and n > 65535 or what == 'nested' and n > 257:
                    continue
                entries, linked, patch, v = [('Known/Entry', 'KnownType', [('mKnown', V('u8', 7)), ('Other', V('u32', 77))]), ('other/entry', 'Unknown', [])], (), None, None
                if what in ('list', 'list2'):
                    v = V(what, [V('u8', i & 255) for i in range(n)], 'u8')
                elif what == 'map':
                    v = V('map', [(V('u32', i), V('u8', i & 255)) for i in range(n)], 'u32', 'u8')
                elif what == 'struct':
                    v = V('struct', [(f"field{i}", V('u8', i & 255)) for i in range(n)], 'KnownType')
                elif what == 'string':
                    v = V('string', 'x' * n)
                elif what == 'nested':
                    v = V('u8', 3)
                    for i in range(n // 4):
                        v = V('list', [v], v.t) if i % 2 else V('embedded', [('mKnown', v)], 'KnownType')
                elif what == 'fields':
                    entries[0] = ('Known/Entry', 'KnownType', [(f"field{i}", V('u8', i & 255)) for i in range(n)])
                elif what == 'entries':
                    entries = [(f"path/{i}", f"type{i % 300}", [('mKnown', V('u32', i))]) for i in range(n)]
                elif what == 'linked':
                    linked = [f"data/{i}.bin" for i in range(n)]
                else:
                    patch = [(f"path/{i // 2}", f"a.b{i}", V('u32', i)) for i in range(n)]
                if v is not None:
                    entries[0] = ('Known/Entry', 'KnownType', [('mKnown', v), ('Other', V('u32', 77))])
                with ctx.case({'large': what, 'n': n}, timeout=120):
                    check_file(ctx, tmp, entries, 3, linked, era, patch)
                    ctx.nontrivial(('large', what, n))
    elif part == 'pairs':
        reps = list(representative())
        with ctx.tmp() as tmp:
            i = 0
            for era in (922, 1007, 1502):
                for a in reps:
                    for b in reps:
                        i += 1
                        if i % 4 != unit['k'] or not allowed(a, era) or not allowed(b, era):
                            continue
                        with ctx.case(lambda: {'pair': (repr(a), repr(b)), 'era': era}):
                            check_file(ctx, tmp, [('Known/Entry', 'KnownType', [('mKnown', a), ('unk', b)]), ('other', 'Sub', [('shared', b)])], era=era)
                            ctx.nontrivial(('p', repr(a), repr(b), era))
                        if ctx.tier == 'thorough':
                            with ctx.case(lambda: {'patch pair': (repr(a), repr(b)), 'era': era}):
                                check_file(ctx, tmp, [('Known/Entry', 'KnownType', [('mKnown', a)])], era=era, patch=[('o', 'x.y', a), ('o', 'z', b), ('Known/Entry', 'x', b)])
                                ctx.nontrivial(('pp', repr(a), repr(b), era))
    elif part == 'lookup':
        lookups(ctx)
    elif part == 'hashes':
        hashes(ctx)
    elif part == 'refused':
        good = binfile([('e', 't', [('f', V('u8', 1))])])
        with ctx.tmp() as tmp:
            for bad in (b'', b'PRO', b'prop' + good[4:], b'XXXX' + good[4:], b'PTCH' + struct.pack('<2L', 1, 0) + b'XXXX' + good[4:], b'PTCH' + struct.pack('<2L', 1, 0) + b'PTCH' + good[4:]):
                with ctx.case({'refused': repr(bad[:16])}):
                    try:
                        BinFile(io.BytesIO(bad))
                    except ValueError:
                        pass
                    else:
                        ctx.fail('no error for a file without magic code')
                    try:
                        BinConverter(re.compile('.'), None).convert(io.BytesIO(bad), tmp, 'x.bin')
                    except FileConversionError:
                        pass
                    else:
                        ctx.fail('file without magic code converted')
                    ctx.nontrivial(bad)


def hashes(ctx):
    """Comparisons of hash objects with each other, with names and with hashes"""
    classes = {'field': BinFieldName, 'type': BinTypeName, 'link': BinEntryPath, 'hash': BinHashValue, 'path': BinPathValue}
    names = ['mKnown', 'Other', 'shared', 'KnownType', 'Known/Entry', 'knownhash', 'assets/known.dds', 'unknown', '', 0, 1, 0xffff_ffff, 2**64 - 1]

    def number(kind, n):
        return n if isinstance(n, int) else wad_hash(n) if kind == 'path' else hname(n)
    objects = [(kind, number(kind, n), cls(number(kind, n))) for kind, cls in classes.items() for n in names if kind == 'path' or n != 2**64 - 1]
    for kind, h, o in objects:
        known = HASHFILES[KIND[kind]].get(h)
        for kind2, h2, o2 in objects:
            with ctx.case({'compare': [kind, h, kind2, h2]}):
                ctx.equal((o == o2, o != o2), (h == h2, h != h2), 'equality')
                if h == h2:
                    ctx.equal(hash(o), hash(o2), 'hashes of equal values')
                    ctx.check({o: 1}[o2] == 1, 'key of a dictionary')
                ctx.nontrivial((kind, h, kind2, h2))
        for n in names:
            with ctx.case({'compare': [kind, h, n]}):
                if isinstance(n, int):
                    ctx.equal((o == n, n == o, o != n), (h == n, h == n, h != n), 'equality with a hash')
                elif known is None or known.lower() != n.lower() or known == n:
                    same = known == n if known is not None else h == number(kind, n)
                    ctx.equal((o == n, n == o, o != n), (same, same, not same), 'equality with a name')
                ctx.nontrivial((kind, h, n))


def lookups(ctx):
    names = ['mKnown', 'unknownField', 'shared', 0x12345]
    keys = []
    for n in names + ['absent', 0x999]:
        keys += [n, hname(n)]
        if isinstance(n, str):
            keys += [n.upper(), n.lower()]
        keys.append(('field', hname(n)))
    import itertools
    cells = [('mKnown', V('u8', 1)), ('mKnown', V('string', 'second')), ('unknownField', V('list', [V('u8', 4)], 'u8')), ('shared', V('option', V('s8', -1), 's8')),
             ('shared', V('option', None, 's8')), (0x12345, V('map', [(V('u8', 1), V('u8', 2))], 'u8', 'u8')), ('mKnown', V('embedded', [('shared', V('u16', 7)), ('mKnown', V('u8', 0))], 'Sub')),
             ('unknownField', V('bool', False))]
    MISSING = object()
    for n in range(4):
        for fields in itertools.product(cells, repeat=n):
            for holder in ('entry', 'struct', 'embedded'):
                with ctx.case(lambda: {'lookup': repr(fields), 'holder': holder}):
                    def obj():
                        fs = list(fields)
                        if holder == 'entry':
                            return BinFile(io.BytesIO(binfile([('e', 'T', fs)]))).entries[0]
                        return BinFile(io.BytesIO(binfile([('e', 'T', [('w', V(holder, fs, 'T'))])]))).entries[0]['w'].value
                    o = obj()
                    for key in keys:
                        if isinstance(key, tuple):
                            h, key = key[1], BinFieldName(key[1])
                        else:
                            h = hname(key)
                        match = [(i, v) for i, (fn, v) in enumerate(fields) if hname(fn) == h]
                        ctx.equal(key in o, bool(match), f'{key!r} in object')
                        if match:
                            i, v = match[0]
                            ctx.check(o[key] is o.fields[i], f'wrong field for {key!r}')
                            ctx.check(o.get(key, MISSING) is o.fields[i], f'get() of {key!r}')
                            pv = {'list': lambda: [x.v for x in v.v], 'option': lambda: None if v.v is None else v.v.v, 'map': lambda: {k.v: x.v for k, x in v.v}}.get(v.t)
                            if v.t != 'embedded':
                                e = pv() if pv else v.v
                                ctx.check(same(o.getv(key), e), f'getv() of {key!r}: {o.getv(key)!r}')
                                ctx.check(same(o.getv(key, MISSING), e), f'getv() of {key!r} with default: {o.getv(key)!r}')
                                ctx.check(same(o.get_path(key), e), f'get_path() of {key!r}: {o.get_path(key)!r}')
                            else:
                                ctx.equal(o.get_path(key, 'SHARED'), 7, 'get_path() of nested')
                                ctx.equal(o.get_path(key, 'absent', default=5), 5, 'get_path() of nested, absent')
                                ctx.equal(o.get_path(key, 'shared', default=5), 7, 'get_path() of nested')
                                ctx.equal(o.get_path(key, 'mKnown', default=5), 0, 'get_path() of nested zero')
                        else:
                            try:
                                o[key]
                            except KeyError:
                                pass
                            else:
                                ctx.fail(f'field found for {key!r}')
                            ctx.check(o.get(key) is None and o.getv(key) is None and o.get_path(key) is None, 'default of absent fields')
                            ctx.equal((o.get(key, 1), o.getv(key, 2), o.get_path(key, default=3), o.get_path(key, 'x', default=4)), (1, 2, 3, 4), 'given default of absent fields')
                    for key in keys:
                        if isinstance(key, tuple):
                            h, key = key[1], BinFieldName(key[1])
                        else:
                            h = hname(key)
                        o = obj()
                        before = list(o.fields)
                        new = BinField(h, BinType.U8, 42)
                        o[key] = new
                        idx = [i for i, (fn, _) in enumerate(fields) if hname(fn) == h]
                        if idx:
                            expected = before[:idx[0]] + [new] + before[idx[0] + 1:]
                        else:
                            expected = before + [new]
                        ctx.check(len(o.fields) == len(expected) and all(x is y for x, y in zip(o.fields, expected)), f'assignment of {key!r}')
                        ctx.check(o[key] is new and o.getv(key) == 42, f'assigned value of {key!r}')
                    ctx.nontrivial(('lookup', repr(fields), holder))
