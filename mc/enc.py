"""Reference encoders of the file formats (the inverse of what CDTB decodes)"""
import gzip
import struct
from xxhash import xxh64_intdigest, xxh3_64_intdigest
import pyzstd


# counts and sizes around the widths of integers
LARGE = (254, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70001)


def zstd(data):
    return pyzstd.compress(data)


# ---------------------------------------------------------------- RMAN (patcher manifest)

class _Buf:
    def __init__(self):
        self.b = bytearray()

    def pos(self):
        return len(self.b)

    def put(self, fmt, *v):
        p = len(self.b)
        self.b += struct.pack(fmt, *v)
        return p

    def raw(self, data):
        p = len(self.b)
        self.b += data
        return p

    def patch(self, p, fmt, *v):
        struct.pack_into(fmt, self.b, p, *v)


def _string(buf, s):
    data = s.encode()
    p = buf.put('<L', len(data))
    buf.raw(data)
    return p


def _fields_entry(buf, fields, pad=0, share=None):
    """Write an entry: fields = [None | (fmt, value)], fmt among struct formats, 'str', 'offset'
    (value for 'offset': callable writing the target and returning its position).
    Return the entry position. Trailing absent fields shorten the vtable."""
    while fields and fields[-1] is None:
        fields = fields[:-1]
    vtable = []
    size = 4
    for f in fields:
        if f is None:
            vtable.append(0)
        else:
            n = 4 if f[0] in ('str', 'offset') else struct.calcsize(f[0])
            vtable.append(size)
            size += n
    vsize = 4 + 2 * len(fields)
    vt = buf.put(f'<HH{len(vtable)}H', vsize, size, *vtable)
    buf.raw(b'\xee' * pad)
    entry = buf.put('<l', 0)
    buf.patch(entry, '<l', entry - vt)
    later = []
    for f in fields:
        if f is None:
            continue
        fmt, value = f
        if fmt in ('str', 'offset'):
            later.append((buf.put('<l', 0), fmt, value))
        else:
            buf.put(fmt, value)
    for p, fmt, value in later:
        target = _string(buf, value) if fmt == 'str' else value(buf)
        buf.patch(p, '<l', target - p)
    return entry


def _table(buf, writers):
    """Write a table of entries; each writer returns its entry position"""
    start = buf.put('<l', len(writers))
    slots = [buf.put('<l', 0) for _ in writers]
    for slot, w in zip(slots, writers):
        buf.patch(slot, '<l', w(buf) - slot)
    return start


def rman_body(bundles, flags, files, directories, header_pad=4, pad=0):
    """bundles: [(bundle_id, [(chunk_id, csize, usize)])]
    flags: [(flag_id, name)]
    files: [dict(id, dir (or None), size (None: 0, not stored), name, mask (int or None), chunks [ids], link (or None))]
    directories: [(dir_id, parent (or None), name)]
    """
    buf = _Buf()
    buf.put('<l', header_pad)
    buf.raw(b'\xaa' * header_pad)
    base = buf.pos()
    for _ in range(6):
        buf.put('<l', 0)

    def chunk_writer(c):
        return lambda b: _fields_entry(b, [('<Q', c[0]), ('<L', c[1]), ('<L', c[2])], pad)

    def bundle_writer(bundle):
        bid, chunks = bundle
        return lambda b: _fields_entry(b, [('<Q', bid), ('offset', lambda bb: _table(bb, [chunk_writer(c) for c in chunks]))], pad)

    def flag_writer(flag):
        fid, name = flag
        def w(b):
            entry = b.put('<l', 0)
            b.put('<xxxB', fid)
            p = b.put('<l', 0)
            b.patch(p, '<l', _string(b, name) - p)
            return entry
        return w

    def file_writer(f):
        def chunks(b):
            p = b.put('<L', len(f['chunks']))
            for c in f['chunks']:
                b.put('<Q', c)
            return p
        X = ('<L', 0xdeadbeef) if f.get('extra') else None
        fields = [
            None if f['id'] is None else ('<Q', f['id']),
            None if f['dir'] is None else ('<Q', f['dir']),
            None if f['size'] is None else ('<L', f['size']),
            ('str', f['name']),
            None if f['mask'] is None else ('<Q', f['mask']),
            X, X,
            ('offset', chunks),
            X,
            None if f.get('link') is None else ('str', f['link']),
            X, X, X,
        ]
        return lambda b: _fields_entry(b, fields, pad)

    def dir_writer(d):
        did, parent, name = d
        return lambda b: _fields_entry(b, [None if did is None else ('<Q', did), None if parent is None else ('<Q', parent), None if name is None else ('str', name)], pad)

    tables = [
        [bundle_writer(x) for x in bundles],
        [flag_writer(x) for x in flags],
        [file_writer(x) for x in files],
        [dir_writer(x) for x in directories],
        [], [],
    ]
    for i, writers in enumerate(tables):
        start = _table(buf, writers)
        p = base + 4 * i
        buf.patch(p, '<l', start - p)
    return bytes(buf.b)


def rman(bundles, flags, files, directories, version=(2, 0), magic=b'RMAN', manifest_id=0x1122334455667788, **kw):
    body = rman_body(bundles, flags, files, directories, **kw)
    z = zstd(body)
    head = struct.pack('<4sBB', magic, *version)
    offset = len(head) + struct.calcsize('<HLLQL')
    return head + struct.pack('<HLLQL', 1 << 9, offset, len(z), manifest_id, len(body)) + z


# ---------------------------------------------------------------- WAD

WAD_HEADER = {1: 8, 2: 100, 3: 268}


def wad_hash(path):
    return xxh64_intdigest(path.lower())


class WadEntry:
    """kind: raw, gzip, link, zstd, sub (needs a toc)"""

    def __init__(self, path_hash, data, kind='raw', duplicate=False, sha=None, subchunks=None, first=0):
        self.path_hash = path_hash
        self.data = data
        self.kind = kind
        self.duplicate = duplicate
        self.sha = sha
        self.subchunks = subchunks   # for 'sub': list of (bytes, compressed?)
        self.first = first           # index of the first subchunk


def subchunk_blob(subchunks):
    """Return (stored bytes, toc bytes) of a list of (data, compressed?)"""
    blob, toc = b'', b''
    for data, compressed in subchunks:
        stored = zstd(data) if compressed else data
        if compressed:
            assert len(stored) != len(data)
        toc += struct.pack('<IIQ', len(stored), len(data), xxh3_64_intdigest(stored))
        blob += stored
    return blob, toc


def wad(version, entries, gap=b'', order=None, magic=b'RW', tail=b''):
    """version: (major, minor); entries: [WadEntry]. `gap` separates the data blobs."""
    major, minor = version
    head = magic + bytes((major, minor))
    head += b'\x5a' * (WAD_HEADER.get(major, 268) - len(head))
    head += struct.pack('<I', len(entries))
    size = {1: 24, 2: 32}.get(major, 32)
    blobs = []
    for e in entries:
        if e.kind == 'raw':
            t, blob, usize = 0, e.data, len(e.data)
        elif e.kind == 'gzip':
            t, blob, usize = 1, gzip.compress(e.data, mtime=0), len(e.data)
        elif e.kind == 'gzip members':
            h = len(e.data) // 2
            t, blob, usize = 1, gzip.compress(e.data[:h], mtime=0) + gzip.compress(e.data[h:], 1), len(e.data)
        elif e.kind == 'link':
            target = e.data
            t, blob = 2, struct.pack('<L', len(target)) + target
            usize = len(blob)
        elif e.kind == 'zstd':
            t, blob, usize = 3, zstd(e.data), len(e.data)
        elif e.kind == 'sub':
            blob, _ = subchunk_blob(e.subchunks)
            t, usize = 4 | (len(e.subchunks) << 4), sum(len(d) for d, _ in e.subchunks)
        elif e.kind == 'stored4':
            # subchunked entry given as (type byte, stored data, uncompressed size)
            t, blob, usize = e.subchunks
        else:
            raise AssertionError(e.kind)
        blobs.append((t, blob, usize))
    pos = len(head) + size * len(entries)
    body = bytearray()
    offsets = {}
    for i in (order or range(len(entries))):
        body += gap
        offsets[i] = pos + len(body)
        body += blobs[i][1]
    table = bytearray()
    for i, (e, (t, blob, usize)) in enumerate(zip(entries, blobs)):
        sha = e.sha if e.sha is not None else xxh64_intdigest(blob)
        if major == 1:
            table += struct.pack('<QIIII', e.path_hash, offsets[i], len(blob), usize, t)
        elif major == 2 or (major == 3 and minor <= 3):
            table += struct.pack('<QIIIB?HQ', e.path_hash, offsets[i], len(blob), usize, t, e.duplicate, e.first, sha)
        else:
            table += struct.pack('<QIIIBBHQ', e.path_hash, offsets[i], len(blob), usize, t, e.first >> 16, e.first & 0xffff, sha)
    return head + bytes(table) + bytes(body) + tail


# ---------------------------------------------------------------- BIN

def fnv(s):
    h = 0x811c9dc5
    for b in s.lower().encode('ascii'):
        h = ((h ^ b) * 0x01000193) & 0xffffffff
    return h


BIN_TYPES = {
    'empty': 0, 'bool': 1, 's8': 2, 'u8': 3, 's16': 4, 'u16': 5, 's32': 6, 'u32': 7, 's64': 8, 'u64': 9,
    'float': 10, 'vec2': 11, 'vec3': 12, 'vec4': 13, 'matrix': 14, 'rgba': 15, 'string': 16, 'hash': 17, 'path': 18,
    'list': 0x80, 'list2': 0x81, 'struct': 0x82, 'embedded': 0x83, 'link': 0x84, 'option': 0x85, 'map': 0x86, 'flag': 0x87,
}
_complex_old = ['list', 'struct', 'embedded', 'link', 'option', 'map', 'flag']


def bin_type(name, game=1008):
    """Code of a type, for a patch number (e.g. 923 for 9.23)"""
    if name in _complex_old:
        if game < 923:
            return 18 + _complex_old.index(name)
        if game < 1008:
            return 0x80 + _complex_old.index(name)
    return BIN_TYPES[name]


_simple = {'bool': '<?', 's8': '<b', 'u8': '<B', 's16': '<h', 'u16': '<H', 's32': '<i', 'u32': '<I', 's64': '<q', 'u64': '<Q',
           'float': '<f', 'hash': '<L', 'path': '<Q', 'link': '<L', 'flag': '<B'}
_tuples = {'empty': '<3H', 'vec2': '<2f', 'vec3': '<3f', 'vec4': '<4f', 'rgba': '<4B'}


class V:
    """A typed BIN value: V(type, value, ...)"""
    __slots__ = ('t', 'v', 'a', 'b')

    def __init__(self, t, v=None, a=None, b=None):
        self.t, self.v, self.a, self.b = t, v, a, b

    def __repr__(self):
        extra = ''.join(f",{x}" for x in (self.a, self.b) if x is not None)
        return f"{self.t}({self.v!r}{extra})"


def hname(n):
    return n if isinstance(n, int) else fnv(n)


def bin_value(v, game=1008):
    """Payload of a value.
    list/list2: v=[V], a=element type; option: v=V|None, a=type; map: v=[(V, V)], a=key type, b=value type;
    struct/embedded: v=[(name, V)], a=type name"""
    t = v.t
    if t in _simple:
        x = v.v
        if t in ('hash', 'link'):
            x = hname(x)
        elif t == 'path' and not isinstance(x, int):
            x = wad_hash(x)
        return struct.pack(_simple[t], x)
    if t in _tuples:
        return struct.pack(_tuples[t], *v.v)
    if t == 'matrix':
        return b''.join(struct.pack('<4f', *row) for row in v.v)
    if t == 'string':
        data = v.v.encode()
        return struct.pack('<H', len(data)) + data
    if t in ('list', 'list2'):
        body = struct.pack('<L', len(v.v)) + b''.join(bin_value(x, game) for x in v.v)
        return struct.pack('<BL', bin_type(v.a, game), len(body)) + body
    if t == 'option':
        return struct.pack('<B?', bin_type(v.a, game), v.v is not None) + (b'' if v.v is None else bin_value(v.v, game))
    if t == 'map':
        body = struct.pack('<L', len(v.v)) + b''.join(bin_value(k, game) + bin_value(x, game) for k, x in v.v)
        return struct.pack('<BBL', bin_type(v.a, game), bin_type(v.b, game), len(body)) + body
    if t in ('struct', 'embedded'):
        h = hname(v.a)
        if t == 'struct' and h == 0:
            return struct.pack('<L', 0)
        body = struct.pack('<H', len(v.v)) + b''.join(bin_field(n, x, game) for n, x in v.v)
        return struct.pack('<LL', h, len(body)) + body
    raise AssertionError(t)


def bin_field(name, v, game=1008):
    return struct.pack('<LB', hname(name), bin_type(v.t, game)) + bin_value(v, game)


def bin_entry(path, fields, game=1008):
    body = struct.pack('<LH', hname(path), len(fields)) + b''.join(bin_field(n, v, game) for n, v in fields)
    return struct.pack('<L', len(body)) + body


def binfile(entries, version=3, linked=(), game=1008, patch=None, patch_header=(1, 0)):
    """entries: [(path, type, [(field, V)])]; patch: None or [(path, object path, V)]"""
    out = bytearray()
    if patch is not None:
        out += b'PTCH' + struct.pack('<2L', *patch_header)
    out += b'PROP' + struct.pack('<L', version)
    if version >= 2:
        out += struct.pack('<L', len(linked))
        for s in linked:
            data = s.encode()
            out += struct.pack('<H', len(data)) + data
    out += struct.pack('<L', len(entries))
    for _, t, _ in entries:
        out += struct.pack('<L', hname(t))
    for path, _, fields in entries:
        out += bin_entry(path, fields, game)
    if patch is not None and version >= 3:
        out += struct.pack('<L', len(patch))
        for path, obj, v in patch:
            data = obj.encode()
            payload = bin_value(v, game)
            body = struct.pack('<B', bin_type(v.t, game)) + struct.pack('<H', len(data)) + data + payload
            out += struct.pack('<LL', hname(path), len(body)) + body
    return bytes(out)


# ---------------------------------------------------------------- RST

def rst_bits(version, game):
    if version in (4, 5):
        return 38 if game >= 1502 else 39
    return 40


def rst_hash(key, bits, game=1415):
    f = xxh3_64_intdigest if game >= 1415 else xxh64_intdigest
    return f(key.lower()) & ((1 << bits) - 1)


def rst(version, entries, game=1502, font_config=None, trenc=False, share=True, has_font=None):
    """entries: [(hash, bytes | ('enc', bytes))]"""
    bits = rst_bits(version, game)
    out = b'RST' + bytes((version,))
    if version == 2:
        if font_config is not None:
            data = font_config.encode()
            out += struct.pack('<BL', 1, len(data)) + data
        else:
            out += b'\0'
    data = bytearray()
    pos = {}
    table = []
    for h, value in entries:
        key = (value,) if not isinstance(value, tuple) else value
        if share and key in pos:
            off = pos[key]
        else:
            off = pos[key] = len(data)
            if isinstance(value, tuple):
                data += b'\xff' + struct.pack('<H', len(value[1])) + value[1]
            else:
                data += value + b'\0'
        table.append((off << bits) | h)
    out += struct.pack('<L', len(table)) + b''.join(struct.pack('<Q', x) for x in table)
    if version < 5:
        out += bytes((1 if trenc else 0,))
    return out + bytes(data)


# ---------------------------------------------------------------- SKN

def skn(major, minor, objects, indices, vertices, vertex_type=0, unknown=0):
    """objects: [(name, start_vertex, vertex_count, start_index, index_count)], indices: 0-based
    vertices: [dict(position, bones, weight, normal, uv, color, tangent)]"""
    out = bytearray(b'\x33\x22\x11\x00') + struct.pack('<HH', major, minor)
    if major != 0:
        out += struct.pack('<I', len(objects))
        for name, sv, vc, si, ic in objects:
            data = name if isinstance(name, bytes) else name.encode()
            out += data + b'\0' * (64 - len(data)) + struct.pack('<IIII', sv, vc, si, ic)
        if major == 4:
            out += struct.pack('<I', unknown)
    out += struct.pack('<II', len(indices), len(vertices))
    if major == 4:
        out += struct.pack('<II', {0: 52, 1: 56, 2: 72}[vertex_type], vertex_type)
        out += struct.pack('<10f', *range(10))
    for i in indices:
        out += struct.pack('<H', i)
    for v in vertices:
        out += struct.pack('<3f', *v['position']) + struct.pack('<4B', *v['bones']) + struct.pack('<4f', *v['weight'])
        out += struct.pack('<3f', *v['normal']) + struct.pack('<2f', *v['uv'])
        if major == 4 and vertex_type >= 1:
            out += struct.pack('<4B', *v['color'])
        if major == 4 and vertex_type == 2:
            out += struct.pack('<4f', *v['tangent'])
    return bytes(out)


# ---------------------------------------------------------------- TEX, atlas, champion skins

def tex(width, height, fmt, mipmaps, pixels):
    return struct.pack('<4sHHxBx?', b'TEX\0', width, height, fmt, mipmaps) + pixels


def _pstr(s):
    data = s.encode()
    return struct.pack('<L', len(data)) + data


def atlas_old(paths, textures):
    """textures: [(name, (x0, y0, x1, y1), index)]"""
    out = bytearray(struct.pack('<L', len(paths))) + b''.join(_pstr(p) for p in paths)
    out += struct.pack('<L', len(textures))
    for name, box, index in textures:
        out += _pstr(name) + struct.pack('<4fL', *box, index)
    return bytes(out)


def atlas_new(hashes, textures):
    out = bytearray(b'IMAA') + struct.pack('<L', len(hashes)) + b''.join(struct.pack('<Q', h) for h in hashes)
    out += struct.pack('<L', len(textures))
    for h, box, index in textures:
        out += struct.pack('<Q', h) + struct.pack('<4fL', *box, index)
    return bytes(out)


def championskins(champions, version=2, magic=b'mahC'):
    """champions: [(name, [(id, flag, skin name)])]"""
    out = bytearray(magic) + struct.pack('<LL', version, len(champions))
    for name, skins in champions:
        out += _pstr(name) + struct.pack('<L', len(skins))
        for sid, flag, sname in skins:
            out += struct.pack('<LB', sid, flag) + _pstr(sname)
    return bytes(out)

# ---------------------------------------------------------------- executables

def _align(b, n=4):
    return b + bytes(-len(b) % n)


def _node(key, value, children, text):
    body = _align(bytes(6) + key.encode('utf-16le') + b'\0\0')
    body += value
    for c in children:
        body = _align(body) + c
    return struct.pack('<HHH', len(body), (len(value)//2 if text else len(value)), int(text)) + body[6:]


def exe(version, other='0.0.0.1'):
    """Minimal PE executable with a version resource"""
    strings = [_node(k, (v + '\0').encode('utf-16le'), [], True) for k, v in [('CompanyName', 'Riot'), ('FileVersion', other), ('ProductVersion', version)]]
    fixed = struct.pack('<13L', 0xFEEF04BD, 0x10000, 1, 2, 1, 2, 0x3f, 0, 4, 1, 0, 0, 0)
    info = _node('VS_VERSION_INFO', fixed, [_node('StringFileInfo', b'', [_node('040904b0', b'', strings, True)], True)], False)
    info = _align(info)
    rva = 0x1000
    directory = lambda entry, sub: struct.pack('<LLHHHHLL', 0, 0, 4, 0, 0, 1, entry, sub)
    rsrc = directory(16, 0x80000000 | 24) + directory(1, 0x80000000 | 48) + directory(1033, 72) + struct.pack('<LLLL', rva + 88, len(info), 0, 0) + info
    raw = rsrc + bytes(-len(rsrc) % 512)
    dos = struct.pack('<2s6HLHLHH32xL', b'MZ', 0x90, 3, 0, 4, 0, 0xffff, 0xb8, 0, 0, 0x40, 0, 128) + bytes(64)
    coff = b'PE\0\0' + struct.pack('<HHLLLHH', 0x14c, 1, 1600000000, 0, 0, 224, 0x102)
    opt = struct.pack('<HBBLLLLLL', 0x10b, 9, 0, 0, len(raw), 0, 0, 0x1000, 0x1000)
    opt += struct.pack('<LLLHHHHHHLLLLHHLLLLLL', 0x400000, 0x1000, 512, 5, 0, 0, 0, 5, 0, 0, 0x2000, 512, 0, 2, 0, 0x100000, 0x1000, 0x100000, 0x1000, 0, 16)
    dirs = [(0, 0)] * 16
    dirs[2] = (rva, len(rsrc))
    opt += b''.join(struct.pack('<LL', *d) for d in dirs)
    assert len(opt) == 224, len(opt)
    sec = struct.pack('<8sLLLLLLHHL', b'.rsrc', len(rsrc), rva, len(raw), 512, 0, 0, 0, 0, 0x40000040)
    head = dos + coff + opt + sec
    return head + bytes(512 - len(head)) + raw
