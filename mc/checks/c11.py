"""WAD entries: every (version, storage kind, size, subchunk layout, corruption) against the original bytes"""
import itertools

from .. import enc
from ..enc import WadEntry, wad, subchunk_blob
from ..world import sequences
from cdtb.wad import Wad, MalformedSubchunkError

ID = 'C11'
LEVEL = 'exploration'
RULE = 'distinct archives (version, entries, physical order, table of contents, corruption)'
BOUNDS = {'quick': '7 format versions x 6 kinds x 6 contents; all triples of kinds in all physical orders; subchunk sequences up to 3 over 6 letters at 9 first indexes; every byte of stored data / hash / stored size of the table corrupted for sequences up to 2; every truncation; 254 to 70001 entries, entries of 254 bytes to 16 MiB',
          'thorough': 'as quick, with subchunk sequences up to 4 and 15, corruptions of sequences up to 3 at 3 first indexes'}
ASSUMPTIONS = ['zstd, gzip and xxhash libraries are trusted', 'data of an entry is contiguous']

VERSIONS = [(1, 0), (2, 0), (2, 4), (3, 0), (3, 3), (3, 4), (3, 9)]
LONG = bytes(range(256)) * 300
CONTENTS = [b'', b'a', b'hello world' * 9, LONG, b'\0' * 200000, b'\xff\xfe\x00' + LONG[:997]]
HASHES = {enc.wad_hash('x.subchunktoc'): 'x.subchunktoc', enc.wad_hash('e0'): 'e0'}
# letters of the subchunk alphabet: (data, compressed)
SUB = [(b'x', False), (b'\0' * 40, True), (LONG[:300], False), (LONG[:300] * 3, True), (b'', False), (b'q' * 5000, True)]
FIRST = [0, 1, 2, 255, 256, 65535, 65536, 65537, 0x2ffff]


def read(tmp, data, desc_hashes=HASHES):
    path = f"{tmp}/a.wad.client"
    with open(path, 'wb') as f:
        f.write(data)
    return Wad(path, hashes=desc_hashes)


def contents(w):
    """[(path hash, data or 'malformed')] in table order, by both ways of reading"""
    out = []
    with open(w.path, 'rb') as f:
        for wf in w.files:
            try:
                d = wf.read_data(f, w.subchunk_toc)
            except MalformedSubchunkError:
                d = 'malformed'
            d2 = w.read_file_data(f, wf)
            if d2 != (None if d == 'malformed' else d):
                raise AssertionError('read_data and read_file_data differ')
            out.append((wf.path_hash, d))
    return out


def entry(i, kind, data):
    return WadEntry(enc.wad_hash(f"e{i}"), data, kind)


def exp(e):
    return (e.path_hash, None if e.kind == 'link' else e.data)


def units(tier):
    u = [{'part': 'single', 'version': v} for v in VERSIONS]
    u += [{'part': 'triples', 'version': v} for v in VERSIONS]
    u += [{'part': 'sub', 'first': f} for f in FIRST]
    u += [{'part': 'corrupt', 'letter': i} for i in range(len(SUB))]
    u += [{'part': 'refuse'}, {'part': 'notoc'}, {'part': 'many'}]
    u += [{'part': 'large', 'version': v} for v in ((1, 0), (2, 0), (3, 3), (3, 4))]
    return u


def run(unit, ctx):
    with ctx.tmp() as tmp:
        globals()[f"part_{unit['part']}"](unit, ctx, tmp)


def kinds(version):
    return ('raw', 'gzip', 'gzip members', 'zstd', 'link') + (('plain4',) if version[0] > 1 else ())


def make(i, kind, data):
    if kind == 'plain4':  # subchunked entry stored as a single frame, without table
        return WadEntry(enc.wad_hash(f"e{i}"), data, 'stored4', subchunks=(0x14, enc.zstd(data), len(data)))
    return entry(i, kind, data)


def part_single(unit, ctx, tmp):
    version = tuple(unit['version'])
    for kind in kinds(version):
        for n, data in enumerate(CONTENTS):
            if kind == 'link':
                data = ('é/' + 'path' * n * 20).encode() + b'\0' * (n % 2)
            for gap in (b'', b'\xc3' * 5):
                for dup in (False, True):
                    with ctx.case({'version': version, 'kind': kind, 'content': n, 'gap': len(gap), 'dup': dup}):
                        e = make(0, kind, data)
                        e.duplicate = dup
                        w = read(tmp, wad(version, [e], gap=gap, tail=gap))
                        ctx.equal(w.version, version, 'version')
                        ctx.equal(contents(w), [exp(e)], 'entries')
                        ctx.equal(w.files[0].path, 'e0', 'path')
                        ctx.equal(w.files[0].type, {'raw': 0, 'gzip': 1, 'gzip members': 1, 'link': 2, 'zstd': 3, 'plain4': 4}[kind], 'type')
                        ctx.nontrivial((version, kind, n, gap, dup))
    # path hashes over the whole 64-bit range; no entry at all
    with ctx.case({'version': version, 'entries': 0}):
        ctx.equal(contents(read(tmp, wad(version, []))), [], 'entries')
    for h in (0, 1, 2**63, 2**64 - 1, 0x0123456789abcdef):
        with ctx.case({'version': version, 'hash': h}):
            e = WadEntry(h, b'data')
            w = read(tmp, wad(version, [e]), {h: 'Some/Path.Txt'})
            ctx.equal(contents(w), [exp(e)], 'entries')
            ctx.equal((w.files[0].path, w.files[0].ext), ('Some/Path.Txt', 'Txt'), 'resolved path')
            w = read(tmp, wad(version, [e]), {h ^ 1: 'Some/Path.Txt'})
            ctx.equal(w.files[0].path, None, 'unknown path')
            ctx.nontrivial((version, h))


def part_triples(unit, ctx, tmp):
    version = tuple(unit['version'])
    data = [b'first ' * 3, b'', b'\0' + LONG[0x20:0x7f] * 9]
    for ks in itertools.product(kinds(version), repeat=3):
        for order in itertools.permutations(range(3)):
            with ctx.case({'version': version, 'kinds': ks, 'order': order}):
                es = [make(i, k, data[i]) for i, k in enumerate(ks)]
                w = read(tmp, wad(version, es, gap=b'.' * (order[0] % 2), order=order))
                ctx.equal(contents(w), [exp(e) for e in es], 'entries')
                ctx.nontrivial((version, ks, order))


FILLER = b'\xaa' * 16


def sub_archive(version, seqs, firsts, toc_kind, toc_pos=0, toc_edit=None, data_edit=None):
    """Archive with subchunked entries (one per sequence) and their table of contents"""
    size = max(f + len(s) for f, s in zip(firsts, seqs))
    toc = bytearray(FILLER * size)
    es = []
    for i, (seq, first) in enumerate(zip(seqs, firsts)):
        blob, records = subchunk_blob(seq)
        toc[16 * first:16 * first + len(records)] = records
        if data_edit:
            blob = data_edit(i, blob)
        es.append(WadEntry(enc.wad_hash(f"e{i}"), b''.join(d for d, _ in seq), 'stored4', subchunks=(4 | len(seq) << 4, blob, sum(len(d) for d, _ in seq)), first=first,
                           # the flag has no effect on the content; its place is used by the first subchunk of later versions
                           duplicate=version < (3, 4) and (first + i) % 2 == 0))
    toc = bytes(toc)
    if toc_edit:
        toc = toc_edit(toc)
    t = WadEntry(enc.wad_hash('x.subchunktoc'), toc, toc_kind)
    es.insert(toc_pos, t)
    return wad(version, es), es


def part_sub(unit, ctx, tmp):
    first = unit['first']
    n = 3 if ctx.tier == 'quick' else 4
    versions = [(3, 4)] if first > 65535 else [(2, 0), (3, 0), (3, 3), (3, 4), (3, 9)]
    for version in versions:
        for seq in sequences(SUB, n, 1):
            if len(seq) == n and version not in ((3, 3), (3, 4)):
                continue
            big = first > 60000
            if big and len(seq) > 2:
                continue
            for toc_kind, pos in ((('zstd', 1),) if big else (('raw', 0), ('zstd', 1))):
                with ctx.case({'version': version, 'sub': [(len(d), c) for d, c in seq], 'first': first, 'toc': (toc_kind, pos)}):
                    data, es = sub_archive(version, [seq], [first], toc_kind, pos)
                    ctx.equal(contents(read(tmp, data)), [exp(e) for e in es], 'entries')
                    ctx.nontrivial((version, seq, first, toc_kind))
        # two entries sharing the table, in both orders
        if first < 60000:
            for a, b in itertools.product(SUB, repeat=2):
                for firsts in ((first, first + 2), (first + 2, first), (first, first + 1)):
                    with ctx.case({'version': version, 'two': [len(a[0]), len(b[0])], 'firsts': firsts}):
                        seqs = [[a, b], [b, a]] if firsts[1] != firsts[0] + 1 else [[a], [b, b]]
                        data, es = sub_archive(version, seqs, firsts, 'gzip')
                        ctx.equal(contents(read(tmp, data)), [exp(e) for e in es], 'entries')
                        ctx.nontrivial((version, 'two', a, b, firsts))


def part_many(unit, ctx, tmp):
    """All the subchunk counts of the format"""
    for n in range(1, 16):
        for shift in range(len(SUB)):
            seq = [SUB[(i + shift) % len(SUB)] for i in range(n)]
            with ctx.case({'count': n, 'shift': shift}):
                data, es = sub_archive((3, 4), [seq], [3], 'raw')
                ctx.equal(contents(read(tmp, data)), [exp(e) for e in es], 'entries')
                ctx.nontrivial(('many', n, shift))


def part_large(unit, ctx, tmp):
    """Counts and sizes around the widths of integers"""
    version = tuple(unit['version'])
    for n in (*enc.LARGE, 2**20 + 1, 2**24 + 1):
        data = (LONG * (n // len(LONG) + 1))[:n - 1] + b'.'
        for kind in kinds(version):
            if kind == 'link':
                continue
            with ctx.case({'version': version, 'kind': kind, 'size': n}):
                es = [make(0, kind, data), make(1, kind, b'after')]
                ctx.check(contents(read(tmp, wad(version, es))) == [exp(e) for e in es], 'entries differ')
                ctx.nontrivial((version, kind, n))
        if version[0] == 3:
            for seq in ([(data, True), (b'x', False)], [(data, False), (b'x', False)], [(b'x', False), (data, True), (data[::-1], True)]):
                with ctx.case({'version': version, 'subchunks': [(len(d), c) for d, c in seq]}):
                    archive, es = sub_archive(version, [seq], [3], 'raw')
                    ctx.check(contents(read(tmp, archive)) == [exp(e) for e in es], 'entries differ')
                    ctx.nontrivial((version, n, [(len(d), c) for d, c in seq]))
    for n in enc.LARGE:
        with ctx.case({'version': version, 'entries': n}, timeout=120):
            es = [WadEntry(0x100000000 * i + 7, b'%d' % i) for i in range(n)]
            w = read(tmp, wad(version, es), {es[i].path_hash: f"path{i}" for i in (0, n // 2, n - 1)})
            ctx.check([wf.path_hash for wf in w.files] == [e.path_hash for e in es], 'entries differ')
            ctx.equal([i for i, wf in enumerate(w.files) if wf.path], [0, n // 2, n - 1], 'known paths')
            with open(w.path, 'rb') as f:
                ctx.check(all(wf.read_data(f) == e.data for wf, e in zip(w.files, es)), 'contents differ')
            ctx.nontrivial((version, 'entries', n))


def part_notoc(unit, ctx, tmp):
    """Without a table of contents: the right data or a report, never altered data"""
    for version in ((2, 0), (3, 3), (3, 4)):
        for seq in sequences(SUB, 3, 1):
            with ctx.case({'version': version, 'no toc': [(len(d), c) for d, c in seq]}):
                blob, _ = subchunk_blob(seq)
                orig = b''.join(d for d, _ in seq)
                e = WadEntry(enc.wad_hash('e0'), orig, 'stored4', subchunks=(4 | len(seq) << 4, blob, len(orig)))
                (_, got), = contents(read(tmp, wad(version, [e, entry(1, 'raw', b'next')])))[:1]
                ctx.check(got == 'malformed' or got == orig, lambda: f'altered data: {got[:50]!r}')
                if len(seq) == 1 and seq[0][1]:
                    ctx.equal(got, orig, 'single compressed subchunk')
                if not seq[0][1] and seq[0][0]:
                    ctx.equal(got, 'malformed', 'plain data')
                ctx.nontrivial((version, seq))


def part_corrupt(unit, ctx, tmp):
    n = 2 if ctx.tier == 'quick' else 3
    firsts = [1] if ctx.tier == 'quick' else [0, 1, 300]
    small = [(b'x', False), (b'\0' * 40, True), (LONG[:30], False), (LONG[:30] * 3, True), (b'', False), (b'q' * 50, True)]
    lead = small[unit['letter']]
    for seq in ([lead, *s] for s in sequences(small, n - 1)):
        orig = b''.join(d for d, _ in seq)
        blob, _ = subchunk_blob(seq)
        for first in firsts:
            cases = []
            for i in range(len(blob)):
                for x in (0x01, 0x80):
                    cases.append(('data', i, x))
            for i in range(len(blob)):
                cases.append(('truncated data', i, 0))
            for k in range(len(seq)):
                for i in list(range(0, 4)) + list(range(8, 16)):
                    for x in (0x01, 0x80):
                        cases.append(('toc', 16 * (first + k) + i, x))
            for i in range(0, 16 * len(seq)):
                cases.append(('truncated toc', 16 * first + i, 0))
            for what, i, x in cases:
                def data_edit(k, b):
                    if k:
                        return b
                    if what == 'data':
                        return b[:i] + bytes([b[i] ^ x]) + b[i + 1:]
                    if what == 'truncated data':
                        return b[:i]
                    return b
                def toc_edit(t):
                    if what == 'toc':
                        return t[:i] + bytes([t[i] ^ x]) + t[i + 1:]
                    if what == 'truncated toc':
                        return t[:i]
                    return t
                with ctx.case({'sub': [(len(d), c) for d, c in seq], 'first': first, 'corrupted': (what, i, x)}):
                    data, es = sub_archive((3, 4), [seq, [(b'ok', False)]], [first, 0], 'raw', 0, toc_edit, data_edit) if first else \
                        sub_archive((3, 4), [seq], [first], 'raw', 0, toc_edit, data_edit)
                    got = contents(read(tmp, data))[1][1]
                    ctx.check(got == 'malformed' or got == orig, lambda: f"altered data returned: {got[:60]!r}")
                    if what in ('data', 'truncated data', 'truncated toc'):
                        nonempty = any(d for d, _ in seq)
                        # cutting the table after the last useful byte of an empty tail cannot be seen
                        ctx.check(got == 'malformed' or not nonempty, 'corruption not reported')
                    ctx.nontrivial((seq, first, what, i, x))
                    ctx.outcome(got)


def part_refuse(unit, ctx, tmp):
    good = wad((3, 3), [entry(0, 'raw', b'x')])
    for major in range(256):
        if major in (1, 2, 3):
            continue
        for minor in (0, 3):
            with ctx.case({'version': (major, minor)}):
                try:
                    read(tmp, good[:2] + bytes((major, minor)) + good[4:])
                except ValueError:
                    pass
                else:
                    ctx.fail('accepted')
                ctx.nontrivial((major, minor))
    for magic in (b'rw', b'RX', b'XW', b'WR', b'\0\0'):
        with ctx.case({'magic': magic.decode()}):
            try:
                read(tmp, magic + good[2:])
            except ValueError:
                pass
            else:
                ctx.fail('accepted')
            ctx.nontrivial(magic)
    for version in VERSIONS:
        for t in range(5, 16):
            with ctx.case({'version': version, 'kind': t}):
                w = read(tmp, wad(version, [WadEntry(enc.wad_hash('e0'), b'', 'stored4', subchunks=(t, b'abcd', 4))]))
                try:
                    d = contents(w)
                except ValueError:
                    pass
                else:
                    ctx.fail(f'decoded as {d!r}')
                ctx.nontrivial((version, t))
