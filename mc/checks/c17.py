"""String tables: every small table in every version and patch era, lookups, JSON form"""
import base64
import io
import itertools
import json
import re

from ..enc import LARGE, rst, rst_bits
from xxhash import xxh3_64_intdigest, xxh64_intdigest
from cdtb.rstfile import RstFile
from cdtb.export import RstConverter

ID = 'C17'
LEVEL = 'exploration'
RULE = 'distinct (table, version, patch) cases; non-trivial when the table has entries'
BOUNDS = {'quick': 'all tables of 0..2 entries over 5 keys/hashes x 12 texts, and all tables of 3 entries over 4 texts, x versions 2..5 x 7 patches x sharing x encryption flag x font configuration; counts and sizes around 2**8, 2**15 and 2**16',
          'thorough': 'as quick with all tables of 3 entries over 12 texts'}
ASSUMPTIONS = ['hashes of a table are distinct']

GAMES = (1101, 1414, 1415, 1416, 1501, 1502, 9999)
KNOWN = ['game_character_Name', 'tft_item_x{1}', 'shared key/\u00e9']
HASHFILES = {
    'hashes.rst.xxh3.txt': {xxh3_64_intdigest(k.lower()): k for k in KNOWN},
    'hashes.rst.xxh64.txt': {xxh64_intdigest(k.lower()): k for k in KNOWN},
}
TEXTS = [b'', b'text', 'h\u00e9llo \u4e2d "q" \\ / \n\t'.encode(), b'windows \x92 quote', b'\xff', b'\xffabcdef', b'\x80', b'a' * 300,
         ('enc', b''), ('enc', b'\x01\x02\xff\x00'), ('enc', bytes(range(256)) * 3), b'<br>{{ x }}']
BIG = b'B' * 70000


def keyhash(key, bits, game):
    """key: text, or a full 64-bit hash"""
    if isinstance(key, str):
        key = xxh3_64_intdigest(key.lower()) if game >= 1415 else xxh64_intdigest(key.lower())
    return key & ((1 << bits) - 1)


KEYS = ['game_character_Name', 'tft_item_x{1}', 'unknown_key', 0, 0xffff_ffff_ffff_ffff, 0x8000_0040_0000_0000 | 0x40_0000_0001 | 1 << 38]


def expected_text(value, trenc):
    if isinstance(value, tuple):
        return base64.b64encode(value[1]).decode()
    return value.decode('utf-8', 'replace')


def check_table(ctx, desc, pairs, version, game, trenc, share, font, tmp, convert):
    """pairs: [(key, value)]"""
    if any(isinstance(v, tuple) for _, v in pairs) and not trenc:
        return
    if trenc and any(not isinstance(v, tuple) and v[:1] == b'\xff' for _, v in pairs):
        return
    if (trenc and version == 5) or (font is not None and version != 2):
        return
    bits = rst_bits(version, game)
    entries = [(keyhash(k, bits, game), v) for k, v in pairs]
    if len({h for h, _ in entries}) != len(entries):
        return
    with ctx.case(lambda: desc(pairs, version, game, trenc, share, font)):
        data = rst(version, entries, game, font, trenc, share)
        exp = {h: expected_text(v, trenc) for h, v in entries}
        path = f"{tmp}/t.stringtable"
        with open(path, 'wb') as f:
            f.write(data)
        for src in (io.BytesIO(data), path):
            r = RstFile(src, game)
            ctx.equal(r.version, version, 'version')
            ctx.equal(r.entries, exp, 'entries')
            ctx.equal(r.font_config, font, 'font configuration')
        if game >= 1502:
            # without patch version: the latest format
            r2 = RstFile(path)
            ctx.equal((r2.version, r2.entries), (version, exp), 'table read without patch version')
        for k in KEYS:
            h = keyhash(k, bits, game)
            for kk in ([k, k.upper(), k.lower()] if isinstance(k, str) else [k, h]):
                ctx.equal(kk in r, h in exp, f'{kk!r} in table')
                ctx.equal(r.get(kk), exp.get(h), f'get({kk!r})')
                ctx.equal(r.get(kk, 'default'), exp.get(h, 'default'), f'get({kk!r}) with default')
                try:
                    v = r[kk]
                except KeyError:
                    ctx.check(h not in exp, f'key {kk!r} not found')
                else:
                    ctx.check(h in exp and v == exp[h], lambda: f'[{kk!r}] gives {v!r}')
        if convert:
            RstConverter(re.compile('.'), *([] if game == 9999 else [game])).convert(io.BytesIO(data), tmp, 'out.stringtable')
            with open(f"{tmp}/out.stringtable", 'rb') as f:
                ctx.check(f.read() == data, 'the raw copy differs')
            with open(f"{tmp}/out.stringtable.json", 'rb') as f:
                got = json.loads(f.read(), object_pairs_hook=lambda ps: Pairs(ps))
            known = {keyhash(k, bits, game): k for k in KNOWN}
            ctx.equal(sorted(k for k, _ in got), ['entries', 'version'], 'JSON keys')
            got = dict(got)
            ctx.equal(got['version'], version, 'JSON version')
            ctx.equal(sorted(got['entries']), sorted((known.get(h, f"{{{h:010x}}}"), t) for h, t in exp.items()), 'JSON entries')
        if pairs:
            ctx.nontrivial(desc(pairs, version, game, trenc, share, font))
        ctx.outcome((bits, sorted(map(repr, exp.values()))))


class Pairs(list):
    pass


def desc(pairs, version, game, trenc, share, font):
    return {'table': [(k, repr(v)[:40]) for k, v in pairs], 'version': version, 'game': game, 'trenc': trenc, 'share': share, 'font': font}


def units(tier):
    u = [{'part': 'small', 'version': v, 'game': g} for v in (2, 3, 4, 5) for g in GAMES]
    u += [{'part': 'triples', 'version': v, 'game': g} for v in (2, 3, 4, 5) for g in GAMES]
    u += [{'part': 'refused'}] + [{'part': 'large', 'version': v, 'game': g} for v, g in ((2, 1000), (3, 1000), (4, 1415), (5, 1415), (5, 1502))]
    return u


def run(unit, ctx):
    part = unit['part']
    if part == 'refused':
        for game in GAMES:
            for version in list(range(0, 256)):
                if version in (2, 3, 4, 5):
                    continue
                with ctx.case({'version': version}):
                    data = b'RST' + bytes((version,)) + b'\0' * 64
                    try:
                        RstFile(io.BytesIO(data), game)
                    except ValueError:
                        pass
                    else:
                        ctx.fail('no error')
                    ctx.nontrivial(('refused', version, game))
            for magic in (b'rst', b'RSx', b'\0\0\0', b'TSR'):
                with ctx.case({'magic': repr(magic)}):
                    try:
                        RstFile(io.BytesIO(magic + b'\x05' + b'\0' * 64), game)
                    except ValueError:
                        pass
                    else:
                        ctx.fail('no error')
        return
    version, game = unit['version'], unit['game']
    fonts = (None, '', 'font config \u00e9 "x"') if version == 2 else (None,)
    trencs = (False, True) if version < 5 else (False,)
    with ctx.tmp() as tmp:
        if part == 'large':
            for n in LARGE:
                for trenc in trencs:
                    enc = (lambda i, b: ('enc', b) if i % 3 == 0 and len(b) < 65536 else b) if trenc else (lambda i, b: b)
                    for what, pairs in (('entries', [(2**20 + i, enc(i, b'text %d' % i)) for i in range(n)]), ('text', [(KEYS[0], b'before'), (KEYS[1], enc(0, b'x' * n)), (KEYS[2], enc(0, b'after'))]),
                                        ('font', [(KEYS[0], b'a')])):
                        font = 'f' * n if what == 'font' and version == 2 else None
                        check_table(ctx, lambda *a: {'large': what, 'n': n, 'version': version, 'game': game, 'trenc': trenc}, pairs, version, game, trenc, True, font, tmp, True)
        elif part == 'small':
            for n in range(3):
                for keys in itertools.permutations(KEYS, n):
                    for texts in itertools.product(TEXTS, repeat=n):
                        for trenc in trencs:
                            for share in ((True, False) if n == 2 and texts[0] == texts[1] else (True,)):
                                for font in fonts if n < 2 else fonts[:1]:
                                    check_table(ctx, desc, list(zip(keys, texts)), version, game, trenc, share, font, tmp, n < 2 or keys[0] == KEYS[0] or keys[1] == KEYS[2])
        else:
            texts3 = TEXTS if ctx.tier == 'thorough' else [TEXTS[0], TEXTS[3], TEXTS[9], BIG]
            for keys in (KEYS[:3], KEYS[1:4], KEYS[3:6], KEYS[2:5][::-1]):
                for texts in itertools.product(texts3, repeat=3):
                    for trenc in trencs:
                        for share in (True, False):
                            check_table(ctx, desc, list(zip(keys, texts)), version, game, trenc, share, fonts[-1], tmp, share)
