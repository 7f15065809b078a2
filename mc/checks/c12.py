"""WAD extraction: output tree against a reference naming function, for all small archives and modes"""
import contextlib
import io
import itertools
import os

from .. import enc, fsx
from ..enc import WadEntry, wad, wad_hash, subchunk_blob
from ..world import subsets
from cdtb.wad import Wad
from cdtb.__main__ import main as cdtb_main

ID = 'C12'
LEVEL = 'exploration'
RULE = 'distinct (archive, mode, pre-existing files) cases; non-trivial when at least one file is expected'
BOUNDS = {'quick': 'all single entries of the alphabet and all magic numbers; basename lengths 230..300; all ordered pairs x all subsets of existing files x overwrite; all triples; command line: filters x patterns x lazy; listings with 3 lists of paths; invalid archives and outputs',
          'thorough': 'as quick, triples x all subsets of existing files x overwrite and x 4 format versions'}
ASSUMPTIONS = ['paths of the hash list stay inside of the output', 'the same path hash always has the same content (the extension cache relies on it)']

MAGIC = [
    (b'\xff\xd8\xff\xdb', 'jpg'), (b'\xff\xd8\xff\xe1', 'jpg'), (b'abcdefJFIF', 'jpg'), (b'\xff\xd8\xff\xe0\0\x10JFIF', 'jpg'), (b'123456Exif', 'jpg'),
    (b'\x89PNG\r\n\x1a\n', 'png'), (b'GIF87a', 'gif'), (b'GIF89a', 'gif'), (b'OggS', 'ogg'), (b'\x00\x01\x00\x00', 'ttf'), (b'\x1aE\xdf\xa3', 'webm'),
    (b'true', 'ttf'), (b'OTTO\0', 'otf'), (b'"use strict";', 'min.js'), (b'<template ', 'template.html'), (b'<!-- Elements -->', 'template.html'),
    (b'<!DOCTYPE html>', 'html'), (b'<html', 'html'), (b'DDS ', 'dds'), (b'<svg', 'svg'), (b'PROP', 'bin'), (b'PTCH', 'bin'), (b'BKHD', 'bnk'),
    (b'r3d2Mesh', 'scb'), (b'r3d2anmd', 'anm'), (b'r3d2canm', 'anm'), (b'r3d2sklt', 'skl'), (b'r3d2', 'wpk'), (b'\x33\x22\x11\x00', 'skn'),
    (b'PreLoadBuildingBlocks = {', 'preload'), (b'\x1bLuaQ\x00\x01\x04\x04', 'luabin'), (b'\x1bLuaQ\x00\x01\x04\x08', 'luabin64'),
    (b'\x02\x3d\x00\x28', 'troybin'), (b'[ObjectBegin]', 'sco'), (b'OEGM', 'mapgeo'), (b'TEX\0', 'tex'), (b'\0asm', 'wasm'), (b'UnityFS', 'bundle'),
    (b'UnityWebData1.0', 'data'),
]
PLAIN = [(b'{"a": [1, null]}', 'json'), (b'[]', 'json'), (b'12.5', 'json'), (b'"text"', 'json'), (b'\xef\xbb\xbf', None), (b'{"a": }', None), (b'\x80\x81', None), (b'hello', None),
         (b'xDDS ', None), (b'OTTO', None), (b'r3d1', None), (b'prop', None), (b'\x89PNG\r\n', None), (b'\x1bLuaQ\x00\x01\x04\x05', None), (b'\0', None)]


def sub_ok():
    seq = [(b'DDS sub', False), (b'z' * 90, True)]
    return seq


class Letter:
    def __init__(self, name, path, kind, data, guess, hash=None):
        self.name, self.path, self.kind, self.data, self.guess = name, path, kind, data, guess
        self.hash = wad_hash(path or f"?{name}") if hash is None else hash

    def entry(self):
        if self.kind == 'bad':
            blob, _ = subchunk_blob([(b'good', False)])
            return WadEntry(self.hash, None, 'stored4', subchunks=(0x14, b'baad', 4))
        if self.kind == 'link':
            return WadEntry(self.hash, b'target/path.txt', 'link')
        return WadEntry(self.hash, self.data, self.kind)

    def output(self, guessed=True):
        """Relative path of the extracted file, None if there is none"""
        if self.kind in ('link', 'bad'):
            return None
        g = self.guess if guessed else None
        if self.path is None:
            return f"unknown/{self.hash:016x}" + (f".{g}" if g else '')
        base = self.path.rsplit('/', 1)[-1]
        dot = base.rfind('.')
        ext = base[dot:] if dot > 0 and base[:dot].strip('.') else ''
        stem = base[:len(base) - len(ext)]
        if not ext:
            ext = '.cdtb' + (f".{g}" if g else '')
        if len(stem) + len(ext) >= 250:
            n = 250 - 17 - len(ext)
            stem = (stem + ext)[:n] + f".{self.hash:016x}"
        if any(len(p) > 255 for p in self.path.split('/')[:-1]):
            return None
        return self.path[:len(self.path) - len(base)] + stem + ext


LETTERS = [
    Letter('text', 'a/b/file.txt', 'raw', b'some text', None),
    Letter('noext', 'a/b', 'zstd', b'no extension', None),
    Letter('noext-dds', 'a/c', 'gzip', b'DDS data', 'dds'),
    Letter('case', 'A/B/File.TXT', 'raw', b'CASE', None, hash=0xc0ffee00c0ffee00),
    Letter('unknown-magic', None, 'zstd', b'PROP1234', 'bin'),
    Letter('unknown', None, 'raw', b'nothing special', None),
    Letter('unknown-empty', None, 'raw', b'', None),
    Letter('empty', 'empty.json', 'raw', b'', None),
    Letter('link', 'a/link.txt', 'link', None, None),
    Letter('unknown-link', None, 'link', None, None),
    Letter('bad', 'a/bad.bin', 'bad', None, None),
    Letter('unknown-bad', None, 'bad', None, None),
    Letter('long', 'l/' + 'x' * 260 + '.bin', 'raw', b'long', None),
    Letter('long-noext', 'l/' + 'x' * 250, 'zstd', b'GIF89a', 'gif'),
    Letter('deep', 'p/' + 'd' * 256 + '/f.txt', 'raw', b'path too long', None),
    Letter('dots', 'v1.2/name.with.dots.json', 'zstd', b'{}', None),
    Letter('hidden', 'h/.hidden', 'raw', b'[1]', 'json'),
    Letter('unknown-zero', None, 'raw', b'[1]', 'json', hash=0x00000000000000ab),
    Letter('unknown-low', None, 'gzip', b'\x89PNG\r\n\x1a\n more', 'png', hash=0x76543210000000ab),
]
assert len({l.hash for l in LETTERS}) == len(LETTERS)
HASHFILES = {
    'hashes.game.txt': {l.hash: l.path for l in LETTERS if l.path},
    'hashes.lcu.txt': {l.hash: 'lcu/' + l.path for l in LETTERS if l.path},
}
MODES = ('library', 'guessed')


def hashes(letters):
    return {l.hash: l.path for l in letters if l.path is not None}


def build(tmp, letters, version=(3, 3), name='a.wad.client'):
    path = f"{tmp}/{name}"
    with open(path, 'wb') as f:
        f.write(wad(version, [l.entry() for l in letters]))
    return path


def expect(letters, guessed=True, existing=None):
    out = dict(existing or {})
    for l in letters:
        p = l.output(guessed)
        if p is not None and p not in out:
            out[p] = l.data
    return out


def compare(ctx, out, exp):
    got = fsx.snapshot(out) if os.path.isdir(out) else {}
    # directories created for a file which cannot be stored may remain
    got = {k: v[1] for k, v in got.items() if v[0] != 'd'}
    ctx.equal(sorted(got), sorted(exp), 'extracted files')
    for k in exp:
        ctx.equal(got[k], exp[k], f'content of {k}')


STALE = b'stale content'


def extract(ctx, desc, letters, guessed=True, overwrite=True, existing=(), version=(3, 3)):
    with ctx.case(desc), ctx.tmp() as tmp:
        path = build(tmp, letters, version)
        out = f"{tmp}/out"
        stale = {}
        for l in existing:
            p = l.output(guessed)
            os.makedirs(os.path.dirname(f"{out}/{p}"), exist_ok=True)
            # the content of some is as long as the new one
            stale[p] = STALE if not l.data or len(l.data) % 2 else b'\xee' * len(l.data)
            with open(f"{out}/{p}", 'wb') as f:
                f.write(stale[p])
        w = Wad(path, hashes=hashes(letters))
        if guessed:
            w.guess_extensions()
        w.extract(out, overwrite=overwrite)
        exp = expect(letters, guessed, stale if not overwrite else None)
        compare(ctx, out, exp)
        if exp:
            ctx.nontrivial(desc)
        ctx.outcome(sorted(exp))


def units(tier):
    u = [{'part': p} for p in ('single', 'magic', 'lengths', 'list')]
    u += [{'part': 'pairs', 'first': i} for i in range(len(LETTERS))]
    u += [{'part': 'triples', 'first': i} for i in range(len(LETTERS))]
    u += [{'part': 'cli', 'unknown': x} for x in ('yes', 'only', 'no', None)]
    return u


def run(unit, ctx):
    part = unit['part']
    if part == 'single':
        for version in ((1, 0), (2, 0), (3, 0), (3, 3), (3, 4)):
            for l in LETTERS:
                if version[0] == 1 and l.kind == 'bad':
                    continue
                for guessed in (True, False):
                    extract(ctx, {'single': l.name, 'version': version, 'guessed': guessed}, [l], guessed, version=version)
    elif part == 'magic':
        for i, (magic, ext) in enumerate(MAGIC + PLAIN):
            tails = (b'', b' tail', b'\xff' * 20) if (magic, ext) in MAGIC else (b'',)
            for j, tail in enumerate(tails):
                for kind in ('raw', 'zstd', 'gzip'):
                    h = 0x1000 * (i + 1) + 0x10 * j + ('raw', 'zstd', 'gzip').index(kind)
                    l = Letter('m', None, kind, magic + tail, ext, hash=h)
                    extract(ctx, {'magic': repr(magic), 'tail': len(tail), 'kind': kind}, [l])
                    # a second archive with the same entry gives the same name
                    extract(ctx, {'magic': repr(magic), 'tail': len(tail), 'kind': kind, 'again': True}, [LETTERS[0], l])
                    n = Letter('n', f"dir/noext{h:x}", kind, magic + tail, ext, hash=h + 0x10000000)
                    extract(ctx, {'magic noext': repr(magic), 'tail': len(tail), 'kind': kind}, [n])
    elif part == 'lengths':
        for n in range(225, 301):
            for ext in ('.t', '.json', '.long_extension_name', ''):
                for d in ('', 'dir/', 'd1/' + 'y' * 200 + '/'):
                    if n <= len(ext):
                        continue
                    l = Letter('len', d + 'n' * (n - len(ext)) + ext, 'raw', b'x%d' % n, None)
                    other = Letter('len2', d + 'n' * (n - len(ext)) + 'z' + ext, 'raw', b'y%d' % n, None)
                    extract(ctx, {'length': n, 'ext': ext, 'dir': len(d)}, [l, other, LETTERS[0]])
    elif part == 'pairs':
        a = LETTERS[unit['first']]
        for b in LETTERS:
            if a is b:
                continue
            for overwrite in (True, False):
                outs = [l for l in (a, b) if l.output() is not None]
                for existing in subsets(outs):
                    extract(ctx, {'pair': (a.name, b.name), 'overwrite': overwrite, 'existing': [l.name for l in existing]},
                            [a, b], True, overwrite, existing)
    elif part == 'triples':
        a = LETTERS[unit['first']]
        for b, c in itertools.permutations([l for l in LETTERS if l is not a], 2):
            if ctx.tier == 'quick':
                extract(ctx, {'triple': (a.name, b.name, c.name)}, [a, b, c], False)
                continue
            outs = [l for l in (a, b, c) if l.output() is not None]
            for existing in subsets(outs):
                for overwrite in (True, False):
                    for version in ((2, 0), (3, 0), (3, 3), (3, 4)):
                        extract(ctx, {'triple': (a.name, b.name, c.name), 'overwrite': overwrite, 'existing': [l.name for l in existing], 'version': version},
                                [a, b, c], True, overwrite, existing, version)
    elif part == 'list':
        for n in (0, 1, 2, 3):
            for letters in itertools.combinations(LETTERS[:12], n):
                with ctx.case({'list': [l.name for l in letters]}), ctx.tmp() as tmp:
                    path = build(tmp, letters)
                    buf = io.StringIO()
                    with contextlib.redirect_stdout(buf):
                        cdtb_main(['wad-list', path])
                    ctx.equal(sorted(buf.getvalue().splitlines()), sorted(f"{l.hash:016x} {l.path or '?'}" for l in letters), 'listing')
                    ctx.nontrivial(('list', [l.name for l in letters]))
                    # other lists of paths
                    own = {letters[0].hash: 'renamed/x y.txt', 1: 'absent.txt'} if letters else {}
                    with open(f"{tmp}/h.txt", 'w') as f:
                        f.write(''.join(f"{h:016x} {s}\n" for h, s in own.items()))
                    other = os.path.join(tmp, 'archive.wad')
                    os.rename(path, other)
                    for argv, known in ((['-H', f"{tmp}/h.txt"], own), ([], HASHFILES['hashes.lcu.txt'])):
                        buf = io.StringIO()
                        with contextlib.redirect_stdout(buf):
                            cdtb_main(['wad-list', other, *argv])
                        ctx.equal(sorted(buf.getvalue().splitlines()), sorted(f"{l.hash:016x} {known.get(l.hash, '?')}" for l in letters), f"listing with {argv}")
                    ctx.equal(sorted(n for n in os.listdir(tmp) if n != '.sentinel'), ['archive.wad', 'h.txt'], 'files after the listing')
        for command, what, argv, out in itertools.product(('wad-list', 'wad-extract'), ('absent', 'directory', 'no default list', 'not an archive', 'output is a file'), ([], ['-H']), (None, 'out', 'd/out')):
            if command == 'wad-list' and (out or what == 'output is a file') or what == 'no default list' and argv:
                continue
            with ctx.case({'command': command, 'archive': what, 'options': argv, 'output': out}), ctx.tmp() as tmp:
                with open(f"{tmp}/h.txt", 'w'):
                    pass
                name = 'x.zip' if what == 'no default list' else 'x.wad.client'
                if what == 'directory':
                    os.mkdir(f"{tmp}/{name}")
                elif what == 'not an archive':
                    with open(f"{tmp}/{name}", 'wb') as f:
                        f.write(b'PK\x03\x04' + bytes(400))
                elif what != 'absent':
                    os.rename(build(tmp, LETTERS[:2]), f"{tmp}/{name}")
                if what == 'output is a file':
                    p = f"{tmp}/{out or 'x.wad'}"
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, 'wb') as f:
                        f.write(b'mine')
                before = fsx.snapshot(tmp)
                full = [command, f"{tmp}/{name}", *(argv + [f"{tmp}/h.txt"] if argv else []), *(['-o', f"{tmp}/{out}"] if out else [])]
                buf = io.StringIO()
                try:
                    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                        cdtb_main(full)
                except (SystemExit, Exception) as e:
                    ctx.check(not isinstance(e, SystemExit) or e.code not in (0, None), 'the exit code tells success')
                else:
                    ctx.fail('no error')
                ctx.equal(fsx.snapshot(tmp), before, 'files after the error')
                ctx.nontrivial((command, what, argv, out))
    elif part == 'cli':
        # command line: filters, patterns, lazy mode, hash lists
        letters = LETTERS
        pats = ['a/*', '*.txt', '*', 'A/*', '[ab]/b', 'a/?', 'nothing', '*/file.*', '*unknown*']
        combos = [[]] + [[p] for p in pats] + [list(c) for c in itertools.combinations(pats[:6], 2)]
        import fnmatch
        for patterns in combos:
            for lazy in (False, True):
                for hashsrc in ('default', 'lcu', 'file'):
                    desc = {'unknown': unit['unknown'], 'patterns': patterns, 'lazy': lazy, 'hashes': hashsrc}
                    with ctx.case(desc), ctx.tmp() as tmp:
                        name = 'some.wad' if hashsrc == 'lcu' else 'some.wad.client'
                        path = build(tmp, letters, name=name)
                        known = {'default': HASHFILES['hashes.game.txt'], 'lcu': HASHFILES['hashes.lcu.txt'], 'file': {letters[0].hash: 'renamed/x y.txt', letters[5].hash: 'now/known.bin'}}[hashsrc]
                        argv = ['wad-extract', path]
                        out = f"{tmp}/out"
                        if hashsrc == 'file':
                            with open(f"{tmp}/h.txt", 'w') as f:
                                for h, s in known.items():
                                    f.write(f"{h:016x} {s}\n")
                            argv += ['-H', f"{tmp}/h.txt"]
                        if hashsrc == 'lcu':
                            out = f"{tmp}/some"   # default output
                        else:
                            argv += ['-o', out]
                        for p in patterns:
                            argv += ['-p', p]
                        if unit['unknown']:
                            argv += ['-u', unit['unknown']]
                        sel = []
                        for l in letters:
                            p = known.get(l.hash)
                            if unit['unknown'] == 'only' and p is not None or unit['unknown'] == 'no' and p is None:
                                continue
                            if patterns and not any(p is not None and fnmatch.fnmatchcase(p, x) for x in patterns):
                                continue
                            guess = l.guess if l.guess or not l.data else {b'{}': 'json', b'CASE': None}.get(l.data)
                            sel.append(Letter(l.name, p, l.kind, l.data, guess, hash=l.hash))
                        stale = {}
                        if lazy:
                            argv.append('--lazy')
                            for l in sel[::2]:
                                p = l.output()
                                if p:
                                    os.makedirs(os.path.dirname(f"{out}/{p}"), exist_ok=True)
                                    with open(f"{out}/{p}", 'wb') as f:
                                        f.write(STALE)
                                    stale[p] = STALE
                        cdtb_main(argv)
                        exp = expect(sel, True, stale)
                        compare(ctx, out, exp)
                        if exp:
                            ctx.nontrivial(desc)
                        ctx.outcome(sorted(exp))
