"""Dump commands: text and JSON of BIN files, OBJ files of SKN files, through the command line"""
import contextlib
import io
import itertools
import json
import os

from . import c16, c18
from .. import fsx
from ..enc import V, binfile, hname, skn
import cdtb.__main__ as cdtb_main

ID = 'C34'
LEVEL = 'exploration'
RULE = 'distinct (file, options) combinations; non-trivial when at least one value or face is shown'
BOUNDS = {'quick': 'BIN files: all leaf values, all containers of leaves, pairs of 18 values, header versions and patch sections, in 7 patch versions, as text and as JSON, with 4 verbosities in turn; SKN files of up to 3 parts in 7 versions with 3 kinds of output; refused files',
          'thorough': 'as quick with containers of containers'}
ASSUMPTIONS = ['the format of the text is free: it shows types, names and values in the order of the file, and differs when they differ', 'texts have no line break']
HASHFILES = c16.HASHFILES
VERBOSE = [[], ['-v'], ['-vv'], ['-v', '-v', '-v']]
VERSIONS = {None: None, 801: '8.1', 922: '9.22', 923: '9.23', 1007: '10.7', 1008: '10.8', 1502: '15.2'}


def cli(*args):
    """(exit status or exception, output)"""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            cdtb_main.main(list(args))
        except SystemExit as e:
            return e.code or 0, out.getvalue()
        except Exception as e:
            return e, out.getvalue()
    return 0, out.getvalue()


def tokens(v, top=True):
    """Texts shown for a value, in order"""
    t = v.t
    if t in ('list', 'list2'):
        return [c16.btype(t).name if top else 'LIST', c16.btype(v.a).name, *(x for y in v.v for x in tokens(y, False))]
    if t == 'option':
        return ['OPTION', c16.btype(v.a).name, *(['None'] if v.v is None else tokens(v.v, False))]
    if t == 'map':
        return ['MAP', c16.btype(v.a).name, c16.btype(v.b).name, *(x for k, y in v.v for z in (tokens(k, False), tokens(y, False)) for x in z)]
    if t in ('struct', 'embedded'):
        if t == 'struct' and hname(v.a) == 0:
            return ['STRUCT', 'None']
        return [t.upper(), c16.shown('type', v.a), *(x for n, y in v.v for x in field(n, y))]
    name = [c16.btype(t).name] if top else []
    if t in ('hash', 'link', 'path'):
        return name + [c16.shown(t, v.v)]
    if t == 'string':
        return name + [repr(v.v)[1:-1]]
    return name + [repr(v.v)]


def field(n, v):
    return [c16.shown('field', n), *tokens(v)]


def key_ok(v):
    """Keys of maps are shown like texts: not covered if they need escapes"""
    if v.t in ('list', 'list2'):
        return all(key_ok(x) for x in v.v)
    if v.t == 'option':
        return v.v is None or key_ok(v.v)
    if v.t == 'map':
        return all(k.t != 'string' or repr(k.v)[1:-1] == k.v for k, _ in v.v) and all(key_ok(x) for _, x in v.v)
    if v.t in ('struct', 'embedded'):
        return all(key_ok(x) for _, x in v.v)
    return True


def check_text(ctx, text, want):
    pos = 0
    for i, w in enumerate(want):
        at = text.find(w, pos)
        ctx.check(at >= 0, lambda: f"{w!r} (after {want[max(0, i - 3):i]}) is not shown: {text!r:.900}")
        pos = at + len(w)


class Dumper:
    def __init__(self, ctx, tmp):
        self.ctx, self.tmp, self.n = ctx, tmp, 0
        self.seen = {}    # text: content

    def check(self, entries, version=3, linked=(), era=None, patch=None):
        ctx = self.ctx
        self.n += 1
        path = f"{self.tmp}/in.bin"
        with open(path, 'wb') as f:
            f.write(binfile(entries, version, linked, era or 1008, patch))
        options = VERBOSE[self.n % 4] + ['bin-dump'] + ([[], ['-V', VERSIONS[era]], [f"--patch-version={VERSIONS[era]}"]][self.n % 2 + 1] if era else [])
        want = [] if version < 2 else [repr(x)[1:-1] for x in linked]
        for p, t, fields in entries:
            want += [c16.shown('link', p), c16.shown('type', t), *(x for n, v in fields for x in field(n, v))]
        groups = {}
        if patch is not None and version >= 3:
            for p, obj, v in patch:
                groups.setdefault(hname(p), []).append((obj, v))
        for h, fs in groups.items():
            want += [c16.shown('link', h), *(x for obj, v in fs for x in [obj, *tokens(v)])]
        if all(key_ok(v) for _, _, fs in entries for _, v in fs) and all(key_ok(v) for _, _, v in patch or ()):
            status, text = cli(*options, path)
            ctx.equal(status, 0, 'status of the text dump')
            check_text(ctx, text, want)
            content = repr(([] if version < 2 else list(linked), version < 2, [(hname(p), hname(t), [c16.pfield(n, v) for n, v in fs]) for p, t, fs in entries],
                            [(h, [(o, c16.btype(v.t), c16.plain(v)) for o, v in fs]) for h, fs in groups.items()]))
            if self.seen.setdefault(text, content) != content:
                ctx.fail(f"same text for different contents: {content} and {self.seen[text]}")
            if want:
                ctx.nontrivial(('text', content, era))
        if all(c16.json_ok(v) for _, _, fs in entries for _, v in fs) and all(c16.json_ok(v) for _, _, v in patch or ()):
            status, text = cli(*options, ['-j', '--json'][self.n // 2 % 2], path)
            ctx.equal(status, 0, 'status of the JSON dump')
            expj = {c16.shown('link', p): {**{c16.shown('field', n): c16.jsonv(v) for n, v in fs}, '__type': c16.shown('type', t)} for p, t, fs in entries}
            if version >= 2:
                expj['__linked'] = list(linked)
            if patch is not None and version >= 3:
                expj['__patches'] = {c16.shown('link', h): {o: c16.jsonv(v) for o, v in fs} for h, fs in groups.items()}
            got, exp = json.loads(text), json.loads(json.dumps(expj))
            ctx.check(c16._same_unordered(got, exp), lambda: f"JSON: got {got!r:.700}, expected {exp!r:.700}")
            if entries:
                ctx.nontrivial(('json', repr(exp), era))
        ctx.outcome((len(entries), version, era))


def run_bin(unit, ctx):
    era, part = unit['era'], unit['part']
    with ctx.tmp() as tmp:
        d = Dumper(ctx, tmp)
        for n, v in enumerate(itertools.chain(c16.leaves(), c16.level1(), c16.wrap(c16.level1() if ctx.tier == 'thorough' else c16.representative()))):
            if n % 4 == part and c16.allowed(v, era):
                with ctx.case(lambda: {'value': repr(v)[:400], 'era': era}):
                    d.check([('Known/Entry', 'KnownType', [('mKnown', v), ('Other', V('u32', 77))]), ('other/entry', 'Unknown', [])], era=era)
        reps = [v for v in c16.representative() if c16.allowed(v, era)]
        for a, b in itertools.product(reps[part::4], reps):
            with ctx.case(lambda: {'values': repr((a, b))[:400], 'era': era}):
                d.check([('Known/Entry', 'KnownType', [('mKnown', a), ('unk', b)]), ('x', 'Sub', [('shared', b)])], era=era)
        for version, linked, n in itertools.product((1, 2, 3) if part == 0 else (), ((), ('a.bin',), ('DATA/a.bin', '', 'h\u00e9.bin')), range(3)):
            entries = [(('Known/Entry', 'e2')[i], ('KnownType', 'T')[i], [('mKnown', reps[(i * 7 + version) % len(reps)])]) for i in range(n)]
            for patch in [None, [], *([('Known/Entry', 'a.b.c', r)] for r in reps), [('Known/Entry', 'a', V('u8', 1)), ('unk', 'b{1}', V('string', 'z')), ('Known/Entry', 'c', V('list', [V('s8', -1)], 's8'))]]:
                with ctx.case(lambda: {'version': version, 'linked': linked, 'entries': n, 'patch': repr(patch), 'era': era}):
                    d.check(entries, version, linked, era, patch)


def run_skn(unit, ctx):
    ver = tuple(unit['ver'])
    major, minor, vtype = ver
    models = [(n, [('Unknown' if not major else 'Body', 0, n, 0, 3 * len(tris), c18.up(tris))], c18.flat(tris)) for n, tris in ((0, []), (1, [(0, 0, 0)]), (3, [(0, 1, 2), (2, 1, 0)]), (4, []))]
    if major:
        models += [(0, [], []), (2, [], [0, 1, 1])]
        for names in (('a', 'b'), ('b', 'a', 'UP per.x')):
            for size, gap in itertools.product((1, 2), (0, 1)):
                parts, idx, sv = [], [], 0
                for k, name in enumerate(names):
                    tris = [(0, size - 1, 0)] * k
                    parts.append((name, sv, size, len(idx), 3 * k, c18.up(tris)))
                    idx += c18.flat(c18.up(tris, sv))
                    sv += size + gap
                models.append((sv, parts, idx))
    for n, (nverts, parts, idx) in enumerate(models):
        vertices = c18.vlist(nverts)
        for output, name, former, verbose in itertools.product(('given', 'default', 'deep'), ('in.skn', 'm.v1.skn', 'noext'), (None, 'other', 'same'), VERBOSE):
            if output == 'default' and name == 'noext' or verbose and name != 'in.skn':
                continue
            with ctx.case({'version': ver, 'parts': parts, 'output': output, 'file': name, 'former files': former, 'options': verbose}), ctx.tmp() as tmp:
                path = f"{tmp}/{name}"
                data = skn(major, minor, [p[:5] for p in parts], idx, vertices, vtype, unknown=3)
                with open(path, 'wb') as f:
                    f.write(data)
                out = {'given': f"{tmp}/out", 'deep': f"{tmp}/x/y.obj/z", 'default': os.path.splitext(path)[0]}[output]
                expected = {p[0] + '.obj' for p in parts}
                if former:
                    os.makedirs(out)
                    fn = 'former.txt' if former == 'other' else (sorted(expected) + ['former.obj'])[0]
                    with open(f"{out}/{fn}", 'w') as f:
                        f.write('former ' * 1000)
                status, text = cli(*verbose, 'skn-extract', *(['-o', out] if output != 'default' else []), path)
                ctx.equal(status, 0, 'status')
                snap = fsx.snapshot(out)
                ctx.equal(sorted(snap), sorted(expected | ({fn} if former else set())), 'files of the output')
                if former and fn not in expected:
                    ctx.equal(snap[fn][1], b'former ' * 1000, 'file of someone else')
                for p in parts:
                    c18.check_obj(ctx, snap[f"{p[0]}.obj"][1].decode(), vertices[p[1]:p[1] + p[2]], p[5])
                with open(path, 'rb') as f:
                    ctx.equal(f.read(), data, 'extracted file')
                if any(p[5] for p in parts):
                    ctx.nontrivial((ver, n, output, name, former, verbose))
                ctx.outcome((output, len(parts)))


def run_refused(unit, ctx):
    good = binfile([('e', 't', [('f', V('u8', 1))])])
    for command, name, bad in itertools.product((['bin-dump'], ['bin-dump', '-j'], ['bin-dump', '-V', '9.1'], ['skn-extract']), ('in.skn', 'd', 'absent'), (b'', b'PRO', b'XXXX' + good[4:], b'\x33\x22\x11\x01' + b'\0' * 60)):
        with ctx.case({'command': command, 'file': name, 'content': repr(bad[:20])}), ctx.tmp() as tmp:
            os.mkdir(f"{tmp}/d")
            with open(f"{tmp}/in.skn", 'wb') as f:
                f.write(bad)
            before = fsx.snapshot(tmp)
            status, text = cli(*command, f"{tmp}/{name}")
            ctx.check(status != 0, 'no error')
            ctx.equal(text, '', 'output')
            ctx.equal(fsx.snapshot(tmp), before, 'files')
            ctx.nontrivial((command, name, bad))
    with ctx.tmp() as tmp:
        with open(f"{tmp}/in.bin", 'wb') as f:
            f.write(good)
        for v in ('x', '9.', '.9', '-1'):
            with ctx.case({'patch version': v}):
                status, text = cli('bin-dump', '-V', v, f"{tmp}/in.bin")
                ctx.check(status != 0, lambda: f"accepted: {text}")
                ctx.nontrivial(v)


def units(tier):
    return [{'kind': 'bin', 'era': e, 'part': k} for e in c16.ERAS for k in range(4)] + [{'kind': 'skn', 'ver': v} for v in c18.VERSIONS] + [{'kind': 'refused'}]


def run(unit, ctx):
    globals()[f"run_{unit['kind']}"](unit, ctx)
