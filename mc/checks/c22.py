"""Exports over any former content of the directory"""
import itertools
import os
import shutil

from .. import enc, families, fsx, patches
from ..families import FAMILIES, WadFamily, PlainFamily, MixedFamily, content
from ..patches import Store, RawExporter, Wad, element, sample

ID = 'C22'
LEVEL = 'exploration'
RULE = 'distinct (former content of the directory, patch, options) combinations; non-trivial when the former content differs from the exported one'
BOUNDS = {'quick': 'histories: all pairs of states of 4 families, each with or without links, lazily or not, over 1 previous patches; directories: all combinations of the status of each output, with one extra entry of each kind, none or all; unknown files: all sequences of 4 exports; another previous patch: all triples of 5 states of each family',
          'thorough': 'as quick with all families of at most 64 states, 4 previous patches, every subset of extra entries and triples of 9 states'}
ASSUMPTIONS = ['an unknown file has the same type in all patches', 'links of a former export are those an export makes (to any previous patch)', 'no directory at the place of a file; empty directories are not compared',
               'a directory of generated files has no other files when not overwriting']
HASHFILES = families.HASHFILES
OLD, NEW = '14.5', '14.6'


def clean(snap):
    return {k: v for k, v in snap.items() if v != ('d',) and not k.startswith('cdragon/')}


def groups(fresh):
    """Extracted assets: lists of outputs (a directory ends with a slash)"""
    files = [k for k, v in fresh.items() if v[0] == 'f']
    out, used = [], set()
    for k in files:
        if k + '.json' in fresh:
            out.append([k, k + '.json'])
        elif k.endswith('.skn'):
            out.append([k, k[:-4] + '/'])
        else:
            continue
        used.update(out[-1])
    dirs = tuple(u for u in used if u.endswith('/'))
    out += [[k] for k in files if k not in used and not k.startswith(dirs)]
    return out


# output of an asset of which the conversion fails
FAILING = {'game/data/sub.bin', 'game/data/sub.bin.json', 'game/assets/extless.cdtb.json', 'game/assets/d/bad.png', 'h/bad.png'}


def predict(pre, fresh, overwrite, exported):
    if overwrite:
        return fresh
    res = dict(fresh)
    for k in FAILING & exported & set(pre) - set(fresh):
        if pre[k][0] == 'f' and not any(v[0] == 'l' and k.startswith(l + '/') for l, v in fresh.items()):
            res[k] = pre[k]
    for outs in groups(fresh):
        present = {}
        for o in outs:
            if o.endswith('/'):
                present[o] = {k: v for k, v in pre.items() if k.startswith(o) or k == o[:-1] and v[0] == 'd'}
            else:
                present[o] = {o: pre[o]} if pre.get(o, (None,))[0] == 'f' else {}
        if all(present.values()):
            for o in outs:
                for k in list(res):
                    if k == o or o.endswith('/') and k.startswith(o):
                        del res[k]
                res.update(present[o])
    return res


def describe_diff(got, exp):
    return {k: (None if k not in got else str(got[k])[:80], None if k not in exp else str(exp[k])[:80]) for k in set(got) | set(exp) if got.get(k) != exp.get(k)}


def verify(ctx, out, pre, fresh, overwrite, base, before):
    got = clean(fsx.snapshot(out))
    with open(f"{out}/cdragon/files.exported.txt") as f:
        exp = predict(pre, fresh, overwrite, set(f.read().split('\n')))
    if got != exp:
        ctx.fail(f"content differs {{path: (got, expected)}}: {describe_diff(got, exp)}")
    ctx.equal(fsx.snapshot(base), before, 'previous export')


# -- histories

def history_families(tier):
    fams = {'plain': lambda: PlainFamily(['d/e/a.txt', 'd/e/f/b.txt', 'd/c.txt'], (0, 1)),
            'wad': lambda: WadFamily(families.GAME_WAD, ['assets/d/i.dds', 'assets/d/j.txt', 'assets/e/k.txt']),
            'multi': FAMILIES['multi'],
            'skn': lambda: WadFamily(families.GAME_WAD, ['assets/m.skn', 'assets/s/t.skn', 'assets/extless'])}
    if tier == 'thorough':
        fams.update({k: FAMILIES[k] for k in ('game', 'multi2', 'v1', 'plain', 'plaingame', 'lang2', 'lang3')})
        fams['duplicate'] = FAMILIES['duplicate']
    return fams


def run_history(unit, ctx):
    family = history_families(ctx.tier)[unit['history']]()
    states = family.states()
    prevs = [states[len(states) // 2]] if ctx.tier == 'quick' else [states[1], states[len(states) // 2], states[-2], states[-1]]
    pv, v = family.prev_version, family.version
    with ctx.tmp() as tmp:
        store = Store(f"{tmp}/store")
        cur = {s: patches.patch(family.build(store, s, v)) for s in states}
        for pstate in prevs:
            base = f"{tmp}/base"
            prev = patches.patch(family.build(store, pstate, pv))
            RawExporter(f"{base}/{pv}", prev).process()
            before = fsx.snapshot(f"{base}/{pv}")
            out = f"{base}/{v}"
            # former contents, by building them over an empty directory
            fresh = {}
            for s in states:
                for linked in (False, True):
                    RawExporter(out, cur[s], prev if linked else None).process()
                    fresh[s, linked] = clean(fsx.snapshot(out))
                    shutil.rmtree(out)
            for i in range(unit['from'], unit['to']):
                for linked1 in (False, True):
                    RawExporter(out, cur[states[i]], prev if linked1 else None).process()
                    kept = f"{tmp}/kept"
                    shutil.rmtree(kept, ignore_errors=True)
                    shutil.copytree(out, kept, symlinks=True)
                    pre = clean(fsx.snapshot(out))
                    for s, linked, overwrite in itertools.product(states, (False, True), (True, False)):
                        desc = lambda: {'family': unit['history'], 'previous patch': family.describe(pstate), 'former': family.describe(states[i]), 'former linked': linked1,
                                        'patch': family.describe(s), 'linked': linked, 'overwrite': overwrite}
                        with ctx.case(desc):
                            shutil.rmtree(out, ignore_errors=True)
                            shutil.copytree(kept, out, symlinks=True)
                            RawExporter(out, cur[s], prev if linked else None).process(overwrite=overwrite)
                            verify(ctx, out, pre, fresh[s, linked], overwrite, f"{base}/{pv}", before)
                            if pre != fresh[s, linked]:
                                ctx.nontrivial((unit['history'], pstate, i, linked1, s, linked, overwrite))
                            ctx.outcome((unit['history'], sorted(fresh[s, linked]), overwrite))
            shutil.rmtree(base)


# -- synthetic directories

SRC = {  # path: (content in the previous patch, content in the patch)
    'a.txt': (b'a', b'a'), 'd/b.txt': (b'b', b'b'), 'd/c.txt': (b'c', b'c'), 'e/f.txt': (b'f', b'f'), 'e/g.txt': (b'g', b'g2'),
}


def build_synthetic(store, n, version):
    plain = [(p, c[n], '') for p, c in SRC.items()] + [('h/bad.dds', b'bad%d' % n, '')]
    entries = [('data/b.bin', None, content('data/b.bin', n), 'zstd'), ('assets/s/t.skn', None, content('.skn', n), 'zstd'), ('assets/d/i.dds', None, content('.dds', n), 'zstd'), ('assets/d/bad.tga', None, b'bad%d' % n, 'zstd'),
               enc.WadEntry(enc.wad_hash('data/sub.bin'), b'x', 'sub', subchunks=[(b'abc%d' % n, False), (b'defg', False)], first=0)]
    return [element(store, 'game', version, plain, [Wad(families.GAME_WAD, entries)])]


def put(root, rel, value):
    path = f"{root}/{rel}"
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if value[0] == 'd':
        os.makedirs(path, exist_ok=True)
    elif value[0] == 'l':
        os.symlink(value[1], path)
    else:
        with open(path, 'wb') as f:
            f.write(value[1])


def up(rel):
    return '../' * (rel.count('/') + 1) + f"{OLD}/{rel}"


EXTRAS = {
    'file': {'extra.txt': ('f', b'extra')},
    'file in linked dir': {'d/extra.txt': ('f', b'extra')},
    'tree': {'n/m/x.txt': ('f', b'x'), 'n/m/o/y.txt': ('f', b'y'), 'n/z.txt': ('f', b'')},
    'dir link': {'link': ('l', f"../{OLD}/d")},
    'links': {'e/dangling': ('l', 'nowhere'), 'e/n/self': ('l', 'self'), 'e/n/file': ('l', f"../../../{OLD}/a.txt")},
    'model': {'game/assets/s/old.skn': ('f', b'old'), 'game/assets/s/old/body.obj': ('f', b'v')},
    'unconvertible': {'h/bad.png': ('f', b'stale'), 'game/assets/d/bad.png': ('f', b'stale'), 'game/data/sub.bin': ('f', b'stale'), 'game/data/sub.bin.json': ('f', b'stale')},
    'like kept': {'cdragon-old/a.txt': ('f', b'a'), 'cdragonx/n/b.txt': ('f', b'b'), 'cdragon.txt': ('f', b'c'), 'game-old/c.txt': ('f', b'c'), 'game-old/data/b.bin': ('f', b'd'), 'dd/b.txt': ('f', b'b'), 'a.txt-x/y': ('f', b'y'), 'a.txt.bak': ('f', b'a'), 'n/cdragon/x.txt': ('f', b'x'), 'n/cdragon2': ('l', 'nowhere')},
    'empty': {'empty/a/b': ('d',), 'd/nothing': ('d',), 'e/no/thing': ('d',)},
    'temporary': {'game/data/.part': ('f', b'partial'), '.a.txt.part': ('f', b'')},
}


def extra_sets(tier):
    names = list(EXTRAS)
    if tier == 'quick':
        return [(), tuple(names), ('file',), ('tree', 'links'), ('file in linked dir', 'temporary'), ('dir link', 'model'), ('unconvertible',), ('like kept',), ('empty',)]
    return [c for k in range(len(names) + 1) for c in itertools.combinations(names, k)]


def file_statuses(rel, fresh):
    return [{}, {rel: fresh[rel]}, {rel: ('f', b'stale')}, {rel: ('l', up(rel))}]


def synthetic_parts(linked, fresh, quick):
    """Lists of alternatives"""
    bin_, js, tex, skn, objs = 'game/data/b.bin', 'game/data/b.bin.json', 'game/assets/d/i.png', 'game/assets/s/t.skn', {k: v for k, v in fresh.items() if k.startswith('game/assets/s/t/')}
    obj_dirs = [{}, objs, dict(list(objs.items())[:1]), {'game/assets/s/t': ('l', up('game/assets/s/t'))}]
    bins = [{**a, **b} for a in file_statuses(bin_, fresh) for b in file_statuses(js, fresh)]
    models = [{**a, **b} for a in file_statuses(skn, fresh)[:3] for b in obj_dirs]
    if not linked:
        top = [bins, models, file_statuses('a.txt', fresh), file_statuses('e/g.txt', fresh) + [{'e': ('l', f"../{OLD}/e")}]]
        d = [{}, {'d': ('l', f"../{OLD}/d")}, {'d/b.txt': ('f', b'stale')}]
        return [top[0], top[1], top[2], top[3], d]
    a = [{}, {'a.txt': ('l', up('a.txt'))}, {'a.txt': ('f', b'stale')}]
    d = [{}, {'d': ('l', f"../{OLD}/d")}, {'d/b.txt': ('f', b'b'), 'd/c.txt': ('f', b'c')}, {'d/b.txt': ('l', up('d/b.txt'))}]
    ef = [{}, {'e/f.txt': ('l', up('e/f.txt'))}, {'e/f.txt': ('f', b'stale')}]
    eg = file_statuses('e/g.txt', fresh)
    e = [{'e': ('l', f"../{OLD}/e")}] + [{**x, **y} for x in ef for y in eg]
    game = [{'game': ('l', f"../{OLD}/game")}] + [{**x, **y} for x in bins for y in (models[0], models[5])[:1 if quick else 2]] + models[1:]
    return [a, d, e, game]


def run_synthetic(unit, ctx):
    linked = unit['linked']
    with ctx.tmp() as tmp:
        store = Store(f"{tmp}/store")
        base = f"{tmp}/base"
        out = f"{base}/{NEW}"
        prev = patches.patch(build_synthetic(store, 0, OLD))
        cur = patches.patch(build_synthetic(store, 1, NEW))
        RawExporter(f"{base}/{OLD}", prev).process()
        before = fsx.snapshot(f"{base}/{OLD}")
        RawExporter(out, cur, prev if linked else None).process()
        fresh = clean(fsx.snapshot(out))
        shutil.rmtree(out)
        parts = synthetic_parts(linked, fresh, ctx.tier == 'quick')
        first = parts.pop(0 if not linked else 3)
        step = 8
        for k in range(unit['index'], len(first), step):
            for combo in itertools.product(*parts):
                if ctx.tier == 'quick' and not linked and combo[0] not in (parts[0][0], parts[0][5]) and any(combo[1:]):
                    continue
                for x, extras in enumerate(extra_sets(ctx.tier)):
                    if ctx.tier == 'quick' and x > 1 and sum(len(c) for c in combo) > 1:
                        continue
                    pre = dict(first[k])
                    for c in combo:
                        pre.update(c)
                    if extras:
                        if any(e == 'file in linked dir' for e in extras) and 'd' in pre or 'links' in extras and 'e' in pre or 'empty' in extras and ('d' in pre or 'e' in pre) or 'game' in pre and ({'model', 'temporary', 'unconvertible'} & set(extras)):
                            continue
                        for e in extras:
                            pre.update(EXTRAS[e])
                    for overwrite in (True, False):
                        with ctx.case(lambda: {'linked': linked, 'overwrite': overwrite, 'former': {a: (b[0] + ':' + repr(b[1:])[:30]) for a, b in pre.items()}}):
                            for rel, value in pre.items():
                                put(out, rel, value)
                            RawExporter(out, cur, prev if linked else None).process(overwrite=overwrite)
                            verify(ctx, out, pre, fresh, overwrite, f"{base}/{OLD}", before)
                            if pre != fresh:
                                ctx.nontrivial((linked, overwrite, k, sorted(pre)))
                            ctx.outcome(sorted(pre))
                        shutil.rmtree(out, ignore_errors=True)


# -- type of unknown files

KINDS = {'json': ('.json', b'{"n": 1}', b'{"m": 2}'), 'ogg': ('.ogg', b'OggS sound', b'OggS'), 'none': ('', b'zzz', b'yy'), 'gif': ('.gif', b'GIF89a..', b'GIF87a'), 'empty': ('', b'', b'')}


def run_unknown(unit, ctx):
    hashes = itertools.count(0x7000000000000000 + unit['unknown'] * 0x1000)
    kind = list(KINDS)[unit['unknown']]
    ext, *contents = KINDS[kind]
    for version, seq in itertools.product(((3, 3), (1, 0)), itertools.product((None, 0, 1), repeat=4)):
        h = next(hashes)
        with ctx.case({'unknown file': kind, 'contents': seq, 'WAD version': version}), ctx.tmp() as tmp:
            store = Store(f"{tmp}/store")
            out = f"{tmp}/base/{NEW}"
            for i, n in enumerate(seq):
                entries = [(MixedFamily.A, None, b'js', 'raw')]
                exp = {MixedFamily.A: ('f', b'js')}
                if n is not None:
                    entries.append((None, h, contents[n], 'zstd' if version[0] == 3 else 'gzip'))
                    exp[f"plugins/rcp-fe-x/unknown/{h:016x}{ext}"] = ('f', contents[n])
                p = patches.patch([element(store, 'client', NEW, [], [Wad(MixedFamily.WAD, entries, version)])])
                RawExporter(out, p).process()
                ctx.equal(clean(fsx.snapshot(out)), exp, f"content of export {i}")
            ctx.nontrivial((version, kind, seq))


# -- previous patch which is not the one of the former export

def run_relinked(unit, ctx):
    family = history_families('quick')[unit['relinked']]()
    states = family.states()
    versions = ('14.4', '14.5', '14.6')
    n = 3 if ctx.tier == 'quick' else 7
    states = [states[0], *states[1:-1][::max(1, (len(states) - 2) // n)][:n], states[-1]]
    with ctx.tmp() as tmp:
        store = Store(f"{tmp}/store")
        pats = {(v, s): patches.patch(family.build(store, s, v)) for s in states for v in versions}
        base, out = f"{tmp}/base", f"{tmp}/base/14.6"
        seq = list(itertools.product(states, repeat=2))
        for k, (s1, s2) in enumerate(seq):
            if k % unit['of'] != unit['k']:
                continue
            prevs = {'14.4': pats['14.4', s1], '14.5': pats['14.5', s2]}
            for linked2 in (False, True):  # the second previous export is linked to the first one
                os.makedirs(base)
                RawExporter(f"{base}/14.4", prevs['14.4']).process()
                RawExporter(f"{base}/14.5", prevs['14.5'], prevs['14.4'] if linked2 else None).process()
                before = fsx.snapshot(base)
                for s in states:
                    fresh = {}
                    for v in ('14.4', '14.5'):
                        RawExporter(out, pats['14.6', s], prevs[v]).process()
                        fresh[v] = clean(fsx.snapshot(out))
                        shutil.rmtree(out)
                    for former, v, gone, overwrite in itertools.product(('14.4', '14.5'), ('14.4', '14.5'), (False, True), (True, False)):
                        if former == v or gone and (linked2 or former != '14.4'):
                            continue
                        with ctx.case(lambda: {'family': unit['relinked'], 'patches': {'14.4': family.describe(s1), '14.5': family.describe(s2), '14.6': family.describe(s)},
                                               '14.5 linked': linked2, 'former previous': former, 'previous': v, 'export of the former previous removed': gone, 'overwrite': overwrite}):
                            RawExporter(out, pats['14.6', s], prevs[former]).process()
                            if gone:
                                os.rename(f"{base}/{former}", f"{tmp}/gone")
                            pre = clean(fsx.snapshot(out))
                            RawExporter(out, pats['14.6', s], prevs[v]).process(overwrite=overwrite)
                            got = clean(fsx.snapshot(out))
                            if gone:
                                os.rename(f"{tmp}/gone", f"{base}/{former}")
                            exp = predict(pre, fresh[v], overwrite, set())
                            if got != exp:
                                ctx.fail(f"content differs {{path: (got, expected)}}: {describe_diff(got, exp)}")
                            if pre != fresh[v]:
                                ctx.nontrivial((unit['relinked'], s1, s2, s, linked2, former, gone, overwrite))
                            ctx.outcome(sorted(got.items(), key=str))
                        shutil.rmtree(out, ignore_errors=True)
                    ctx.equal(fsx.snapshot(base), before, 'previous exports')
                shutil.rmtree(base)


def units(tier):
    u = []
    for name in history_families(tier):
        if name in history_families('quick'):
            u += [{'relinked': name, 'k': k, 'of': 3} for k in range(3)]
    for name, make in history_families(tier).items():
        n = len(make().states())
        step = max(1, n // 9)
        u += [{'history': name, 'from': i, 'to': min(n, i + step)} for i in range(0, n, step)]
    u += [{'linked': linked, 'index': i} for linked in (True, False) for i in range(8)]
    u += [{'unknown': i} for i in range(len(KINDS))]
    return u


def run(unit, ctx):
    if 'history' in unit:
        run_history(unit, ctx)
    elif 'relinked' in unit:
        run_relinked(unit, ctx)
    elif 'unknown' in unit:
        run_unknown(unit, ctx)
    else:
        run_synthetic(unit, ctx)
