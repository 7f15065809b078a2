"""Guessing: every neighbour of every small set of known paths is found; content search over all entry kinds"""
import contextlib
import io
import itertools
import os
import re
import struct

from .. import enc, guess, patches
from ..enc import WadEntry
from ..guess import h64
from ..http import net
from ..world import subsets
from cdtb import hashes as hmod
from cdtb.data import REGIONS, Language
from cdtb.wad import Wad
from cdtb.__main__ import main

ID = 'C14'
LEVEL = 'exploration'
RULE = 'distinct (strategy, arguments, known paths) and (WAD content, strategy); non-trivial when at least one unknown path has to be found'
BOUNDS = {'quick': 'known paths: basenames of 1 to 3 words of 4 with separators - _ . and 2 extensions, in 2 directories, alone and in pairs; all subsets of 4 to 7 paths for the other strategies; every neighbour asked for at once, and one at a time for 4 paths; content search: 60 texts in 5 storage kinds, with 9 kinds of unreadable entries before and after, and in pairs; paths in data: 11 prefixes x 5 x 3 length forms x 6 x 6 contexts; command line: 12 sources x 13 method lists x dry run; lists of unknown hashes: 3 files, all subsets of 3 hashes in each',
          'thorough': 'basenames of up to 4 words, pairs with all separators; content search in all pairs of storage kinds'}
ASSUMPTIONS = ['no % and no braces in known paths', 'character names are no part of the other words of the paths', 'directories have no dot', 'damaged compressed data is no part of a valid WAD']

LANGS = [l.value for l in Language]


# ---------------------------------------------------------------- reference neighbourhoods

def parts_of(path):
    d, _, b = path.rpartition('/')
    return (d + '/' if d else ''), b


def words_of(base):
    """Words of a basename, but those after the last dot: [(start, end)]"""
    last = base.rfind('.')
    if last < 0:
        return []
    return [(m.start(), m.end()) for m in re.finditer(r'[^_.\-]+', base) if m.start() < last]


def wordlist(paths):
    ret = set()
    for p in paths:
        for w in re.split(r'[/_.\-]', p)[:-1]:
            if not (len(w) >= 3 and w.isdigit()):
                ret.add(w)
    return ret


def n_numbers(known, nmax, digits):
    out = set()
    if digits is True:
        digits = len(str(nmax - 1))
    for p in known:
        d, b = parts_of(p)
        last = b.rfind('.')
        for m in re.finditer(r'\d+', b):
            if m.start() > last or (digits is not None and len(m.group()) != digits):
                continue
            for n in range(nmax):
                s = str(n) if digits is None else str(n).zfill(digits)
                out.add(d + b[:m.start()] + s + b[m.end():])
    return out


def n_words(known, words, nold, nnew):
    out = set()
    for p in known:
        d, b = parts_of(p)
        ws = words_of(b)
        for i in range(len(ws) - nold + 1):
            run = ws[i:i + nold]
            if any(b[x[1]:y[0]] not in ('-', '_') for x, y in zip(run, run[1:])):
                continue
            for new in itertools.product(words, repeat=nnew):
                for sep in '-_':
                    out.add(d + b[:run[0][0]] + sep.join(new) + b[run[-1][1]:])
    return out


def n_add(known, words):
    out = set()
    for p in known:
        d, b = parts_of(p)
        for s, e in words_of(b):
            for w in words:
                for sep in '-_':
                    out.add(d + b[:s] + w + sep + b[s:])
                    out.add(d + b[:e] + sep + w + b[e:])
    return out


def ancestors(paths):
    out = set()
    for p in paths:
        while '/' in p:
            p = p.rpartition('/')[0]
            out.add(p)
    return out


def n_basenames(known, names=None):
    names = {parts_of(p)[1] for p in known} if names is None else names
    return {f"{d}/{n}" for d in ancestors(known) for n in names}


def split_ext(p):
    d, b = parts_of(p)
    i = b.rfind('.')
    return (d + b[:i], b[i:]) if i > 0 else (p, '')


def n_ext(known):
    exts = {split_ext(p)[1] for p in known}
    return {split_ext(p)[0] + e for p in known for e in exts if not e.endswith('00')}


def n_suffix(known):
    items = []
    for p in known:
        d, b = parts_of(p)
        f = b.split('.')
        if len(f) > 1:
            items.append((d + '.'.join(f[:-2]), '.' + f[-2], '.' + f[-1]) if len(f) > 2 else (d + f[0], '', '.' + f[1]))
    sufs = {s for _, s, _ in items} | {''}
    return {p + s + e for p, _, e in items for s in sufs}


def n_plugin(known):
    plugins = {p.split('/')[1] for p in known if p.startswith('plugins/')}
    return {'/'.join(['plugins', x] + p.split('/')[2:]) for p in known if p.startswith('plugins/') for x in plugins}


def n_region(known):
    out = set()
    for p in known:
        f = p.split('/')
        if f[0] == 'plugins' and len(f) >= 5:
            for r in REGIONS + ['global']:
                for l in LANGS + ['default']:
                    out.add('/'.join(f[:2] + [r, l] + f[4:]))
    return out


def n_lang(known):
    out = set()
    for p in known:
        for l in LANGS:
            if l in p:
                out |= {p.replace(l, x) for x in LANGS}
    return out


def n_prefix(known, prefixes=('2x_', '2x_sd_', '4x_', '4x_sd_', 'sd_')):
    return {parts_of(p)[0] + x + parts_of(p)[1] for p in known for x in prefixes}


def n_char(known):
    items = [p.split('/') for p in known]
    items = [f for f in items if f[0] in ('assets', 'data') and f[1] == 'characters' and len(f) > 3]
    return {'/'.join(f).replace(f[2], c[2]) for f in items for c in items}


def n_skin(known):
    items = []
    for p in known:
        m = re.search(r'/characters/([^/]+)/skins/(base|skin\d+)/', p)
        if m:
            items.append((p, m.group(1), m.group(2)))
    out = set()
    for p, c, s in items:
        # every number in the path, also when they differ
        f = re.split(r'base|skin\d+', p)
        for new in itertools.product({s2 for _, c2, s2 in items if c2 == c}, repeat=len(f) - 1):
            out.add(''.join(itertools.chain.from_iterable(zip(f, new))) + f[-1])
    return out


def n_groups(known):
    chars = {}
    for p in known:
        m = re.match(r'assets/characters/([^/]+)/skins/skin(\d+)/', p)
        if m:
            chars.setdefault(m.group(1), {0}).add(int(m.group(2)))
    return {f"data/{c}{''.join(sorted(f'_skins_skin{i}' for i in sub))}.bin" for c, s in chars.items() for sub in subsets(sorted(s)) if sub}


CHAR_FILES = ["data/characters/{c}/skins/root.bin", "data/characters/{c}/skins/base/{c}.skl", "data/characters/{c}/skins/base/{c}.skn",
              "data/characters/{c}/skins/base/{c}_tx_cm.dds", "data/characters/{c}/tiers/root.bin", "data/characters/{c}/{c}.bin", "data/characters/{c}/{c}.ddf",
              "data/characters/{c}/hud/{c}_circle.dds", "data/characters/{c}/hud/{c}_square.dds", "assets/characters/{c}/hud/{c}_circle.dds",
              "assets/characters/{c}/hud/{c}_square.dds", "characters/{c}"]


def n_files(chars):
    out = set()
    for c in chars:
        out |= {f.format(c=c) for f in CHAR_FILES}
        n = 500 if c == 'sightward' else 200
        out |= {f"data/characters/{c}/{d}/skin{i}.bin" for i in range(n) for d in ('skins', 'animations')}
        if c.startswith('pet'):
            out |= {f"data/characters/{c}/tiers/tier{i}.bin" for i in range(10)}
    return out


def chars_of(known):
    out = set()
    for p in known:
        f = p.split('/')
        if f[0] in ('assets', 'data'):
            f = f[1:]
        if len(f) > 1 and f[0] == 'characters' and '.' not in f[1]:
            out.add(f[1])
    return out


SHADER_VARIANTS = [".dx11", ".dx9", ".dx9sm3", ".glsl", ".metal", "-dx11", "-metal"]
SHADER_EXTS = [".ps_2_0", ".ps_3_0", ".vs_2_0", ".vs_3_0", ".ps", ".vs"]


def n_shader(known):
    out = set()
    for p in known:
        for e in SHADER_EXTS:
            i = p.rfind(e)
            if i >= 0 and (p[i + len(e):i + len(e) + 1] in ('', '.', '-') or '_0' in e):
                out |= {p[:i + len(e)] + v for v in SHADER_VARIANTS} | {f"{p[:i + len(e)]}{v}_{n}" for v in SHADER_VARIANTS for n in range(0, 20000, 100)}
                break
    return out


# ---------------------------------------------------------------- known paths

def basenames(maxwords, words=('ab', 'c', '7', '042'), seps='-_.', exts=('.x', '.yz')):
    for n in range(1, maxwords + 1):
        for ws in itertools.product(words, repeat=n):
            for ss in itertools.product(seps, repeat=n - 1):
                b = ws[0] + ''.join(s + w for s, w in zip(ss, ws[1:]))
                for e in exts if n < 3 else exts[:1]:
                    yield b + e


def expect(ctx, kind, name, f, known, exp, **desc):
    """All the neighbours are asked for: all are found"""
    known = list(known)
    want = exp - set(known)
    with ctx.case({'kind': kind, 'strategy': name, 'known': known, **desc}):
        r = guess.Run(kind, known, list(want) + known[:1] + [0x1234])
        r.step(f)
        r.check_safe(ctx)
        missed = want - r.found()
        ctx.check(not missed, lambda: f"{len(missed)} of {len(want)} not found: {sorted(missed)[:5]}")
        if want:
            ctx.nontrivial((kind, name, known, sorted(desc.items())))
        ctx.outcome((name, len(want)))
        ctx.bump('neighbours', len(want))


def units(tier):
    u = []
    for kind in ('lcu', 'game'):
        u += [{'part': 'subst', 'kind': kind, 'k': k, 'n': 8} for k in range(8)]
        u += [{'part': 'pairs', 'kind': kind, 'k': k, 'n': 4} for k in range(4)]
    u += [{'part': p} for p in ('plugin', 'region', 'character', 'skin', 'suffix', 'lang', 'files', 'shader', 'other', 'alone', 'exported')]
    u += [{'part': 'grep', 'kind': kind, 'k': k, 'n': 6} for kind in ('lcu', 'game') for k in range(6)]
    u += [{'part': 'cli', 'k': k, 'n': 4} for k in range(4)]
    u += [{'part': 'grepdata', 'k': k, 'n': 4} for k in range(4)]
    return u


def run(unit, ctx):
    globals()[f"run_{unit['part']}"](unit, ctx)


PRE = {'lcu': ('plugins/rcp-be-x/global/default/', 'plugins/rcp-fe-y/global/default/img-12/'), 'game': ('data/', 'assets/q-3/r.5/')}


def strategies(kind, known):
    """(name, step, neighbours) of the strategies of both guessers"""
    wl = wordlist(known)
    yield 'numbers', lambda g: g.substitute_numbers(12), n_numbers(known, 12, None)
    yield 'numbers2', lambda g: g.substitute_numbers(nmax=10, digits=3), n_numbers(known, 10, 3)
    yield 'numbers3', lambda g: g.substitute_numbers(10, True), n_numbers(known, 10, True)
    yield 'basenames', lambda g: g.substitute_basenames(), n_basenames(known)
    yield 'names', lambda g: g.check_basenames(['s/t.js', 'u']), n_basenames(known, ['s/t.js', 'u'])
    yield 'ext', lambda g: g.substitute_extensions(), n_ext(known)
    yield 'words', lambda g: g.substitute_basename_words(), n_words(known, wl, 1, 1)
    yield 'add', lambda g: g.add_basename_word(), n_add([p for p in known if kind == 'lcu' or not p.startswith('assets/characters/')], wl)
    if kind == 'lcu':
        for nold, nnew in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1)):
            yield f"words {nold}/{nnew}", lambda g: g.substitute_basename_words(words=iter(['w', 'ab', '9']), nold=nold, nnew=nnew), n_words(known, ['w', 'ab', '9'], nold, nnew)
        yield 'words plugin', lambda g: g.substitute_basename_words('rcp-fe-y', '.x', ['w']), n_words([p for p in known if p.startswith('plugins/rcp-fe-y/') and p.endswith('.x')], ['w'], 1, 1)
    else:
        yield 'prefixes', lambda g: g.check_basename_prefixes(), n_prefix(known)
        yield 'prefixes2', lambda g: g.check_basename_prefixes(['p-', 'q']), n_prefix(known, ['p-', 'q'])
        yield 'suffixes', lambda g: g.substitute_suffixes(), n_suffix(known)


def run_subst(unit, ctx):
    kind = unit['kind']
    pres = PRE[kind]
    quick = ctx.tier == 'quick'
    for i, b in enumerate(basenames(3 if quick else 4)):
        if i % unit['n'] != unit['k']:
            continue
        known = [pres[i % 2] + b]
        for name, f, exp in strategies(kind, known):
            expect(ctx, kind, name, f, known, exp)
    for i, b in enumerate(['.x', 'a', '-a.x', 'a--b.x', 'a_.x', '0.1.2', '00', 'é-ü.x', 'a b-c.x', 'long.' + 'x' * 40, '12ab34.x', 'ab.400', 'A-B.x']):
        if i % unit['n'] == unit['k']:
            for pre in pres:
                known = [pre + b]
                for name, f, exp in strategies(kind, known):
                    expect(ctx, kind, name, f, known, exp)


def run_pairs(unit, ctx):
    kind = unit['kind']
    pres = PRE[kind]
    bs = [b for b in basenames(2, words=('ab', '7'), seps='-.' if ctx.tier == 'quick' else '-_.')] + ['noext', 'x.y.z', 'a_400.ps_2_0']
    i = 0
    for a, b in itertools.product(bs, repeat=2):
        for pa, pb in itertools.product(pres, repeat=2):
            i += 1
            if i % unit['n'] != unit['k']:
                continue
            known = sorted({pa + a, pb + b}, reverse=bool(i & 4))
            for name, f, exp in strategies(kind, known):
                expect(ctx, kind, name, f, known, exp)


def run_plugin(unit, ctx):
    pool = ['plugins/p1/global/default/a.js', 'plugins/p2/na/fr_fr/b/c.js', 'plugins/p3/global/default/v1/d/e.json', 'plugins/p-4/x/y/z', 'plugins/p5/r.json', 'other/p1/global/default/q.js']
    for known in subsets(pool):
        expect(ctx, 'lcu', 'plugin', lambda g: g.substitute_plugin(), known, n_plugin(known))


def run_region(unit, ctx):
    pool = ['plugins/p1/global/default/a.js', 'plugins/p2/na/fr_fr/b/c.js', 'plugins/p2/vn2/default/plugins/p1/na/fr_fr/c.js', 'other/p1/global/default/q.js', 'plugins/p1/a.js']
    for known in subsets(pool):
        expect(ctx, 'lcu', 'region and lang', lambda g: g.substitute_region_lang(), known, n_region(known))


def run_character(unit, ctx):
    pool = ['assets/characters/zed/hud/zed_circle.dds', 'data/characters/zed/zed.bin', 'assets/characters/jinx/skins/base/jinx_base_tx.dds', 'data/characters/tft9_jinxbot/x.bin',
            'characters/zyra', 'assets/zed/characters/foo.dds', 'data/characters/zoe/skins/skin1.bin']
    for known in subsets(pool):
        expect(ctx, 'game', 'character', lambda g: g.substitute_character(), known, n_char(known))
        expect(ctx, 'game', 'characters files', lambda g: g.guess_characters_files(), known, n_files(chars_of(known)))
        with ctx.case({'characters of': known}):
            ctx.equal(guess.make('game', known, []).get_characters(), sorted(chars_of(known)), 'characters')


def run_skin(unit, ctx):
    pool = ['assets/characters/zed/skins/base/zed_base_tx.dds', 'assets/characters/zed/skins/skin3/zed_skin3_w_tx.dds', 'data/characters/zed/skins/skin12/x.bin',
            'assets/characters/jinx/skins/skin3/particles/skin3/jinx_skin3.dds', 'assets/characters/jinx/skins/skin07/y.dds', 'assets/characters/zed/hud/a.dds',
            'assets/characters/jinx/skins/base/b.dds', 'assets/characters/zed/skins/skin1/zed_skin10_base.dds']
    for known in subsets(pool):
        expect(ctx, 'game', 'skin numbers', lambda g: g.substitute_skin_numbers(), known, n_skin(known))
        expect(ctx, 'game', 'skin groups', lambda g: g.guess_skin_groups_bin(), known, n_groups(known))


def run_suffix(unit, ctx):
    pool = ['a/b.en_us.x', 'a/c.d.e.x', 'a/f.x', 'a/g', 'g.fr_fr.y', 'a/.h', 'k.z']
    for known in subsets(pool):
        expect(ctx, 'game', 'suffixes', lambda g: g.substitute_suffixes(), known, n_suffix(known))
        # root paths: extensions and prefixes
        expect(ctx, 'game', 'ext', lambda g: g.substitute_extensions(), known, n_ext(known))
        expect(ctx, 'game', 'prefixes', lambda g: g.check_basename_prefixes(), known, n_prefix(known))
        expect(ctx, 'game', 'numbers', lambda g: g.substitute_numbers(), known, n_numbers(known, 100, None))


def run_lang(unit, ctx):
    pool = ['a/b.en_us.x', 'fr_fr/c.fr_fr.d', 'a/vi_vn/e', 'zh_tw', 'a/b.x', 'data/ko_kr_ui.y']
    for known in subsets(pool):
        expect(ctx, 'game', 'lang', lambda g: g.substitute_lang(), known, n_lang(known))


def run_files(unit, ctx):
    for chars in subsets(['zed', 'sightward', 'petpenguin', 'p_e-t']):
        expect(ctx, 'game', 'characters files', lambda g: g.guess_characters_files(set(chars)), ['data/x'], n_files(chars), chars=chars)


def run_shader(unit, ctx):
    pool = ['a/s.ps_2_0', 'a/t.vs_3_0.dx11_100', 'a/u.ps', 'b/v.vs-metal', 'b/w.psx', 'c/x.vs.glsl', 'c/y.ps_3_0.metal_300']
    for known in subsets(pool):
        expect(ctx, 'game', 'shader variants', lambda g: g.guess_shader_variants(), known, n_shader(known))


BASE = 'plugins/rcp-be-lol-game-data/global/default'


def run_other(unit, ctx):
    game = ['assets/a/b.dds', 'data/c.json', 'data/d.bin', 'assets/x.y.dds', 'e.dds']
    for known in subsets(game):
        guess.set_list('game', known)
        exp = set()
        for p in known:
            s, e = split_ext(p)
            if e == '.dds':
                exp |= {f"{BASE}/{s}.png", f"{BASE}/{s}.jpg"}
            elif e == '.json':
                exp.add(f"{BASE}/{p}")
        expect(ctx, 'lcu', 'from game hashes', lambda g: g.guess_from_game_hashes(), ['plugins/a/b/c/d'], exp, game=known)
    lcu = [BASE + '/assets/a/b.png', BASE + '/data/c.json', BASE + '/assets/d.jpg', BASE + '/v1/e.png', 'plugins/x/global/default/assets/f.png', BASE + '/assets/x.y.png']
    for known in subsets(lcu):
        guess.set_list('lcu', known)
        exp = set()
        for p in known:
            if p.startswith((BASE + '/assets/', BASE + '/data/')):
                s, e = split_ext(p[len(BASE) + 1:])
                exp.add(s + ('.json' if e == '.json' else '.dds'))
        expect(ctx, 'game', 'from LCU hashes', lambda g: g.guess_from_lcu_hashes(), ['data/a'], exp, lcu=known)
    icons = 'plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/'
    for known in subsets([icons + 'a.png', icons + 'b_c.png', icons + 'd.png', 'plugins/a/b/c/e.png']):
        exp = {p.replace('.png', '_splash.png') for p in known if p.startswith(icons)}
        exp |= {f'plugins/rcp-be-sanitizer/global/default/{x}' for x in ('0.filter.csv', '4.whitelist.language.zh.csv', '3.unfilter.country.tw.csv', '1.filter.region.vn2.csv', '2.filter.locale.en_us.csv',
                                                                       'variantaliases.locale.tr_tr.txt', 'allowedchars.language.ko.txt')}
        perks = 'plugins/rcp-fe-lol-perks/global/default/images/'
        exp |= {perks + x for x in ('inventory-card/8000/p8000_s0_k0.jpg', 'inventory-card/8500/p8500_s8000_k8599.jpg', 'construct/8100/environment.jpg', 'construct/8100/construct.png',
                                    'construct/8200/keystones/8299.png', 'construct/8300/second/8500.png')}
        expect(ctx, 'lcu', 'patterns', lambda g: g.guess_patterns(), known, exp)
        expect(ctx, 'lcu', 'patterns', lambda g: g.guess_patterns(), known, {p for p in exp if p.startswith(icons)})
    # chroma groups, from the published list of skins
    url = 'http://raw.communitydragon.org/pbe/plugins/rcp-be-lol-game-data/global/default/v1/skins.json'
    import json
    skins = {'1000': ('Annie', None), '1001': ('Annie', [1002, 1010]), '2000': ('zed', [2003]), '2011': ('zed', None)}
    for sel in subsets(sorted(skins)):
        net.reset()
        net.routes[url] = json.dumps({k: {'loadScreenPath': f"/lol-game-data/assets/ASSETS/Characters/{skins[k][0]}/Skins/Skin01/x.jpg", **({'chromas': [{'id': i} for i in skins[k][1]]} if skins[k][1] else {})}
                                      for k in sel}).encode()
        chars = {}
        for k in sel:
            chars.setdefault(skins[k][0].lower(), []).append([int(k) % 1000] + [i % 1000 for i in skins[k][1] or []])
        exp = set()
        for c, groups in chars.items():
            gs = [[f"_skins_skin{i}" for i in g] for g in groups] + [['_skins_root']]
            exp |= {f"data/{c}{''.join(sorted(s for g in sub for s in g))}.bin" for sub in subsets(gs) if sub}
        expect(ctx, 'game', 'skin groups using chromas', lambda g: g.guess_skin_groups_bin_using_chromas(), ['data/a'], exp, skins=sel)


def run_alone(unit, ctx):
    """Asked for one at a time, neighbours are found as well"""
    known = {'lcu': ['plugins/rcp-fe-y/global/default/ab-7.x', 'plugins/rcp-fe-z/na/fr_fr/c_7.yz'], 'game': ['assets/characters/zed/skins/base/zed_base.x', 'assets/characters/jinx/skins/skin7/c-7.en_us.yz']}
    for kind in known:
        k = known[kind]
        more = [('plugin', lambda g: g.substitute_plugin(), n_plugin(k)), ('region', lambda g: g.substitute_region_lang(), set(sorted(n_region(k))[::97]))] if kind == 'lcu' else \
            [('character', lambda g: g.substitute_character(), n_char(k)), ('skin', lambda g: g.substitute_skin_numbers(), n_skin(k)), ('lang', lambda g: g.substitute_lang(), n_lang(k))]
        for name, f, exp in itertools.chain(strategies(kind, k), more):
            for one in sorted(exp - set(k)):
                expect(ctx, kind, name, f, k, {one})


# ---------------------------------------------------------------- content search

def lcu_contents():
    """(path of the entry or None, text, found paths); known directories: see LCU_DIRS"""
    g = BASE
    dirs = ['plugins', 'plugins/rcp-fe-k', 'plugins/rcp-fe-k/global', 'plugins/rcp-fe-k/global/default', 'plugins/rcp-fe-k/global/default/sub']
    def rel(*names):
        return {f"{d}/{n}" for d in dirs for n in names}
    yield None, '{"a": "/fe/Foo/Img/B.png"}', {'plugins/rcp-fe-foo/global/default/img/b.png'}
    yield None, '"fe/foo/a.b@2x.jpg" /fe/bar/c', {'plugins/rcp-fe-foo/global/default/a.b@2x.jpg', 'plugins/rcp-fe-bar/global/default/c'}
    yield None, 'url(/DATA/Spells/X-1.png)', {g + '/data/spells/x-1.png'}
    yield None, '["/lol-game-data/assets/v1/A_b/9.JPG"]', {g + '/v1/a_b/9.jpg'}
    yield 'plugins/x/y/z/t.js', 'é "/lol-game-data/assets/q.png" \u2028', {g + '/q.png'}
    yield None, '\ufeff{"p": "/lol-game-data/assets/bom.png"}', {g + '/bom.png'}
    yield 'plugins/x/y/z/description.json', '\ufeff{"pluginDependencies": {}, "name": "rcp-fe-bom"}', {f"plugins/rcp-fe-bom/global/default/{x}" for x in ('index.html', 'trans.json')}
    for ext in ('svg', 'css', 'html', 'txt', 'js', 'csv', 'map'):
        yield f"plugins/x/y/z/k.{ext}", f"<{ext}> /lol-game-data/assets/in-{ext}.png", {f"{g}/in-{ext}.png"}
    yield None, 'require("./mod/Name.js")', rel('mod/name.js')
    yield None, "x='lib/Thing.json';y=\"w.webm\"", rel('lib/thing.json', 'w.webm')
    yield None, '<template id="lol-x-template-Foo">', rel('foo/template.html')
    yield None, '//# sourceMappingURL=Main.js.map', rel('main.js')
    yield None, 'a(../Up.js', rel('up.js')
    yield None, "r('../../x/Y');r('./../z.w/a-b.C')", rel('x/y', 'z.w/a-b.c')
    yield None, '{"pluginDependencies": {}, "name": "rcp-fe-new", "x": "/lol-game-data/assets/z.png"}', {f"plugins/rcp-fe-new/global/default/{x}" for x in ('index.html', 'init.js', 'init.js.map', 'bundle.js', 'trans.json', 'css/main.css', 'license.json')} | {g + '/z.png'}
    yield None, '{"musicVolume": 1, "files": {"a": "Bg-splash-Foo.webm", "b": "x.ogg"}}', {f"plugins/rcp-fe-lol-splash/global/default/splash-assets/foo/{x}" for x in ('config.json', 'bg-splash-foo.webm', 'x.ogg')}
    yield g + '/v1/champion-summary.json', '[{"id": -1}, {"id": 42}]', {g + f"/v1/champions/{i}.json" for i in (-1, 42)} | {g + f"/v1/champion-splashes/{i}/metadata.json" for i in (-1, 42)}
    yield g + '/v1/champions/1.json', '{"recommendedItemDefaults": ["/Data/Items/A.json", "/b"]}', {g + '/data/items/a.json', g + '/b'}
    yield 'plugins/rcp-fe-lol-loot/global/default/trans.json', '{"chest_1": "x", "k_2": "y"}', {f"plugins/rcp-be-lol-game-data/global/default/v1/hextech-images/{k}.png" for k in ('chest_1', 'k_2')}
    for text in ('5', 'true', 'null', '[]', '"recommendedItemDefaults"', '["pluginDependencies", "name"]', '["musicVolume", "files"]', '{broken', '-1e999', '1' * 5000, '[' * 5000):
        yield 'plugins/x/y/z/odd.json', text, set()


LCU_KNOWN = ['plugins/rcp-fe-k/global/default/sub/known.js']


def string16(s):
    return struct.pack('<H', len(s)) + s


def game_contents():
    prop = b'PROP\x03\x00\x00\x00'
    def p(s):
        return prop + b'zz' + string16(s) + b'tail/more.x'
    yield None, p(b'ASSETS/Foo/Bar.dds'), {'assets/foo/bar.dds'}
    yield None, p(b'ASSETS/Foo/Bar.png'), {'assets/foo/bar.png', 'assets/foo/bar.dds'}
    yield None, p(b'DATA/A b.bin') + string16(b'DATA/Second.bin'), {'data/a b.bin', 'data/second.bin'}
    yield None, p(b'DATA/\xe9\xff') + string16(b'DATA/After.bin'), {'data/after.bin'}
    yield None, p(b'Characters/Zed/Skins/Skin1'), {x + 'characters/zed/skins/skin1' for x in ('', 'assets/', 'data/')}
    yield None, p(b'DATA/s.lua'), {'data/s.lua', 'data/s.luabin', 'data/s.luabin64', 'data/s.preload'}
    yield None, p(b'Shaders/Foo/Bar'), {f"assets/shaders/generated/shaders/foo/bar{e}{v}" for e in SHADER_EXTS for v in [''] + SHADER_VARIANTS}
    yield None, p(b'Maps/MapGeometry/Map1/Base'), {'data/maps/mapgeometry/map1/base.mapgeo', 'data/maps/mapgeometry/map1/base.materials.bin'}
    for pre in (b'ClientStates', b'Patching', b'Loadouts', b'Maps'):
        low = pre.decode().lower()
        yield None, p(pre + b'/A/B'), {low + '/a/b', low + '/a', low}
    # long strings, between binary data
    for n in (254, 255, 256, 257, 300, 511, 512, 700, 5000):
        t = b'ASSETS/' + b'long/' * n
        yield None, prop + b'\xff\xff' + string16(t[:n]) + b'\xfe' * 6000, {t[:n].decode().lower()}
    yield 'x/y.bin', b'' + string16(b'ASSETS/NoMagic.tex'), {'assets/nomagic.tex'}
    yield 'x/y.inibin', string16(b'Gameplay/Thing.x'), {'gameplay/thing.x'}
    pre = b'PreLoadBuildingBlocks = {'
    yield 'data/k/l.preload', pre + b'Name="Foo.lua" Name="Bar.troy" Name="Baz"', {'foo.lua', 'foo.luabin', 'foo.luabin64', 'data/shared/particles/bar.troybin', 'data/k/baz.preload'}
    yield 'data/k/l.preload', pre + b'Name="\xe9" Name="Ok.lua"', {'ok.lua', 'ok.luabin', 'ok.luabin64'}
    yield None, pre + b'Name="Ok2.lua" Name="rel"', {'ok2.lua', 'ok2.luabin', 'ok2.luabin64'}
    yield 'assets/sh/k.hls', b'#include "../Inc/A.hls"\n#include "b.hls"\r\n#include "C\xff"\n#include "./d.hls"', {'assets/inc/a.hls', 'assets/sh/b.hls', 'assets/sh/d.hls'}
    yield 'assets/sh/k.ps_2_0', b'#include "..\\..\\x" #include "e"', {'assets/sh/e'}
    yield 'assets/at/k.atlas', b'One.tex\nTw\xff\nThree.tex', {'assets/at/one.tex', 'assets/at/three.tex'}
    yield None, b'?? ASSETS/Foo/Any thing.x\0', {'assets/foo/any thing.x'}
    yield None, b'\x09\x00DATA/Cut_and more', {'data/cut_', 'data/cut_and more'}
    yield None, b'\x08\x00\x00\x00UX/long.filler', {'ux/long.', 'ux/long.filler'}
    yield None, b'LEVELS/m.lua', {'levels/m.lua', 'levels/m.luabin', 'levels/m.luabin64', 'levels/m.preload'}
    yield None, b'DATA_SOON/a.b(DATA_Soon/c.d', {'data/a.b', 'data/c.d'}
    yield 'x/text.json', b'"Common/e.f" "Global/g" "UIAutoAtlas/h"', {'common/e.f', 'global/g', 'uiautoatlas/h'}
    yield 'x/noext', b'\xff\xfe Gameplay/i Loadouts/j,ASSETS/', {'gameplay/i loadouts/j'}


KINDS = ['raw', 'gzip', 'zstd', 'sub', 'zstd4']
_serial = 0x7000000000000000


def entry(data, kind, path):
    """A WAD entry, and the part of the table of contents it needs"""
    global _serial
    _serial += 1
    h = enc.wad_hash(path) if path else _serial
    if kind == 'sub':
        k = max(1, len(data) // 2)
        return h, [(data[:k], False), (data[k:], True)]
    return h, None


def build(tmp, name, items, version=(3, 4)):
    """items: [(path, data, kind)], kind also in 'bad' (damaged subchunks), 'link', 'binary'"""
    entries, toc, paths, index = [], b'', {}, 0
    for path, data, kind in items:
        h, subs = entry(data, kind, path)
        if path:
            paths[h] = path
        if kind == 'sub':
            _, t = enc.subchunk_blob(subs)
            entries.append(WadEntry(h, None, 'sub', subchunks=subs, first=index))
            toc += t
            index += len(subs)
        elif kind == 'zstd4':
            z = enc.zstd(data)
            entries.append(WadEntry(h, None, 'sub', subchunks=[(data, True)], first=index))
            toc += enc.subchunk_blob([(data, True)])[1]
            index += 1
        elif kind == 'bad':
            entries.append(WadEntry(h, None, 'sub', subchunks=[(data, False)], first=index))
            toc += struct.pack('<IIQ', len(data), len(data), 1)
            index += 1
        elif kind == 'link':
            entries.append(WadEntry(h, b'other/file', 'link'))
        else:
            entries.append(WadEntry(h, data, kind))
    if index:
        p = f"{name}.subchunktoc"
        paths[enc.wad_hash(p)] = p
        entries.append(WadEntry(enc.wad_hash(p), toc, 'raw'))
    path = f"{tmp}/{name}"
    with open(path, 'wb') as f:
        f.write(enc.wad(version, entries))
    return Wad(path, hashes=paths)


def grep(ctx, kind, items, exp, known, **desc):
    with ctx.tmp() as tmp, ctx.case({'grep': kind, 'entries': [(p, d if len(d) < 150 else d[:150], k) for p, d, k in items], **desc}):
        wad = build(tmp, 'w.wad' if kind == 'lcu' else 'w.wad.client', items)
        want = exp - set(known)
        r = guess.Run(kind, known, list(want) + [0x1234])
        wad.guess_extensions()
        r.step(lambda g: g.grep_wad(wad))
        r.check_safe(ctx)
        missed = want - r.found()
        ctx.check(not missed, lambda: f"not found: {sorted(missed)[:6]}")
        if want:
            ctx.nontrivial((kind, items))
        ctx.outcome((kind, len(want)))


def contents(kind):
    if kind == 'lcu':
        return [(p, t.encode('utf-8'), e) for p, t, e in lcu_contents()], LCU_KNOWN
    return list(game_contents()), ['data/known.x']


def run_grep(unit, ctx):
    kind = unit['kind']
    items, known = contents(kind)
    unreadable = [(None, b'/lol-game-data/assets/a.png ASSETS/a', 'bad'), (None, b'', 'link'), (None, b'\xff\xfe\x00\xd8', 'raw'), (None, b'', 'raw'), ('plugins/p/q/r/s.json', b'', 'link'),
                  ('plugins/p/q/r/t.json', b'\x80"', 'zstd'), ('plugins/p/q/r/t.txt', b'/DATA/x', 'bad'), (None, b'\x89PNG\r\n\x1a\n', 'gzip'), ('x/y.dds', b'', 'link')]
    n = -1
    for i, (path, data, exp) in enumerate(items):
        for j, storage in enumerate(KINDS):
            n += 1
            if n % unit['n'] != unit['k']:
                continue
            # alone, then with an unreadable entry before, after
            grep(ctx, kind, [(path, data, storage)], exp, known)
            for u in unreadable:
                if u[0] == path:
                    continue
                grep(ctx, kind, [u, (path, data, storage)], exp, known)
                grep(ctx, kind, [(path, data, storage), u], exp, known)
            # with the other contents before and after
            for k2, (path2, data2, exp2) in enumerate(items):
                if path2 is not None and path2 == path:
                    continue
                for st2 in [KINDS[(i + k2) % 5]] if ctx.tier == 'quick' else KINDS:
                    grep(ctx, kind, [(path, data, storage), (path2, data2, st2)], exp | exp2, known)


def run_grepdata(unit, ctx):
    """Paths in any data: every prefix, length form and neighbouring bytes"""
    pres = ['ASSETS', 'Common', 'DATA', 'DATA_SOON', 'DATA_Soon', 'Gameplay', 'Global', 'LEVELS', 'Loadouts', 'UX', 'UIAutoAtlas']
    tails = ['a', 'A_b/c-D.x', 'z z.y', 'm.lua', '1/2/3.preload']
    befores = [b'', b'\xff', b'"', b'xx/', b'\x00\x00', b'abcd']
    n = -1
    with ctx.tmp() as tmp:
        for pre, tail, form, before, after in itertools.product(pres, tails, ('none', '16', '32'), befores, (b'', b'\0', b'"', b'more', b'x', b' /x', b'\xe9')):
            n += 1
            if n % unit['n'] != unit['k']:
                continue
            s = f"{pre}/{tail}"
            if form == 'none' and after[:1] in (b'm', b'x', b' '):
                continue
            data = before + {'none': b'', '16': struct.pack('<H', len(s)), '32': struct.pack('<L', len(s))}[form] + s.encode() + after
            p = s.lower().replace('data_soon/', 'data/')
            exp = {p}
            if p.endswith('.lua'):
                exp |= {p[:-4] + e for e in ('.luabin', '.luabin64', '.preload')}
            if pre.upper() == 'DATA_SOON' and form != 'none' and after[:1] in (b'm', b' '):
                pass
            expect(ctx, 'game', 'grep data', lambda g: g.grep_file(data=data), ['data/known'], exp, data=data)
            if n % 16 == unit['k']:
                with open(f"{tmp}/f", 'wb') as f:
                    f.write(data)
                expect(ctx, 'game', 'grep file', lambda g: g.grep_file(f"{tmp}/f"), ['data/known'], exp, data=data)


# ---------------------------------------------------------------- command line

CLI = {
    'lcu': (['plugins/rcp-fe-a/global/default/img/b-1_cc.png', 'plugins/rcp-fe-b/global/default/y.js'],
            {'numbers': 'plugins/rcp-fe-a/global/default/img/b-31_cc.png', 'basenames': 'plugins/rcp-fe-b/global/default/b-1_cc.png', 'words': 'plugins/rcp-fe-a/global/default/img/default-1_cc.png',
             'ext': 'plugins/rcp-fe-b/global/default/y.png', 'regionlang': 'plugins/rcp-fe-b/tr/tr_tr/y.js', 'plugin': 'plugins/rcp-fe-a/global/default/y.js', 'grep': 'plugins/rcp-fe-q/global/default/found.x'}),
    'game': (['assets/characters/zed/skins/base/zed_1.dds', 'assets/characters/jinx/skins/skin4/k.en_us.tex', 'assets/characters/zed/skins/skin5/m'],
             {'numbers': 'assets/characters/zed/skins/base/zed_31.dds', 'basenames': 'assets/characters/zed/zed_1.dds', 'words': 'assets/characters/zed/skins/base/en_1.dds',
              'ext': 'assets/characters/zed/skins/base/zed_1.tex', 'skin-num': 'assets/characters/zed/skins/skin5/zed_1.dds', 'character': 'assets/characters/jinx/skins/base/jinx_1.dds',
              'prefixes': 'assets/characters/zed/skins/base/4x_sd_zed_1.dds', 'grep': 'assets/found.x'}),
}
TEXT = {'lcu': b'"/fe/q/found.x"', 'game': b'"ASSETS/found.x"'}
SEARCHED = {'lcu': 'plugins/rcp-fe-b/global/default/y.js', 'game': 'assets/characters/zed/skins/skin5/m'}
DEFAULT = ['grep', 'numbers', 'ext', 'regionlang', 'plugin', 'skin-num', 'character', 'prefixes']
ALL = DEFAULT + ['basenames', 'words']


def run_exported(unit, ctx):
    """Lists of unknown hashes of exports: everything they list is looked for"""
    hashes = [h64('plugins/rcp-be-x/global/default/a-1.png'), h64('plugins/rcp-be-x/global/default/a-2.png'), 0x1f]
    lists = [None, *subsets(hashes)]
    for contents in itertools.product(lists, repeat=3):
        with ctx.case({'lists of unknown hashes': contents}), ctx.tmp() as tmp:
            # the name of the directory is a name, not a pattern
            export = f"{tmp}/{('e', 'e [1]', '*')[len(contents[0] or ()) % 3]}"
            os.mkdir(export)
            os.mkdir(f"{tmp}/other")
            with open(f"{tmp}/other/files.unknown.txt", 'w') as f:
                f.write('2f\n')
            for name, content in zip(('files', '14.5', 'x.y'), contents):
                if content is not None:
                    with open(f"{export}/{name}.unknown.txt", 'w') as f:
                        f.write(''.join(f"{h:016x}\n" for h in content))
            with open(f"{export}/files.exported.txt", 'w') as f:
                f.write('a.txt\n')
            exp = {h for c in contents if c for h in c}
            got = hmod.HashGuesser.unknown_from_export(export)
            ctx.equal(set(got), exp, 'hashes listed as unknown')
            if len({tuple(c) for c in contents if c}) > 1:
                ctx.nontrivial(('exported', contents))
            guess.set_list('lcu', ['plugins/rcp-be-x/global/default/a-0.png'], f"{tmp}/lcu.txt")
            guesser = hmod.LcuHashGuesser(got)
            with contextlib.redirect_stdout(io.StringIO()):
                guesser.substitute_numbers(5)
            ctx.equal(set(guesser.unknown), exp - set(hashes[:2]), 'hashes which remain unknown')


def run_cli(unit, ctx):
    sources = ['paths', 'paths game', 'lcu path', 'game path', 'patch=14.5', 'patch=', 'game=14.5', 'client=14.5', 'game= client=', 'client=14.5. path', 'game=13.1', 'patch=13.1 paths']
    methods = [None] + [(m,) for m in ALL] + [('grep', 'words'), ('plugin', 'ext', 'character')]
    with ctx.tmp() as tmp:
        for kind in CLI:
            known = CLI[kind][0]
            entries = [WadEntry(h64(SEARCHED[kind]), TEXT[kind])] + [WadEntry(h64(t), b'\xff', 'zstd') for t in CLI[kind][1].values()]
            with open(f"{tmp}/{kind}.wad{'.client' if kind == 'game' else ''}", 'wb') as f:
                f.write(enc.wad((3, 1), entries))
        for ext in ('wad', 'wad.client'):
            with open(f"{tmp}/first.{ext}", 'wb') as f:
                f.write(enc.wad((3, 1), [WadEntry(h64(SEARCHED['game' if 'client' in ext else 'lcu']), b'nothing here')]))
        wads = {'lcu': f"{tmp}/lcu.wad", 'game': f"{tmp}/game.wad.client"}
        elems = {'lcu': patches.Element('client', '14.5', [(wads['lcu'], 'x.wad'), (f"{tmp}/other.txt", 'other.txt')]), 'game': patches.Element('game', '14.5', [(f"{tmp}/other.txt", 'other.txt'), (wads['game'], 'y.wad.client')])}
        n = -1
        for source, meths, dry in itertools.product(sources, methods, (False, True)):
            n += 1
            if n % unit['n'] != unit['k']:
                continue
            with ctx.case({'cli': source, 'methods': meths, 'dry': dry}):
                for kind in CLI:
                    guess.set_list(kind, CLI[kind][0], f"{tmp}/{kind}.txt")
                patches.NamedStorage.content = [elems['lcu'], elems['game']] if len(source) % 2 else [elems['game'], elems['lcu']]
                args, used = [], set()
                for word in source.split():
                    if word in ('lcu', 'game') or (word == 'path' and len(args)):
                        continue
                    if word in ('paths', 'path') or source in ('lcu path', 'game path'):
                        which = (['game', 'lcu'] if source == 'paths game' else ['lcu', 'game']) if word == 'paths' else [source.split()[0]]
                        args += [f"{tmp}/first.wad", f"{tmp}/first.wad.client"] if source == 'paths game' else []
                        args += [wads[k] for k in which]
                        args += [f"{tmp}/first.wad.client", f"{tmp}/first.wad"] if source == 'paths' else []
                        used |= set(which)
                        continue
                    args.append(word)
                    if '13.1' not in word:
                        used |= {'game=': {'game'}, 'client': {'lcu'}, 'patch=': {'lcu', 'game'}, 'game': {'game'}}[word.split('=')[0] + ('=' if word.split('=')[0] in ('game', 'patch') else '')]
                if source.endswith('. path'):
                    args.append(wads['game'])
                    used.add('game')
                argv = ['hashes-guess', '-s', 'mcfake:x'] + (['-n'] if dry else []) + (['-m', ','.join(meths)] if meths else []) + args
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    main(argv)
                for kind in CLI:
                    exp = {CLI[kind][1][m] for m in meths or DEFAULT if m in CLI[kind][1]} if kind in used else set()
                    for t in exp:
                        ctx.check(f"{h64(t):016x} {t}\n" in out.getvalue(), lambda: f"{t} is not printed")
                    saved = set(hmod.HashFile(f"{tmp}/{kind}.txt").load().values())
                    ctx.check(set(CLI[kind][0]) <= saved, 'known texts are lost')
                    ctx.check(saved <= set(CLI[kind][0]) | set(CLI[kind][1].values()), lambda: f"saved list: {saved}")
                    if dry or not exp:
                        ctx.equal(saved, set(CLI[kind][0]), f"{kind} list")
                    else:
                        ctx.check(exp <= saved, lambda: f"not saved: {exp - saved}")
                ctx.nontrivial((source, meths, dry))
