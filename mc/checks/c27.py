"""TFT and Arena data: translations"""
import itertools
import json
import os
import shutil
import sys
from types import SimpleNamespace
from unittest import mock

from .. import enc, fsx, patches, tft
from ..patches import Store, Wad, element
from ..tft import Arena, Layout, Model
from cdtb import arenadata, tftdata
from cdtb.arenadata import ArenaTransformer
from cdtb.export import CdragonRawPatchExporter
from cdtb.storage import PatchVersion
from cdtb.tftdata import TftTransformer

ID = 'C27'
LEVEL = 'exploration'
RULE = 'distinct (data, tables, languages, formats, patch) combinations; non-trivial when a text of the table is used'
BOUNDS = {'quick': 'all subsets of 9 translatable texts in 2 layouts (1024); all ways for each of 4 keys to have as text one of the keys, a text or nothing (1296); 16 texts; 3 languages: all ordered selections of 0 to 3 languages and by default, with all subsets of 4 texts in each of 2 of them (256); all subsets of the 4 table formats, for TFT and Arena, in directories whose names have special characters; 18 patches x formats x RST versions, through the exporter; the old text format: all combinations of 6 variants; whole exports of WADs: all subsets of 6 changes from the previous patch, with and without links; exports without the game or some of its maps: 7 patches',
          'thorough': 'as quick with all layouts for the subsets, and all subsets of 9 texts in two languages with all orders'}
ASSUMPTIONS = ['all languages use the same table format', 'keys of the old text format are compared with the same case', 'a text is not translated again when it happens to be a key']

PATHS = ['data/maps/shipping/map22/map22.bin', 'data/maps/shipping/map30/map30.bin', 'data/characters/tft_a/tft_a.bin', 'data/characters/tft_b/tft_b.bin', 'data/menu/en_us/tft.stringtable', 'data/menu/en_us/lol.stringtable', 'data/menu/en_us/main.stringtable']
HASHFILES = {**patches.RST_HASHFILES, **tft.HASHFILES, 'hashes.game.txt': {enc.wad_hash(p): p for p in PATHS}}

KEYS = ['ta_tra', 'ta_desc', 'a_tra', 'a_spell_tra', 'a_spell_desc', 'i_tra', 'i_desc', 'j_tra', 'b_spell_tra']


def small(share=None):
    """2 sets, one champion in both, 2 traits, 2 items; `share` replaces keys by others"""
    k = lambda x: (share or {}).get(x, x)
    t = lambda n: dict(tra=k(f"{n}_tra"), desc=k(f"{n}_desc"), sets=[(2, None, 1, [('Dmg', 1.0)])])
    c = lambda n, traits: dict(tra=k(f"{n}_tra"), spelltra=k(f"{n}_spell_tra"), spelldesc=k(f"{n}_spell_desc"), traits=traits, variables=[('Damage', [1.0])])
    i = lambda n, x, **kw: dict(tra=k(f"{n}_tra"), desc=k(f"{n}_desc"), id=x, **kw)
    return Model(traits={'TFT_Ta': t('ta'), 'TFT_Tb': t('tb')}, champs={'TFT_A': c('a', ['TFT_Ta', 'TFT_Tb']), 'TFT_B': {**c('b', ['TFT_Ta']), 'variables': []}},
                 items={'TFT_I': i('i', 1), 'TFT_J': i('j', 2, composition=['TFT_I'], assoc=['TFT_Ta'])}, charlists={'L1': ['TFT_A', 'TFT_B'], 'L2': ['TFT_A']}, traitlists={'T1': ['TFT_Ta', 'TFT_Tb'], 'T2': ['TFT_Ta']}, itemlists={'I1': ['TFT_I', 'TFT_J']},
                 sets=[dict(number=1, mutator='m1', name='ta_tra', chars=['L1'], traits=['T1'], items=['I1']), dict(number=2, mutator='m2', name='n2', chars=['L2'], traits=['T2'], items=['I1'])])


def small_arena(share=None):
    k = lambda x: (share or {}).get(x, x)
    return Arena({'First': dict(id=11, tra=k('x_tra'), desc=k('x_desc'), tooltip=k('x_tip'), spell='S', rarity=1), 'Second': dict(id=12, tra=k('y_tra'), desc=k('y_desc'), tooltip=k('y_tip'))}, {'S': dict(values=[('Damage', [1.0])])})


def text(key, lang='en_us'):
    return f"<{lang} {key.upper()}>"


def read(path):
    with open(path, encoding='utf-8') as f:
        return json.load(f)


def same_tft(ctx, path, model, lay, table, what):
    """The file has the expected texts"""
    got = read(path)
    want = tft.translated(model.expected(lay), {k.lower(): v for k, v in table.items()})
    g, w = tft.normalized(got), tft.normalized(want)
    used = 0

    def texts(e, keys=('name', 'desc')):
        return {k: e[k] for k in keys}
    for a, b in zip(g['setData'], w['setData']):
        ctx.equal((a['number'], a['name']), (b['number'], b['name']), f"{what}: set")
    ctx.equal(len(g['setData']), len(w['setData']), f"{what}: number of sets")
    # by number or in the list: the same texts
    for where, sets in (('setData', {str(s['number']): s for s in g['setData']}), ('sets', g['sets'])):
        for b in w['setData']:
            a = sets[str(b['number'])]
            name = f"{what}: {where}: set {b['number']}"
            ctx.equal(a['name'], b['name'], name)
            for kind in ('traits', 'champions'):
                ctx.equal([x['apiName'] for x in a[kind]], [x['apiName'] for x in b[kind]], f"{name}: {kind}")
            for x, y in zip(a['traits'], b['traits']):
                ctx.equal(texts(x), texts(y), f"{name}: trait {y['apiName']}")
            for x, y in zip(a['champions'], b['champions']):
                ctx.equal((x['name'], x['traits'], texts(x['ability'])), (y['name'], y['traits'], texts(y['ability'])), f"{name}: champion {y['apiName']}")
    ctx.equal([x['apiName'] for x in g['items']], [x['apiName'] for x in w['items']], f"{what}: items")
    for x, y in zip(g['items'], w['items']):
        ctx.equal(texts(x), texts(y), f"{what}: item {y['apiName']}")
        ctx.equal((x['composition'], x['associatedTraits']), (y['composition'], y['associatedTraits']), f"{what}: item {y['apiName']}")
    used = sorted(v for v in set(table.values()) if v and v in json.dumps(want, ensure_ascii=False))
    ctx.outcome((what, used))
    return bool(used)


def same_arena(ctx, path, arena, table, what):
    got = tft.arena_normalized(read(path)['augments'])
    want = tft.arena_normalized(tft.arena_translated(arena.expected(), {k.lower(): v for k, v in table.items()}))
    ctx.equal([a['apiName'] for a in got], [a['apiName'] for a in want], f"{what}: augments")
    for x, y in zip(got, want):
        ctx.equal({k: x[k] for k in y}, y, f"{what}: augment {y['apiName']}")


def clean(*paths):
    for p in paths:
        shutil.rmtree(p, ignore_errors=True)


def one(ctx, tmp, model, lay, table, desc, **kw):
    """Single language"""
    with ctx.case(desc):
        base, out = f"{tmp}/game", f"{tmp}/out"
        clean(out)
        for fmt in tft.FORMATS:
            if os.path.exists(p := tft.table_path(base, fmt, 'en_us', 'tft')):
                os.remove(p)
        tft.write_table(base, kw.pop('fmt', 'game'), 'en_us', 'tft', table, patch=lay.game, **kw)
        TftTransformer(base, lay.game).export(out)
        ctx.equal(sorted(os.listdir(out)), ['en_us.json'], 'files')
        if same_tft(ctx, f"{out}/en_us.json", model, lay, table, 'translation'):
            ctx.nontrivial(desc)


# ---------------------------------------------------------------- texts

def run_subsets(unit, ctx, tmp):
    """Every subset of the texts is in the table"""
    lays = [Layout(), Layout(names='spell', linked='embedded', item='old')]
    if ctx.tier == 'thorough':
        lays += [Layout(**{k: v}) for k, v in tft.ALTERNATIVES if k != 'game' and not (k == 'old' and v)]
    for lay in lays:
        model = small()
        clean(f"{tmp}/game")
        model.write(f"{tmp}/game", lay)
        for mask in range(unit['part'], 1 << len(KEYS), unit['parts']):
            keys = [k for i, k in enumerate(KEYS) if mask >> i & 1]
            one(ctx, tmp, model, lay, {k: text(k) for k in keys}, {'in the table': keys, 'layout': lay.describe()})


def run_chains(unit, ctx, tmp):
    """A text may be the key of another"""
    keys = ['ta_tra', 'a_tra', 'a_spell_tra', 'i_tra']
    model, lay = small(), Layout()
    clean(f"{tmp}/game")
    model.write(f"{tmp}/game", lay)
    arena = small_arena({'x_tra': 'ta_tra', 'x_desc': 'a_tra', 'x_tip': 'a_spell_tra', 'y_tra': 'i_tra'})
    arena.write(f"{tmp}/game")
    for i, choice in enumerate(itertools.product(keys + ['text', None], repeat=len(keys))):
        if i % unit['parts'] != unit['part']:
            continue
        table = {k: text(k) if c == 'text' else c for k, c in zip(keys, choice) if c is not None}
        one(ctx, tmp, model, lay, table, {'chains': table})
        with ctx.case({'chains': table, 'mode': 'arena'}):
            clean(f"{tmp}/out")
            tft.write_table(f"{tmp}/game", 'game', 'en_us', 'lol', table)
            ArenaTransformer(f"{tmp}/game", 1502).export(f"{tmp}/out")
            same_arena(ctx, f"{tmp}/out/en_us.json", arena, table, 'translation')


TEXTS = ['', ' ', 'text', 'é ü 漢字', 'a\nb', 'a\r\nb', '"quoted"', '<br>\\n{{ x }} @Var*100@%', 'ta_tra', 'ta_desc', '{00112233}', '\u2028', '🎉', 'a\tb', 'x' * 300, '0']


def run_texts(unit, ctx, tmp):
    model, lay = small(), Layout()
    clean(f"{tmp}/game")
    model.write(f"{tmp}/game", lay)
    arena = small_arena()
    arena.write(f"{tmp}/game")
    for a, b in itertools.product(TEXTS, repeat=2):
        one(ctx, tmp, model, lay, {'ta_tra': a, 'a_spell_desc': b, 'i_desc': a}, {'texts': [a, b]})
        with ctx.case({'texts': [a, b], 'mode': 'arena'}):
            clean(f"{tmp}/out")
            table = {'x_tra': a, 'x_tip': b, 'y_desc': b}
            tft.write_table(f"{tmp}/game", 'game', 'en_us', 'lol', table)
            ArenaTransformer(f"{tmp}/game", 1502).export(f"{tmp}/out")
            same_arena(ctx, f"{tmp}/out/en_us.json", arena, table, 'translation')
    # keys which are shared, and of different cases
    names = ['ta_tra', 'ta_desc', 'a_tra', 'a_spell_tra', 'i_tra']
    kinds = [['i_tra', 'j_tra', 'i_desc', 'j_desc'], ['a_tra', 'b_tra', 'a_spell_tra', 'b_spell_tra', 'a_spell_desc', 'b_spell_desc'], ['ta_tra', 'ta_desc', 'tb_desc']]
    pairs = [*itertools.permutations(names, 2), *(p for keys in kinds for p in itertools.permutations(keys, 2) if not set(p) <= set(names))]
    for x, y in pairs:
        for case in (str, str.upper, str.title) if x in names and y in names else (str,):
            model = small({x: y, 'tb_tra': case(y)})
            model.write(f"{tmp}/game", lay)
            one(ctx, tmp, model, lay, {y: text(y)}, {'shared': [x, y], 'case': case.__name__})
            one(ctx, tmp, model, lay, {y.upper(): text(y)}, {'shared': [x, y], 'case': case.__name__, 'table': 'upper'})
    for x, y in itertools.permutations(['x_tra', 'x_desc', 'x_tip', 'y_tra', 'y_desc', 'y_tip'], 2):
        with ctx.case({'shared': [x, y], 'mode': 'arena'}):
            arena = small_arena({x: y})
            arena.write(f"{tmp}/game")
            clean(f"{tmp}/out")
            table = {y: text(y)}
            tft.write_table(f"{tmp}/game", 'game', 'en_us', 'lol', table)
            ArenaTransformer(f"{tmp}/game", 1502).export(f"{tmp}/out")
            same_arena(ctx, f"{tmp}/out/en_us.json", arena, table, 'translation')
            ctx.nontrivial((x, y))


# ---------------------------------------------------------------- languages

LANGS = ['de_de', 'en_us', 'zh_cn']


def run_langs(unit, ctx, tmp):
    """Every selection and order of languages, with different texts in each"""
    model, lay, arena = small(), Layout(), small_arena({'x_tra': 'ta_tra', 'x_desc': 'a_tra', 'x_tip': 'a_spell_desc', 'y_tra': 'i_desc'})
    base = f"{tmp}/game"
    model.write(base, lay)
    arena.write(base)
    keys = ['ta_tra', 'a_tra', 'a_spell_desc', 'i_desc']
    if ctx.tier == 'thorough':
        keys += ['i_tra', 'ta_desc']
    selections = [list(p) for n in range(4) for p in itertools.permutations(LANGS, n)]
    for m in range(unit['part'], 1 << 2 * len(keys), unit['parts']):
        sub = lambda mask, lang: {k: text(k, lang) for i, k in enumerate(keys) if mask >> i & 1}
        n = len(keys)
        tables = {'de_de': sub(m & (1 << n) - 1, 'de'), 'en_us': sub(m >> n, 'en'), 'zh_cn': {k: text(k, 'zh') for k in keys}}
        # a text in one language is a key of the other
        if m % 3 == 0:
            tables['zh_cn']['ta_tra'] = text('ta_tra', 'de')
            tables['en_us'][text('ta_tra', 'de')] = 'wrong'
        for lang in LANGS:
            for game in ('tft', 'lol'):
                tft.write_table(base, 'game', lang, game, tables[lang])
        chosen = [None] + (selections if ctx.tier == 'thorough' or m % 4 == 0 else [selections[1 + m // 4 % (len(selections) - 1)]])
        for langs in chosen:
            for kind, cls in (('tft', TftTransformer), ('arena', ArenaTransformer)):
                with ctx.case({'languages': langs, 'texts': [m & (1 << n) - 1, m >> n], 'data': kind}) as c:
                    out = f"{tmp}/out"
                    clean(out)
                    arg = langs if langs is None else list(langs)
                    cls(base, lay.game).export(out, langs=arg)
                    want = LANGS if langs is None else langs
                    ctx.equal(arg, langs, 'languages given')
                    ctx.equal(sorted(os.listdir(out)), sorted(f"{x}.json" for x in want), 'files')
                    for lang in want:
                        if kind == 'tft':
                            same_tft(ctx, f"{out}/{lang}.json", model, lay, tables[lang], lang)
                        else:
                            same_arena(ctx, f"{out}/{lang}.json", arena, tables[lang], lang)
                    if m:
                        ctx.nontrivial((langs, m, kind))


# ---------------------------------------------------------------- tables

def run_formats(unit, ctx, tmp):
    """Every subset of formats is present"""
    model, lay, arena = small(), Layout(), small_arena({'x_tra': 'ta_tra', 'y_desc': 'a_tra'})
    slots = [('game', 'tft'), ('game', 'lol'), ('main', None), ('old', None), ('txt', None)]
    for mask in range(1, 1 << len(slots)):
        present = [s for i, s in enumerate(slots) if mask >> i & 1]
        for langs, name in ((['en_us'], 'game'), (['en_us', 'fr_fr'], 'game'), (['en_us'], 'g[a]me {0}'), (['fr_fr'], '*me?'), (['en_us'], 'game/fr_fr/data/menu/en_us')):
            for kind, cls, game in (('tft', TftTransformer, 'tft'), ('arena', ArenaTransformer, 'lol')):
                usable = [(f, g) for f, g in present if g in (None, game)]
                with ctx.case({'formats': [f"{f} {g or ''}".strip() for f, g in present], 'languages': langs, 'data': kind, 'directory': name}):
                    base, out = f"{tmp}/{name}", f"{tmp}/out"
                    clean(f"{tmp}/game", base, out)
                    model.write(base, lay)
                    arena.write(base)
                    table = lambda f, g, lang: {k: text(k, f"{f} {g} {lang}") for k in ('ta_tra', 'a_tra', 'i_desc')}
                    for f, g in present:
                        for lang in langs:
                            tft.write_table(base, f, lang, g or game, table(f, g, lang))
                    # decoys
                    os.makedirs(f"{base}/en_us/data/menu/fr_fr", exist_ok=True)
                    for p in ('en_us/data/menu/fr_fr/tft.stringtable', 'data/menu/tft.stringtable', 'en_us/data/menu/tft.stringtable', 'en_us/data/menu/en_us/other.stringtable'):
                        os.makedirs(os.path.dirname(f"{base}/{p}"), exist_ok=True)
                        with open(f"{base}/{p}", 'wb') as f:
                            f.write(b'not a table')
                    if not usable:
                        try:
                            cls(base, lay.game).export(out)
                        except RuntimeError:
                            ctx.outcome('no table')
                            continue
                        ctx.fail('no table', 'succeeded')
                    f, g = usable[0]
                    if kind == 'arena' and f == 'txt':
                        continue   # no Arena data at that time
                    cls(base, lay.game).export(out)
                    ctx.equal(sorted(os.listdir(out)), [f"{x}.json" for x in langs], 'files')
                    for lang in langs:
                        if kind == 'tft':
                            same_tft(ctx, f"{out}/{lang}.json", model, lay, table(f, g, lang), lang)
                        else:
                            same_arena(ctx, f"{out}/{lang}.json", arena, table(f, g, lang), lang)
                    ctx.nontrivial((mask, langs, kind))
                    ctx.outcome((f, g, kind))


def run_txt(unit, ctx, tmp):
    """The oldest format"""
    model = small()
    lay = Layout(game=914, names='spell', icons='old', spelldata='old', stats='old')
    base = f"{tmp}/game"
    model.write(base, lay)
    values = ['text', 'é 漢字', 'a = b', 'say "hi"', '', ' padded ', 'tr "ta_desc" = "wrong"', 'a\\nb']
    i = 0
    for eol, last, first, order, extra, (a, b) in itertools.product(['\n', '\r\n'], [True, False], [True, False], [1, -1], [True, False], itertools.product(values, repeat=2)):
        i += 1
        if ctx.tier == 'quick' and i % 4 and not (a, b) in (('text', 'a = b'), ('é 漢字', 'text')):
            continue
        table = dict([('ta_tra', a), ('a_spell_desc', b), ('other', 'x'), ('i_tra', a)][::order])
        desc = {'eol': eol, 'final eol': last, 'text first': first, 'order': order, 'other lines': extra, 'texts': [a, b]}
        with ctx.case(desc):
            out = f"{tmp}/out"
            clean(out)
            tft.write_table(base, 'txt', 'en_us', 'tft', table, eol=eol, last=last, text_first=first)
            if extra:
                # lines of other kinds
                p = tft.table_path(base, 'txt', 'en_us', 'tft')
                with open(p, 'rb') as f:
                    data = f.read()
                head, tail = data.split(eol.encode(), 1)
                with open(p, 'wb') as f:
                    f.write(eol.encode().join([head, b'', b'// comment', b'# tr "i_tra" = "wrong"', b'fontlib "x"', tail]))
            TftTransformer(base, lay.game).export(out)
            ctx.equal(sorted(os.listdir(out)), ['en_us.json'], 'files')
            same_tft(ctx, f"{out}/en_us.json", model, lay, table, 'translation')
            ctx.nontrivial(desc)


PATCHES = ['9.13', '9.14', '9.22', '9.23', '10.1', '10.7', '10.8', '10.22', '10.23', '11.1', '13.13', '13.14', '14.3', '14.14', '14.15', '15.1', '15.2', '16.1', 'main']


def run_patches(unit, ctx, tmp):
    """The steps of the exporter"""
    for version, fmt, rst in itertools.product(PATCHES, tft.FORMATS, (2, 3, 4, 5)):
        if fmt == 'txt' and rst != 2:
            continue
        v = PatchVersion(version)
        n = 9999 if version == 'main' else int(version.split('.')[0]) * 100 + int(version.split('.')[1])
        lay = Layout(game=n)
        model = small()
        arena = small_arena({'x_tra': 'ta_tra', 'y_tra': 'a_tra', 'x_tip': 'i_desc'})
        with ctx.case({'patch': version, 'format': fmt, 'RST': rst}):
            out = f"{tmp}/{version}"
            clean(out)
            base = f"{out}/game"
            model.write(base, lay)
            arena.write(base)
            tables = {lang: {k: text(k, lang) for k in KEYS} for lang in ('en_us', 'fr_fr')}
            for lang, table in tables.items():
                for game in ('tft', 'lol'):
                    tft.write_table(base, fmt, lang, game, table, version=rst, patch=n)
            exporter = CdragonRawPatchExporter(out, SimpleNamespace(version=v))
            exporter.export_tft_data()
            if n < 914:
                ctx.check(not os.path.exists(f"{out}/cdragon/tft"), 'TFT data for an old patch')
            else:
                ctx.equal(sorted(os.listdir(f"{out}/cdragon/tft")), ['en_us.json', 'fr_fr.json'], 'TFT files')
                for lang, table in tables.items():
                    same_tft(ctx, f"{out}/cdragon/tft/{lang}.json", model, lay, table, lang)
                ctx.nontrivial((version, fmt, rst))
            if fmt == 'txt':
                continue
            exporter.export_arena_data()
            if n < 1314:
                ctx.check(not os.path.exists(f"{out}/cdragon/arena"), 'Arena data for an old patch')
            else:
                ctx.equal(sorted(os.listdir(f"{out}/cdragon/arena")), ['en_us.json', 'fr_fr.json'], 'Arena files')
                for lang, table in tables.items():
                    same_arena(ctx, f"{out}/cdragon/arena/{lang}.json", arena, table, lang)
        if fmt not in ('game', 'txt'):
            continue
        # the commands
        for kind, module in (('tft', tftdata), ('arena', arenadata)):
            if n < (914 if kind == 'tft' else 1314) or kind == 'arena' and fmt == 'txt':
                continue
            for arg in [[], ['-V', version]] if version == 'main' else [['-V', version]]:
                with ctx.case({'patch': version, 'format': fmt, 'RST': rst, 'command': [kind] + arg}):
                    dst = f"{tmp}/cmd"
                    clean(dst)
                    with mock.patch.object(sys, 'argv', [kind, base, '-o', dst] + arg):
                        module.main()
                    ctx.equal(sorted(os.listdir(dst)), ['en_us.json', 'fr_fr.json'], 'files')
                    for lang, table in tables.items():
                        if kind == 'tft':
                            same_tft(ctx, f"{dst}/{lang}.json", model, lay, table, lang)
                        else:
                            same_arena(ctx, f"{dst}/{lang}.json", arena, table, lang)


# ---------------------------------------------------------------- whole exports

CHANGES = ['map22', 'champion', 'english', 'french', 'map30', 'arena english']


def run_export(unit, ctx, tmp):
    """Exports of WADs, after another patch"""
    store = Store(f"{tmp}/store")
    old, new, layouts = unit['versions'][0], unit['versions'][1], {}
    modern = new == 'main' or PatchVersion(new) >= PatchVersion('14.4')

    def build(version, mask):
        n = PatchVersion(version).as_int()
        lay = Layout(game=n)
        on = lambda name: mask >> CHANGES.index(name) & 1
        model, arena = small(), small_arena()
        if on('map22'):
            model.items['TFT_J']['tra'] = 'a_tra'
        if on('champion'):
            model.champs['TFT_A']['tier'] = 4
            model.champs['TFT_A']['traits'] = ['TFT_Tb']
        if on('map30'):
            arena.augments['Second']['tra'] = 'x_tra'
        if not on('english'):
            english = {'ta_tra': 'A', 'a_tra': 'B'}
        else:
            english = {'ta_tra': 'C', 'i_desc': 'D'}
        french = {'ta_tra': 'F', 'tb_desc': 'G'} if not on('french') else {'a_spell_tra': 'H'}
        ea = {'x_tra': 'K', 'y_tip': 'L'} if not on('arena english') else {'x_tip': 'M'}
        fa = {'x_desc': 'N'}
        src = f"{tmp}/src"
        clean(src)
        model.write(src, lay)
        arena.write(src)
        data = lambda p: open(f"{src}/{p}", 'rb').read()
        game = [(p, None, data(p), 'zstd') for p in PATHS if os.path.exists(f"{src}/{p}")]
        wads = [Wad('DATA/FINAL/Maps/Shipping/Map22.wad.client', [e for e in game if 'map30' not in e[0] and 'map22' in e[0]]), Wad('DATA/FINAL/Maps/Shipping/Map30.wad.client', [e for e in game if 'map30' in e[0]]), Wad('DATA/FINAL/Characters.wad.client', [e for e in game if 'maps' not in e[0]])]
        for lang, name, t, a in (('en_us', 'en_US', english, ea), ('fr_fr', 'fr_FR', french, fa)):
            entries = []
            for g, table in (('tft', t), ('lol', a)):
                if modern:
                    tft.write_table(src, 'game', lang, g, table, patch=n)
                    entries.append((f"data/menu/en_us/{g}.stringtable", None, data(f"{lang}/data/menu/en_us/{g}.stringtable"), 'zstd'))
            wads.append(Wad(f"DATA/FINAL/Localized/Global.{name}.wad.client", entries))
        return lay, model, arena, {'en_us': (english, ea), 'fr_fr': (french, fa)}, patches.patch([element(store, 'game', version, wads=wads)])

    first = build(old, 0)
    exported = f"{tmp}/first"
    CdragonRawPatchExporter(f"{exported}/{old}", first[4]).process()
    for mask in range(unit['part'], 1 << len(CHANGES), unit['parts']):
        lay, model, arena, tables, patch = build(new, mask)
        for mode in ('full', 'changes', 'links', 'twice'):
            with ctx.case({'versions': unit['versions'], 'changes': [c for i, c in enumerate(CHANGES) if mask >> i & 1], 'mode': mode}):
                root = f"{tmp}/exports"
                clean(root)
                shutil.copytree(exported, root, symlinks=True)
                out = f"{root}/{new}"
                if mode == 'twice':
                    # over the export of something else
                    CdragonRawPatchExporter(out, build(new, mask ^ (1 << len(CHANGES)) - 1)[4]).process()
                if mode in ('links', 'twice'):
                    CdragonRawPatchExporter(out, patch, first[4], True).process()
                else:
                    CdragonRawPatchExporter(out, patch).process()
                ctx.equal(sorted(os.listdir(f"{out}/cdragon/tft")), ['en_us.json', 'fr_fr.json'], 'TFT files')
                ctx.equal(sorted(os.listdir(f"{out}/cdragon/arena")), ['en_us.json', 'fr_fr.json'], 'Arena files')
                for lang, (t, a) in tables.items():
                    same_tft(ctx, f"{out}/cdragon/tft/{lang}.json", model, lay, t, lang)
                    same_arena(ctx, f"{out}/cdragon/arena/{lang}.json", arena, a, lang)
                # the previous patch is left alone
                for lang, (t, a) in first[3].items():
                    same_tft(ctx, f"{root}/{old}/cdragon/tft/{lang}.json", first[1], first[0], t, f"previous {lang}")
                ctx.nontrivial((unit['versions'], mask, mode))


def run_partial(unit, ctx, tmp):
    """Exports of patches of which the game, or some of its maps, is not available"""
    store = Store(f"{tmp}/store")
    for version, maps, tables in itertools.product(('9.13', '9.14', '13.13', '13.14', '14.4', '16.1', 'main'), ((), (22,), (30,), (22, 30), None), (False, True)):
        n = PatchVersion(version).as_int()
        if maps and (n < 1404 or not tables):
            continue  # maps without string tables: not specified
        lay = Layout(game=n)
        model, arena = small(), small_arena()
        with ctx.case({'patch': version, 'maps': 'only the client' if maps is None else maps, 'string tables': tables}):
            src, root = f"{tmp}/src", f"{tmp}/exports"
            clean(src)
            clean(root)
            model.write(src, lay)
            arena.write(src)
            elements = [element(store, 'client', version, [('client.txt', b'client', '')])]
            if maps is not None:
                data = lambda p: open(f"{src}/{p}", 'rb').read()
                kept = [(p, None, data(p), 'zstd') for p in PATHS if os.path.exists(f"{src}/{p}") and not any(f"map{m}." in p and m not in maps for m in (22, 30))]
                texts = {'ta_tra': 'A', 'x_tra': 'K'}
                if tables:
                    for g in ('tft', 'lol'):
                        tft.write_table(src, 'game', 'en_us', g, texts, patch=n)
                    path = 'data/menu/en_us/%s.stringtable'
                    wads = [Wad('DATA/FINAL/Localized/Global.en_US.wad.client', [(path % g, None, data(f"en_us/{path % g}"), 'zstd') for g in ('tft', 'lol')])]
                else:
                    wads = []
                if kept:
                    wads.append(Wad('DATA/FINAL/All.wad.client', kept))
                elements.append(element(store, 'game', version, [('game.txt', b'game', '')], wads))
            out = f"{root}/{version}"
            CdragonRawPatchExporter(out, patches.patch(elements)).process()
            with open(f"{out}/client.txt") as f:
                ctx.equal(f.read(), 'client', 'file of the client')
            localized = ['en_us.json'] if tables and maps and n >= 1404 else []
            listing = lambda p: sorted(os.listdir(p)) if os.path.isdir(p) else []
            ctx.equal(listing(f"{out}/cdragon/tft"), localized if maps and 22 in maps and n >= 914 else [], 'TFT files')
            ctx.equal(listing(f"{out}/cdragon/arena"), localized if maps and 30 in maps and n >= 1314 else [], 'Arena files')
            if localized and 22 in maps:
                same_tft(ctx, f"{out}/cdragon/tft/en_us.json", model, lay, texts, 'en_us')
            if localized and 30 in maps:
                same_arena(ctx, f"{out}/cdragon/arena/en_us.json", arena, texts, 'en_us')
            ctx.nontrivial((version, maps, tables))


def run(unit, ctx):
    fsx.install()
    with ctx.tmp() as tmp:
        {'subsets': run_subsets, 'chains': run_chains, 'texts': run_texts, 'langs': run_langs, 'formats': run_formats, 'txt': run_txt, 'patches': run_patches, 'export': run_export, 'partial': run_partial}[unit['kind']](unit, ctx, tmp)


def units(tier):
    u = [{'kind': k, 'parts': n, 'part': i} for k, n in (('subsets', 8), ('chains', 8), ('langs', 16)) for i in range(n)]
    u += [{'kind': 'export', 'versions': v, 'parts': 4, 'part': i} for v in (['14.4', '14.5'], ['15.3', '15.4'], ['15.10', 'main']) for i in range(4)]
    return u + [{'kind': k} for k in ('texts', 'formats', 'txt', 'patches', 'partial')]
