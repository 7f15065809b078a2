"""TFT and Arena data: links between sets, champions, traits, items, augments and spells"""
import copy
import itertools
import json
import os
import shutil

from .. import fsx, patches, tft
from ..tft import Arena, Layout, Model
from cdtb.arenadata import ArenaTransformer
from cdtb.tftdata import TftTransformer

ID = 'C28'
LEVEL = 'exploration'
RULE = 'distinct (data, layout, order) combinations; non-trivial when a set, an item or an augment is exported'
BOUNDS = {'quick': 'all links between 2 sets, 2 champions and 2 traits (4096), all compositions of 3 items (512), all associated and incompatible traits of 3 items (2 x 64), all items of 2 sets (512), with a rotation of the layouts; 40 dangling references, templates and absent fields, alone and by pairs, in 3 layouts; all pairs of 24 alternative layouts; all orders of 7 entries; statistics: all subsets of fields, zero values, rarities 0..9; Arena: all small tables of 2 augments and 2 spells and 24 orders',
          'thorough': 'as quick with all pairs of layouts for each anomaly and triples of anomalies, and all layouts for the links'}
ASSUMPTIONS = ['sets without number, name, list of character lists or list of trait lists are left out', 'sets sharing a number: the table indexed by number holds one of them', 'icons which are absent are not compared',
               'champions without spell reference are not exported', 'values of the spells of augments: the list or the first value']

HASHFILES = {**patches.RST_HASHFILES, **tft.HASHFILES}


def trait(n, **kw):
    return dict(tra=f"{n}_tra", desc=f"{n}_desc", **kw)


def champ(n, **kw):
    return dict(tra=f"{n}_tra", spelltra=f"{n}_spell_tra", spelldesc=f"{n}_spell_desc", **kw)


def item(n, k, **kw):
    return dict(tra=f"{n}_tra", desc=f"{n}_desc", id=100 + k, **kw)


def rich():
    """A model with every feature"""
    return Model(
        traits={'TFT_Ta': trait('ta', sets=[(2, 3, 1, [('Dmg', 1.5)]), (4, None, None, []), (5, 0, 2, [('Dmg', 3.5)])], base=[('Base', 2.0), ('Dmg', 0.5)]), 'TFT_Tb': trait('tb', sets=[(1, None, 3, [('Heal', 4.0)])]), 'TFT_Tc': trait('tc')},
        champs={'TFT_Ahri': champ('ahri', traits=['TFT_Ta', 'TFT_Tb'], role='Mage', tier=3, rarity=2, variables=[('Damage', [1.0, 2.0]), ('Time', [3.0])], stats={'hp': 500.0, 'mana': 60.0, 'initialMana': 10.0, 'damage': 40.0, 'armor': 20.0, 'magicResist': 25.0, 'critMultiplier': 1.5, 'critChance': 0.25, 'attackSpeed': 0.75, 'range': 4}),
                'TFT_Zed': champ('zed', traits=['TFT_Tb'], rarity=5, nullspell=True, variables=[], reverse=True), 'TFT_Lux': champ('lux', role='Tank', stats={'range': 1})},
        items={'TFT_Sword': item('sword', 0, effects=[('AD', 10.0)], tags=['tagA', 'tagB']), 'TFT_Bow': item('bow', 1, unique=True), 'TFT_Both': item('both', 2, composition=['TFT_Sword', 'TFT_Bow'], assoc=['TFT_Ta'], incompat=['TFT_Tb', 'TFT_Tc'], augment=False),
               'TFT_Augment': item('augment', 3, augment=True, assoc=['TFT_Tb'])},
        charlists={'L1': ['TFT_Ahri', 'TFT_Zed'], 'L2': ['TFT_Lux'], 'L3': []}, traitlists={'T1': ['TFT_Ta', 'TFT_Tb'], 'T2': ['TFT_Tb', 'TFT_Tc'], 'T3': []}, itemlists={'I1': ['TFT_Sword', 'TFT_Augment'], 'I2': ['TFT_Both', 'TFT_Augment'], 'I3': []},
        roles={'Mage': 'APCaster', 'Tank': 'ADTank'},
        sets=[dict(number=1, mutator='TFTSet1', name='Set1', chars=['L1'], traits=['T1'], items=['I1']), dict(number=2, mutator='TFTSet2', name='Set2', chars=['L1', 'L2'], traits=['T1', 'T2'], items=['I1', 'I2'])])


# anomalies: (name, function changing the model); each keeps the rest of the data
def _at(lst, x, k):
    lst.insert(0 if k else len(lst), x)


ANOMALIES = {}


def _define():
    def add(name, f):
        ANOMALIES[name] = f
    for where, k in (('first', 1), ('last', 0)):
        add(f"character list missing, {where}", lambda m, k=k: _at(m.sets[1]['chars'], 'Lx', k))
        add(f"trait list missing, {where}", lambda m, k=k: _at(m.sets[1]['traits'], 'Tx', k))
        add(f"item list missing, {where}", lambda m, k=k: _at(m.sets[1]['items'], 'Ix', k))
        add(f"character missing, {where}", lambda m, k=k: _at(m.charlists['L1'], 'TFT_None', k))
        add(f"trait of a list missing, {where}", lambda m, k=k: _at(m.traitlists['T1'], 'TFT_None', k))
        add(f"item of a list missing, {where}", lambda m, k=k: _at(m.itemlists['I1'], 'TFT_None', k))
        add(f"trait of a champion missing, {where}", lambda m, k=k: _at(m.champs['TFT_Ahri']['traits'], 'TFT_None', k))
        add(f"component missing, {where}", lambda m, k=k: _at(m.items['TFT_Both']['composition'], 'TFT_None', k))
        add(f"associated trait missing, {where}", lambda m, k=k: _at(m.items['TFT_Both']['assoc'], 'TFT_None', k))
        add(f"incompatible trait missing, {where}", lambda m, k=k: _at(m.items['TFT_Both']['incompat'], 'TFT_None', k))
    add('role missing', lambda m: m.champs['TFT_Ahri'].update(role='None'))
    add('no trait of a champion', lambda m: m.champs['TFT_Ahri'].update(traits=None))
    add('empty traits of a champion', lambda m: m.champs['TFT_Ahri'].update(traits=[]))
    add('spell missing', lambda m: m.champs['TFT_Ahri'].update(hasspell=False))
    add('no value in the spell', lambda m: m.champs['TFT_Ahri'].update(variables=None))
    add('no shop data', lambda m: m.champs['TFT_Zed'].update(shop=False))
    add('no champion file', lambda m: m.champs['TFT_Zed'].update(file=False))
    add('character without champion', lambda m: (m.characters.update(TFT_Egg='TFT_Egg'), m.charlists['L1'].append('TFT_Egg')))
    add('case of names', lambda m: m.characters.update(TFT_Ahri='tft_AHRI', TFT_Lux='tft_lux'))
    add('unused champion', lambda m: m.charlists.update(L1=['TFT_Zed']))
    add('empty lists', lambda m: (m.charlists.update(L1=[]), m.traitlists.update(T1=[]), m.itemlists.update(I1=[])))
    add('absent characters', lambda m: m.charlists.update(L2=None))
    add('absent traits', lambda m: m.traitlists.update(T2=None))
    add('absent items', lambda m: m.itemlists.update(I2=None))
    add('no item list in a set', lambda m: m.sets[1].update(items=None))
    add('set without number', lambda m: m.sets[0].update(number=None))
    add('set without name', lambda m: m.sets[0].update(name=None))
    add('set without data', lambda m: m.sets[0].update(script=False))
    add('set without character list', lambda m: m.sets[0].update(chars=None))
    add('set with empty character lists', lambda m: m.sets[0].update(chars=[]))
    add('set without trait list', lambda m: m.sets[0].update(traits=None))
    add('set with empty trait lists', lambda m: m.sets[0].update(traits=[]))
    add('sets of the same number', lambda m: m.sets[1].update(number=1))
    add('template trait', lambda m: (m.traits.update(TFT_TraitTemplate=trait('template')), m.traitlists['T1'].insert(0, 'TFT_TraitTemplate'), m.champs['TFT_Ahri']['traits'].insert(0, 'TFT_TraitTemplate')))
    add('template champion', lambda m: (m.champs.update(TFT_Template=champ('template', traits=['TFT_Ta'])), m.characters.update(TFT_Template='TFT_Template'), m.charlists['L1'].insert(0, 'TFT_Template')))
    add('template item as component', lambda m: (m.items.update(TFT_ItemTemplate=item('template', 8)), m.items['TFT_Both']['composition'].insert(0, 'TFT_ItemTemplate')))
    add('null item', lambda m: m.items.update(TFT_Item_Null=item('null', 9, composition=['TFT_Sword'])))
    add('null item as component', lambda m: (m.items.update(TFT_Item_Null=item('null', 9)), m.items['TFT_Both']['composition'].append('TFT_Item_Null')))
    add('items named like the null one', lambda m: m.items.update({'TFT_Item_Null2': item('n2', 9), 'XTFT_Item_Null': item('xn', 10), 'TFT_Item_Nul': item('nul', 11)}))
    add('component twice', lambda m: m.items['TFT_Both']['composition'].insert(0, 'TFT_Bow'))
    add('trait in two lists', lambda m: m.traitlists['T2'].append('TFT_Ta'))


_define()


def run_model(ctx, tmp, model, lay, desc, order=None, orders=None):
    with ctx.case(desc):
        base, out = f"{tmp}/game", f"{tmp}/out"
        if os.path.isdir(out):
            shutil.rmtree(out)
        if orders is None and os.path.isdir(base):
            shutil.rmtree(base)
        model.write(base, lay, order, files=orders is None or not os.path.isdir(f"{base}/data/characters"))
        os.makedirs(f"{base}/en_us/data/menu/en_us", exist_ok=True)
        tft.write_table(base, 'game', 'en_us', 'tft', {}, patch=lay.game)
        TftTransformer(base, lay.game).export(out)
        ctx.equal(sorted(os.listdir(out)), ['en_us.json'], 'files')
        with open(f"{out}/en_us.json", encoding='utf-8') as f:
            got = json.load(f)
        want = model.expected(lay)
        compare(ctx, got, want)
        if want['setData'] or want['items']:
            ctx.nontrivial(desc() if callable(desc) else desc)
        ctx.outcome([(s['number'], len(s['champions']), len(s['traits']), len(s['items']), len(s['augments'])) for s in want['setData']] + [len(i['composition']) for i in want['items']])


def compare(ctx, got, want):
    ctx.check(set(got) >= {'sets', 'setData', 'items'}, f"keys: {sorted(got)}")
    # more data of an object may be given
    g, w = tft.normalized(got), tft.normalized(want)
    ctx.equal([(s['number'], s['mutator'], s['name']) for s in g['setData']], [(s['number'], s['mutator'], s['name']) for s in w['setData']], 'sets')
    for a, b in zip(g['setData'], w['setData']):
        what = f"set {b['number']}"
        ctx.equal([t['apiName'] for t in a['traits']], [t['apiName'] for t in b['traits']], f"{what}: traits")
        ctx.equal([c['apiName'] for c in a['champions']], [c['apiName'] for c in b['champions']], f"{what}: champions")
        for k in ('items', 'augments'):
            ctx.equal(a[k], b[k], f"{what}: {k}")
        for k in ('traits', 'champions'):
            for x, y in zip(a[k], b[k]):
                ctx.equal({f: x[f] for f in y}, y, f"{what}: {k}")
    ctx.equal([i['apiName'] for i in g['items']], [i['apiName'] for i in w['items']], 'items')
    for x, y in zip(g['items'], w['items']):
        ctx.equal({f: x[f] for f in y}, y, 'item')
    # the table indexed by number
    numbers = {str(s['number']) for s in w['setData']}
    ctx.equal(set(g['sets']), numbers, 'numbers of sets')
    for n, s in g['sets'].items():
        same = [(x['name'], x['traits'], x['champions']) for x in g['setData'] if str(x['number']) == n]
        ctx.check((s['name'], s['traits'], s['champions']) in same, f"set {n} by number")


# ---------------------------------------------------------------- links

def bits(n, mask):
    return [i for i in range(n) if mask >> i & 1]


def links_model(mask):
    """4 bits each: sets to champions, sets to traits, champions to traits"""
    c, t = ['TFT_A', 'TFT_B'], ['TFT_Ta', 'TFT_Tb']
    pick = lambda names, m: [names[i] for i in bits(2, m)]
    return Model(traits={n: trait(n, sets=[(2, None, 1, [(n, 1.0)])]) for n in t},
                 champs={n: champ(n, traits=pick(t, mask >> (8 + 2 * k) & 3), variables=[(n, [1.0])]) for k, n in enumerate(c)},
                 charlists={f"L{k}": pick(c, mask >> 2 * k & 3) for k in range(2)}, traitlists={f"T{k}": pick(t, mask >> (4 + 2 * k) & 3) for k in range(2)},
                 sets=[dict(number=k + 1, mutator=f"m{k}", name=f"n{k}", chars=[f"L{k}"], traits=[f"T{k}"]) for k in range(2)])


def items_model(kind, mask):
    names, t = ['TFT_I', 'TFT_J', 'TFT_K'], ['TFT_Ta', 'TFT_Tb']
    items = {n: item(n, k) for k, n in enumerate(names)}
    itemlists, sets = {}, [dict(number=1, mutator='m', name='n', chars=['L'], traits=['T'])]
    if kind == 'composition':
        for k, n in enumerate(names):
            items[n]['id'] = k
            items[n]['composition'] = [names[i] for i in bits(3, mask >> 3 * k & 7)]
    elif kind in ('assoc', 'incompat'):
        for k, n in enumerate(names):
            items[n][kind] = [t[i] for i in bits(2, mask >> 2 * k & 3)]
    else:
        for k, n in enumerate(names):
            items[n]['augment'] = bool(mask >> (6 + k) & 1)
        itemlists = {f"I{k}": [names[i] for i in bits(3, mask >> 3 * k & 7)] for k in range(2)}
        sets = [dict(number=k + 1, mutator=f"m{k}", name=f"n{k}", chars=['L'], traits=['T'], items=[f"I{k}"]) for k in range(2)]
    return Model(traits={n: trait(n) for n in t}, items=items, charlists={'L': []}, traitlists={'T': []}, itemlists=itemlists, sets=sets)


SINGLES = [Layout()] + [Layout(**{k: v}) for k, v in tft.ALTERNATIVES]
NEW = [l for l in SINGLES if not l.old]


def run_links(unit, ctx, tmp):
    k = 0
    for mask in range(unit['part'], 4096, unit['parts']):
        k += 1
        layouts = NEW if ctx.tier == 'thorough' else [NEW[k % len(NEW)]]
        for lay in layouts:
            run_model(ctx, tmp, links_model(mask), lay, {'links': mask, 'layout': lay.describe()})


def run_items(unit, ctx, tmp):
    kind = unit['of']
    n = 64 if kind in ('assoc', 'incompat') else 512
    for mask in range(unit['part'], n, unit['parts']):
        for lay in [Layout(), Layout(item='old'), Layout(kind='hash', effects='constants')] if ctx.tier == 'thorough' or n == 64 else [Layout(item='old' if mask % 2 else 'new', kind='hash' if mask % 3 else 'link')]:
            run_model(ctx, tmp, items_model(kind, mask), lay, {'items': kind, 'mask': mask, 'layout': lay.describe()})


def run_anomalies(unit, ctx, tmp):
    names = list(ANOMALIES)
    combos = [()] + [(a,) for a in names] + list(itertools.combinations(names, 2))
    if ctx.tier == 'thorough':
        combos += [c for i, c in enumerate(itertools.combinations(names, 3)) if i % 5 == 0]
    lays = [Layout(), Layout(linked='embedded', item='old', kind='hash', charfield='both', effects='constants', traitsets='old', stats='old'), Layout(names='spell', spells='names', spelldata='old', cost='rarity', file='characters', game=914, icons='old')]
    for i, combo in enumerate(combos):
        if i % unit['parts'] != unit['part']:
            continue
        for j, lay in enumerate(lays):
            if len(combo) == 2 and ctx.tier == 'quick' and (i // unit['parts'] + j) % 3:
                continue
            m = copy.deepcopy(rich())
            try:
                for a in combo:
                    ANOMALIES[a](m)
            except AttributeError:
                continue   # the second one needs a list which the first one removed
            run_model(ctx, tmp, m, lay, {'anomalies': combo, 'layout': lay.describe()})


def run_layouts(unit, ctx, tmp):
    combos = [c for n in (1, 2) for c in itertools.combinations(tft.ALTERNATIVES, n) if len({k for k, _ in c}) == n]
    for i, combo in enumerate(combos):
        if i % unit['parts'] == unit['part']:
            lay = Layout(**dict(combo))
            m = rich()
            if lay.old:
                # the old format has a single list of each
                for anomalies in ([], ['character missing, first', 'trait of a list missing, last'], ['template trait', 'template champion'], ['no shop data']):
                    m = rich()
                    for a in anomalies:
                        ANOMALIES[a](m)
                    run_model(ctx, tmp, m, lay, {'layout': lay.describe(), 'anomalies': anomalies})
            else:
                run_model(ctx, tmp, m, lay, {'layout': lay.describe()})


def run_orders(unit, ctx, tmp):
    m = links_model(0b011110010110)
    m.items, m.itemlists = {'TFT_I': item('i', 0), 'TFT_J': item('j', 1, composition=['TFT_I'])}, {}
    lay = Layout(item='old')
    entries = m.entries(lay)
    # every order of the first of each kind, the others before or after
    kinds, head, rest = set(), [], []
    for e in entries:
        (rest if e[1] in kinds else head).append(e)
        kinds.add(e[1])
    shutil.rmtree(f"{tmp}/game", ignore_errors=True)
    for i, perm in enumerate(itertools.permutations(range(len(head)))):
        if i % unit['parts'] != unit['part']:
            continue
        if ctx.tier == 'quick' and len(head) > 7 and (i // unit['parts']) % 8:
            continue
        for side in (0, 1) if i % 16 < 8 else (i % 2,):
            order = lambda es: [head[p] for p in perm] + rest[::-1] if side else rest + [head[p] for p in perm]
            run_model(ctx, tmp, m, lay, {'order': perm, 'others': side}, order, orders=True)


def run_stats(unit, ctx, tmp):
    full = {'hp': 500.0, 'mana': 60.0, 'initialMana': 10.0, 'damage': 40.0, 'armor': 20.0, 'magicResist': 25.0, 'critMultiplier': 1.5, 'critChance': 0.25, 'attackSpeed': 0.75, 'range': 4}
    keys = list(full)
    if unit['part'] == 0:
        for (i, a), (j, b) in itertools.combinations(enumerate(keys), 2):
            for st in ({a: 0.0}, {a: 0.0, b: full[b]}, {a: full[a], b: 0.0}, {a: 0.0, b: 0.0}):
                for s in ('old', 'new'):
                    lay = Layout(stats=s, cost='rarity')
                    m = Model(traits={}, champs={'TFT_A': champ('a', stats=st, rarity=(i + j) % 10)}, charlists={'L': ['TFT_A']}, traitlists={'T': []}, sets=[dict(number=3, mutator='m', name='n', chars=['L'], traits=['T'])])
                    run_model(ctx, tmp, m, lay, {'statistics': st, 'rarity': (i + j) % 10, 'layout': lay.describe()})
    for mask in range(unit['part'], 1 << len(keys), unit['parts']):
        if ctx.tier == 'quick' and bin(mask).count('1') not in (0, 1, 2, 5, 8, 9, 10):
            continue
        lay = Layout(stats='old' if mask % 3 == 0 else 'new', cost='rarity' if mask % 2 else 'tier')
        m = Model(traits={}, champs={'TFT_A': champ('a', stats={keys[i]: full[keys[i]] for i in bits(len(keys), mask)}, rarity=mask // 2 % 8, tier=mask % 6)}, charlists={'L': ['TFT_A']}, traitlists={'T': []},
                  sets=[dict(number=3, mutator='m', name='n', chars=['L'], traits=['T'])])
        run_model(ctx, tmp, m, lay, {'statistics': sorted(m.champs['TFT_A']['stats']), 'rarity': mask // 2 % 8, 'layout': lay.describe()})


# ---------------------------------------------------------------- Arena

def run_arena_model(ctx, tmp, arena, desc, order=None):
    with ctx.case(desc):
        base, out = f"{tmp}/game", f"{tmp}/out"
        if os.path.isdir(out):
            shutil.rmtree(out)
        arena.write(base, order)
        if not os.path.exists(f"{base}/en_us/data/menu/en_us/lol.stringtable"):
            tft.write_table(base, 'game', 'en_us', 'lol', {}, patch=9999)
        ArenaTransformer(base, 9999).export(out)
        with open(f"{out}/en_us.json", encoding='utf-8') as f:
            got = json.load(f)
        want = tft.arena_normalized(arena.expected())
        have = tft.arena_normalized(got['augments'])
        ctx.equal([a['apiName'] for a in have], [a['apiName'] for a in want], 'augments')
        for x, y in zip(have, want):
            ctx.equal({k: x[k] for k in y}, y, f"augment {y['apiName']}")
        if want:
            ctx.nontrivial(desc() if callable(desc) else desc)
        ctx.outcome([(a['apiName'], len(a['dataValues']), len(a['calculations'])) for a in want])


def run_arena(unit, ctx, tmp):
    old = unit['old']
    spells = {
        'full': dict(values=[('Damage', [1.0, 2.0]), ('Time', [3.0])], calcs=[('Total', 4.0)]), 'values': dict(values=[('Damage', [5.0])]), 'calcs': dict(calcs=[('Total', 6.0), ('Other', 7.0)]),
        'empty': dict(), 'no values': dict(values=[]), 'no value': dict(values=[('Zero', None)]), 'no data': dict(mspell=False),
    }
    refs = [None, 0, 'missing', 'A', 'B']
    for (ka, kb), ra, rb in itertools.product(itertools.product(spells, repeat=2), refs, refs):
        for enabled in ((None, None), (True, False), (False, True), (False, False)):
            if (ra, rb) not in (('A', 'B'), ('A', None), ('missing', 'A')) and enabled != (None, None) or (ka != kb and ra not in ('A', 'B') and rb not in ('A', 'B')):
                continue
            arena = Arena({'First': dict(id=11, tra='First_tra', desc='First_desc', tooltip='First_tip', spell=ra, enabled=enabled[0], rarity=2), 'Second': dict(id=12, tra='Second_tra', desc='Second_desc', tooltip='Second_tip', spell=rb, enabled=enabled[1])},
                          {'A': spells[ka], 'B': spells[kb]}, old)
            run_arena_model(ctx, tmp, arena, {'spells': [ka, kb], 'roots': [ra, rb], 'enabled': enabled, 'old': old})
    arena = Arena({'First': dict(id=11, tra='a', desc='b', tooltip='c', spell='B'), 'Second': dict(id=12, tra='d', desc='e', tooltip='f', spell='A', rarity=1), 'Third': dict(id=13, tra='g', desc='h', tooltip='i', spell='A')}, {'A': spells['full'], 'B': spells['values']}, old)
    for perm in itertools.permutations(range(5)):
        run_arena_model(ctx, tmp, arena, {'order': perm, 'old': old}, lambda es: [es[p] for p in perm])
    run_arena_model(ctx, tmp, Arena({}, {}, old), {'augments': 0, 'old': old})


def run(unit, ctx):
    fsx.install()
    with ctx.tmp() as tmp:
        {'links': run_links, 'items': run_items, 'anomalies': run_anomalies, 'layouts': run_layouts, 'orders': run_orders, 'stats': run_stats, 'arena': run_arena}[unit['kind']](unit, ctx, tmp)


def units(tier):
    u = [{'kind': k, 'parts': n, 'part': i} for k, n in (('links', 24), ('anomalies', 16), ('layouts', 4), ('orders', 16), ('stats', 4)) for i in range(n)]
    u += [{'kind': 'items', 'of': k, 'parts': 2, 'part': i} for k in ('composition', 'assoc', 'incompat', 'sets') for i in range(2)]
    return u + [{'kind': 'arena', 'old': o} for o in (False, True)]
