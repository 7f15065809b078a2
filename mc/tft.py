"""TFT and Arena data: abstract contents, the BIN files which hold them, and the JSON expected from them"""
import os

from . import enc
from .enc import V


def S(s):
    return V('string', s)


def F(x):
    return V('float', x)


def I(x):
    return V('s32', x)


def links(names, kind='link'):
    return V('list', [V(kind, n) for n in names], kind)


class Layout:
    """Choices between equivalent representations"""
    defaults = dict(
        game=1502,              # patch number, for BIN types
        character='Character',  # or TftCharacter
        charlist='MapCharacterList',  # or TftCharacterList
        charfield='characterLists',   # or tftCharacterLists, or both
        mutator='Mutator',      # or name
        old=False,              # no TFTSetData
        kind='link',            # or hash: type of references in lists
        linked='link',          # or embedded: traits of champions
        traitsets='new',        # conditional trait sets, or 'old'
        effects='amounts',      # or constants
        spells='links',         # or names, paths, name
        spelldata='new',        # DataValues and values, or 'old'
        file='data',            # or 'characters'
        cost='tier',            # or rarity
        stats='new',            # modifiable structures, or 'old'
        item='new',             # without mId, or 'old'
        paths='path',           # or string: type of icon fields
        names='tra',            # ability names in the shop data, or 'spell'
        icons='new',            # or 'old'
    )

    def __init__(self, **kw):
        self.__dict__.update(self.defaults)
        for k, v in kw.items():
            assert k in self.defaults, k
            setattr(self, k, v)
        if self.game < 1023:
            self.paths = 'string'   # no path type

    def describe(self):
        return {k: getattr(self, k) for k in self.defaults if getattr(self, k) != self.defaults[k]}


ALTERNATIVES = [('character', 'TftCharacter'), ('charlist', 'TftCharacterList'), ('charfield', 'tftCharacterLists'), ('charfield', 'both'), ('mutator', 'name'), ('kind', 'hash'), ('linked', 'embedded'), ('traitsets', 'old'),
                ('effects', 'constants'), ('spells', 'names'), ('spells', 'paths'), ('spells', 'name'), ('spelldata', 'old'), ('file', 'characters'), ('cost', 'rarity'), ('stats', 'old'), ('item', 'old'), ('paths', 'string'), ('names', 'spell'), ('icons', 'old'),
                ('game', 914), ('game', 1007), ('game', 9999), ('old', True)]


def path_of(kind, name):
    return f"Maps/Shipping/Map22/{kind}/{name}"


def icon(layout, p):
    """Icon field, and its text in the JSON"""
    if layout.paths == 'string':
        return S(p), p
    h = enc.wad_hash(p)
    return V('path', h), f"{{{h:016x}}}"


# half of the names are known
KNOWN_TYPES = ['Character', 'TftCharacter', 'TftTraitData', 'TFTCharacterRecord', 'TFTSetData', 'GameCalculation', 'MapCharacterList']
KNOWN_FIELDS = ['mName', 'TraitData', 'Characters', 'ScriptData', 'mSpell', 'spells', 'RootSpell', 'mValue']
KNOWN_HASHES = ['Dmg', 'tagA', 'Total']
HASHFILES = {'hashes.bintypes.txt': {enc.fnv(x): x for x in KNOWN_TYPES}, 'hashes.binfields.txt': {enc.fnv(x): x for x in KNOWN_FIELDS}, 'hashes.binhashes.txt': {enc.fnv(x): x for x in KNOWN_HASHES},
             'hashes.binentries.txt': {enc.fnv('Maps/Shipping/Map22/Traits/TFT_Ta'): 'Maps/Shipping/Map22/Traits/TFT_Ta'}, 'hashes.game.txt': {}}


def effect_name(n):
    if n in KNOWN_HASHES or n in KNOWN_TYPES or n in KNOWN_FIELDS:
        return n
    return f"{{{enc.fnv(n):08x}}}"


def effects_fields(layout, effects):
    """effects: [(name, value)]; the field is absent without effect"""
    if not effects:
        return []
    if layout.effects == 'amounts':
        return [('effectAmounts', V('list', [V('embedded', [('name', V('hash', n)), ('value', F(x))], 'TftEffectAmount') for n, x in effects], 'embedded'))]
    return [('constants', V('struct', [(0xdf085b93, V('map', [(V('hash', n), V('struct', [('mValue', F(x))], 'TftConstant')) for n, x in effects], 'hash', 'struct'))], 'TftConstants'))]


def effects_json(effects):
    return {effect_name(n): x for n, x in effects}


class Model:
    """Everything is given by short names:
    traits: {name: dict(tra, desc, icon, base=[effects], sets=[(min, max, style, effects)])}
    champs: {name: dict(tra, traits=[names], spell, ...)}; items: {name: dict(...)}
    charlists, traitlists, itemlists: {name: [names]}; sets: [dict(number, mutator, name, chars=[lists], traits=[lists], items=[lists])]
    A name without definition makes a dangling reference."""

    def __init__(self, traits=None, champs=None, items=None, charlists=None, traitlists=None, itemlists=None, sets=(), roles=None, characters=None, extra=()):
        self.traits, self.champs, self.items = traits or {}, champs or {}, items or {}
        self.charlists, self.traitlists, self.itemlists = charlists or {}, traitlists or {}, itemlists or {}
        self.sets, self.roles, self.extra = list(sets), roles or {}, list(extra)
        # internal names of characters: champions, unless given otherwise
        self.characters = {n: n for n in self.champs} if characters is None else characters

    # ------------------------------------------------------------ BIN files

    def entries(self, lay):
        out = []
        for n, internal in self.characters.items():
            out.append((path_of('Characters', n), lay.character, [('name', S(internal))]))
        for n, chars in self.charlists.items():
            out.append((path_of('CharLists', n), lay.charlist, [('Characters', links([path_of('Characters', c) for c in chars], lay.kind))] if chars is not None else []))
        for n, ts in self.traitlists.items():
            out.append((path_of('TraitLists', n), 'TftTraitList', [('mTraits', links([path_of('Traits', t) for t in ts], lay.kind))] if ts is not None else []))
        for n, items in self.itemlists.items():
            out.append((path_of('ItemLists', n), 'TFTItemList', [('mItems', links([path_of('Items', t) for t in items], lay.kind))] if items is not None else []))
        for n, t in self.traits.items():
            fields = [('mName', S(t.get('name', n))), ('mDisplayNameTra', S(t['tra'])), ('mDescriptionNameTra', S(t['desc'])), ('mIconPath', icon(lay, f"ASSETS/{n}.tex")[0])]
            if t.get('base'):
                fields.append(('InnateTraitSets', V('list', [V('embedded', effects_fields(lay, [e]), 'TftTraitSet') for e in t['base']], 'embedded')))
            prefix = 'm' if lay.traitsets == 'old' else ''
            if t.get('sets') or lay.traitsets == 'old':
                sets = [V('embedded', [(prefix + 'MinUnits', I(mn))] + ([(prefix + 'MaxUnits', I(mx))] if mx is not None else []) + ([(prefix + 'Style', V('u8', st))] if st is not None else []) + effects_fields(lay, eff), 'TftTraitSet')
                        for mn, mx, st, eff in t.get('sets', ())]
                fields.append(('mTraitSets' if lay.traitsets == 'old' else 'mConditionalTraitSets', V('list', sets, 'embedded')))
            out.append((path_of('Traits', n), 'TftTraitData', fields))
        for n, c in self.champs.items():
            if c.get('shop', True):
                tra = lay.names == 'tra'
                fields = [('mName', S(c.get('name', n))), ('mDisplayNameTra', S(c['tra'])), ('PcSplashPath' if lay.icons == 'new' else 'mIconPath', icon(lay, f"ASSETS/{n}_splash.tex")[0]), ('TeamPlannerPortraitPath', icon(lay, f"ASSETS/{n}_tile.tex")[0]), ('SquareSplashPath', icon(lay, f"ASSETS/{n}_square.tex")[0]),
                          ('AbilityIconPath' if lay.icons == 'new' else 'mPortraitIconPath', icon(lay, f"ASSETS/{n}_ability.tex")[0])]
                if tra:
                    fields += [('mAbilityNameTra', S(c['spelltra'])), ('mDescriptionTra', S(c['spelldesc']))]
                if lay.cost == 'rarity' and c.get('rarity'):
                    fields.append(('mRarity', V('u8', c['rarity'])))
                out.append((path_of('Shop', n), 'TftShopData', fields))
        for n, t in self.items.items():
            fields = [('mName', S(t.get('name', n))), ('mDisplayNameTra', S(t['tra'])), ('mDescriptionNameTra', S(t['desc'])), ('mIconPath', icon(lay, f"ASSETS/{n}.tex")[0])]
            if lay.item == 'old':
                fields.append(('mId', I(t['id'])))
            for key, field, where in (('composition', 'mComposition', 'Items'), ('assoc', 'AssociatedTraits', 'Traits'), ('incompat', 'IncompatibleTraits', 'Traits')):
                if t.get(key):
                    fields.append((field, links([path_of(where, x) for x in t[key]], lay.kind)))
            if t.get('tags'):
                fields.append(('ItemTags', links(t['tags'], 'hash')))
            for key, field in (('augment', 'IsAugment'), ('unique', 'mIsUnique')):
                if t.get(key) is not None:
                    fields.append((field, V('bool', t[key])))
            out.append((path_of('Items', n), 'TftItemData', fields + effects_fields(lay, t.get('effects', ()))))
        for n, name in self.roles.items():
            out.append((path_of('Roles', n), 'TFTCharacterRoleData', [('name', S(name))]))
        if not lay.old:
            for k, s in enumerate(self.sets):
                fields = []
                if s.get('number') is not None:
                    fields.append(('number', I(s['number'])))
                fields.append((lay.mutator, S(s['mutator'])))
                if s.get('chars') is not None:
                    refs = [path_of('CharLists', c) for c in s['chars']]
                    if lay.charfield == 'both':
                        fields += [('characterLists', links(refs[:1], lay.kind)), ('tftCharacterLists', links(refs[1:], lay.kind))]
                    else:
                        fields.append((lay.charfield, links(refs, lay.kind)))
                if s.get('traits') is not None:
                    fields.append(('TraitLists', links([path_of('TraitLists', c) for c in s['traits']], lay.kind)))
                if s.get('items') is not None:
                    fields.append(('ItemLists', links([path_of('ItemLists', c) for c in s['items']], lay.kind)))
                if s.get('script', True):
                    data = [(S('Other'), V('struct', [('mValue', S('x'))], 'GameModeConstantString'))]
                    if s.get('name') is not None:
                        data.append((S('SetName'), V('struct', [('mValue', S(s['name']))], 'GameModeConstantString')))
                    fields.append(('ScriptData', V('map', data, 'string', 'struct')))
                out.append((path_of('Sets', f"set{k}"), 'TFTSetData', fields))
        return out + self.extra

    def champion_bin(self, lay, n, c):
        g = lay.game
        base = f"Characters/{n}"
        spell = c.get('spell', f"{n}Spell")
        fields = [('mCharacterName', S(c.get('name', n)))]
        if lay.spells == 'links':
            fields.append(('spells', links([0, f"{base}/Spells/{spell}", f"{base}/Spells/Other"] if c.get('nullspell') else [f"{base}/Spells/{spell}", 0])))
        else:
            fields.append(('spellNames', V('list', [S({'names': f"{n}/{spell.upper()}", 'paths': f"{base}/Spells/{n}Abilities/{spell}", 'name': spell.lower()}[lay.spells]), S('Other')], 'string')))
        if c.get('traits') is not None:
            refs = [path_of('Traits', t) for t in c['traits']]
            if lay.linked == 'link':
                fields.append(('mLinkedTraits', links(refs)))
            else:
                fields.append(('mLinkedTraits', V('list', [V('embedded', [('amount', I(1)), ('TraitData', V('link', r))], 'TftLinkedTrait') for r in refs], 'embedded')))
        if lay.cost == 'tier':
            fields.append(('tier', V('u8', c.get('tier', 1))))
        if c.get('role') is not None:
            fields.append(('CharacterRole', V('link', path_of('Roles', c['role']))))
        st = c.get('stats', {})

        def stat(key, new, old, cls='ModifiableFloat'):
            if key in st:
                fields.append((new, V('embedded', [('BaseValue', F(st[key]))], cls)) if lay.stats == 'new' else (old, F(st[key])))
        stat('hp', 'baseHPModifiable', 'baseHP')
        stat('damage', 'baseDamageModifiable', 'BaseDamage')
        stat('armor', 'baseArmorModifiable', 'baseArmor')
        stat('magicResist', 'baseMR', 'baseSpellBlock')
        stat('attackSpeed', 'attackSpeedModifiable', 'attackSpeed')
        if 'range' in st:
            fields.append(('attackRangeModifiable', V('embedded', [('BaseValue', F(st['range'] * 180.0 + 20))], 'ModifiableFloat')) if lay.stats == 'new' else ('attackRange', F(st['range'] * 180.0 + 20)))
        if 'mana' in st:
            fields.append(('primaryAbilityResource', V('embedded', [(0x726ee5cd, V('embedded', [('BaseValue', F(st['mana']))], 'ModifiableFloat'))] if lay.stats == 'new' else [('arBase', F(st['mana']))], 'AbilityResourceSlotInfo')))
        for key, field in (('initialMana', 'mInitialMana'), ('critMultiplier', 'critDamageMultiplier'), ('critChance', 'baseCritChance')):
            if key in st:
                fields.append((field, F(st[key])))
        entries = [(f"{base}/Record", 'TFTCharacterRecord', fields)]

        def spell_entry(name, values, tra):
            f = [('Other', I(1))]
            if values is not None:
                a, b, t = ('DataValues', 'values', 'name') if lay.spelldata == 'new' else ('mDataValues', 'mValues', 'mName')
                f.append((a, V('list', [V('embedded', [(t, S(k)), (b, V('list', [F(x) for x in xs], 'float'))], 'SpellDataValue') for k, xs in values], 'embedded')))
            if tra:
                keys = V('map', [(S('keyName'), S(tra[0])), (S('keyTooltip'), S(tra[1]))], 'string', 'string')
                f.append(('mClientData', V('struct', [('mTooltipData', V('struct', [('mLocKeys', keys)], 'TooltipData'))], 'SpellClientData')))
            return (f"{base}/Spells/{name}", 'SpellObject', [('mScriptName', S(name)), ('mSpell', V('struct', f, 'SpellDataResource'))])
        entries.append(spell_entry('Other', [('Wrong', [9.0])], ('wrong_name', 'wrong_desc')))
        if c.get('hasspell', True):
            entries.append(spell_entry(spell, c.get('variables'), (c['spelltra'], c['spelldesc'])))
        entries.append((f"{base}/Skins", 'SkinData', [('mScriptName', S(spell))]))
        if c.get('reverse'):
            entries.reverse()
        return enc.binfile(entries, game=g)

    def write(self, base, lay, order=None, files=True):
        entries = self.entries(lay)
        if order is not None:
            entries = order(entries)
        os.makedirs(f"{base}/data/maps/shipping/map22", exist_ok=True)
        with open(f"{base}/data/maps/shipping/map22/map22.bin", 'wb') as f:
            f.write(enc.binfile(entries, game=lay.game))
        for n, c in self.champs.items() if files else ():
            if not c.get('file', True):
                continue
            low = c.get('name', n).lower()
            path = f"{base}/characters/{low}.cdtb.bin" if lay.file == 'characters' else f"{base}/data/characters/{low}/{low}.bin"
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as f:
                f.write(self.champion_bin(lay, n, c))
        return entries

    # ------------------------------------------------------------ expected JSON

    def known_traits(self):
        return {n: t for n, t in self.traits.items() if 'Template' not in t.get('name', n)}

    def trait_json(self, lay, n):
        t = self.traits[n]
        base = dict(effects_json(t.get('base', ())))
        return {
            'apiName': t.get('name', n), 'name': t['tra'], 'desc': t['desc'], 'icon': icon(lay, f"ASSETS/{n}.tex")[1],
            'effects': [{'minUnits': mn, 'maxUnits': mx or 25000, 'style': 1 if st is None else st, 'variables': {**base, **effects_json(eff)}} for mn, mx, st, eff in t.get('sets', ())],
        }

    def champ_json(self, lay, n):
        c = self.champs[n]
        known = self.known_traits()
        st = c.get('stats', {})
        rarity = c.get('rarity', 0) + 1
        return {
            'apiName': c.get('name', n), 'characterName': c.get('name', n), 'name': c['tra'],
            'cost': c.get('tier', 1) if lay.cost == 'tier' else rarity + rarity // 6,
            'icon': icon(lay, f"ASSETS/{n}_splash.tex")[1], 'tileIcon': icon(lay, f"ASSETS/{n}_tile.tex")[1], 'squareIcon': icon(lay, f"ASSETS/{n}_square.tex")[1],
            'traits': [known[t]['tra'] for t in c.get('traits') or () if t in known],
            'role': self.roles.get(c.get('role')),
            'stats': {'hp': st.get('hp'), 'mana': st.get('mana', 100), 'initialMana': st.get('initialMana', 0), 'damage': st.get('damage'), 'armor': st.get('armor'), 'magicResist': st.get('magicResist'),
                      'critMultiplier': st.get('critMultiplier'), 'critChance': st.get('critChance'), 'attackSpeed': st.get('attackSpeed'), 'range': st.get('range', 0)},
            'ability': {'name': c['spelltra'] if lay.names == 'tra' or c.get('hasspell', True) else None, 'desc': c['spelldesc'] if lay.names == 'tra' or c.get('hasspell', True) else None,
                        'icon': icon(lay, f"ASSETS/{n}_ability.tex")[1],
                        'variables': [{'name': k, 'value': xs} for k, xs in c.get('variables') or ()] if c.get('hasspell', True) else []},
        }

    def item_known(self, n):
        t = self.items.get(n)
        return t is not None and 'Template' not in t.get('name', n) and t.get('name', n) != 'TFT_Item_Null'

    def item_json(self, lay, n):
        t = self.items[n]
        api = lambda x: self.items[x].get('name', x)
        comp = [x for x in t.get('composition', ()) if self.item_known(x)]
        trait = lambda xs: [self.traits[x].get('name', x) for x in xs or () if x in self.traits]
        return {
            'id': t['id'] if lay.item == 'old' else None, 'name': t['tra'], 'apiName': t.get('name', n), 'desc': t['desc'], 'icon': icon(lay, f"ASSETS/{n}.tex")[1],
            'isAugment': bool(t.get('augment')), 'unique': bool(t.get('unique')), 'composition': [api(x) for x in comp],
            'from': [self.items[x]['id'] for x in comp] if lay.item == 'old' else None,
            'associatedTraits': trait(t.get('assoc')), 'incompatibleTraits': trait(t.get('incompat')),
            'effects': effects_json(t.get('effects', ())), 'tags': [effect_name(x) for x in t.get('tags', ())],
        }

    def champs_of(self, lists):
        """Champions of character lists (not deduplicated)"""
        out = []
        for cl in lists:
            for ch in self.charlists.get(cl) or ():
                internal = self.characters.get(ch)
                for n, c in self.champs.items():
                    if internal is not None and c.get('name', n).lower() == internal.lower() and c.get('shop', True) and c.get('file', True) and c.get('name', n).lower() != 'tft_template':
                        out.append(n)
        return out

    def expected(self, lay):
        known = self.known_traits()
        sets = []
        if lay.old:
            chars = max(self.charlists, key=lambda k: len(self.charlists[k] or ()))
            traits = max(self.traitlists, key=lambda k: len(self.traitlists[k] or ()))
            rows = [dict(number=1, mutator=None, name='Base', chars=[chars], traits=[traits], items=[])]
        else:
            rows = [s for s in self.sets if s.get('chars') and s.get('traits') is not None and s.get('number') is not None and s.get('name') is not None and s.get('script', True)]
        for s in rows:
            items = {x for il in s.get('items') or () for x in self.itemlists.get(il) or () if x in self.items}
            name = lambda x: self.items[x].get('name', x)
            sets.append({
                'number': s['number'], 'mutator': s['mutator'], 'name': s['name'],
                'traits': [self.trait_json(lay, t) for t in sorted({t for tl in s['traits'] for t in self.traitlists.get(tl) or () if t in known})],
                'champions': [self.champ_json(lay, n) for n in self.champs_of(s['chars'])],
                'augments': sorted(name(x) for x in items if self.items[x].get('augment')),
                'items': sorted(name(x) for x in items if not self.items[x].get('augment')),
            })
        return {'setData': sets, 'items': [self.item_json(lay, n) for n in self.items if self.item_known(n)]}


def normalized(data, lay_old=False):
    """JSON data as comparable values: lists whose order is not specified are sorted"""
    def key(x):
        return repr(sorted(x.items(), key=lambda p: p[0])) if isinstance(x, dict) else repr(x)

    def sets(s):
        s = dict(s)
        for k in ('traits', 'champions'):
            s[k] = sorted(s[k], key=lambda x: (x['apiName'], key(x)))
        for k in ('augments', 'items'):
            if k in s:
                s[k] = sorted(s[k])
        return s
    out = {'setData': sorted((sets(s) for s in data['setData']), key=lambda s: (repr(s['number']), repr(s['mutator']), s['name'])),
           'items': sorted(data['items'], key=lambda x: (repr(x['apiName']), key(x)))}
    if 'sets' in data:
        out['sets'] = {str(k): sets(s) for k, s in data['sets'].items()}
    return out


def translated(data, table):
    """Expected JSON after translation by a table {key: text}, case-insensitive on keys"""
    def tr(v):
        return table.get(v.lower(), v) if isinstance(v, str) else v

    def entry(e, keys=('name', 'desc')):
        e = dict(e)
        for k in keys:
            if k in e:
                e[k] = tr(e[k])
        return e

    def sets(s):
        s = dict(s)
        s['traits'] = [entry(t) for t in s['traits']]
        s['champions'] = [dict(entry(c), traits=[tr(t) for t in c['traits']], ability=entry(c['ability'])) for c in s['champions']]
        return s
    return dict(data, setData=[sets(s) for s in data['setData']], items=[entry(i) for i in data['items']])


# ---------------------------------------------------------------- Arena

class Arena:
    """augments: {name: dict(id, tra, desc, tooltip, spell, rarity, enabled)}; spells: {name: dict(values=[(name, [floats])], calcs=..., mspell)}"""

    def __init__(self, augments, spells, old=False):
        self.augments, self.spells, self.old = augments, spells, old

    def entries(self):
        out = []
        for n, a in self.augments.items():
            fields = [('AugmentPlatformId', I(a['id'])), ('AugmentNameId', S(n)), ('NameTra', S(a['tra'])), ('DescriptionTra', S(a['desc'])), ('AugmentTooltipTra', S(a['tooltip'])),
                      ('AugmentSmallIconPath', S(f"ASSETS/{n}_Small.tex")), ('AugmentLargeIconPath', S(f"ASSETS/{n}_Large.DDS"))]
            if a.get('spell') is not None:
                fields.append(('RootSpell', V('link', a['spell'] if a['spell'] == 0 else path_of('Spells', a['spell']))))
            if a.get('rarity') is not None:
                fields.append(('rarity', V('u8', a['rarity'])))
            if a.get('enabled') is not None:
                fields.append(('enabled', V('bool', a['enabled'])))
            out.append((path_of('Augments', n), 'AugmentData', fields))
        for n, s in self.spells.items():
            body = []
            a, b, t = ('mDataValues', 'mValues', 'mName') if self.old else ('DataValues', 'values', 'name')
            if s.get('values') is not None:
                body.append((a, V('list', [V('embedded', [(t, S(k)), (b, V('list', [F(x) for x in xs], 'float'))] if xs is not None else [(t, S(k))], 'SpellDataValue') for k, xs in s['values']], 'embedded')))
            if s.get('calcs'):
                body.append(('mSpellCalculations', V('map', [(V('hash', k), V('struct', [('mValue', F(x))], 'GameCalculation')) for k, x in s['calcs']], 'hash', 'struct')))
            out.append((path_of('Spells', n), 'SpellObject', [('mScriptName', S(n))] + ([('mSpell', V('struct', body, 'SpellDataResource'))] if s.get('mspell', True) else [])))
        return out

    def write(self, base, order=None):
        entries = self.entries()
        if order is not None:
            entries = order(entries)
        os.makedirs(f"{base}/data/maps/shipping/map30", exist_ok=True)
        with open(f"{base}/data/maps/shipping/map30/map30.bin", 'wb') as f:
            f.write(enc.binfile(entries))

    def expected(self):
        out = []
        for n, a in self.augments.items():
            if a.get('enabled') is False:
                continue
            s = self.spells.get(a.get('spell')) or {}
            if not s.get('mspell', True):
                s = {}
            out.append({
                'id': a['id'], 'apiName': n, 'name': a['tra'], 'desc': a['desc'], 'tooltip': a['tooltip'], 'iconSmall': f"assets/{n.lower()}_small.png", 'iconLarge': f"assets/{n.lower()}_large.png", 'rarity': a.get('rarity') or 0,
                'dataValues': {k: xs or [0] for k, xs in s.get('values') or ()},
                'calculations': {effect_name(k): {'__type': effect_name('GameCalculation'), effect_name('mValue'): x} for k, x in s.get('calcs') or ()},
            })
        return out


def arena_normalized(augments, first_only=True):
    """Values of a spell are given either as a list or by the first one"""
    out = []
    for a in augments:
        a = dict(a)
        a['dataValues'] = {k: [v[0]] if isinstance(v, list) and v else [v] for k, v in a['dataValues'].items()}
        out.append(a)
    return sorted(out, key=lambda a: a['apiName'])


def arena_translated(augments, table):
    return [dict(a, **{k: table.get(a[k].lower(), a[k]) for k in ('name', 'desc', 'tooltip')}) for a in augments]


# ---------------------------------------------------------------- string tables

FORMATS = ['game', 'main', 'old', 'txt']   # from the newest


def table_path(base, fmt, lang, game):
    return {'game': f"{base}/{lang}/data/menu/en_us/{game}.stringtable", 'main': f"{base}/{lang}/data/menu/en_us/main.stringtable",
            'old': f"{base}/data/menu/main_{lang}.stringtable", 'txt': f"{base}/data/menu/fontconfig_{lang}.txt"}[fmt]


def write_table(base, fmt, lang, game, table, version=5, patch=1502, eol='\n', last=True, text_first=False):
    """table: {key: text}"""
    path = table_path(base, fmt, lang, game)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if fmt == 'txt':
        lines = [f'tr "{k}" = "{v}"' for k, v in table.items()]
        if not text_first:
            lines.insert(0, '[FontConfig "Test"]')
        data = eol.join(lines) + (eol if last else '')
        with open(path, 'wb') as f:
            f.write(data.encode())
        return
    bits = enc.rst_bits(version, patch)
    with open(path, 'wb') as f:
        f.write(enc.rst(version, [(enc.rst_hash(k, bits, patch), v.encode()) for k, v in table.items()], patch))
