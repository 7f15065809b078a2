"""Families of small patches: every state of a family is a patch, described by the value of each slot"""
import itertools
import json

from . import patches
from .enc import wad_hash
from .patches import Wad, element, sample

HASHED_GAME = ['assets/d/i.dds', 'assets/d/bad.tga', 'data/sub.bin', 'assets/d/j.txt', 'assets/e/k.txt', 'data/b.bin', 'assets/m.skn', 'assets/s/t.skn', 'assets/s/u.tex', 'data/menu/en_us/lol.stringtable',
               'assets/x.txt', 'assets/y.txt', 'assets/z/w.txt', 'assets/extless']
HASHED_LCU = ['assets/x.txt', 'assets/y.txt', 'plugins/rcp-fe-x/global/default/a.js', 'plugins/rcp-fe-x/global/default/sub/b.json', 'plugins/rcp-fe-x/description.json', 'plugins/rcp-fe-x/noext']
HASHFILES = {**patches.RST_HASHFILES, 'hashes.game.txt': {wad_hash(p): p for p in HASHED_GAME}, 'hashes.lcu.txt': {wad_hash(p): p for p in HASHED_LCU}}
UNKNOWN = 0x0123456789abcdef


def ext_of(path):
    return path.rsplit('.', 1)[-1]


def content(path, n):
    if path == 'assets/extless':
        return sample('atlas', n) if n == 0 else b'not an atlas %d' % n
    return sample('stringtable' if path.endswith('.stringtable') else ext_of(path), n)


class Family:
    """slots: [(name, values)]; None stands for an absent file"""
    version = '14.6'
    prev_version = '14.5'
    groups = None   # slots which make some files by themselves: the files are the same when these slots are
    checksums = True

    def states(self):
        return list(itertools.product(*[v for _, v in self.slots]))

    def alone(self, state, group):
        """The state with the files of a group only"""
        return tuple(v if n in group else self.slots[n][1][0] for n, v in enumerate(state))

    def unchanged(self, prev, state):
        """Groups which are the same"""
        if not self.checksums and prev != state:
            return []
        return [g for g in self.groups or [(n,) for n, (_, vs) in enumerate(self.slots) if vs[0] is None] if all(prev[n] == state[n] for n in g)]

    def describe(self, state):
        return {n: v for (n, _), v in zip(self.slots, state) if v is not None}

    def build(self, store, state, version):
        """Elements of the patch"""
        raise NotImplementedError

    def files(self, state, version):
        """{(wad or None, source path): (name in the export before conversion, content)}, without what is not exported"""
        raise NotImplementedError


def absent_or(*values):
    return (None,) + values


class WadFamily(Family):
    """A WAD, its entries present or not with any content, and its storage path"""

    def __init__(self, wad, paths, wad_version=(3, 3), variants=(0,), contents=(0, 1), unknown=()):
        self.wad, self.wad_version = wad, wad_version
        self.paths = list(paths)
        self.slots = [(p, absent_or(*contents)) for p in paths] + [(h, absent_or(*contents)) for h in unknown]
        if len(variants) > 1:
            self.slots.append(('storage', variants))
        self.keys = list(paths) + list(unknown)
        self.checksums = wad_version >= (2, 0)

    def build(self, store, state, version):
        entries = []
        for k, v in zip(self.keys, state):
            if v is not None:
                entries.append((k, None, content(k, v), 'zstd') if isinstance(k, str) else (None, k, content('.json', v), 'raw'))
        variant = state[-1] if len(state) > len(self.keys) else ''
        wads = [Wad(self.wad, entries, self.wad_version, variant)] if entries else []
        return [element(store, 'game' if self.wad.endswith('.client') else 'client', version, [], wads)]


class PlainFamily(Family):
    """Plain files. Content 10 + n is content n at another storage path"""

    def __init__(self, paths, values=(0, 10, 1), element='client'):
        self.paths, self.element = list(paths), element
        self.slots = [(p, absent_or(*values)) for p in paths]

    def build(self, store, state, version):
        plain = [(p, content(p, v % 10), v // 10) for p, v in zip(self.paths, state) if v is not None]
        return [element(store, self.element, version, plain)]


class MixedFamily(Family):
    """An archive of the client next to plain files"""
    WAD = 'plugins/rcp-fe-x/default-assets.wad'
    A, B, D = 'plugins/rcp-fe-x/global/default/a.js', 'plugins/rcp-fe-x/global/default/sub/b.json', 'plugins/rcp-fe-x/description.json'
    slots = [('a.js', (None, 0, 1)), ('sub/b.json', (None, 0, 1)), ('description.json in WAD', (None, 0)), ('description.json plain', (None, 0, 1)),
             ('plain', (None, 0, 1)), ('unknown', (None, 0, 1))]
    groups = [(0,), (1,), (2, 3), (4,), (5,)]

    def build(self, store, state, version):
        a, b, dw, dp, p, u = state
        entries = [(k, None, content(k, v), 'zstd') for k, v in ((self.A, a), (self.B, b), (self.D, dw)) if v is not None]
        if u is not None:
            entries.append((None, UNKNOWN, sample('json', u), 'gzip'))
        plain = [(k, content(k, v), '') for k, v in ((self.D, dp), ('plugins/rcp-fe-x/plain.txt', p)) if v is not None]
        return [element(store, 'client', version, plain, [Wad(self.WAD, entries)] if entries else [])]


class DuplicateFamily(Family):
    """A file in one archive, another one or both, next to other files"""
    W1, W2 = 'data/final/w1.wad.client', 'data/final/w2.wad.client'
    slots = [('x content', (0, 1)), ('x in', ((), (1,), (2,), (1, 2))), ('y', (None, 0, 1)), ('w', (None, 0, 1))]
    groups = [(0, 1), (2,), (3,)]

    def build(self, store, state, version):
        x, where, y, w = state
        e1 = [('assets/y.txt', None, content('assets/y.txt', y), 'raw')] if y is not None else []
        e2 = [('assets/z/w.txt', None, content('assets/z/w.txt', w), 'raw')] if w is not None else []
        for n, e in ((1, e1), (2, e2)):
            if n in where:
                e.insert(0, ('assets/x.txt', None, content('assets/x.txt', x), 'zstd'))
        return [element(store, 'game', version, [], [Wad(p, e) for p, e in ((self.W1, e1), (self.W2, e2)) if e])]


class LanguageFamily(Family):
    """An archive of a language and another one, around the patch which moved language files"""
    slots = [('en_us x', (None, 0, 1)), ('en_us y', (None, 0, 1)), ('base x', (None, 0, 1)), ('storage', (0, 1))]

    def __init__(self, prev_version, version, wad_version=(3, 3)):
        self.prev_version, self.version, self.wad_version = prev_version, version, wad_version
        moved = prev_version in ('13.24', '14.3')
        self.groups = [(2,)] if moved else [(0, 2), (1,)]

    def states(self):
        # before 14.4 language files are at the path of the others: they must not differ
        return [s for s in super().states() if s[0] is None or s[2] is None or s[0] == s[2]]

    def build(self, store, state, version):
        x, y, bx, variant = state
        lang = [(k, None, content(k, v), 'zstd') for k, v in (('assets/x.txt', x), ('assets/y.txt', y)) if v is not None]
        base = [('assets/x.txt', None, content('assets/x.txt', bx), 'zstd')] if bx is not None else []
        wads = [Wad(p, e, self.wad_version, variant) for p, e in (('data/final/c.en_us.wad.client', lang), ('data/final/c.wad.client', base)) if e]
        return [element(store, 'game', version, [], wads)]


class ElementsFamily(Family):
    """Both elements, one of them possibly missing from the patch"""
    slots = [('game', (None, 0, 1)), ('client', (None, 0, 1)), ('plain of both', (None, 0, 1))]
    groups = [(0,), (1,)]

    def states(self):
        return [s for s in super().states() if s != (None, None, None)]

    def build(self, store, state, version):
        g, c, p = state
        elements = []
        if g is not None:
            elements.append(element(store, 'game', version, [('g.txt', b'g%d' % p, '')] if p is not None else [], [Wad('data/final/w1.wad.client', [('assets/x.txt', None, content('.txt', g), 'zstd')])]))
        if c is not None or g is None:
            elements.append(element(store, 'client', version, [('p.txt', b'p%d' % p, '')] if p is not None else [],
                                    [Wad(MixedFamily.WAD, [(MixedFamily.A, None, content(MixedFamily.A, c), 'zstd')])] if c is not None else []))
        return elements


GAME_WAD = 'data/final/champions/a.wad.client'
FAMILIES = {
    'game': lambda: WadFamily(GAME_WAD, ['assets/d/i.dds', 'assets/d/j.txt', 'assets/e/k.txt'], variants=(0, 1)),
    'multi': lambda: WadFamily(GAME_WAD, ['data/b.bin', 'assets/m.skn', 'data/menu/en_us/lol.stringtable']),
    'multi2': lambda: WadFamily(GAME_WAD, ['assets/s/t.skn', 'assets/s/u.tex', 'assets/extless'], unknown=[UNKNOWN]),
    'v1': lambda: WadFamily(GAME_WAD, ['assets/d/i.dds', 'assets/d/j.txt', 'assets/e/k.txt'], (1, 0), variants=(0, 1)),
    'v2': lambda: WadFamily(GAME_WAD, ['assets/d/i.dds', 'assets/d/j.txt', 'assets/e/k.txt'], (2, 0)),
    'plain': lambda: PlainFamily(['a.txt', 'd/b.txt', 'd/e/c.dds']),
    'plaingame': lambda: PlainFamily(['d/e/c.txt', 'd/e/f/h.txt', 'd/g.txt', 'i.txt'], (0, 1), 'game'),
    'mixed': MixedFamily,
    'duplicate': DuplicateFamily,
    'lang0': lambda: LanguageFamily('14.2', '14.3'),
    'lang1': lambda: LanguageFamily('14.3', '14.4'),
    'lang2': lambda: LanguageFamily('14.4', '14.5'),
    'lang3': lambda: LanguageFamily('14.23', 'main'),
    'lang4': lambda: LanguageFamily('13.24', '14.4', (3, 0)),
    'elements': ElementsFamily,
}
