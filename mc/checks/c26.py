"""Export rules: selection, placement and names, over the whole rule alphabet"""
import itertools
import os
import re

from .. import fsx, patches
from ..enc import wad_hash
from ..patches import Wad, Store, element, sample, outputs, RawExporter

ID = 'C26'
LEVEL = 'exploration'
RULE = 'distinct (archive, file, patch) combinations; non-trivial when the file is exported or excluded by a rule'
BOUNDS = {'quick': 'all (archive name, path, extension, known or unknown) x 11 patches around the thresholds, one file per export and all together (all pairs at 14.4); all pairs of archives with a sixth of the files each, and all archives together, at 4 patches; plain files',
          'thorough': 'as quick with all pairs of files of an archive, and all patches for the pairs of archives'}
ASSUMPTIONS = ['export paths are lowercase, as storages give them']

VERSIONS = ('8.1', '9.22', '10.1', '13.24', '14.1', '14.3', '14.4', '14.5', '14.10', '15.1', 'main')
GAME_WADS = ['data/final/champions/aatrox.wad.client', 'data/final/champions/aatrox.en_us.wad.client', 'data/final/maps/map11.zh_cn.wad.client',
             'data/final/ui.wad.client', 'data/final/en_us.wad.client', 'data/final/a.en_us.b.wad.client', 'game/x/localized.ja_jp.wad.client', 'data/en_us/x.wad.client', 'ui.fr_fr.wad.client']
LCU_WADS = ['plugins/rcp-be-lol-game-data/assets.wad', 'plugins/rcp-fe-x/default-assets.wad', 'plugins/rcp-fe-x/fr_fr-assets2.wad', 'plugins/rcp-fe-x/assets12.wad',
            'plugins/rcp-fe-x/sub/assets.wad', 'plugins/other/assets.wad', 'plugins/rcp-fe-x/data.wad', 'rcp-a/assets.wad', 'x/plugins/rcp-fe-x/assets.wad']
# path in a game archive -> sample
GAME_FILES = {
    'assets/a.dds': 'dds', 'assets/b.tga': 'tga', 'assets/c.tex': 'tex', 'assets/d.png': 'png', 'assets/e.jpg': 'jpg', 'assets/f.skn': 'skn', 'assets/g.skl': 'skl',
    'assets/h.anm': 'anm', 'assets/i.ttf': 'ttf', 'assets/j.otf': 'otf', 'assets/k.json': 'json', 'assets/l.txt': 'txt', 'data/menu/fontconfig_en_us.txt': 'rst',
    'data/menu/en_us/lol.stringtable': 'stringtable', 'assets/m.stringtable': 'txt', 'data/n.bin': 'bin', 'data/characters/x/skins/skin0.bin': 'bin',
    'data/x_skins_1.bin': 'bin', 'data/x_skins_skin1_skins_skin2.bin': 'bin', 'data/skins_1.bin': 'bin', 'assets/_skins_a.dds': 'dds', 'assets/x_skins_1.json': 'json', 'data/o.lua': 'lua', 'data/p.luabin64': 'luabin64',
    'assets/q.bnk': 'bnk', 'assets/r.wpk': 'wpk', 'assets/s.webm': 'webm', 'assets/t.ogg': 'ogg', 'assets/u.scb': 'scb', 'assets/v.mapgeo': 'mapgeo',
    'assets/items/icons2d/autoatlas/small/atlas_info.bin': 'atlas', 'assets/items/icons2d/autoatlas/large/de/atlas_info.bin': 'atlas', 'noext': 'atlas', 'assets/extless': 'atlas', 'assets/extless2': 'dds', 'assets/extless3': 'bin',
    'global/champions/championskins.info': 'championskins', 'global/champions/other.info': 'info', 'w.exe': 'exe', 'assets/x.dll': 'dll', 'assets/x.exe.txt': 'txt',
    'assets/y.txt.bak': 'bak', 'assets/lib.so': 'so', 'assets/program': 'atlas', 'assets/dll': 'atlas', 'data.d/menu/x.txt': 'txt',
    'data/aa.bin.txt': 'txt', 'assets/bb.dds.txt': 'txt', 'assets/cc.tex.json': 'json', 'data/menu/dd.txt.json': 'json', 'assets/ee.skn.json': 'json', 'global/champions/championskins.info.json': 'json', 'assets/ff.cdtb.json': 'json', 'assets/gg.tga.ttf': 'ttf',
}
LCU_FILES = {
    'plugins/rcp-fe-x/global/default/a.js': 'js', 'plugins/rcp-fe-x/global/default/b.dds': 'dds', 'plugins/rcp-fe-x/global/default/c.json': 'json', 'plugins/rcp-fe-x/global/default/d': 'json',
    'plugins/rcp-fe-x/global/default/e.html': 'html', 'plugins/rcp-fe-x/description.json': 'json', 'plugins/rcp-fe-x/f.exe': 'exe', 'plugins/rcp-fe-x/g.dll': 'dll', 'plugins/rcp-fe-x/g.so': 'so', 'plugins/rcp-fe-x/exe': 'txt', 'plugins/rcp-fe-x/a.exe/b.js': 'js', 'plugins/rcp-fe-x/h.bin': 'txt',
    'plugins/rcp-fe-x/i_skins_.bin': 'txt', 'plugins/rcp-fe-x/j.skn': 'skn', 'plugins/rcp-fe-x/k.tex': 'tex', 'plugins/rcp-fe-x/l.tga': 'tga', 'plugins/rcp-fe-x/m': 'txt', 'plugins/rcp-fe-x/data/menu/n.txt': 'txt', 'plugins/rcp-fe-x/o.webm': 'webm', 'plugins/rcp-fe-x/p.dds.js': 'js', 'plugins/rcp-fe-x/q.skn.json': 'json',
}
UNKNOWN = {0x11: 'dds', 0x12: 'bin', 0x13: 'json', 0x14: 'tex', 0x15: 'png', 0x16: 'ogg', 0x17: 'skn', 0x18: 'ttf', 0x19: 'otf', 0xabcdef0123456789: 'json'}
GUESS = {'dds': 'dds', 'bin': 'bin', 'json': 'json', 'tex': 'tex', 'png': 'png', 'ttf': 'ttf', 'otf': 'otf', 'skn': 'skn'}
PLAIN = ['config.json', 'data/a.txt', 'plugins/rcp-fe-x/description.json', 'description.json', 'a.exe', 'x/b.dll', 'x/b.so', 'x/exe', 'x/a.dll/b.txt', 'x/setup.msi', 'x/y.sys', 'x/c.exe.manifest', 'x/d.dds', 'x/e', 'game/f.txt', 'x/notdescription.json', 'x/wad']
HASHFILES = {**patches.RST_HASHFILES, 'hashes.game.txt': {wad_hash(p): p for p in GAME_FILES}, 'hashes.lcu.txt': {wad_hash(p): p for p in LCU_FILES}}
KEPT = {'.png', '.skn', '.txt', '.stringtable', '.json', '.ttf', '.otf'}


def data_of(kind):
    return sample(kind) if kind != 'ogg' else b'OggS sound'


def named(path, kind):
    """Path with the suffix of files without extension"""
    if os.path.splitext(path)[1]:
        return path
    return path + '.cdtb' + (f".{GUESS[kind]}" if kind in GUESS else '')


def newer(version):
    return version == 'main' or tuple(map(int, version.split('.'))) >= (14, 4)


def game_expect(wad, path, kind, version):
    """Export names of an entry of a game archive"""
    full = named(path, kind) if path else None
    if full is None:
        return None
    if full.endswith(('.exe', '.dll')):
        return []
    sub = 'game'
    m = re.search(r'\.([a-z]{2}_[a-z]{2})\.wad\.client$', wad)
    if m and newer(version):
        sub = f"game/{m.group(1)}"
    full = f"{sub}/{full}"
    names = outputs(full)
    if full.endswith('.bin') and full in names:
        return names if '_skins_' not in full.rsplit('/', 1)[-1] else []
    return names if any(os.path.splitext(n)[1] in KEPT for n in names) else []


def unknown_name(h, kind):
    g = 'ogg' if kind == 'ogg' else GUESS.get(kind)
    return f"{h:016x}" + (f".{g}" if g else '')


def lcu_expect(wad, path, kind):
    full = named(path, kind)
    if full.endswith(('.exe', '.dll')):
        return []
    return outputs(full)


def entry_of(path, h, kind):
    return (path, h, data_of(kind), 'zstd')


def expected_for(wad, item, version):
    path, h, kind = item
    game = wad.endswith('.client')
    if path is None:
        name = unknown_name(h, kind)
        if game:
            return game_expect(wad, f"unknown/{name}", kind, version)
        m = re.match(r'(plugins/rcp-.+)/[^/]*assets\d*\.wad$', wad)
        return outputs(f"{m.group(1)}/unknown/{name}" if m else f"unknown/{name}")
    return game_expect(wad, path, kind, version) if game else lcu_expect(wad, path, kind)


def units(tier):
    u = [{'wad': w, 'version': v} for w in GAME_WADS for v in VERSIONS]
    u += [{'wad': w, 'version': v} for w in LCU_WADS for v in ('9.1', '14.5', 'main')]
    u += [{'plain': True, 'version': v} for v in VERSIONS]
    u += [{'archives': w, 'version': v} for w in GAME_WADS + LCU_WADS for v in (VERSIONS if tier == 'thorough' else ('9.22', '14.3', '14.4', 'main'))]
    return u


def run_export(ctx, desc, elements, exp, contents):
    """exp: {name}, contents: {name: bytes} of copies"""
    with ctx.case(desc), ctx.tmp() as tmp:
        store = Store(f"{tmp}/store")
        out = f"{tmp}/out/x"
        RawExporter(out, patches.patch(elements(store))).process()
        snap = fsx.snapshot(out)
        got = {k for k, v in snap.items() if v[0] != 'd' and not k.startswith('cdragon/')}
        # a model is exported as a directory
        on_disk = set()
        for k in got:
            d = os.path.dirname(k)
            on_disk.add(d if k.endswith('.obj') and d in exp else k)
        ctx.equal(sorted(on_disk), sorted(exp), 'exported files')
        for k, data in contents.items():
            ctx.check(snap[k][1] == data, f"content of {k}")
        lines = snap['cdragon/files.exported.txt'][1].decode().splitlines()
        ctx.equal(lines, sorted(exp), 'list of exported files')
        ctx.nontrivial(desc)
        ctx.outcome(sorted(exp))


def some_items(wad, n, offset):
    items = [(p, None, k) for p, k in (GAME_FILES if wad.endswith('.client') else LCU_FILES).items() if 'autoatlas' not in p]
    return items[n::6] + [(None, h + offset, k) for h, k in list(UNKNOWN.items())[n % 3::3]]


def run_archives(unit, ctx):
    """Patches of several archives, in any order, next to plain files"""
    version, first = unit['version'], unit['archives']
    others = [w for w in GAME_WADS + LCU_WADS if w != first]
    for n, wads in enumerate([[first, w] for w in others] + [[first, *others], [*others, first]]):
        sel = {w: some_items(w, (n + i) % 6, 0x1000 * i) for i, w in enumerate(wads)}
        plain = PLAIN[n % 5::5]
        exp, contents = set(), {}
        for w, items in sel.items():
            for item in items:
                names = expected_for(w, item, version)
                exp.update(names)
                contents.update({x: data_of(item[2]) for x in names if os.path.splitext(x)[1] in ('.txt', '.ttf', '.otf', '.png', '.js') and item[2] not in ('dds', 'tga', 'tex')})
        for p in plain:
            if not p.endswith(('.exe', '.dll', '/description.json')):
                exp.update(outputs(p))

        def elements(store):
            ret = []
            for name in ('game', 'client') if n % 2 else ('client', 'game'):
                in_it = [w for w in wads if w.endswith('.client') == (name == 'game')]
                files = [(p, data_of('dds') if p.endswith('.dds') else b'plain ' + p.encode(), '') for p in plain] if name == 'client' else []
                if in_it or files:
                    ret.append(element(store, name, version, files, [Wad(w, [entry_of(*i) for i in sel[w]]) for w in in_it]))
            return ret
        run_export(ctx, {'archives': wads if len(wads) < 4 else f"all, {wads[0]} first", 'version': version, 'files': n % 6}, elements, exp, contents)


def run(unit, ctx):
    version = unit['version']
    if unit.get('archives'):
        return run_archives(unit, ctx)
    if unit.get('plain'):
        for sel in [[p] for p in PLAIN] + [PLAIN]:
            exp, contents = set(), {}
            for p in sel:
                if p.endswith(('.exe', '.dll', '/description.json')):
                    continue
                for n in outputs(p):
                    exp.add(n)
                    if n == p:
                        contents[n] = data_of('dds') if p.endswith('.dds') else b'plain ' + p.encode()
            for name in ('client', 'game'):
                run_export(ctx, {'plain': sel if len(sel) < 3 else 'all', 'version': version, 'element': name},
                           lambda store: [element(store, name, version, [(p, data_of('dds') if p.endswith('.dds') else b'plain ' + p.encode(), '') for p in sel])], exp, contents)
        return
    wad = unit['wad']
    game = wad.endswith('.client')
    items = [(p, None, k) for p, k in (GAME_FILES if game else LCU_FILES).items()] + [(None, h, k) for h, k in UNKNOWN.items()]
    if game and re.search(r'\.[a-z]{2}_[a-z]{2}\.wad\.client$', wad):
        # atlases are not in language archives
        items = [i for i in items if 'autoatlas' not in (i[0] or '')]
    sels = [[i] for i in items] + [items]
    if ctx.tier == 'thorough':
        sels += [list(c) for c in itertools.combinations(items, 2)]
    elif version == "14.4":
        sels += [list(c) for c in itertools.combinations(items, 2)]
    elif version not in ('14.3', '14.4', '14.10', 'main', '9.1'):
        sels = [items] + [[i] for i in items[::6]]
    for sel in sels:
        exp, contents = set(), {}
        for item in sel:
            names = expected_for(wad, item, version)
            exp.update(names)
            for n in names:
                if os.path.splitext(n)[1] in ('.txt', '.ttf', '.otf', '.png', '.js') and item[2] not in ('dds', 'tga', 'tex'):
                    contents[n] = data_of(item[2])
        desc = {'wad': wad, 'version': version, 'file': sel[0][:2] if len(sel) == 1 else ('all' if len(sel) > 2 else [s[:2] for s in sel])}
        link = ('assets/link.txt', None, b'somewhere', 'link')
        run_export(ctx, desc, lambda store: [element(store, 'game' if game else 'client', version, [], [Wad(wad, [entry_of(*i) for i in sel] + [link])])], exp, contents)
