"""Fake patches for exports: plain files and WADs, in a scratch storage"""
import hashlib
import io
import os

from PIL import Image

from . import enc
from cdtb.export import CdragonRawPatchExporter
from cdtb.storage import Storage, PatchElement, PatchVersion


class Store:
    """Source files, by content (`variant` gives another storage path to the same content)"""

    def __init__(self, root):
        self.root = root
        os.makedirs(root, exist_ok=True)

    def put(self, data, suffix='', variant=''):
        key = hashlib.sha1(data + b'|' + str(variant).encode() + b'|' + suffix.encode()).hexdigest()
        path = f"{self.root}/{key[:20]}/f{suffix}"
        if not os.path.exists(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as f:
                f.write(data)
        return path


class Element(PatchElement):
    def __init__(self, name, version, files):
        super().__init__(name, PatchVersion(version))
        self.files = files   # [(source, export path)]

    def download(self, langs=True):
        pass

    def fspaths(self, langs=True):
        return (s for s, _ in self.files)

    def relpaths(self, langs=True):
        return (d for _, d in self.files)

    def paths(self, langs=True):
        return iter(list(self.files))


class FakeStorage(Storage):
    storage_type = None

    def __init__(self, path, elements=()):
        self.path = path
        self.elements = list(elements)   # from the latest

    def patch_elements(self, stored=False):
        yield from self.elements


class Wad:
    """entries: [(path or None, hash or None, data, kind)] (or enc.WadEntry)"""

    def __init__(self, path, entries, version=(3, 3), variant=''):
        self.path, self.entries, self.version, self.variant = path, entries, version, variant

    def blob(self):
        return enc.wad(self.version, [e if isinstance(e, enc.WadEntry) else enc.WadEntry(enc.wad_hash(p) if h is None else h, d, k) for e in self.entries for p, h, d, k in [(None,) * 4 if isinstance(e, enc.WadEntry) else e]])


def element(store, name, version, plain=(), wads=()):
    """plain: [(path, data, variant)], wads: [Wad]"""
    files = []
    for path, data, variant in plain:
        files.append((store.put(data, os.path.splitext(path)[1], variant), path))
    for w in wads:
        suffix = '.wad.client' if w.path.endswith('.wad.client') else '.wad'
        files.append((store.put(w.blob(), suffix, w.variant), w.path))
    return Element(name, version, files)


def patch(elements):
    """A Patch of a storage having only these elements"""
    return next(FakeStorage('/nonexistent', elements).patches())


class RawExporter(CdragonRawPatchExporter):
    """Without TFT and Arena data, which have their own checks"""

    def export_tft_data(self):
        pass

    def export_arena_data(self):
        pass


_cache = {}

def sample(ext, n=0):
    """A small valid asset of the given extension; `n` selects its content"""
    key = (ext, n)
    if key in _cache:
        return _cache[key]
    if ext in ('dds', 'tga', 'png'):
        im = Image.new('RGBA', (4, 4 + n), (n, 2, 3, 255))
        f = io.BytesIO()
        im.save(f, ext.upper())
        data = f.getvalue()
    elif ext == 'tex':
        data = enc.tex(1, 1 + n, 0x14, False, bytes((n, 1, 2, 255)) * (1 + n))
    elif ext == 'bin':
        data = enc.binfile([('e', 't', [('f', enc.V('u8', n))])])
    elif ext == 'skn':
        v = dict(position=(1.0, 2.0, float(n)), bones=(0, 0, 0, 0), weight=(1.0, 0.0, 0.0, 0.0), normal=(0.0, 0.0, 1.0), uv=(0.0, 1.0), color=(0, 0, 0, 0), tangent=(0.0,) * 4)
        data = enc.skn(2, 1, [('body', 0, 1, 0, 3), (f'part{n}', 0, 1, 0, 0)], [0, 0, 0], [v])
    elif ext in ('stringtable', 'rst'):
        data = enc.rst(3, [(n, b'text%d' % n)], 1000)
    elif ext == 'atlas':
        data = enc.atlas_old(['a.dds'], [('t%d' % n, (0.0, 0.0, 1.0, 1.0), 0)])
    elif ext == 'championskins':
        data = enc.championskins([('Annie', [(n, 0, 'x')])])
    elif ext == 'json':
        data = b'{"n": %d}' % n
    elif ext == 'ttf':
        data = b'\0\x01\0\0font%d' % n
    elif ext == 'otf':
        data = b'OTTO\0font%d' % n
    elif ext == 'txt':
        data = b'text %d' % n
    else:
        data = f"data {ext} {n}".encode()
    _cache[key] = data
    return data


RST_HASHFILES = {'hashes.rst.xxh3.txt': {}, 'hashes.rst.xxh64.txt': {}, 'hashes.binentries.txt': {}, 'hashes.binhashes.txt': {}, 'hashes.binfields.txt': {}, 'hashes.bintypes.txt': {}}


def outputs(path):
    """Names under which a file is exported (reference), and whether each is a copy"""
    import re
    stem, ext = os.path.splitext(path)
    if ext in ('.dds', '.tga') or path.endswith('.tex'):
        return [stem + '.png']
    if re.search(r'game/.*\.cdtb$|game/assets/items/icons2d/autoatlas/.*/atlas_info\.bin$', path):
        return [path + '.json']
    if re.search(r'game/.*\.bin$', path):
        return [path, path + '.json']
    if ext == '.skn':
        return [path, stem]
    if re.search(r'game/(.*/)?data/menu/.*\.(txt|stringtable)$', path):
        return [path, path + '.json']
    if path == 'game/global/champions/championskins.info':
        return [path + '.json']
    return [path]


class NamedStorage(Storage):
    """Storage type "mcfake": the CLI gets the elements given in `content`"""
    storage_type = 'mcfake'
    content = []     # elements, from the latest
    confs = []       # configurations asked for

    def __init__(self, path):
        self.path = path

    @classmethod
    def from_conf_data(cls, conf):
        cls.confs.append(dict(conf))
        return cls(conf['path'])

    def patch_elements(self, stored=False):
        yield from self.content
