"""Textures: size and pixels of the PNG, for every format, size and mipmap option"""
import io
import os
import struct

from PIL import Image

from ..enc import tex
from .. import fsx
from cdtb.export import TexConverter, ImageConverter, FileConversionError

ID = 'C19'
LEVEL = 'exploration'
RULE = 'distinct textures (format, size, mipmaps, pixels); non-trivial when it is converted or refused as expected'
BOUNDS = {'quick': 'all format codes 0..255 x mipmaps; 5 supported formats x mipmaps x all sizes 1..9 x 1..9 and long ones; all wrong headers',
          'thorough': 'as quick with all sizes 1..33 x 1..33'}
ASSUMPTIONS = ['block-compressed pixels are checked with solid blocks, a different one at each position']

FORMATS = {'dxt1': 0x0a, 'dxt5': 0x0c, 'bc7': 0x0d, 'bc5': 0x0e, 'bgra8': 0x14}


def color(level, x, y):
    """A color for a pixel (or block), which is exact in all formats"""
    r = ((x * 5 + y * 3 + level * 7 + 1) % 32)
    g = ((x * 11 + y * 7 + level * 5 + 2) % 64)
    b = ((x * 3 + y * 13 + level * 3 + 3) % 32)
    a = (x * 37 + y * 59 + level * 11) % 256
    return r, g, b, a


def rgb888(c):
    r, g, b, a = c
    return (r << 3 | r >> 2, g << 2 | g >> 4, b << 3 | b >> 2, a)


def block(fmt, c):
    r, g, b, a = c
    c565 = r << 11 | g << 5 | b
    if fmt == 'dxt1':
        return struct.pack('<HHL', c565, c565 - 1 if c565 else 0, 0)   # index 0: first color (opaque mode when greater)
    if fmt == 'dxt5':
        return struct.pack('<BB6sHHL', a, 0, b'\0' * 6, c565, c565, 0)
    R, G, B, A = rgb888(c)
    if fmt == 'bc5':
        return struct.pack('<BB6sBB6s', R, 0, b'\0' * 6, G, 0, b'\0' * 6)
    # bc7, mode 6: 7 bits per channel and a shared lowest bit
    p = A & 1
    bits, pos = 1 << 6, 7
    for v in (R, G, B, A):
        for _ in range(2):
            bits |= (v >> 1) << pos
            pos += 7
    bits |= p << pos | p << (pos + 1)
    return bits.to_bytes(16, 'little')


def shown(fmt, c):
    R, G, B, A = rgb888(c)
    if fmt == 'dxt1':
        return (R, G, B, 255)
    if fmt == 'dxt5':
        return (R, G, B, A)
    if fmt == 'bc5':
        return ((R + 128) % 256, (G + 128) % 256, None, 255)   # signed channels
    if fmt == 'bc7':
        p = A & 1
        return tuple((v & ~1) | p for v in (R, G, B, A))
    return (R, G, B, A)


def pixels(fmt, w, h, level):
    if fmt == 'bgra8':
        out = bytearray()
        for y in range(h):
            for x in range(w):
                R, G, B, A = rgb888(color(level, x, y))
                out += bytes((B, G, R, A))
        return bytes(out)
    return b''.join(block(fmt, color(level, x, y)) for y in range((h + 3) // 4) for x in range((w + 3) // 4))


def image(fmt, w, h, mipmaps):
    levels = []
    if not mipmaps:
        return pixels(fmt, w, h, 0)
    n = max(w, h)
    level = 0
    while n:
        levels.append(pixels(fmt, max(1, w >> level), max(1, h >> level), level))
        level += 1
        n >>= 1
    return b''.join(reversed(levels))   # from the smallest to the largest


def check_png(ctx, png, fmt, w, h):
    ctx.check(png[:8] == b'\x89PNG\r\n\x1a\n', 'not a PNG file')
    im = Image.open(io.BytesIO(png))
    ctx.equal(im.size, (w, h), 'size')
    px = im.convert('RGBA').load()
    for y in range(h):
        for x in range(w):
            c = color(0, x, y) if fmt == 'bgra8' else color(0, x // 4, y // 4)
            exp = shown(fmt, c)
            got = px[x, y]
            if any(e is not None and e != v for e, v in zip(exp, got)):
                ctx.fail(f"pixel ({x}, {y}) is {got}, expected {exp}")


def files(root):
    return {k: v for k, v in fsx.snapshot(root).items() if v[0] != 'd'}


def units(tier):
    m = 33 if tier == 'thorough' else 9
    u = [{'part': 'size', 'fmt': f, 'w': [w for w in range(1, m + 1) if w % 3 == k]} for f in FORMATS for k in range(3)]
    u += [{'part': 'long', 'fmt': f} for f in FORMATS]
    u += [{'part': 'formats'}, {'part': 'headers'}, {'part': 'dds'}]
    return u


def convert(ctx, tmp, data, path='game/a.b/x.tex', conv=None):
    out = f"{tmp}/out"
    conv = conv or TexConverter()
    ctx.check(conv.is_handled(path), 'texture not handled')
    names = list(conv.converted_paths(path))
    try:
        conv.convert(io.BytesIO(data), out, path)
    except FileConversionError:
        ok = False
    else:
        ok = True
    got = files(out) if os.path.isdir(out) else {}
    ctx.equal(sorted(got), sorted(names) if ok else [], 'files in the output')
    return got[names[0]][1] if ok else None


def run(unit, ctx):
    part = unit['part']
    if part in ('size', 'long'):
        fmt = unit['fmt']
        m = 33 if ctx.tier == 'thorough' else 9
        if part == 'size':
            sizes = [(w, h) for w in unit['w'] for h in range(1, m + 1)]
        else:
            sizes = [(256, 1), (1, 256), (300, 2), (3, 257), (64, 64), (128, 32), (12, 100), (511, 5)]
        for w, h in sizes:
            for mipmaps in (False, True):
                with ctx.case({'format': fmt, 'size': (w, h), 'mipmaps': mipmaps}), ctx.tmp() as tmp:
                    data = tex(w, h, FORMATS[fmt], mipmaps, image(fmt, w, h, mipmaps))
                    png = convert(ctx, tmp, data)
                    ctx.check(png is not None, 'not converted')
                    check_png(ctx, png, fmt, w, h)
                    ctx.nontrivial((fmt, w, h, mipmaps))
                    ctx.outcome((w, h))
    elif part == 'formats':
        for code in range(256):
            for mipmaps in (False, True):
                for w, h in ((4, 4), (5, 3)):
                    with ctx.case({'code': code, 'mipmaps': mipmaps, 'size': (w, h)}), ctx.tmp() as tmp:
                        fmt = {v: k for k, v in FORMATS.items()}.get(code)
                        body = image(fmt, w, h, mipmaps) if fmt else image('bgra8', w, h, mipmaps) * 4
                        png = convert(ctx, tmp, tex(w, h, code, mipmaps, body))
                        if fmt:
                            ctx.check(png is not None, 'not converted')
                            check_png(ctx, png, fmt, w, h)
                        elif code == 0x15:
                            # 16-bit floats: depends on the image library
                            ctx.check(png is None or Image.open(io.BytesIO(png)).size == (w, h), 'size')
                        else:
                            ctx.check(png is None, 'unsupported format converted')
                        ctx.nontrivial(('code', code, mipmaps, w))
    elif part == 'headers':
        good = tex(4, 4, 0x14, False, image('bgra8', 4, 4, False))
        bads = [good[:n] for n in range(12)] + [bytes((good[i] ^ x,)).join((good[:i], good[i + 1:])) for i in range(4) for x in (1, 0x20, 0xff)]
        bads += [b'DDS ' + good[4:], b'TEX ' + good[4:], b'tex\0' + good[4:], b'\0TEX' + good[4:]]
        for bad in bads:
            with ctx.case({'header': repr(bad[:12])}), ctx.tmp() as tmp:
                ctx.check(convert(ctx, tmp, bad) is None, 'wrong header converted')
                ctx.nontrivial(bad)
    elif part == 'dds':
        # images converted by extension
        conv = ImageConverter(('.dds', '.tga'))
        for ext in ('dds', 'tga'):
            for mode in ('RGBA', 'RGB'):
                for w in range(1, 10):
                    for h in range(1, 10):
                        with ctx.case({'image': ext, 'mode': mode, 'size': (w, h)}), ctx.tmp() as tmp:
                            im = Image.new(mode, (w, h))
                            for x in range(w):
                                for y in range(h):
                                    im.putpixel((x, y), rgb888(color(0, x, y))[:len(mode)])
                            f = io.BytesIO()
                            im.save(f, ext.upper())
                            png = convert(ctx, tmp, f.getvalue(), f'assets/x.{ext}', conv)
                            ctx.check(png is not None, 'not converted')
                            ctx.equal(Image.open(io.BytesIO(png)).convert(mode).tobytes(), im.tobytes(), 'pixels')
                            ctx.nontrivial((ext, mode, w, h))
            for bad in (b'', b'DDS ', b'DDS ' + b'\0' * 200, b'hello world, not an image', b'\0' * 5, b'DDS ' + struct.pack('<L', 124) + b'\xff' * 120):
                with ctx.case({'image': ext, 'bad': repr(bad[:8])}), ctx.tmp() as tmp:
                    ctx.check(convert(ctx, tmp, bad, f'assets/x.{ext}', conv) is None, 'wrong image converted')
                    ctx.nontrivial((ext, bad))
