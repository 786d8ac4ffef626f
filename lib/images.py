"""What the library has to make of a picture file, worked out with independent decoders (Pillow)."""
import io, os, struct, zlib
from PIL import Image, ImageFile
ImageFile.MAXBLOCK = 1 << 21

TD = os.path.join(os.environ.get('CAPY_REPO', '/repo'), 'testdata', 'images')
# pictures of the test data; the channel model is only needed to pick suitable ones
KNOWN = {'1bit_alpha.png': 'GRAY', '1bit_noalpha.png': 'GRAY', 'capylogo_web.png': 'RGB', 'cmyk_tiff.tif': 'CMYK', 'comic-colors.png': 'RGB',
         'comic-lines.png': 'GRAY', 'comic-richblack.png': 'GRAY', 'flame_gradient.png': 'RGB', 'gray_alpha.png': 'GRAY',
         'object_gradient.png': 'RGB', 'rgb_tiff.tif': 'RGB', 'simple.jpg': 'RGB'}
_cache = {}


def pack(rows, w):
    """rows of 0/1 values -> packed bytes, padding bits 1"""
    out = bytearray()
    for r in rows:
        bits = list(r) + [1] * (-w % 8)
        for i in range(0, len(bits), 8):
            v = 0
            for b in bits[i:i + 8]:
                v = v * 2 + b
            out.append(v)
    return bytes(out)


def shifted(rows, w):
    """The known wrong output for 1 bit pictures without transparency: pixels move left by one."""
    out = bytearray()
    for r in rows:
        cur, n = 0, 0
        for i, b in enumerate(r):
            cur = (cur << 1 | (1 - b)) & 0xff
            if i % 8 == 0 and i > 0:
                out.append(~cur & 0xff)
                cur = 0
        out.append(~(cur << (-w % 8)) & 0xff)
    return bytes(out)


def decode(data):
    """-> dict w h cs depth pixels alpha alpha_depth icc jpg [alt], or None when there is nothing to compare with"""
    im = Image.open(io.BytesIO(data))
    w, h = im.size
    icc = im.info.get('icc_profile') or None
    base = dict(w=w, h=h, alpha=None, alpha_depth=None, icc=icc, jpg=None, depth=8)
    if im.format == 'JPEG':
        base['cs'] = {'RGB': 'RGB', 'L': 'GRAY', 'CMYK': 'CMYK'}[im.mode]
        return dict(base, pixels=None, jpg=data)
    if im.format == 'TIFF':
        base['icc'] = icc
    if im.mode == 'P':
        idx = im.tobytes()
        pal = im.palette.tobytes()
        ents = [tuple(pal[3 * i:3 * i + 3]) for i in range(len(pal) // 3)]
        tr = im.info.get('transparency')
        white = [1 if e == (255, 255, 255) else 0 for e in ents]
        rows = [[white[v] for v in idx[y * w:y * w + w]] for y in range(h)]
        base.update(cs='GRAY', depth=1, icc=None)
        if tr is None:
            r = dict(base, pixels=pack(rows, w))
            if w > 8 or w == 8:
                r['alt'] = ('png-mono-shift', shifted(rows, w))
            return r
        trans = {i for i in range(256) if (i < len(tr) and tr[i] == 0)} if isinstance(tr, bytes) else {tr}
        arows = [[0 if v in trans else 1 for v in idx[y * w:y * w + w]] for y in range(h)]
        return dict(base, pixels=pack(rows, w), alpha=pack(arows, w), alpha_depth=1, care=arows)
    if im.mode in ('RGBA', 'LA'):
        b = im.tobytes()
        n = 4 if im.mode == 'RGBA' else 2
        pix = bytearray(w * h * (n - 1))
        for c in range(n - 1):
            pix[c::n - 1] = b[c::n]
        return dict(base, cs='RGB' if n == 4 else 'GRAY', pixels=bytes(pix), alpha=b[n - 1::n], alpha_depth=8)
    if im.mode == '1':
        return dict(base, cs='GRAY', pixels=im.convert('L').tobytes())
    if im.mode in ('L', 'RGB', 'CMYK'):
        return dict(base, cs={'L': 'GRAY'}.get(im.mode, im.mode), pixels=im.tobytes())
    return None


def known(name):
    if name not in _cache:
        _cache[name] = decode(open(os.path.join(TD, name), 'rb').read())
    return _cache[name]


def _chunk(t, d):
    return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))


def _bits(vals, depth):
    """samples of one row -> bytes, padded with zeros"""
    if depth == 8:
        return bytes(vals)
    out, n = bytearray(), 8 // depth
    for i in range(0, len(vals), n):
        v = 0
        for k in range(n):
            v = v << depth | (vals[i + k] if i + k < len(vals) else 0)
        out.append(v)
    return bytes(out)


ADAM7 = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]


def png(rng, w, h, ctype, depth, rows, icc=None, palette=None, trns=None):
    """rows: h lists of w * channels samples"""
    nch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ctype]
    lace = rng.random() < 0.3
    raw = bytearray()
    bpp = max(1, nch * depth // 8)
    for x0, y0, dx, dy in ADAM7 if lace else [(0, 0, 1, 1)]:
        cols = range(x0, w, dx)
        if not len(cols):
            continue
        prev = bytes((len(cols) * nch * depth + 7) // 8)
        for y in range(y0, h, dy):
            row = _bits([v for x in cols for v in rows[y][x * nch:x * nch + nch]], depth)
            f = rng.choice([0, 0, 1, 2])
            raw.append(f)
            if f == 1:
                raw += bytes((b - (row[i - bpp] if i >= bpp else 0)) & 255 for i, b in enumerate(row))
            elif f == 2:
                raw += bytes((b - p) & 255 for b, p in zip(row, prev))
            else:
                raw += row
            prev = row
    z = zlib.compress(bytes(raw), rng.randint(0, 9))
    out = b'\x89PNG\r\n\x1a\n' + _chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, depth, ctype, 0, 0, int(lace)))
    if icc:
        out += _chunk(b'iCCP', b'p\0\0' + zlib.compress(icc))
    if rng.random() < 0.3:
        out += _chunk(b'pHYs', struct.pack('>IIB', rng.randint(1, 9999), rng.randint(1, 9999), 1))
    if palette is not None:
        out += _chunk(b'PLTE', b''.join(bytes(c) for c in palette))
    if trns is not None:
        out += _chunk(b'tRNS', bytes(trns))
    cut = rng.randint(0, len(z)) if rng.random() < 0.4 else len(z)
    out += _chunk(b'IDAT', z[:cut]) + (_chunk(b'IDAT', z[cut:]) if cut < len(z) else b'')
    if rng.random() < 0.2:
        out += _chunk(b'tEXt', b'Comment\0xx')
    return out + _chunk(b'IEND', b'')


def tiff(rng, w, h, photometric, nch, nextra, data, icc=None):
    """8 bit contiguous samples; either byte order, some strips, three compressions"""
    e = rng.choice('<>')
    comp = rng.choice([1, 1, 8, 32946])
    rps = rng.choice([h, h, rng.randint(1, h)])
    strips = [data[y * w * nch:min(h, y + rps) * w * nch] for y in range(0, h, rps)]
    pred = comp != 1 and rng.random() < 0.3
    if pred:
        def diff(s):
            o = bytearray()
            for y in range(0, len(s), w * nch):
                r = s[y:y + w * nch]
                o += bytes((b - (r[i - nch] if i >= nch else 0)) & 255 for i, b in enumerate(r))
            return bytes(o)
        strips = [diff(s) for s in strips]
    if comp != 1:
        strips = [zlib.compress(s) for s in strips]
    body = bytearray((b'II*\0' if e == '<' else b'MM\0*') + bytes(4))
    tags = {}

    def put(d):
        if len(body) % 2:
            body.append(0)
        o = len(body)
        body.extend(d)
        return o
    offs = [put(s) for s in strips]
    SH, LO, UN = 3, 4, 7
    tags[256] = (LO, [w])
    tags[257] = (LO, [h])
    tags[258] = (SH, [8] * nch)
    tags[259] = (SH, [comp])
    tags[262] = (SH, [photometric])
    tags[273] = (LO, offs)
    tags[277] = (SH, [nch])
    tags[278] = (LO, [rps])
    tags[279] = (LO, [len(s) for s in strips])
    tags[284] = (SH, [1])
    if pred:
        tags[317] = (SH, [2])
    if photometric == 5:
        tags[332] = (SH, [1])
    if nextra:
        tags[338] = (SH, [2] * nextra)
    if icc:
        tags[34675] = (UN, icc)
    ents = b''
    for t in sorted(tags):
        ty, v = tags[t]
        d = bytes(v) if ty == UN else struct.pack(e + '%d%s' % (len(v), 'H' if ty == SH else 'I'), *v)
        ents += struct.pack(e + 'HHI', t, ty, len(v)) + (d.ljust(4, b'\0') if len(d) <= 4 else struct.pack(e + 'I', put(d)))
    o = put(struct.pack(e + 'H', len(tags)) + ents + bytes(4))
    body[4:8] = struct.pack(e + 'I', o)
    return bytes(body)


EXT = {'png': ['.png', '.PNG', '', '.dat'], 'tiff': ['.tif', '.tiff', '.TIF', '.TIFF', '', '.x'], 'jpeg': ['.jpg', '.jpeg', '.JPG', '.JPEG', '', '.bin']}


def synth(rng, wmax, rgb, profile):
    """a new picture file of one of the kinds the library reads -> file format, bytes, what it shows.
    profile: function of the colour model giving the bytes of a profile"""
    w, h = rng.randint(1, wmax), rng.randint(1, wmax)
    kind = rng.choice(['gray', 'gray', 'pal', 'ga', 'jpeg', 'jpeg', 'bigjpeg', 'tiff', 'tiff', 'tiff'] + (['rgb', 'rgba'] if rgb else []))
    base = dict(w=w, h=h, depth=8, alpha=None, alpha_depth=None, icc=None, jpg=None, pixels=None)

    def icc(cs):
        return profile(cs) if rng.random() < 0.25 else None
    if kind in ('gray', 'ga', 'rgb', 'rgba'):
        ct, cs, n, na = {'gray': (0, 'GRAY', 1, 0), 'ga': (4, 'GRAY', 2, 1), 'rgb': (2, 'RGB', 3, 0), 'rgba': (6, 'RGB', 4, 1)}[kind]
        depth = rng.choice([1, 2, 4, 8]) if kind == 'gray' else 8
        rows = [[rng.randrange(1 << depth) for _ in range(w * n)] for _ in range(h)]
        f = 255 // ((1 << depth) - 1)
        prof = icc(cs)
        return 'png', png(rng, w, h, ct, depth, rows, icc=prof), dict(
            base, cs=cs, icc=prof, pixels=bytes(v * f for r in rows for i, v in enumerate(r) if not na or i % n != n - 1),
            **(dict(alpha=bytes(v for r in rows for v in r[n - 1::n]), alpha_depth=8) if na else {}))
    if kind == 'pal':
        pal = [(0, 0, 0), (255, 255, 255)] * 2
        pal = pal[rng.randrange(2):][:rng.randint(1, 3)]
        tr = None
        if rng.random() < 0.6:
            tr = [rng.choice([0, 255]) for _ in range(rng.randint(1, len(pal)))]
            if 0 in tr and rng.random() < 0.5:
                pal[tr.index(0)] = (rng.randrange(256), 9, 200)
        if tr is None:
            pal = (pal + [(0, 0, 0)])[:2]  # other palettes need transparency
        depth = rng.choice([d for d in (1, 2, 4, 8) if 1 << d >= len(pal)])
        rows = [[rng.randrange(len(pal)) for _ in range(w)] for _ in range(h)]
        d = png(rng, w, h, 3, depth, rows, palette=pal, trns=tr)
        prows = [[int(pal[v] == (255, 255, 255)) for v in r] for r in rows]
        s = dict(base, cs='GRAY', depth=1, pixels=pack(prows, w))
        if tr is None:
            s['alt'] = ('png-mono-shift', shifted(prows, w))
        else:
            care = [[0 if v < len(tr) and tr[v] == 0 else 1 for v in r] for r in rows]
            s.update(alpha=pack(care, w), alpha_depth=1, care=care)
        return 'png', d, s
    if kind == 'tiff':
        cs = rng.choice((['RGB'] if rgb else []) + ['GRAY', 'CMYK', 'CMYK'])
        n = {'RGB': 3, 'GRAY': 1, 'CMYK': 4}[cs]
        a = int(rng.random() < 0.5)
        data = rng.randbytes(w * h * (n + a))
        prof = icc(cs)
        s = dict(base, cs=cs, icc=prof, pixels=data)
        if a:
            s.update(pixels=bytes(b for i, b in enumerate(data) if i % (n + 1) < n), alpha=data[n::n + 1], alpha_depth=8)
        return 'tiff', tiff(rng, w, h, {'GRAY': 1, 'RGB': 2, 'CMYK': 5}[cs], n + a, a, data, prof), s
    cs, mode = rng.choice(([('RGB', 'RGB')] if rgb else []) + [('GRAY', 'L'), ('CMYK', 'CMYK')])
    if kind == 'bigjpeg':
        w = h = rng.randint(180, 300)
        base.update(w=w, h=h)
    prof = icc(cs)
    b = io.BytesIO()
    Image.frombytes(mode, (w, h), rng.randbytes(w * h * len(mode) if mode != 'L' else w * h)).save(
        b, 'JPEG', quality=rng.choice([30, 90, 100]), progressive=rng.random() < 0.3, **({'icc_profile': prof} if prof else {}))
    d = bytearray(b.getvalue())
    i = d.find(b'Adobe')
    if cs == 'CMYK' and i > 0 and rng.random() < 0.6:
        d[i + 11] = 2  # the same samples taken as YCCK
    if rng.random() < 0.1:
        d += rng.randbytes(rng.choice([1, 100, 70000]))
    return 'jpeg', bytes(d), dict(base, cs=cs, icc=prof, jpg=bytes(d))
