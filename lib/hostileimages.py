"""Damaged and crafted picture files and colour profiles: healthy ones changed at the places a decoder trusts."""
import io, os, random, struct, zlib
from PIL import Image

BE = lambda f, *a: struct.pack('>' + f, *a)
INT = {1: [0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 127, 128, 254, 255],
       2: [0, 1, 2, 3, 4, 8, 15, 16, 17, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff],
       4: [0, 1, 2, 3, 4, 7, 8, 9, 12, 128, 255, 256, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffe, 0xffffffff]}


# ---------------------------------------------------------------- colour profiles
def icc_tag_xyz(x, y, z):
    return b'XYZ \0\0\0\0' + BE('iii', *(int(v * 65536) for v in (x, y, z)))


def icc_curv(r):
    n = r.choice([0, 1, 2, 5])
    return b'curv\0\0\0\0' + BE('I', n) + b''.join(BE('H', r.choice([0, 0x100, 0x1cd, 0xffff, r.randrange(65536)])) for _ in range(n))


def icc_para(r):
    k = r.randrange(5)
    return b'para\0\0\0\0' + BE('HH', k, 0) + b''.join(BE('i', v) for v in [0x2199a, 0xffff, 3, 0x1000, 0x800, 5, 7][:[1, 3, 4, 5, 7][k]])


def icc_text(sig, t):
    return sig + b'\0\0\0\0' + t


def icc_mft1(r, n_in, n_out):
    g = 2
    return (b'mft1\0\0\0\0' + bytes([n_in, n_out, g, 0]) + BE('9i', 65536, 0, 0, 0, 65536, 0, 0, 0, 65536) + bytes(range(256)) * n_in
            + bytes(r.randrange(256) for _ in range(g ** n_in * n_out)) + bytes(range(256)) * n_out)


def icc_mft2(r, n_in, n_out):
    g, e, x = 2, 3, 2
    return (b'mft2\0\0\0\0' + bytes([n_in, n_out, g, 0]) + BE('9i', 65536, 0, 0, 0, 65536, 0, 0, 0, 65536) + BE('HH', e, x) + BE('3H', 0, 32768, 65535) * n_in
            + b''.join(BE('H', r.randrange(65536)) for _ in range(g ** n_in * n_out)) + BE('2H', 0, 65535) * n_out)


def icc_mAB(r, n_in, n_out, sig=b'mAB '):
    """curves + CLUT + matrix + curves"""
    nb, na = (n_out, n_in) if sig == b'mAB ' else (n_in, n_out)
    head = 32
    one = lambda: icc_curv(random.Random(r.random()))
    pad = lambda b: b + b'\0' * (-len(b) % 4)
    B = b''.join(pad(one()) for _ in range(nb))
    M = b''.join(pad(one()) for _ in range(3))
    mat = BE('12i', 65536, 0, 0, 0, 65536, 0, 0, 0, 65536, 0, 0, 0)
    clut = bytes([2] * n_in + [0] * (16 - n_in)) + bytes([1, 0, 0, 0]) + bytes(r.randrange(256) for _ in range(2 ** n_in * n_out))
    A = b''.join(pad(one()) for _ in range(na))
    o = head
    offs = []
    body = b''
    for part in (B, mat, M, clut, A):
        offs.append(head + len(body))
        body += pad(part)
    return sig + b'\0\0\0\0' + bytes([n_in, n_out, 0, 0]) + BE('5I', *offs) + body


CHANNELS = {b'RGB ': 3, b'GRAY': 1, b'CMYK': 4, b'Lab ': 3, b'XYZ ': 3}


def icc_synth(r, space=None, tags=None):
    """-> (bytes, colour space, class)"""
    space = space or r.choice([b'RGB ', b'RGB ', b'GRAY', b'CMYK'])
    n = CHANNELS[space]
    cls = r.choice([b'mntr', b'prtr', b'prtr', b'scnr']) if r.random() < 0.9 else r.choice([b'spac', b'link', b'abst', b'nmcl'])
    lut = space == b'CMYK' or r.random() < 0.3
    pcs = b'Lab ' if space == b'CMYK' or r.random() < 0.3 else b'XYZ '
    ver = r.choice([0x02100000, 0x02400000, 0x04200000, 0x04300000])
    T = {b'wtpt': icc_tag_xyz(0.9642, 1, 0.8249), b'desc': icc_text(b'desc', BE('I', 3) + b'ab\0' + bytes(78)), b'cprt': icc_text(b'text', b'none\0')}
    curve = lambda: icc_curv(r) if r.random() < 0.7 else icc_para(r)
    if space == b'GRAY':
        T[b'kTRC'] = curve()
    elif not lut:
        T.update({b'rXYZ': icc_tag_xyz(0.43, 0.22, 0.01), b'gXYZ': icc_tag_xyz(0.38, 0.71, 0.1), b'bXYZ': icc_tag_xyz(0.14, 0.06, 0.71),
                  b'rTRC': curve(), b'gTRC': curve(), b'bTRC': curve()})
    if lut and space != b'GRAY':
        pcs = b'Lab ' if r.random() < 0.8 else pcs
        fam = r.choice(['mft1', 'mft2', 'mAB'])
        for k in range(r.choice([1, 1, 3])):
            T[b'A2B%d' % k] = {'mft1': icc_mft1, 'mft2': icc_mft2, 'mAB': icc_mAB}[fam](r, n, 3)
            if r.random() < 0.8:
                T[b'B2A%d' % k] = icc_mft1(r, 3, n) if fam == 'mft1' else icc_mft2(r, 3, n) if fam == 'mft2' else icc_mAB(r, 3, n, b'mBA ')
    return icc_assemble(T, space, cls, pcs, ver), space


def icc_assemble(T, space, cls, pcs, ver):
    items = sorted(T.items())
    pos = 128 + 4 + 12 * len(items)
    tab, body = b'', b''
    for k, v in items:
        v += b'\0' * (-len(v) % 4)
        tab += k + BE('II', pos + len(body), len(v))
        body += v
    h = BE('I', pos + len(body)) + b'lcms' + BE('I', ver) + cls + space + pcs + BE('6H', 2020, 1, 1, 0, 0, 0) + b'acspAPPL' + BE('I', 0) + b'none' + b'none' + BE('Q', 0) + BE('I', 0) + BE('3I', 0xf6d6, 0x10000, 0xd32d) + bytes(48)
    return h + BE('I', len(items)) + tab + body


_real = []


def real_iccs(repo):
    if not _real:
        for d in (os.path.join(repo, 'testdata', 'icc'), '/usr/share/color/icc/ghostscript'):
            if os.path.isdir(d):
                for f in sorted(os.listdir(d)):
                    if f.endswith('.icc'):
                        b = open(os.path.join(d, f), 'rb').read()
                        _real.append(b)
        _real.append(b'')
    return _real


def icc_fields(b):
    F = [(0, 4, 'size'), (8, 4, 'version'), (12, 4, 'class'), (16, 4, 'space'), (20, 4, 'pcs'), (36, 4, 'magic'), (64, 4, 'intent'), (128, 4, 'count')]
    n = min(int.from_bytes(b[128:132], 'big'), 60)
    for k in range(n):
        p = 132 + 12 * k
        o = int.from_bytes(b[p + 4:p + 8], 'big')
        s = int.from_bytes(b[p + 8:p + 12], 'big')
        F += [(p, 4, 'tag.sig'), (p + 4, 4, 'tag.offset'), (p + 8, 4, 'tag.size')]
        if o + 8 > len(b):
            continue
        t = b[o:o + 4]
        F.append((o, 4, 'tag.type'))
        if t == b'curv':
            F.append((o + 8, 4, 'curv.count'))
        elif t == b'para':
            F.append((o + 8, 2, 'para.kind'))
        elif t in (b'mft1', b'mft2'):
            F += [(o + 8, 1, 'mft.in'), (o + 9, 1, 'mft.out'), (o + 10, 1, 'mft.grid')]
            if t == b'mft2':
                F += [(o + 48, 2, 'mft.inent'), (o + 50, 2, 'mft.outent')]
        elif t in (b'mAB ', b'mBA '):
            F += [(o + 8, 1, 'mab.in'), (o + 9, 1, 'mab.out')] + [(o + 12 + 4 * q, 4, 'mab.offset') for q in range(5)]
            c = o + int.from_bytes(b[o + 24:o + 28], 'big')
            F += [(c, 1, 'mab.grid'), (c + 16, 1, 'mab.prec')]
        elif t == b'desc':
            F.append((o + 8, 4, 'desc.len'))
    return [f for f in F if f[0] + f[1] <= len(b)]


SIGS = [b'RGB ', b'GRAY', b'CMYK', b'Lab ', b'XYZ ', b'HSV ', b'2CLR', b'5CLR', b'FCLR', b'mntr', b'prtr', b'link', b'abst', b'nmcl', b'spac', b'\0\0\0\0', b'curv', b'mft1', b'mft2',
        b'mAB ', b'mBA ', b'para', b'A2B0', b'B2A0', b'kTRC', b'rTRC', b'rXYZ', b'D2B0', b'chad', b'gamt', b'mluc', b'desc', b'text']


def icc(r, repo, space=None):
    """-> (what, bytes, number of channels the caller believes in)"""
    src = 'synth'
    if r.random() < 0.75:
        b, sp = icc_synth(r, space)
    else:
        b = r.choice(real_iccs(repo))
        if len(b) > 40000 and r.random() < 0.8:
            b = r.choice([x for x in real_iccs(repo) if len(x) < 40000])
        src, sp = 'real', b[16:20]
    n = CHANNELS.get(sp, 3)
    kind = r.choices(['healthy', 'field', 'fields', 'truncate', 'bytes', 'splice', 'tiny'], [15, 40, 15, 10, 10, 5, 5])[0]
    if kind in ('field', 'fields') and len(b) > 132:
        b = bytearray(b)
        names = []
        for _ in range(1 if kind == 'field' else r.choice([2, 3])):
            F = icc_fields(bytes(b))
            nm = r.choice(sorted({f[2] for f in F}))
            p, s, _ = r.choice([f for f in F if f[2] == nm])
            names.append(nm)
            if s == 4 and nm in ('class', 'space', 'pcs', 'tag.sig', 'tag.type'):
                b[p:p + 4] = r.choice(SIGS)
            else:
                old = int.from_bytes(b[p:p + s], 'big')
                v = r.choice(INT[s] + [old + 1, old - 1, old * 2, old + 4, len(b), len(b) - 1, len(b) - 8])
                b[p:p + s] = (v % (1 << 8 * s)).to_bytes(s, 'big')
        b = bytes(b)
        kind = 'field.' + names[0]
    elif kind == 'truncate':
        b = b[:r.choice([0, 1, 4, 64, 127, 128, 131, 132, 140, r.randrange(len(b) + 1), max(0, len(b) - 1)])]
        if r.random() < 0.5 and len(b) >= 4:
            b = BE('I', len(b)) + b[4:]
    elif kind == 'bytes' and b:
        b = bytearray(b)
        for _ in range(r.choice([1, 3, 20])):
            b[r.randrange(min(len(b), r.choice([132, 400, len(b)])))] = r.randrange(256)
        b = bytes(b)
    elif kind == 'splice' and len(b) > 140:
        c = r.randrange(128, len(b))
        b = b[:c] + bytes(r.randrange(256) for _ in range(r.randrange(1, 20))) + b[c + r.choice([0, 4, 8]):]
    elif kind == 'tiny':
        b = r.choice([b'', b'\0', b'icc', bytes(128), bytes(131), bytes(132), b'acsp' * 40])
    if r.random() < 0.08:
        n = r.choice([0, 1, 3, 4, 2, 0xffffffff])
    return 'icc:%s:%s' % (src, kind), b, n


# ---------------------------------------------------------------- PNG
def chunk(t, d, crc=None):
    return BE('I', len(d)) + t + d + BE('I', zlib.crc32(t + d) if crc is None else crc)


SIG = b'\x89PNG\r\n\x1a\n'
DEPTHS = {0: [1, 2, 4, 8, 16], 2: [8, 16], 3: [1, 2, 4, 8], 4: [8, 16], 6: [8, 16]}
CH = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}


def png_chunks(r, repo):
    """-> list of [type, data]; a healthy picture"""
    ct = r.choice([0, 2, 3, 3, 4, 6])
    depth = r.choice(DEPTHS[ct]) if r.random() < 0.4 else (8 if ct != 3 else r.choice([1, 2]))
    w, h = r.choice([1, 2, 7, 8, 9, 16, 17, 33]), r.choice([1, 2, 5, 9])
    il = r.random() < 0.15
    mode = dict(il=il)
    rows = []
    passes = [(0, 0, 1, 1)] if not il else [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]
    npal = r.choice([1, 2, 2, 2, 3, 4]) if ct == 3 else 0
    raw = b''
    for x0, y0, dx, dy in passes:
        pw, ph = -(-(w - x0) // dx), -(-(h - y0) // dy)
        if pw <= 0 or ph <= 0:
            continue
        for _ in range(ph):
            if ct == 3:
                v = 0
                bits = [r.randrange(min(npal, 1 << depth)) for _ in range(pw)]
                line = bytearray((pw * depth + 7) // 8)
                for k, q in enumerate(bits):
                    line[k * depth // 8] |= q << (8 - depth - k * depth % 8)
                line = bytes(line)
            else:
                line = bytes(r.randrange(256) for _ in range((pw * depth * CH[ct] + 7) // 8))
            raw += bytes([r.randrange(5)]) + line
    out = [[b'IHDR', BE('IIBBBBB', w, h, depth, ct, 0, 0, int(il))]]
    if r.random() < 0.3:
        sp = b'GRAY' if ct in (0, 4) else b'RGB '
        w_, prof, _ = icc(r, repo, sp) if r.random() < 0.5 else ('', icc_synth(r, sp)[0], 0)
        out.append([b'iCCP', b'prof\0\0' + zlib.compress(prof)])
    if ct == 3:
        pal = [b'\0\0\0', b'\xff\xff\xff']
        if r.random() < 0.5:
            pal.reverse()
        pal += [r.choice(pal) for _ in range(2)]
        out.append([b'PLTE', b''.join(pal[:npal])])
    if r.random() < (0.5 if ct == 3 else 0.15) and ct not in (4, 6):
        n = {3: r.randrange(1, npal + 1) if npal else 0, 0: 2, 2: 6}[ct]
        out.append([b'tRNS', bytes(r.choice([0, 255]) for _ in range(n))])
    idat = zlib.compress(raw)
    if r.random() < 0.3:
        c = r.randrange(len(idat))
        out += [[b'IDAT', idat[:c]], [b'IDAT', idat[c:]]]
    else:
        out.append([b'IDAT', idat])
    out.append([b'IEND', b''])
    return out


def png(r, repo):
    C = png_chunks(r, repo)
    if r.random() < 0.15:
        fs = [f for f in sorted(os.listdir(os.path.join(repo, 'testdata/images'))) if f.endswith('.png') and os.path.getsize(os.path.join(repo, 'testdata/images', f)) < 60000]
        C = png_split(open(os.path.join(repo, 'testdata/images', r.choice(fs)), 'rb').read()) or C
    kind = r.choices(['healthy', 'ihdr', 'chunk', 'drop', 'dup', 'swap', 'crc', 'len', 'idat', 'plte', 'trns', 'iccp', 'truncate', 'bytes', 'insert'],
                     [8, 18, 10, 6, 5, 5, 4, 6, 12, 8, 8, 10, 8, 8, 4])[0]
    bad = {}
    pick = lambda t: r.choice([c for c in C if c[0] == t] or [C[0]])
    if kind == 'ihdr':
        d = bytearray(C[0][1])
        for _ in range(r.choice([1, 1, 2])):
            f = r.choice([(0, 4), (4, 4), (8, 1), (9, 1), (10, 1), (11, 1), (12, 1)])
            old = int.from_bytes(d[f[0]:f[0] + f[1]], 'big')
            v = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, old + 1, old - 1, old * 2, 40, 1000]) if r.random() < 0.75 or f[1] == 1 else r.choice(INT[4])
            d[f[0]:f[0] + f[1]] = (v % (1 << 8 * f[1])).to_bytes(f[1], 'big')
        C[0][1] = bytes(d)
    elif kind == 'chunk':
        c = r.choice(C)
        c[0] = r.choice([b'IDAT', b'PLTE', b'tRNS', b'iCCP', b'IEND', b'gAMA', b'sRGB', b'IHDR', b'ABCD', b'abcd', b'\0\0\0\0', b'bKGD', b'sBIT', b'acTL', b'fcTL', b'eXIf'])
    elif kind == 'drop':
        C.remove(r.choice(C))
    elif kind == 'dup':
        c = r.choice(C)
        C.insert(r.randrange(len(C) + 1), list(c))
    elif kind == 'swap' and len(C) > 1:
        a, b = r.sample(range(len(C)), 2)
        C[a], C[b] = C[b], C[a]
    elif kind == 'crc':
        bad[id(r.choice(C))] = ('crc', r.getrandbits(32))
    elif kind == 'len':
        bad[id(r.choice(C))] = ('len', r.choice(INT[4] + [5, 13, 20]))
    elif kind == 'idat':
        c = pick(b'IDAT')
        m = r.randrange(5)
        if m == 0:
            c[1] = c[1][:r.randrange(len(c[1]) + 1)]
        elif m == 1:
            c[1] = c[1] + bytes(r.randrange(256) for _ in range(20))
        elif m == 2 and c[1]:
            d = bytearray(c[1])
            d[r.randrange(len(d))] ^= 1 << r.randrange(8)
            c[1] = bytes(d)
        else:
            try:
                raw = bytearray(zlib.decompress(b''.join(x[1] for x in C if x[0] == b'IDAT')))
                if m == 3:
                    raw = raw[:r.randrange(len(raw) + 1)]
                else:
                    raw[r.randrange(len(raw))] = r.randrange(256)
                C = [x for x in C if x[0] != b'IDAT'] + [[b'IDAT', zlib.compress(bytes(raw))]]
                C.sort(key=lambda x: x[0] == b'IEND')
            except Exception:
                pass
    elif kind == 'plte':
        n = r.choice([0, 1, 2, 3, 4, 5, 16, 255, 256, 257])
        d = bytes(r.choice([0, 255]) for _ in range(3 * n)) if r.random() < 0.5 else b''.join(r.choice([b'\0\0\0', b'\xff\xff\xff']) for _ in range(n))
        if r.random() < 0.15:
            d += b'\0'
        k = [c for c in C if c[0] == b'PLTE']
        if k:
            k[0][1] = d
        else:
            C.insert(1, [b'PLTE', d])
    elif kind == 'trns':
        d = bytes(r.choice([0, 0, 255, 128]) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 255, 256, 257])))
        k = [c for c in C if c[0] == b'tRNS']
        if k:
            k[0][1] = d
        else:
            C.insert(len(C) - 2, [b'tRNS', d])
    elif kind == 'iccp':
        w_, prof, _ = icc(r, repo)
        z = zlib.compress(prof)
        d = r.choice([b'p\0\0' + z, b'p\0\0' + z[:r.randrange(len(z) + 1)], b'p\0\1' + z, b'p' * 80 + b'\0\0' + z, b'\0\0' + z, b'p', b'p\0\0' + os.urandom(0) + bytes(r.randrange(256) for _ in range(30)), b'p\0\0' + z])
        C = [c for c in C if c[0] != b'iCCP']
        C.insert(1, [b'iCCP', d])
    elif kind == 'insert':
        C.insert(r.randrange(len(C) + 1), [r.choice([b'zTXt', b'iTXt', b'tEXt', b'tIME', b'hIST', b'sPLT', b'pHYs', b'cHRM']), bytes(r.randrange(256) for _ in range(r.choice([0, 1, 9, 30])))])
    b = SIG
    for c in C:
        x = bad.get(id(c))
        if x and x[0] == 'len':
            b += BE('I', x[1]) + chunk(c[0], c[1])[4:]
        else:
            b += chunk(c[0], c[1], x[1] if x else None)
    if kind == 'truncate':
        b = b[:r.choice([8, 9, 10, 12, 20, 33, r.randrange(len(b)), len(b) - 1, len(b) - 12])]
    elif kind == 'bytes':
        b = bytearray(b)
        for _ in range(r.choice([1, 2, 8])):
            b[r.randrange(len(b))] = r.randrange(256)
        b = bytes(b)
    ct = C[0][1][9] if C and C[0][0] == b'IHDR' and len(C[0][1]) > 9 else -1
    return 'png:%s' % kind, b


def png_split(b):
    p, out = 8, []
    while p + 12 <= len(b):
        n = int.from_bytes(b[p:p + 4], 'big')
        out.append([b[p + 4:p + 8], b[p + 8:p + 8 + n]])
        p += 12 + n
    return out


# ---------------------------------------------------------------- JPEG
def pil(r, modes):
    m = r.choice(modes)
    w, h = r.choice([1, 7, 8, 16, 17, 33]), r.choice([1, 2, 9, 16])
    n = {'L': 1, 'RGB': 3, 'CMYK': 4, 'RGBA': 4, 'LA': 2, '1': 1, 'YCbCr': 3, 'LAB': 3, 'P': 1, 'I;16': 2, 'F': 4}[m]
    if m == '1':
        return Image.frombytes('L', (w, h), bytes(r.randrange(256) for _ in range(w * h))).convert('1')
    return Image.frombytes(m, (w, h), bytes(r.randrange(256) for _ in range(w * h * n)))


def jpeg_segments(b):
    """-> ([[marker, payload or None]], entropy data and all after SOS)"""
    p, out = 2, []
    while p + 4 <= len(b):
        m = b[p + 1]
        n = int.from_bytes(b[p + 2:p + 4], 'big')
        out.append([m, b[p + 4:p + 2 + n]])
        p += 2 + n
        if m == 0xda:
            break
    return out, b[p:]


def icc_app2(prof, r, mess=False):
    size = r.choice([65519, 65519, 200, 60])
    parts = [prof[k:k + size] for k in range(0, len(prof), size)] or [b'']
    parts = parts[:255]
    S = [[0xe2, b'ICC_PROFILE\0' + bytes([(k + 1) & 255, len(parts) & 255]) + q] for k, q in enumerate(parts)]
    if mess:
        k = r.randrange(6)
        x = r.choice(S)
        if k == 0:
            S.append(list(x))
        elif k == 1:
            S.remove(x)
        elif k == 2:
            x[1] = x[1][:12] + bytes([r.choice([0, 1, 2, 255]), r.choice([0, 1, 2, 255])]) + x[1][14:]
        elif k == 3:
            x[1] = x[1][:r.choice([0, 11, 12, 13, 14, 15])]
        elif k == 4:
            r.shuffle(S)
        else:
            x[1] = x[1] + b'\0' * 40
    return S


def jpeg(r, repo):
    im = pil(r, ['L', 'RGB', 'RGB', 'CMYK'])
    f = io.BytesIO()
    kw = dict(quality=r.choice([10, 75, 100]), progressive=r.random() < 0.25)
    if im.mode == 'RGB':
        kw['subsampling'] = r.choice([0, 1, 2])
    im.save(f, 'JPEG', **kw)
    S, tail = jpeg_segments(f.getvalue())
    sp = {'L': b'GRAY', 'RGB': b'RGB ', 'CMYK': b'CMYK'}[im.mode]
    if r.random() < 0.3:
        prof = icc_synth(r, sp)[0] if r.random() < 0.6 else icc(r, repo)[1]
        S[1:1] = icc_app2(prof, r)
    kind = r.choices(['healthy', 'sof', 'icc', 'drop', 'dup', 'swap', 'marker', 'seglen', 'payload', 'truncate', 'bytes', 'tail', 'adobe', 'sos'],
                     [8, 18, 12, 8, 6, 6, 8, 8, 8, 10, 8, 6, 8, 6])[0]
    badlen = None
    sof = [s for s in S if s[0] in (0xc0, 0xc1, 0xc2)]
    if kind == 'sof' and sof:
        s = sof[0]
        d = bytearray(s[1])
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(['prec', 'h', 'w', 'n', 'samp', 'type', 'tq', 'id'])
            if k == 'prec':
                d[0] = r.choice([0, 1, 2, 7, 9, 12, 16, 255])
            elif k in 'hw':
                p = 1 if k == 'h' else 3
                d[p:p + 2] = BE('H', r.choice([0, 1, 2, 8, 9, 100, 1000, 65535, 65500, 40000]))
            elif k == 'n':
                d[5] = r.choice([0, 1, 2, 3, 4, 5, 10, 255])
                if r.random() < 0.6:       # make the segment fit
                    d = d[:6] + (d[6:] + b'\2\x11\0\3\x11\0\4\x11\0\5\x11\0')[:3 * min(d[5], 10)]
            elif k == 'samp' and len(d) > 7:
                d[7 + 3 * r.randrange(max(1, (len(d) - 6) // 3))] = r.choice([0, 0x11, 0x12, 0x21, 0x22, 0x41, 0x44, 0x51, 0xff])
            elif k == 'type':
                s[0] = r.choice([0xc0, 0xc1, 0xc2, 0xc3, 0xc5, 0xc9, 0xca, 0xcb])
            elif k == 'tq' and len(d) > 8:
                d[8] = r.choice([0, 1, 3, 4, 255])
            elif k == 'id' and len(d) > 6:
                d[6 + 3 * r.randrange(max(1, (len(d) - 6) // 3))] = r.choice([0, 1, 2, 3, 82, 71, 66, 255])
        s[1] = bytes(d)
    elif kind == 'icc':
        S = [s for s in S if s[0] != 0xe2]
        S[1:1] = icc_app2(icc(r, repo)[1] if r.random() < 0.6 else icc_synth(r, sp)[0], r, r.random() < 0.6)
    elif kind == 'drop':
        S.remove(r.choice(S))
    elif kind == 'dup':
        S.insert(r.randrange(len(S) + 1), list(r.choice(S)))
    elif kind == 'swap' and len(S) > 1:
        a, b = r.sample(range(len(S)), 2)
        S[a], S[b] = S[b], S[a]
    elif kind == 'marker':
        r.choice(S)[0] = r.choice([0, 1, 0xc4, 0xcc, 0xd0, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xe0, 0xee, 0xfe, 0xff])
    elif kind == 'seglen':
        badlen = (r.randrange(len(S)), r.choice([0, 1, 2, 3, 65535, 20]))
    elif kind in ('payload', 'sos'):
        c = [s for s in S if s[1] and (kind == 'payload' or s[0] == 0xda)]
        if c:
            s = r.choice(c)
            d = bytearray(s[1])
            for _ in range(r.choice([1, 3])):
                d[r.randrange(len(d))] = r.choice(INT[1])
            s[1] = bytes(d)
    elif kind == 'adobe':
        S = [s for s in S if s[0] != 0xee]
        S.insert(r.randrange(1 + len(S)), [0xee, b'Adobe\0d\0\0\0\0' + bytes([r.choice([0, 1, 2, 3, 255])])])
    elif kind == 'tail':
        tail = r.choice([b'', tail[:len(tail) // 2], tail + bytes(50), tail[:-2], b'\xff\xd9', bytes(r.randrange(256) for _ in range(100)), tail[:-2] + b'\xff\xd0' * 30 + b'\xff\xd9'])
    b = b'\xff\xd8'
    for k, (m, d) in enumerate(S):
        n = len(d) + 2 if not badlen or badlen[0] != k else badlen[1]
        b += bytes([0xff, m]) + BE('H', n & 0xffff) + d
    b += tail
    if kind == 'truncate':
        b = b[:r.choice([2, 3, 9, 10, 11, 20, r.randrange(len(b)), len(b) - 1, len(b) - 2])]
    elif kind == 'bytes':
        b = bytearray(b)
        for _ in range(r.choice([1, 2, 8])):
            b[r.randrange(len(b))] = r.randrange(256)
        b = bytes(b)
    return 'jpeg:%s' % kind, b


# ---------------------------------------------------------------- TIFF
TS = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 6: 1, 7: 1, 8: 2, 9: 4, 10: 8, 11: 4, 12: 8, 13: 4, 16: 8}


def tiff_parse(b):
    """-> (endian, [[tag, type, count, bytes of the values]])"""
    e = '<' if b[:2] == b'II' else '>'
    p = struct.unpack_from(e + 'I', b, 4)[0]
    n = struct.unpack_from(e + 'H', b, p)[0]
    out = []
    for k in range(n):
        tag, ty, cnt = struct.unpack_from(e + 'HHI', b, p + 2 + 12 * k)
        size = TS.get(ty, 1) * cnt
        o = p + 10 + 12 * k
        if size > 4:
            o = struct.unpack_from(e + 'I', b, o)[0]
        out.append([tag, ty, cnt, b[o:o + size]])
    return e, out


def tiff_build(e, ents, data, mess=None, r=None):
    """strips in data; entries get laid out behind the directory"""
    n = len(ents)
    base = 8 + len(data)
    base += base & 1
    body = data + b'\0' * (base - 8 - len(data))
    tab = struct.pack(e + 'H', n)
    extra = b''
    ep = base + 2 + 12 * n + 4
    for tag, ty, cnt, val in ents:
        if len(val) <= 4:
            tab += struct.pack(e + 'HHI', tag, ty, cnt) + val + b'\0' * (4 - len(val))
        else:
            tab += struct.pack(e + 'HHII', tag, ty, cnt, ep + len(extra))
            extra += val + b'\0' * (len(val) & 1)
    return (b'II*\0' if e == '<' else b'MM\0*') + struct.pack(e + 'I', base) + body + tab + struct.pack(e + 'I', 0) + extra


def tiff(r, repo):
    im = pil(r, ['L', 'RGB', 'RGB', 'CMYK', 'RGBA', 'LA', '1', 'YCbCr', 'LAB', 'I;16', 'F'] if r.random() < 0.4 else ['L', 'RGB', 'CMYK', 'RGBA', 'LA'])
    f = io.BytesIO()
    comp = r.choice([None, None, 'tiff_lzw', 'tiff_adobe_deflate', 'packbits', 'jpeg', 'group4'])
    try:
        im.save(f, 'TIFF', compression=comp)
    except Exception:
        f = io.BytesIO()
        im.save(f, 'TIFF')
        comp = None
    e, E = tiff_parse(f.getvalue())
    T = {x[0]: x for x in E}
    b0 = f.getvalue()
    num = lambda x: [int.from_bytes(x[3][k:k + TS[x[1]]], 'little' if e == '<' else 'big') for k in range(0, len(x[3]), TS[x[1]])]
    offs, cnts = num(T[273]), num(T[279])
    data = b''
    new = []
    for o, c in zip(offs, cnts):
        new.append(8 + len(data))
        data += b0[o:o + c]
    pk = lambda vals, ty: b''.join((v % (1 << 8 * TS[ty])).to_bytes(TS[ty], 'little' if e == '<' else 'big') for v in vals)
    T[273][1:] = [4, len(new), pk(new, 4)]
    kind = r.choices(['healthy', 'value', 'values', 'drop', 'type', 'count', 'add', 'icc', 'extra', 'data', 'truncate', 'bytes', 'header', 'subsample', 'tiles'],
                     [6, 26, 10, 8, 8, 8, 8, 8, 10, 8, 6, 6, 4, 5, 5])[0]
    if r.random() < 0.1:
        T[34675] = [34675, 7, 0, icc_synth(r)[0]]
        T[34675][2] = len(T[34675][3])
    SETS = {256: [0, 1, 2, 7, 8, 9, 100, 65535, 0x7fffffff, 0xffffffff, 1 << 20], 257: [0, 1, 2, 8, 9, 100, 65535, 0x7fffffff, 0xffffffff, 1 << 20],
            258: [0, 1, 2, 4, 7, 8, 9, 16, 32, 65535], 259: [0, 1, 2, 3, 4, 5, 6, 7, 8, 32773, 32946, 34661, 34676, 34677, 34712, 50000, 50001, 65535],
            262: [0, 1, 2, 3, 4, 5, 6, 8, 9, 32844, 32845, 65535], 273: [0, 1, 4, 8, 9, 0x7fffffff, 0xfffffff0, 0xffffffff, len(data), 8 + len(data)],
            277: [0, 1, 2, 3, 4, 5, 6, 255, 65535], 278: [0, 1, 2, 3, 5, 0x7fffffff, 0xffffffff], 279: [0, 1, 2, 100, 0x7fffffff, 0xffffffff],
            284: [0, 1, 2, 3], 317: [0, 1, 2, 3, 4], 338: [0, 1, 2, 3], 339: [0, 1, 2, 3, 4, 5, 6], 266: [0, 1, 2, 3], 274: list(range(10)), 530: [0, 1, 2, 4, 5],
            322: [0, 1, 16, 17, 0xffffffff], 323: [0, 1, 16, 0xffffffff], 324: [8, 0xffffffff], 325: [4, 0xffffffff], 320: [0], 32997: [0, 2, 0xffffffff]}
    def setv(t):
        if t not in T:
            T[t] = [t, 3 if t not in (256, 257, 273, 278, 279, 322, 323, 324, 325, 32997) else 4, 1, b'']
        x = T[t]
        cnt = max(1, len(x[3]) // TS.get(x[1], 1)) if r.random() < 0.8 else 1
        if x[1] not in (1, 3, 4):
            x[1] = 4
        v = r.choice(SETS.get(t, INT[4]))
        x[3] = pk([v] * cnt if r.random() < 0.7 else [v] + [r.choice(SETS.get(t, INT[4])) for _ in range(cnt - 1)], x[1])
        x[2] = len(x[3]) // TS[x[1]]
    if kind in ('value', 'values'):
        for _ in range(1 if kind == 'value' else r.choice([2, 3])):
            setv(r.choice([256, 256, 257, 257, 258, 259, 262, 262, 273, 277, 277, 278, 279, 284]))
    elif kind == 'drop':
        del T[r.choice([t for t in T])]
    elif kind == 'type':
        x = T[r.choice(list(T))]
        x[1] = r.choice([0, 1, 2, 3, 4, 5, 7, 11, 12, 13, 16, 17, 18, 255])
    elif kind == 'count':
        x = T[r.choice(list(T))]
        x[2] = r.choice([0, 1, 2, 3, 5, 255, 65535, 0x10000000, 0x40000000, 0x7fffffff, 0xffffffff])
    elif kind == 'add':
        for _ in range(r.choice([1, 2])):
            setv(r.choice([317, 338, 339, 266, 274, 530, 322, 320, 32997, 34675, 347, 330, 512, 513, 514, 33432]))
    elif kind == 'icc':
        p = icc(r, repo)[1]
        T[34675] = [34675, r.choice([7, 7, 7, 1, 4]), r.choice([len(p), len(p), 0, len(p) + 9, 0xffffffff]), p]
    elif kind == 'extra':     # more samples than the model needs, or fewer
        n = r.choice([1, 2, 3, 4, 5, 6])
        w, h = im.size
        T[277] = [277, 3, 1, pk([n], 3)]
        T[258] = [258, 3, n, pk([8] * n, 3)]
        T[262] = [262, 3, 1, pk([r.choice([0, 1, 2, 5, 8])], 3)]
        T[259] = [259, 3, 1, pk([1], 3)]
        T[278] = [278, 4, 1, pk([h], 4)]
        if r.random() < 0.5:
            T[338] = [338, 3, r.choice([1, 2]), pk([r.randrange(3) for _ in range(2)], 3)]
            T[338][2] = 2
        data = bytes(r.randrange(256) for _ in range(w * h * n))
        T[273] = [273, 4, 1, pk([8], 4)]
        T[279] = [279, 4, 1, pk([len(data)], 4)]
        if r.random() < 0.2:
            T[284] = [284, 3, 1, pk([2], 3)]
    elif kind == 'data' and data:
        d = bytearray(data)
        for _ in range(r.choice([1, 5])):
            d[r.randrange(len(d))] = r.randrange(256)
        data = bytes(d)
        if r.random() < 0.3:
            T[279][3] = pk([r.randrange(len(data) + 1)], 4)
            T[279][1], T[279][2] = 4, 1
    elif kind == 'subsample':
        w, h = im.size
        T[262] = [262, 3, 1, pk([6], 3)]
        T[530] = [530, 3, 2, pk([r.choice([1, 2, 4]), r.choice([1, 2, 4])], 3)]
        if r.random() < 0.5:
            T[277] = [277, 3, 1, pk([3], 3)]
            T[258] = [258, 3, 3, pk([8] * 3, 3)]
    elif kind == 'tiles':
        for t in (273, 278, 279):
            T.pop(t, None)
        w, h = im.size
        T[322], T[323] = [322, 4, 1, pk([16], 4)], [323, 4, 1, pk([16], 4)]
        nb = 256 * {'RGB': 3, 'CMYK': 4}.get(im.mode, 1)
        k = -(-w // 16) * -(-h // 16)
        T[324], T[325] = [324, 4, k, pk([8] * k, 4)], [325, 4, k, pk([nb] * k, 4)]
        data = bytes(r.randrange(256) for _ in range(nb))
    ents = [T[t] for t in sorted(T)]
    b = tiff_build(e, ents, data)
    if kind == 'truncate':
        b = b[:r.choice([3, 4, 7, 8, 9, 10, 12, r.randrange(len(b)), len(b) - 1, len(b) - 4])]
    elif kind == 'bytes':
        b = bytearray(b)
        for _ in range(r.choice([1, 2, 8])):
            b[r.randrange(len(b))] = r.randrange(256)
        b = bytes(b)
    elif kind == 'header':
        b = r.choice([b[:4] + struct.pack(e + 'I', r.choice(INT[4] + [len(b) - 1, len(b)])) + b[8:], b'MM' + b[2:], b'II+\0\x08\0\0\0' + struct.pack('<Q', r.choice([16, 0, 1 << 63, 0xffffffff])) + b[8:], b'II*\0' + b'\xff' * 12])
    return 'tiff:%s:%s' % (kind, comp or 'raw'), b


def picture(r, repo):
    """-> (what, bytes)"""
    k = r.choices(['png', 'jpeg', 'tiff', 'misc'], [4, 4, 4, 0.3])[0]
    if k == 'misc':
        return 'misc', r.choice([b'', b'\x89PNG', SIG, SIG + b'\0\0', b'\xff\xd8\xff', b'\xff\xd8\xff' + bytes(10), b'II*\0\0\0\0\0\0\0', b'II*', b'MM', b'MMMMMMMMMMMM', bytes(10), bytes(r.randrange(256) for _ in range(60)), b'GIF89a' + bytes(20)])
    return {'png': png, 'jpeg': jpeg, 'tiff': tiff}[k](r, repo)
