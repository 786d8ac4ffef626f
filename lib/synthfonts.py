"""Makes small TrueType, OpenType/CFF (name keyed and CID keyed) and collection files: healthy ones, of many legal shapes."""
import struct

BE = lambda f, *a: struct.pack('>' + f, *a)


def sfnt(tables, flavor=b'\0\1\0\0', base=0, order=None):
    """Puts the tables (dict tag -> bytes) into a font file that starts at offset base of a file."""
    n = len(tables)
    es = max(0, n.bit_length() - 1)
    out = flavor + BE('HHHH', n, 16 << es, es, max(0, n * 16 - (16 << es)))
    pos = base + 12 + 16 * n
    recs, body = [], b''
    place = {}
    for t in (order or sorted(tables)):
        d = tables[t]
        place[t] = (pos + len(body), len(d))
        body += d + b'\0' * (-len(d) % 4)
    for t in sorted(tables):
        d = tables[t] + b'\0' * (-len(tables[t]) % 4)
        cs = sum(struct.unpack('>%dI' % (len(d) // 4), d)) & 0xffffffff
        recs.append(t.encode('latin1') + BE('III', cs, *place[t]))
    return out + b''.join(recs) + body


def read_sfnt(b, base=0):
    n = struct.unpack('>H', b[base + 4:base + 6])[0]
    T = {}
    for i in range(n):
        t, cs, off, ln = struct.unpack('>4sIII', b[base + 12 + 16 * i:base + 28 + 16 * i])
        T[t.decode('latin1')] = b[off:off + ln]
    return b[base:base + 4], T


def ttc(fonts, version=1):
    """fonts: list of (tables, flavor)"""
    hdr = 12 + 4 * len(fonts) + (12 if version == 2 else 0)
    out, offs = b'', []
    for T, fl in fonts:
        offs.append(hdr + len(out))
        out += sfnt(T, fl, hdr + len(out))
    return b'ttcf' + BE('HHI', version, 0, len(fonts)) + BE('%dI' % len(offs), *offs) + (b'\0' * 12 if version == 2 else b'') + out


# ---- outlines
def contours(r, big=False):
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        n = r.randint(3, 12 if not big else 60)
        out.append([(r.randint(-300, 1100), r.randint(-300, 1100), r.random() < 0.7) for _ in range(n)])
    return out


def simple_glyph(r, cs, instr=b''):
    ends, pts = [], []
    for c in cs:
        pts += c
        ends.append(len(pts) - 1)
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    g = BE('hhhhh', len(cs), min(xs), min(ys), max(xs), max(ys)) + BE('%dH' % len(ends), *ends) + BE('H', len(instr)) + instr
    fl, bx, by = [], b'', b''
    px = py = 0
    compact = r.random() < 0.7
    for x, y, on in pts:
        f = 1 if on else 0
        for v, pv, short, same, w in ((x, px, 2, 16, 'x'), (y, py, 4, 32, 'y')):
            d = v - pv
            e = b''
            if compact and d == 0:
                f |= same
            elif compact and -255 <= d <= 255:
                f |= short | (same if d > 0 else 0)
                e = bytes([abs(d)])
            else:
                e = BE('h', d)
            if w == 'x':
                bx += e
            else:
                by += e
        px, py = x, y
        fl.append(f)
    fb, i = b'', 0
    while i < len(fl):
        k = 1
        while i + k < len(fl) and fl[i + k] == fl[i] and k < 200:
            k += 1
        if k > 2:
            fb += bytes([fl[i] | 8, k - 1])
        else:
            fb += bytes([fl[i]]) * k
        i += k
    return g + fb + bx + by


def composite_glyph(r, parts):
    out = BE('hhhhh', -1, -300, -300, 1100, 1100)
    instr = r.random() < 0.2
    for i, gid in enumerate(parts):
        f = 0x2 | (0x4 if r.random() < 0.5 else 0)
        dx, dy = r.randint(-100, 100), r.randint(-100, 100)
        words = r.random() < 0.5
        if words:
            f |= 1
            dx, dy = dx * 3, dy * 3
        k = r.choice([0, 0, 0, 8, 0x40, 0x80])
        f |= k | (0x20 if i + 1 < len(parts) else 0) | (0x200 if i == 0 and r.random() < 0.3 else 0)
        if instr and i + 1 == len(parts):
            f |= 0x100
        f2 = lambda: r.randint(-0x4000, 0x7000)
        out += BE('HH', f, gid) + (BE('hh', dx, dy) if words else BE('bb', dx, dy)) + BE('%dh' % {0: 0, 8: 1, 0x40: 2, 0x80: 4}[k], *[f2() for _ in range({0: 0, 8: 1, 0x40: 2, 0x80: 4}[k])])
    if instr:
        n = r.randint(0, 9)
        out += BE('H', n) + bytes([0x4f] * n)       # (DEBUG instructions: nothing)
    return out


# ---- shared tables
def cmap_table(r, m):
    """m: codepoint -> glyph"""
    subs = []
    bmp = {c: g for c, g in m.items() if c < 0x10000}
    def fmt4():
        segs = []
        for c in sorted(bmp):
            if segs and segs[-1][1] + 1 == c and bmp[c] - c == segs[-1][2] and c != 0xffff:
                segs[-1][1] = c
            else:
                segs.append([c, c, bmp[c] - c])
        segs.append([0xffff, 0xffff, 1])
        n = len(segs)
        es = n.bit_length() - 1
        d = BE('HHHH', n * 2, 2 << es, es, 2 * n - (2 << es)) + BE('%dH' % n, *[s[1] for s in segs]) + b'\0\0' + BE('%dH' % n, *[s[0] for s in segs]) + \
            BE('%dH' % n, *[s[2] & 0xffff for s in segs]) + b'\0\0' * n
        return BE('HHH', 4, len(d) + 6, 0) + d
    def fmt12():
        d = b''.join(BE('III', c, c, g) for c, g in sorted(m.items()))
        return BE('HHIII', 12, 0, len(d) + 16, 0, len(m)) + d
    def fmt0():
        return BE('HHH', 0, 262, 0) + bytes(min(255, bmp.get(c, 0)) for c in range(256))
    def fmt6():
        lo = [c for c in sorted(bmp) if c < 0x500] or [32]
        a = [bmp.get(c, 0) for c in range(lo[0], lo[-1] + 1)]
        return BE('HHHHH', 6, 10 + 2 * len(a), 0, lo[0], len(a)) + BE('%dH' % len(a), *a)
    if r.random() < 0.4:
        subs.append((1, 0, r.choice([fmt0, fmt6])()))
    if r.random() < 0.5:
        subs.append((0, 3, fmt4()))
    subs.append((3, 1, fmt4()))
    if any(c >= 0x10000 for c in m) or r.random() < 0.3:
        subs.append((3, 10, fmt12()))
    out, off = BE('HH', 0, len(subs)), 4 + 8 * len(subs)
    body = b''
    for p, e, d in subs:
        out += BE('HHI', p, e, off + len(body))
        body += d
    return out + body


def name_table(ps):
    recs = [(1, ps), (2, 'Regular'), (4, ps), (6, ps)]
    s, out = b'', b''
    for i, t in recs:
        d = t.encode('utf-16-be')
        out += BE('HHHHHH', 3, 1, 0x409, i, len(d), len(s))
        s += d
    return BE('HHH', 0, len(recs), 6 + len(out)) + out + s


def common(r, T, ng, upem, adv, lsb, cmap, ps, locfmt=0):
    T['head'] = BE('IIIIHHQQhhhhHHhhh', 0x10000, 0x10000, 0, 0x5f0f3cf5, 3, upem, 0, 0, -300, -300, 1100, 1100, 0, 8, 2, locfmt, 0)
    nh = ng
    if r.random() < 0.4:            # the last glyphs share one advance
        nh = r.randint(1, ng)
        adv = adv[:nh] + [adv[nh - 1]] * (ng - nh)
    T['hhea'] = BE('IhhhHhhhhhhhhhhhH', 0x10000, 900, -200, 0, max(adv), 0, 0, 1100, 1, 0, 0, 0, 0, 0, 0, 0, nh)
    T['hmtx'] = b''.join(BE('Hh', adv[i], lsb[i]) for i in range(nh)) + b''.join(BE('h', x) for x in lsb[nh:])
    T['cmap'] = cmap_table(r, cmap)
    T['name'] = name_table(ps)
    T['post'] = BE('IIhhIIIII', 0x30000, 0, -100, 50, 0, 0, 0, 0, 0)
    if r.random() < 0.5:
        T['OS/2'] = BE('HhHHHhhhhhhhhhhh10sIIII4sHHHhhhHHII', 4, 500, 400, 5, 0, 650, 600, 0, 75, 650, 600, 0, 350, 50, 300, 0, b'\0' * 10, 1, 0, 0, 0, b'CAPY', 64, 32, 0xffff, 900, -200, 0, 900, 200, 1, 0)
    return adv


def charmap(r, ng):
    """some codepoints for the glyphs from 1"""
    pool = list(range(0x21, 0x7f)) + list(range(0xa1, 0x180)) + list(range(0x391, 0x3ca)) + list(range(0x4e00, 0x4e80)) + list(range(0x1f600, 0x1f640))
    r.shuffle(pool)
    m = {}
    gl = list(range(1, ng))
    r.shuffle(gl)
    for g in gl:
        for _ in range(r.choice([0, 1, 1, 1, 1, 2])):
            if pool:
                m[pool.pop()] = g
    m[0x20] = r.randint(1, ng - 1)
    return m


def truetype(r, ng=None, deep=None):
    """-> tables"""
    ng = ng or r.randint(3, 60)
    glyphs = []
    # offsets above 65535 fit into a short loca table, too
    fill = 6000 if r.random() < 0.2 else 0
    filled = 0
    for g in range(ng):
        k = r.random()
        if k < 0.15:
            glyphs.append(b'')
        elif k < 0.4 and g > 2:
            pool = list(range(1, g)) if r.random() < 0.5 else list(range(max(1, g - 3), g))
            if r.random() < 0.1:
                pool = [0]
            glyphs.append(composite_glyph(r, [r.choice(pool) for _ in range(r.choice([1, 2, 2, 3, 4]))]))
        else:
            glyphs.append(simple_glyph(r, contours(r, r.random() < 0.1), b'\x4f' * (r.choice([0, 0, 0, 3, 11, fill, fill]) if filled < 15 else 0)))
            filled += len(glyphs[-1]) > 5000
    depth = [0] * ng
    size = [1] * ng
    for g, d in enumerate(glyphs):          # keep nesting and blow-up within what FreeType draws
        if d[:2] == b'\xff\xff':
            ps = parts_of(d)
            depth[g] = 1 + max(depth[p] for p in ps)
            size[g] = sum(size[p] for p in ps)
            if depth[g] > 4 or size[g] > 40:
                glyphs[g] = simple_glyph(r, contours(r))
                depth[g], size[g] = 0, 1
    if r.random() < 0.15:                   # a .notdef made of parts
        glyphs[0] = composite_glyph(r, [r.choice([g for g in range(1, ng) if glyphs[g][:2] != b'\xff\xff'] or [1])]) if any(glyphs[g][:2] not in (b'\xff\xff',) for g in range(1, ng)) else b''
    if r.random() < 0.5:
        order = list(range(ng))
        perm = order[1:]
        r.shuffle(perm)
        perm = [0] + perm                   # glyph g moves to perm[g]
        new = [None] * ng
        for g, d in enumerate(glyphs):
            new[perm[g]] = renumber(d, perm)
        glyphs = new
    T = {}
    lf = r.choice([0, 1])
    glyf, loca = b'', []
    for d in glyphs:
        loca.append(len(glyf))
        glyf += d + b'\0' * (-len(d) % (2 if lf == 0 or r.random() < 0.5 else 1))
    loca.append(len(glyf))
    T['glyf'] = glyf
    T['loca'] = BE('%dI' % len(loca), *loca) if lf else BE('%dH' % len(loca), *[x // 2 for x in loca])
    T['maxp'] = BE('IH13H', 0x10000, ng, 500, 50, 2000, 200, 2, 0, 8, 8, 0, 64, 64, 16, 8)
    upem = r.choice([1000, 1024, 2048, 256, 16, 4096, 1000])
    adv, lsb = [r.choice([0, 300, 500, 777, 1999]) for _ in range(ng)], [r.randint(-50, 50) for _ in range(ng)]
    for g, d in enumerate(glyphs):
        if d and d[:2] != b'\xff\xff':
            lsb[g] = struct.unpack('>h', d[2:4])[0]     # lsb == xMin: nothing is shifted
        elif d:
            lsb[g] = -300
    common(r, T, ng, upem, adv, lsb, charmap(r, ng), 'Synth%d' % r.randint(0, 999), lf)
    for t in ('cvt ', 'fpgm', 'prep'):
        if r.random() < 0.3:
            T[t] = BE('hh', 5, 17) if t == 'cvt ' else b'\x4f\x4f\x4f'
    if r.random() < 0.4:
        cm = sorted({(r.randint(1, ng - 1), r.randint(1, ng - 1)) for _ in range(20)})
        n = len(cm)
        es = n.bit_length() - 1
        sub = BE('HHHH', n, 6 << es, es, 6 * n - (6 << es)) + b''.join(BE('HHh', a, b, r.randint(-300, 300)) for a, b in cm)
        T['kern'] = BE('HH', 0, 1) + BE('HHH', 0, len(sub) + 6, 1) + sub
    return T


def parts_of(d):
    out, p = [], 10
    while True:
        f, c = struct.unpack('>HH', d[p:p + 4])
        out.append(c)
        p += 4 + (4 if f & 1 else 2) + (2 if f & 8 else 4 if f & 0x40 else 8 if f & 0x80 else 0)
        if not f & 0x20:
            return out


def renumber(d, perm):
    if d[:2] != b'\xff\xff':
        return d
    b, p = bytearray(d), 10
    while True:
        f, c = struct.unpack('>HH', d[p:p + 4])
        b[p + 2:p + 4] = BE('H', perm[c])
        p += 4 + (4 if f & 1 else 2) + (2 if f & 8 else 4 if f & 0x40 else 8 if f & 0x80 else 0)
        if not f & 0x20:
            return bytes(b)


# ---- CFF
def num(v, form=None):
    if form is None:
        form = 1 if -107 <= v <= 107 else 2 if -1131 <= v <= 1131 else 28 if -32768 <= v < 32768 else 29
    if form == 1 and -107 <= v <= 107:
        return bytes([v + 139])
    if form == 2 and 108 <= v <= 1131:
        return bytes([247 + (v - 108 >> 8), v - 108 & 255])
    if form == 2 and -1131 <= v <= -108:
        return bytes([251 + (-v - 108 >> 8), -v - 108 & 255])
    if form != 29 and -32768 <= v < 32768:
        return b'\x1c' + BE('h', v)
    return b'\x1d' + BE('i', v)


def real(s):
    n = []
    i = 0
    while i < len(s):
        if s[i:i + 2] == 'E-':
            n.append(12)
            i += 2
            continue
        n.append({'.': 10, 'E': 11, '-': 14}.get(s[i]) if not s[i].isdigit() else int(s[i]))
        i += 1
    n.append(15)
    if len(n) % 2:
        n.append(15)
    return b'\x1e' + bytes(n[k] << 4 | n[k + 1] for k in range(0, len(n), 2))


def op(o):
    return bytes([12, o & 255]) if o > 255 else bytes([o])


def index(items, offsize=None):
    if not items:
        return b'\0\0'
    tot = sum(map(len, items)) + 1
    need = 1 if tot < 256 else 2 if tot < 65536 else 3
    s = max(need, offsize or 1)
    out, o = BE('HB', len(items), s), 1
    for it in list(items) + [b'']:
        out += o.to_bytes(s, 'big')
        o += len(it)
    return out + b''.join(items)


def charstring(r, width, nominal, nsub, ngsub):
    """a type 2 charstring; lines and curves, some through subroutines"""
    n = lambda v: bytes([v + 139]) if -107 <= v <= 107 else (num(v, 2) if abs(v) <= 1131 else b'\x1c' + BE('h', v))
    out = b'' if width is None else n(width - nominal)
    if r.random() < 0.1:
        return out + b'\x0e'
    if r.random() < 0.3:
        out += n(r.randint(0, 50)) + n(r.randint(20, 200)) + b'\x01'
    for _ in range(r.randint(1, 3)):
        out += n(r.randint(-300, 500)) + n(r.randint(-300, 500)) + b'\x15'
        for _ in range(r.randint(1, 6)):
            k = r.random()
            if k < 0.4:
                out += n(r.randint(-300, 300)) + n(r.randint(-300, 300)) + b'\x05'
            elif k < 0.7:
                out += b''.join(n(r.randint(-300, 300)) for _ in range(6)) + b'\x08'
            elif k < 0.8 and nsub:
                out += n(r.randrange(nsub) - (107 if nsub < 1240 else 1131)) + b'\x0a'
            elif k < 0.9 and ngsub:
                out += n(r.randrange(ngsub) - (107 if ngsub < 1240 else 1131)) + b'\x1d'
            else:
                out += n(r.randint(-300, 300)) + b'\x06'
    return out + b'\x0e'


def matrix(upem):
    """FontMatrix of a font with upem units per em"""
    v = real('%.12f' % (1 / upem) if upem != 1000 else '0.001')
    return v + num(0) + num(0) + v + num(0) + num(0) + op(0xc07)


def cff(r, ng, adv, cid=None, upem=1000, where=None):
    cid = r.random() < 0.5 if cid is None else cid
    if where is None:       # where the scale is told
        where = 'no' if upem == 1000 else 'top'
    n = lambda v: bytes([v + 139]) if -107 <= v <= 107 else (num(v, 2) if abs(v) <= 1131 else b'\x1c' + BE('h', v))
    # offsets above 65535 among the charstrings: some of them begin with many moves
    huge = r.random() < 0.15
    subr = lambda: n(r.randint(-200, 200)) + n(r.randint(-200, 200)) + b'\x05\x0b'
    ngsub = r.choice([0, 0, 1, 3, 0, 1, 3, 1, 3, 1300])
    gsubrs = [subr() for _ in range(ngsub)]
    strings, sid = [], {}
    def S(t):
        if t not in sid:
            sid[t] = 391 + len(strings)
            strings.append(t.encode())
        return sid[t]
    nfd = r.randint(1, 5) if cid else 1
    fds = []
    for k in range(nfd):
        nsub = r.choice([0, 1, 2, 7, 0, 1, 2, 7, 1, 2, 7, 1300])
        fds.append(dict(nsub=nsub, subrs=[subr() for _ in range(nsub)], dw=r.choice([0, 500, 1000]), nw=r.choice([0, 600])))
    # consecutive glyphs share a font dictionary
    sel, cur = [], 0
    for g in range(ng):
        if r.random() < 0.3:
            cur = r.randrange(nfd)
        sel.append(cur)
    if nfd > 1 and r.random() < 0.3:
        sel[0] = sel[1] = nfd - 1
    cs = []
    for g in range(ng):
        fd = fds[sel[g]]
        w = None if adv[g] == fd['dw'] else adv[g]
        cs.append(charstring(r, w, fd['nw'], fd['nsub'], ngsub))
        if huge and r.random() < 0.5 and cs[-1][-1:] == b'\x0e':
            cs[-1] = cs[-1][:-1] + b''.join(n(r.randint(-90, 90)) + n(r.randint(-90, 90)) + (b'\x15' if k % 9 == 0 else b'\x05') for k in range(r.randint(500, 2500))) + b'\x0e'
    desc = r.random() < 0.8
    top = []                # (operands as bytes, op) in order; ints to be patched are None
    if cid:
        top.append((num(S('Adobe')) + num(S('Identity')) + num(0), 0xc1e))
    opt = [(1, 'A notice'), (2, 'Synth Full'), (3, 'Synth'), (4, 'Regular')]
    for o, t in opt:
        if desc or r.random() < 0.5:
            top.append((num(S(t)), o))
    bbox = [r.choice([-300, -170, -30, 0]), r.choice([-250, -10]), 1100, 1100]
    if desc or r.random() < 0.5:
        top.append((b''.join(num(v, r.choice([None, 28, 29])) for v in bbox), 5))
    if r.random() < 0.3:
        top.append((real('-12.5') if r.random() < 0.5 else num(-7), 0xc02))
    if r.random() < 0.3:
        top.append((num(-100) + b'', 0xc03))
    if cid:
        if r.random() < 0.9:
            top.append((num(0) if r.random() < 0.5 else real('1.002'), 0xc1f))
        top.append((num(ng), 0xc22))
    elif r.random() < 0.3:
        top.append((num(0), 16))
    names = [S('g%d' % k) if r.random() < 0.9 else min(390, k) for k in range(1, ng)] if not cid else None
    used = set()
    if names is not None:
        for k, v in enumerate(names):
            if v in used:
                names[k] = S('dup%d' % k)
            used.add(names[k])
    gl = names if names is not None else list(range(1, ng))
    cf = r.choice([0, 1, 2])
    if cf == 0:
        charset = b'\0' + BE('%dH' % len(gl), *gl)
    else:
        rng = []
        for v in gl:
            if rng and rng[-1][0] + rng[-1][1] + 1 == v and rng[-1][1] < (255 if cf == 1 else 65535):
                rng[-1][1] += 1
            else:
                rng.append([v, 0])
        charset = bytes([cf]) + b''.join(BE('HB' if cf == 1 else 'HH', a, c) for a, c in rng)
    sf = r.choice([0, 3])
    if sf == 0:
        fdsel = b'\0' + bytes(sel)
    else:
        rg = []
        for g, f in enumerate(sel):
            if not rg or rg[-1][1] != f:
                rg.append((g, f))
        fdsel = b'\3' + BE('H', len(rg)) + b''.join(BE('HB', *x) for x in rg) + BE('H', ng)
    def private(fd):
        items = []
        if r.random() < 0.6:
            items.append((num(-15) + num(15) + num(700) + num(12), 6))
        if r.random() < 0.4:
            items.append((real('0.039625'), 0xc09))
        if r.random() < 0.4:
            items.append((num(80), 10))
        items.append((num(fd['dw']), 20))
        items.append((num(fd['nw']), 21))
        r.shuffle(items)
        if fd['nsub']:
            k = len(items) if r.random() < 0.5 else r.randint(0, len(items))
            size = sum(len(a) + len(op(o)) for a, o in items) + 6
            items.insert(k, (b'\x1d' + BE('i', size), 19))
        return b''.join(a + op(o) for a, o in items), index(fd['subrs']) if fd['nsub'] else b''
    osz = r.choice([None, None, 2, 3, 4])
    hdr = b'\1\0\4' + bytes([r.choice([1, 2, 4])])
    nameidx = index([b'SynthCFF%d' % r.randint(0, 999)])
    stridx, gidx, csidx = index(strings, osz), index(gsubrs, osz), index(cs, osz)
    ph = b'\x1d\0\0\0\0'
    keys = ['charset', 'cs'] + (['fda', 'fds'] if cid else ['priv'])
    r.shuffle(keys)
    num_op = {'charset': 15, 'cs': 17, 'fda': 0xc24, 'fds': 0xc25, 'priv': 18}
    def topdict(v):
        out = b''.join(a + op(o) for a, o in top)
        if where == 'top':
            out += matrix(upem)
        for k in keys:
            out += b''.join(b'\x1d' + BE('i', x) for x in v[k]) + op(num_op[k])
        return out
    zero = {k: [0, 0] if k == 'priv' else [0] for k in keys}
    base = len(hdr) + len(nameidx) + len(index([topdict(zero)])) + len(stridx) + len(gidx)
    blocks = ['charset', 'cs'] + (['fds', 'privs', 'fda'] if cid else ['privs'])
    r.shuffle(blocks)
    if cid:
        blocks.remove('fda')
        blocks.insert(r.randint(blocks.index('privs') + 1, len(blocks)), 'fda')
    pos, body, v = base, b'', {}
    privat = []
    for b in blocks:
        if b == 'charset':
            v['charset'] = [pos + len(body)]
            body += charset
        elif b == 'cs':
            v['cs'] = [pos + len(body)]
            body += csidx
        elif b == 'fds':
            v['fds'] = [pos + len(body)]
            body += fdsel
        elif b == 'privs':
            for fd in fds:
                d, s = private(fd)
                privat.append((len(d), pos + len(body)))
                body += d + s
            v['priv'] = list(privat[0])
        else:
            L = []
            for k, fd in enumerate(fds):
                d = b''
                if where == 'fd' or where == 'no' and r.random() < 0.3:
                    d += matrix(upem)
                d += b'\x1d' + BE('i', privat[k][0]) + b'\x1d' + BE('i', privat[k][1]) + op(18)
                L.append(d)
            v['fda'] = [pos + len(body)]
            body += index(L)
    return hdr + nameidx + index([topdict(v)]) + stridx + gidx + body


def opentype(r, ng=None, cid=None):
    ng = ng or r.randint(3, 60)
    adv, lsb = [r.choice([0, 300, 500, 777, 1000, 1999]) for _ in range(ng)], [r.randint(-50, 50) for _ in range(ng)]
    T = {}
    T['maxp'] = BE('IH', 0x5000, ng)
    upem = r.choice([1000, 1000, 1000, 2048, 500, 4096, 256])
    adv = common(r, T, ng, upem, adv, lsb, charmap(r, ng), 'SynthCff%d' % r.randint(0, 999))
    T['CFF '] = cff(r, ng, adv, cid, upem, None if upem != 1000 else r.choice(['no', 'no', 'top']))
    return T


def font(r, kind=None):
    """-> (kind, file contents, index of the face to use)"""
    kind = kind or r.choice(['ttf', 'ttf', 'ttf', 'cff', 'cid', 'ttc', 'otc'])
    if kind == 'ttf':
        return kind, sfnt(truetype(r)), 0
    if kind in ('cff', 'cid'):
        return kind, sfnt(opentype(r, cid=kind == 'cid'), b'OTTO'), 0
    n = r.randint(1, 4)
    k = r.randrange(n)
    if kind == 'ttc':
        return kind, ttc([(truetype(r), b'\0\1\0\0') for _ in range(n)], r.choice([1, 2])), k
    return kind, ttc([(opentype(r), b'OTTO') for _ in range(n)], r.choice([1, 2])), k
