"""Damaged and crafted font files: healthy ones (synthesised and from testdata) changed at the places a parser trusts."""
import os, random, struct
import synthfonts as S

BE = lambda f, *a: struct.pack('>' + f, *a)
HEAD = [('I', 0), ('I', 12), ('H', 16), ('H', 18), ('h', 36), ('H', 50), ('h', 52)]
INTEREST = {1: [0, 1, 2, 3, 4, 5, 127, 128, 254, 255],
            2: [0, 1, 2, 3, 15, 16, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff],
            3: [0, 1, 0xffff, 0x7fffff, 0xffffff],
            4: [0, 1, 2, 3, 4, 255, 0xffff, 0x10000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0, 0xfffffffc, 0xfffffffe, 0xffffffff]}


def u(b, p, n):
    return int.from_bytes(b[p:p + n], 'big')


def cff_index(b, p):
    """-> (items as (start, end), end, fields) of the INDEX at p"""
    F = [(p, 2, 'index.count')]
    n = u(b, p, 2)
    if not n:
        return [], p + 2, F
    s = u(b, p + 2, 1)
    F.append((p + 2, 1, 'index.offsize'))
    if not 1 <= s <= 4:
        return [], p + 3, F
    offs = [u(b, p + 3 + k * s, s) for k in range(n + 1)]
    base = p + 3 + (n + 1) * s - 1
    F += [(p + 3 + k * s, s, 'index.offset') for k in ([0, 1, n // 2, n - 1, n] if n > 4 else range(n + 1))]
    return [(base + a, base + c) for a, c in zip(offs, offs[1:])], base + offs[-1], F


def cff_dict(b, p, e):
    """-> [(operator, [operand values], position, [(position, size) of operands])]"""
    out, vals, pos, start = [], [], [], p
    while p < e:
        c = b[p]
        if c <= 21:
            o = c
            q = p + 1
            if c == 12:
                o = 0xc00 | u(b, p + 1, 1)
                q += 1
            out.append((o, vals, start, pos, p))
            vals, pos, start = [], [], q
            p = q
            continue
        if c == 28:
            n, v = 3, u(b, p + 1, 2)
        elif c == 29:
            n, v = 5, u(b, p + 1, 4)
        elif c == 30:
            n = 1
            while p + n < e and b[p + n] & 15 != 15 and b[p + n] >> 4 != 15:
                n += 1
            n, v = n + 1, -1
        elif c >= 247:
            n, v = 2, (c - 247) * 256 + u(b, p + 1, 1) + 108
        else:
            n, v = 1, c - 139
        vals.append(v)
        pos.append((p, n))
        p += n
    return out


def cff_fields(b, base):
    """interesting places of the CFF table at base (absolute positions)"""
    c = b[base:]
    F = [(0, 1, 'hdr'), (1, 1, 'hdr'), (2, 1, 'hdr.size'), (3, 1, 'hdr.offsize')]
    it, p, f = cff_index(c, 4)
    F += f
    top, p, f = cff_index(c, p)
    F += f
    it, p, f = cff_index(c, p)
    F += f
    it, p, f = cff_index(c, p)
    F += f
    def dict_fields(a, e, name):
        for o, vals, st, pos, opp in cff_dict(c, a, e):
            F.append((opp, 1, name + '.op%x' % o))
            for q, n in pos:
                F.append((q, 1, name + '.opnd%x' % o))
                if n == 5:
                    F.append((q + 1, 4, name + '.int%x' % o))
                    if o in (15, 17, 18, 19, 0xc24, 0xc25):
                        F.extend([(q + 1, 4, name + '.int%x' % o)] * 3)
        return {o: v for o, v, *_ in cff_dict(c, a, e)}
    if top:
        d = dict_fields(top[0][0], top[0][1], 'top')
        if 17 in d and d[17]:
            F += cff_index(c, d[17][0])[2]
        if 15 in d and d[15]:
            F += [(d[15][0], 1, 'charset.format'), (d[15][0] + 1, 2, 'charset')]
        priv = [d[18]] if len(d.get(18, [])) == 2 else []
        if 0xc25 in d and d[0xc25]:
            q = d[0xc25][0]
            F += [(q, 1, 'fdselect.format'), (q + 1, 2, 'fdselect.count'), (q + 1, 1, 'fdselect'), (q + 3, 2, 'fdselect.first'), (q + 5, 1, 'fdselect.fd')]
        if 0xc24 in d and d[0xc24]:
            fda, _, f = cff_index(c, d[0xc24][0])
            F += f
            for a, e in fda[:4]:
                dd = dict_fields(a, e, 'fd')
                if len(dd.get(18, [])) == 2:
                    priv.append(dd[18])
        for n, o in priv[:3]:
            dd = dict_fields(o, o + n, 'private')
            if 19 in dd and dd[19]:
                F += cff_index(c, o + dd[19][0])[2]
    return [(base + p, n, 'cff.' + k) for p, n, k in F if base + p + n <= len(b)]


def fields(b):
    """[(position, size, what)] of the numbers a font parser relies on"""
    F, starts = [], [0]
    if b[:4] == b'ttcf':
        n = min(u(b, 8, 4), 8)
        F += [(4, 2, 'ttc.version'), (8, 4, 'ttc.count')] + [(12 + 4 * k, 4, 'ttc.offset') for k in range(n)] * 2
        starts = [u(b, 12 + 4 * k, 4) for k in range(n)]
    for s in starts:
        nt = u(b, s + 4, 2)
        F += [(s, 4, 'dir.tag'), (s + 4, 2, 'dir.count')]
        for k in range(min(nt, 40)):
            e = s + 12 + 16 * k
            tag, off, ln = b[e:e + 4], u(b, e + 8, 4), u(b, e + 12, 4)
            F += [(e, 1, 'dir.entry.tag'), (e + 8, 4, 'dir.entry.offset'), (e + 12, 4, 'dir.entry.length')]
            t = tag.decode('latin1')
            if t == 'head':
                F += [(off + p, 2 if k in 'hH' else 4, 'head.%d' % p) for k, p in HEAD]
            elif t == 'maxp':
                F += [(off, 4, 'maxp.version')] + [(off + 4, 2, 'maxp.glyphs')] * 3 + [(off + 6 + 2 * k, 2, 'maxp.limit') for k in range(13) if ln >= 32]
            elif t == 'hhea':
                F += [(off, 4, 'hhea.version'), (off + 32, 2, 'hhea.format')] + [(off + 34, 2, 'hhea.metrics')] * 3
            elif t == 'loca':
                for q in (0, 2, 4, 6, ln // 2 & ~3, ln - 8, ln - 4, ln - 2):
                    F += [(off + q, 2, 'loca'), (off + q, 4, 'loca')]
            elif t == 'cmap':
                F += [(off + 2, 2, 'cmap.count')]
                for j in range(min(u(b, off + 2, 2), 4)):
                    so = u(b, off + 4 + 8 * j + 4, 4)
                    F += [(off + 4 + 8 * j + 4, 4, 'cmap.offset')] * 2 + [(off + so, 2, 'cmap.format'), (off + so + 2, 2, 'cmap.length'), (off + so + 6, 2, 'cmap.segs')]
            elif t == 'glyf':
                F += glyf_fields(b, off, ln)
            elif t == 'CFF ':
                try:
                    F += cff_fields(b, off) * 2
                except (IndexError, struct.error):
                    pass
            elif t == 'name':
                F += [(off + 2, 2, 'name.count'), (off + 4, 2, 'name.strings')] + [(off + 6 + 12 * j + q, 2, 'name.rec') for j in range(4) for q in (6, 8, 10)]
                F += [(off + ln - 1 - 2 * j, 1, 'name.text') for j in range(0, min(24, ln // 2), 2)]
            elif t in ('fvar', 'gvar', 'avar', 'HVAR', 'STAT', 'MVAR'):
                F += [(off + q, 2, t) for q in range(0, min(ln, 40), 2)]
            elif t in ('kern', 'GPOS', 'OS/2', 'post'):
                F += [(off + q, 2, t) for q in range(0, min(ln, 12), 2)]
    return [f for f in F if 0 <= f[0] and f[0] + f[1] <= len(b)]


def glyf_fields(b, off, ln):
    """headers of glyphs, found by scanning for composite headers and through the start"""
    F = [(off, 2, 'glyf.contours')]
    p, n = off, 0
    while n < 30:
        q = b.find(b'\xff\xff', p, off + ln)
        if q < 0:
            break
        F += [(q, 2, 'glyf.contours'), (q + 10, 2, 'glyf.flags'), (q + 12, 2, 'glyf.part'), (q + 12, 2, 'glyf.part')]
        p, n = q + 2, n + 1
    return F


# ---- crafted ones
def chain(r, n, loop=False):
    """glyph 1 is made of 2, 2 of 3, ...; the last is simple (or leads back)"""
    gl = [b'', ] + [BE('hhhhh', -1, 0, 0, 9, 9) + BE('HHbb', 2, k + 1 if k + 1 < n else (1 if loop else 0), 0, 0) for k in range(1, n)]
    return assemble(r, gl)


def fan(r, n, parts):
    """glyph 1 has very many parts"""
    d = BE('hhhhh', -1, 0, 0, 9, 9)
    ids = [r.randrange(2, n) for _ in range(parts)]
    for k, g in enumerate(ids):
        d += BE('HHbb', 2 | (0x20 if k + 1 < parts else 0), g, 0, 0)
    return assemble(r, [b'', d] + [S.simple_glyph(r, [[(0, 0, True), (5, 0, True), (5, 5, True)]])] + [b''] * (n - 3))


def assemble(r, glyphs, lf=None):
    n = len(glyphs)
    T, glyf, loca = {}, b'', []
    parts = []
    pos = 0
    for d in glyphs:
        loca.append(pos)
        d += b'\0' * (-len(d) % 2)
        parts.append(d)
        pos += len(d)
    loca.append(pos)
    T['glyf'] = b''.join(parts) or b'\0\0'
    lf = (1 if pos > 131070 else r.choice([0, 1])) if lf is None else lf
    T['loca'] = BE('%dI' % len(loca), *loca) if lf else BE('%dH' % len(loca), *[x // 2 for x in loca])
    T['maxp'] = BE('IH13H', 0x10000, n, 500, 50, 2000, 200, 2, 0, 8, 8, 0, 64, 64, 16, r.choice([8, 0xffff]))
    S.common(r, T, n, 1000, [500] * n, [0] * n, {0x20: 1, **{0x41 + k: min(n - 1, 1 + k) for k in range(26)}}, 'Crafted', lf)
    return S.sfnt(T)


def many_fds(r, nfd, share):
    """a CID-keyed font with very many font dictionaries that share one private dictionary and its subroutines"""
    ng = 5
    T = S.opentype(r, ng, cid=False)
    cs = S.index([b'\x8b\x0e'] * ng)
    subrs = S.index([b'\x0b'] * share)
    priv = S.num(500) + S.op(20)
    priv += b'\x1d' + BE('i', len(priv) + 6) + S.op(19)
    hdr = b'\1\0\4\4'
    name, strs, gs = S.index([b'Many']), S.index([b'Adobe', b'Identity']), S.index([])
    def top(v):
        return S.num(391) + S.num(392) + S.num(0) + S.op(0xc1e) + b''.join(b'\x1d' + BE('i', x) + S.op(o) for x, o in zip(v, (0xc22, 15, 17, 0xc24, 0xc25)))
    base = len(hdr + name + S.index([top([0] * 5)]) + strs + gs)
    charset = b'\0' + BE('%dH' % (ng - 1), *range(1, ng))
    fdsel = b'\0' + bytes(ng)
    p_cs = base + len(charset)
    p_sel = p_cs + len(cs)
    p_priv = p_sel + len(fdsel)
    p_fda = p_priv + len(priv) + len(subrs)
    fd = b'\x1d' + BE('i', len(priv)) + b'\x1d' + BE('i', p_priv) + S.op(18)
    T['CFF '] = hdr + name + S.index([top([ng, base, p_cs, p_fda, p_sel])]) + strs + gs + charset + cs + fdsel + priv + subrs + S.index([fd] * nfd)
    return S.sfnt(T, b'OTTO')


def crafted(r):
    k = r.randrange(11)
    if k == 0:
        return 'chain', chain(r, r.choice([10, 300, 5000, 40000, 65535]))
    if k == 1:
        return 'loop', chain(r, r.choice([2, 3, 50, 20000]), True)
    if k == 2:
        n = r.choice([65535, 65534, 65535])
        return 'max-glyphs', assemble(r, [b'', S.simple_glyph(r, S.contours(r))] + [b''] * (n - 2), r.choice([0, 1]))
    if k == 3:
        return 'fan', fan(r, 3000, r.choice([100, 2000, 9000]))
    if k == 4:
        return 'many-fds', many_fds(r, r.choice([2, 255, 256, 257, 3000, 60000]), r.choice([1, 3, 200, 5000]))
    if k == 5:                          # a cut composite glyph
        g = S.composite_glyph(r, [2])
        return 'cut-composite', assemble(r, [b'', g[:r.randrange(2, len(g))], S.simple_glyph(r, S.contours(r))])
    if k == 6:                          # without outlines
        T = S.truetype(r) if r.random() < 0.5 else S.opentype(r)
        for t in ('glyf', 'loca', 'CFF '):
            if r.random() < 0.7:
                T.pop(t, None)
        return 'no-outlines', S.sfnt(T, r.choice([b'OTTO', b'\0\1\0\0']))
    if k == 7:                          # both kinds of outlines
        T, T2 = S.truetype(r), S.opentype(r)
        T['CFF '] = T2['CFF ']
        if r.random() < 0.5:
            T['maxp'] = T2['maxp']
        return 'both', S.sfnt(T, r.choice([b'OTTO', b'\0\1\0\0', b'true']))
    if k == 8:                          # an empty font
        T = S.truetype(r)
        T['maxp'] = T['maxp'][:4] + b'\0\0' + T['maxp'][6:]
        T['hhea'] = T['hhea'][:34] + b'\0\0'
        T['loca'] = b'\0' * 4
        return 'no-glyphs', S.sfnt(T)
    if k == 9:                          # strange names
        T = S.truetype(r) if r.random() < 0.5 else S.opentype(r)
        if r.random() < 0.3:
            T.pop('name')
        else:
            T['name'] = S.name_table(''.join(r.choice(' /()<>[]{}%#\t\n\u00e4\u4e00AB') for _ in range(r.randint(0, 12))))
        return 'names', S.sfnt(T, b'OTTO' if 'CFF ' in T else b'\0\1\0\0')
    T = S.truetype(r)
    T['hmtx'] = T['hmtx'][:r.randrange(len(T['hmtx']) + 1)]
    return 'short-hmtx', S.sfnt(T)


BASES = ['NotoSans-Regular.ttf', 'P052-Roman.otf', 'AmstelVar-Roman.ttf', 'NotoSansSymbols2-Regular.ttf']
_cache = {}


def base(r, repo):
    if r.random() < 0.15:
        n = r.choice(BASES)
        p = os.path.join(repo, 'testdata', 'fonts', n)
        if os.path.exists(p):
            if n not in _cache:
                _cache[n] = open(p, 'rb').read()
            return n, _cache[n], 0
    k, b, i = S.font(r)
    if r.random() < 0.25 and k in ('cff', 'cid'):          # the bare CFF program
        b, k = S.read_sfnt(b)[1]['CFF '], 'bare-' + k
    return k, b, i


def mutate(r, b):
    """-> (what, bytes)"""
    b = bytearray(b)
    k = r.random()
    if k < 0.62:
        try:
            F = fields(bytes(b))
        except (IndexError, struct.error):
            F = []
        if F:
            what = []
            names = sorted({f[2] for f in F})
            for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
                nm = r.choice(names)            # all kinds of fields alike
                p, n, w = r.choice([f for f in F if f[2] == nm]) if r.random() < 0.8 else r.choice(F)
                old = int.from_bytes(b[p:p + n], 'big')
                m = r.random()
                if m < 0.55:
                    v = r.choice(INTEREST[n])
                elif m < 0.7:
                    v = old + r.choice([-1, 1, -2, 2, 4, -4, 8, 16])
                elif m < 0.8:
                    v = r.choice([len(b), len(b) - 1, len(b) + 1, len(b) - 12, -old, old * 2, 0xffffffff - len(b) + r.randint(0, 40)])
                else:
                    v = r.getrandbits(8 * n)
                b[p:p + n] = (v & (1 << 8 * n) - 1).to_bytes(n, 'big')
                what.append(w)
            return 'field.' + what[0], bytes(b)
    if k < 0.70:
        return 'truncate', bytes(b[:r.choice([r.randrange(len(b) + 1), r.randrange(min(len(b), 600) + 1), max(0, len(b) - r.randint(1, 64))])])
    if k < 0.78:
        for _ in range(r.choice([1, 2, 8, 60])):
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        return 'bitflip', bytes(b)
    if k < 0.83:
        p = r.randrange(len(b))
        n = r.choice([1, 2, 4, 100])
        if r.random() < 0.5:
            del b[p:p + n]
        else:
            b[p:p] = bytes(r.getrandbits(8) for _ in range(n))
        return 'shift', bytes(b)
    if k < 0.88:
        p = r.randrange(len(b))
        n = r.choice([4, 64, 1000])
        b[p:p + n] = r.choice([b'\0', b'\xff', b'\x7f', b'\x80']) * len(b[p:p + n])
        return 'fill', bytes(b)
    try:
        _, T = S.read_sfnt(bytes(b), u(b, 12, 4) if b[:4] == b'ttcf' else 0)
    except (IndexError, struct.error):
        return 'same', bytes(b)
    if not T or len(T) > 60:
        return 'same', bytes(b)
    t = r.choice(sorted(T))
    m = r.random()
    if m < 0.35:
        del T[t]
        what = 'drop.' + t
    elif m < 0.65:
        T[t] = T[t][:r.randrange(len(T[t]) + 1)] if r.random() < 0.7 else b''
        what = 'cut.' + t
    elif m < 0.8:
        T[t] = T[r.choice(sorted(T))]
        what = 'swap.' + t
    else:
        T[t] = bytes(r.getrandbits(8) for _ in range(r.choice([0, 4, 54, 300])))
        what = 'noise.' + t
    if not T:
        return 'same', bytes(b)
    return what, S.sfnt(T, bytes(b[:4]) if b[:4] != b'ttcf' else b'\0\1\0\0')


def hostile(r, repo):
    """-> (what, bytes, face index)"""
    k = r.random()
    if k < 0.02:
        return 'noise', bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 3, 4, 12, 100, 5000]))), 0
    if k < 0.04:
        return 'other', r.choice([b'', b'%!PS-AdobeFont-1.0: X\n', b'\x80\x01', b'wOFF' + bytes(60), b'STARTFONT 2.1\n', b'ttcf', b'ttcf\0\1\0\0' + b'\xff' * 4, b'OTTO', b'\0\1\0\0',
                                  b'ttcf\0\1\0\0\0\0\0\1\xff\xff\xff\xf0', b'OTTO\x7f\xff' + bytes(200)]), r.choice([0, 0, 1, 65535])
    if k < 0.14:
        w, b = crafted(r)
        if r.random() < 0.2:
            w2, b = mutate(r, b)
            w += '+' + w2.split('.')[0]
        return w, b, 0
    kind, b, i = base(r, repo)
    w, b = mutate(r, b)
    if r.random() < 0.05:
        i = r.choice([0, 1, 2, 65535])
    return kind.split('-')[0].lower()[:8] + ':' + w, b, i
