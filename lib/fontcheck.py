"""Compares the embedded font programs, widths and ToUnicode maps with the source fonts (read by FreeType)."""
import os, re, struct
from pdf import Stream, Name
import fonts

SCRAPE = 'CAPY_SCRAPE_PROTECT'


def parse_w(P, w):
    """-> {cid: width}, or raises"""
    out = {}
    w = P.get(w) or []
    i = 0
    while i < len(w):
        c = P.get(w[i])
        n = P.get(w[i + 1])
        if isinstance(n, list):
            for k, x in enumerate(n):
                x = P.get(x)
                if isinstance(x, bool) or not isinstance(x, (int, float)):
                    raise ValueError('width %r' % (x,))
                if c + k in out:
                    raise ValueError('two widths for %d' % (c + k))
                out[c + k] = x
            i += 2
        else:
            x = P.get(w[i + 2])
            for k in range(c, n + 1):
                out[k] = x
            i += 3
    return out


TOK = re.compile(rb'\s*(?:%[^\r\n]*[\r\n]\s*)*(<<|>>|<[0-9A-Fa-f\s]*>|\((?:[^()\\]|\\.)*\)|/[^\s<>\[\]()/%]*|\[|\]|[^\s<>\[\]()/%]+)', re.S)


def parse_cmap(data):
    """Strict reader for ToUnicode CMaps.  -> ({code: text}, issues)"""
    iss, toks, i = [], [], 0
    while i < len(data):
        m = TOK.match(data, i)
        if not m:
            if data[i:].strip():
                iss.append('rubbish at %d: %r' % (i, data[i:i + 30]))
            break
        toks.append(m.group(1))
        i = m.end()
    out, ranges = {}, []
    def hexb(t):
        if not (t.startswith(b'<') and not t.startswith(b'<<')):
            raise ValueError('%r is no code' % t)
        h = b''.join(t[1:-1].split())
        if len(h) % 2:
            raise ValueError('odd number of digits in %r' % t)
        return bytes.fromhex(h.decode())
    def text(b, code):
        if not b or len(b) % 2:
            raise ValueError('code %d maps to %r' % (code, b))
        return b.decode('utf-16-be')
    need = [b'begincmap', b'endcmap', b'/CIDSystemInfo', b'/CMapName', b'/CMapType', b'begincodespacerange']
    for n in need:
        if n not in toks:
            iss.append('no %s' % n.decode())
    inside = None
    k = 0
    last = -1
    try:
        while k < len(toks):
            t = toks[k]
            if t in (b'beginbfchar', b'beginbfrange', b'begincodespacerange'):
                n = int(toks[k - 1])
                if not 1 <= n <= 100:
                    iss.append('a block with %d entries' % n)
                end = t.replace(b'begin', b'end')
                k += 1
                cnt = 0
                while k < len(toks) and toks[k] != end:
                    a = hexb(toks[k])
                    if t == b'begincodespacerange':
                        ranges.append((a, hexb(toks[k + 1])))
                        k += 2
                    else:
                        code = int.from_bytes(a, 'big')
                        if not any(len(a) == len(lo) and all(x <= y <= z for x, y, z in zip(lo, a, hi)) for lo, hi in ranges):
                            iss.append('code %r is outside of the code space' % a)
                        if t == b'beginbfchar':
                            if code in out:
                                iss.append('code %d is mapped twice' % code)
                            out[code] = text(hexb(toks[k + 1]), code)
                            k += 2
                        else:
                            hi = int.from_bytes(hexb(toks[k + 1]), 'big')
                            d = hexb(toks[k + 2])
                            if code >> 8 != hi >> 8 or hi < code:
                                iss.append('range %x-%x' % (code, hi))
                            for j in range(code, hi + 1):
                                v = int.from_bytes(d, 'big') + j - code
                                out[j] = text(v.to_bytes(len(d), 'big'), j)
                            k += 3
                    cnt += 1
                if k >= len(toks):
                    iss.append('%s is never closed' % t.decode())
                if cnt != n:
                    iss.append('a %s block announces %d entries and has %d' % (t.decode(), n, cnt))
            k += 1
    except (ValueError, IndexError) as e:
        iss.append('bad entry: %s' % e)
    return out, iss


def sfnt_issues(b, boxes=False):
    """Structure of an OpenType file."""
    iss = []
    if len(b) < 12:
        return ['only %d bytes' % len(b)], {}
    n = struct.unpack('>H', b[4:6])[0]
    if b[:4] not in (b'\0\1\0\0', b'true', b'OTTO'):
        iss.append('version %r' % b[:4])
    if len(b) < 12 + 16 * n or not n:
        return iss + ['directory of %d tables in %d bytes' % (n, len(b))], {}
    es = 0
    while 2 << es <= n:
        es += 1
    if struct.unpack('>HHH', b[6:12]) != (16 << es, es, n * 16 - (16 << es)):
        iss.append('searchRange, entrySelector, rangeShift are %r for %d tables' % (struct.unpack('>HHH', b[6:12]), n))
    tabs, spans = {}, []
    prev = b''
    for i in range(n):
        tag, cs, off, ln = struct.unpack('>4sIII', b[12 + 16 * i:28 + 16 * i])
        if tag in tabs:
            iss.append('two %s tables' % tag)
        if tag <= prev:
            iss.append('table directory is not sorted: %r after %r' % (tag, prev))
        prev = tag
        if off + ln > len(b):
            iss.append('%s table %d+%d of %d bytes' % (tag.decode('latin1'), off, ln, len(b)))
            continue
        if off < 12 + 16 * n:
            iss.append('%s table lies over the directory' % tag.decode('latin1'))
        if off % 4:
            iss.append('%s table is not aligned' % tag.decode('latin1'))
        spans.append((off, off + ln, tag))
        t = b[off:off + ln]
        tabs[tag.decode('latin1')] = t
        if tag == b'head':
            t = t[:8] + b'\0\0\0\0' + t[12:]
        t += b'\0' * (-len(t) % 4)
        if sum(struct.unpack('>%dI' % (len(t) // 4), t)) & 0xffffffff != cs:
            iss.append('checksum of %s' % tag.decode('latin1'))
    spans.sort()
    for (a, e, t), (a2, e2, t2) in zip(spans, spans[1:]):
        if e > a2:
            iss.append('tables %r and %r overlap' % (t, t2))
    for t in ('head', 'hhea', 'hmtx', 'maxp', 'loca', 'glyf'):
        if t not in tabs:
            iss.append('no %s table' % t)
    if not iss:
        iss += glyf_issues(tabs, boxes)
    return iss, tabs


def glyf_issues(T, boxes=False):
    iss = []
    head, maxp, hhea = T['head'], T['maxp'], T['hhea']
    if len(head) < 54 or len(maxp) < 6 or len(hhea) < 36:
        return ['short head, maxp or hhea table']
    if head[12:16] != b'\x5f\x0f\x3c\xf5':
        iss.append('magic of head')
    ng = struct.unpack('>H', maxp[4:6])[0]
    nh = struct.unpack('>H', hhea[34:36])[0]
    if not 1 <= nh <= ng or len(T['hmtx']) < 4 * nh + 2 * (ng - nh):
        iss.append('hmtx has %d bytes for %d glyphs, %d metrics' % (len(T['hmtx']), ng, nh))
    lf = struct.unpack('>h', head[50:52])[0]
    if lf not in (0, 1):
        return iss + ['indexToLocFormat %d' % lf]
    need = (ng + 1) * (4 if lf else 2)
    if len(T['loca']) != need:
        return iss + ['loca has %d bytes instead of %d' % (len(T['loca']), need)]
    loca = struct.unpack('>%d%s' % (ng + 1, 'I' if lf else 'H'), T['loca'])
    if not lf:
        loca = [2 * x for x in loca]
    glyf = T['glyf']
    if any(a > b for a, b in zip(loca, loca[1:])) or loca[-1] > len(glyf):
        return iss + ['loca is not monotonic or leaves glyf']
    comps = {}
    for g in range(ng):
        d = glyf[loca[g]:loca[g + 1]]
        if not d:
            continue
        if len(d) < 10:
            iss.append('glyph %d has %d bytes' % (g, len(d)))
            continue
        nc = struct.unpack('>h', d[:2])[0]
        if nc == 0:
            continue                    # nothing needs to follow
        if nc > 0:
            p = 10 + 2 * nc
            if len(d) < p + 2:
                iss.append('glyph %d is cut' % g)
                continue
            ends = struct.unpack('>%dH' % nc, d[10:p])
            if any(a >= b for a, b in zip(ends, ends[1:])):
                iss.append('glyph %d has contour ends %r' % (g, ends))
                continue
            il = struct.unpack('>H', d[p:p + 2])[0]
            p += 2 + il
            npts = ends[-1] + 1 if ends else 0
            fl = []
            try:
                while len(fl) < npts:
                    f = d[p]
                    p += 1
                    r = 1
                    if f & 8:
                        r += d[p]
                        p += 1
                    fl += [f] * r
                size = sum((1 if f & 2 else 0 if f & 16 else 2) + (1 if f & 4 else 0 if f & 32 else 2) for f in fl)
                if len(fl) != npts or p + size > len(d):
                    iss.append('glyph %d: %d points in %d bytes' % (g, npts, len(d)))
                elif boxes:
                    want = []
                    for short, same in ((2, 16), (4, 32)):
                        v, vs = 0, []
                        for f in fl:
                            if f & short:
                                v += d[p] if f & same else -d[p]
                                p += 1
                            elif not f & same:
                                v += struct.unpack('>h', d[p:p + 2])[0]
                                p += 2
                            vs.append(v)
                        want += [min(vs), max(vs)]
                    if struct.unpack('>4h', d[2:10]) != (want[0], want[2], want[1], want[3]):
                        iss.append('glyph %d has the bounding box %r, its points %r' % (g, struct.unpack('>4h', d[2:10]), want))
            except IndexError:
                iss.append('glyph %d is cut' % g)
        else:
            p = 10
            cs = []
            try:
                while True:
                    f, c = struct.unpack('>HH', d[p:p + 4])
                    cs.append(c)
                    p += 4 + (4 if f & 1 else 2) + (2 if f & 8 else 4 if f & 0x40 else 8 if f & 0x80 else 0)
                    if p > len(d):
                        raise struct.error
                    if not f & 0x20:
                        break
            except struct.error:
                iss.append('composite glyph %d is cut' % g)
            if any(c >= ng for c in cs):
                iss.append('glyph %d is made of %r, there are %d' % (g, cs, ng))
            comps[g] = cs
    def depth(g, seen):
        if g in seen:
            return True
        return any(depth(c, seen | {g}) for c in comps.get(g, ()))
    if any(depth(g, frozenset()) for g in comps):
        iss.append('a composite glyph contains itself')
    return iss


def outline_close(a, b, tol):
    if a is None or b is None:
        return a is b
    if len(a) != len(b):
        return False
    return all(x[0] == y[0] and len(x) == len(y) and all(abs(p - q) <= tol for p, q in zip(x[1:], y[1:])) for x, y in zip(a, b))


def embedded(V, fobj):
    """-> (font dict, cid dict, descriptor, stream, data) of a font resource; None after reporting"""
    P = V.P
    fd = P.get(V.bound.get(fobj))
    d = (P.get(fd.get('DescendantFonts')) or [None]) if isinstance(fd, dict) else [None]
    cid = P.get(d[0])
    if not isinstance(cid, dict):
        V.bad('P11 P12', 'font.descendant', '%r is %.200r' % (fobj, fd))
        return None
    desc = P.get(cid.get('FontDescriptor'))
    st = P.get((desc or {}).get('FontFile3') or (desc or {}).get('FontFile2'))
    if not isinstance(st, Stream):
        V.bad('P11', 'font.file', '%r has no font file' % (fobj,))
        return None
    return fd, cid, desc, st, P.decoded(st)


def run(V):
    P = V.P
    for fobj, codes in V.shows.items():
        fobj_src = fonts.face(fobj.path, fobj.props)
        e = embedded(V, fobj)
        if e is None:
            continue
        fd, cid, desc, st, data = e
        name = os.path.basename(fobj.path)
        if fd.get('Encoding') != 'Identity-H':
            V.bad('P11 P12', 'font.encoding', 'is %r' % (fd.get('Encoding'),))
            continue
        sub = st.d.get('Subtype')
        if cid.get('Subtype') == 'CIDFontType0' and sub == 'CIDFontType0C':
            if data[:4] in (b'OTTO', b'\0\1\0\0'):
                V.bad('P11', 'font.kind', '%s: not a bare CFF program' % name)
        elif cid.get('Subtype') == 'CIDFontType2' and sub in ('OpenType', None):
            iss, _t = sfnt_issues(data, 'Amstel' in fobj.path)
            for x in iss[:5]:
                V.bad('P11', 'sfnt.' + x, name)
            if 'CIDToGIDMap' in cid and cid['CIDToGIDMap'] != 'Identity':
                V.bad('P11', 'font.cidtogid', 'is %r' % (cid['CIDToGIDMap'],))
        else:
            V.bad('P11', 'font.kind', '%s: %r with font file %r' % (name, cid.get('Subtype'), sub))
        V.stats['fonts'] += 1
        emb = fonts.Face(data=data)
        if not emb.ok:
            V.bad('P11', 'font.unreadable', '%s: FreeType can not read the embedded program (%d bytes)' % (name, len(data)))
            continue
        ng, upem, eupem = emb.nglyphs, fobj_src.upem, emb.upem
        try:
            W = parse_w(P, cid.get('W'))
        except Exception as x:
            V.bad('P11', 'font.W', '%s: %s' % (name, x))
            W = {}
        DW = P.get(cid.get('DW'))
        DW = 1000 if DW is None else DW
        tu = P.get(fd.get('ToUnicode'))
        umap = None
        if isinstance(tu, Stream):
            umap, iss = parse_cmap(P.decoded(tu))
            for x in iss[:5]:
                V.bad('P12', 'cmap.' + x, name)
        var = bool(fobj.props and (fobj.props.get('axes') or 'instance' in fobj.props)) or 'Amstel' in fobj.path
        asked, kinds = {}, {}
        gidof = lambda it: fobj_src.gid(it[1]) if it[0] == 'u' else it[1]
        for its in list(codes.values()) + [fobj.asked]:
            for it in its:
                kinds.setdefault(gidof(it), set()).add(it[0])
                if it[0] == 'g':
                    asked.setdefault(it[1], set()).add(chr(it[2]))
                elif it[0] == 'l':
                    asked.setdefault(it[1], set()).add(it[2])
                else:
                    asked.setdefault(gidof(it), set()).add(chr(it[1]))
        for code, its in sorted(codes.items()):
            gids = {gidof(it) for it in its}
            if code >= ng:
                V.bad('P11', 'font.code', '%s: code %d, the embedded font has %d glyphs' % (name, code, ng))
                continue
            eo, ea = emb.outline(code), emb.advance(code)
            for g in gids:
                V.stats['glyphs_compared'] += 1
                so = fobj_src.outline(g)
                if so is None:
                    continue
                if so:
                    V.stats['outlines'] += 1
                if eo is None:
                    V.bad('P11', 'font.outline', '%s: code %d (glyph %d) does not load' % (name, code, g))
                    continue
                k = upem / eupem
                if k != 1:
                    eo2 = [(o[0],) + tuple(c * k for c in o[1:]) for o in eo]
                else:
                    eo2 = eo
                if not outline_close(so, eo2, 1.01 if var else 0.01):
                    V.bad('P11', 'font.outline', '%s: code %d draws another outline than glyph %d (%r)' % (name, code, g, sorted(its, key=repr)[:3]))
                adv = fobj_src.advance(g)
                w = W.get(code, DW)
                if abs(w - adv * 1000.0 / upem) > 1.001:
                    V.bad('P11', 'font.width', '%s: code %d has width %r, glyph %d advances %.3f' % (name, code, w, g, adv * 1000.0 / upem))
                if abs(ea * k - adv) > 1.01:
                    V.bad('P11', 'font.advance', '%s: code %d advances %r in the embedded font, glyph %d %r' % (name, code, ea * k, g, adv))
            if umap is None:
                V.bad('P12', 'font.tounicode', '%s has no ToUnicode map' % name)
                continue
            got = umap.get(code)
            for it in its:
                V.stats['texts'] += 1
                if SCRAPE in os.environ:
                    if got is None:
                        V.bad('P12', 'text.scrape', 'code %d is not mapped' % code)
                    continue
                if it[0] == 'u':
                    ok = got == chr(it[1])
                elif it[0] == 'l' and kinds[it[1]] == {'l'}:
                    # only ever used as a ligature: every text has a code of its own
                    ok = got == it[2]
                else:
                    ok = got in asked[it[1]]
                if not ok:
                    V.bad('P12', 'text.' + it[0], '%s: code %d reads %r, shown was %r' % (name, code, got, it))
        emb.close()
