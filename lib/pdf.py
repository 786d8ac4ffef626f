"""A strict PDF reader.  Every deviation from the syntax rules is recorded in .issues."""
import re, zlib

WS = b'\0\t\n\x0c\r '
DELIM = b'()<>[]{}/%'
_num = re.compile(rb'[+-]?(?:\d+\.\d*|\.\d+|\d+)\Z')
_reg = re.compile(rb'[^\0\t\n\x0c\r ()<>\[\]{}/%]+')
_ws = re.compile(rb'(?:[\0\t\n\x0c\r ]+|%[^\r\n]*)*')


class PDFError(Exception):
    pass


class Name(str):
    __slots__ = ()

    def __repr__(self):
        return '/' + str.__str__(self)


class Op(str):
    __slots__ = ()

    def __repr__(self):
        return 'Op(%s)' % str.__str__(self)


class Ref(tuple):
    __slots__ = ()

    def __new__(cls, n, g):
        return tuple.__new__(cls, (n, g))

    def __repr__(self):
        return '%d %d R' % self


class Stream:
    def __init__(self, d, raw):
        self.d, self.raw, self._data = d, raw, None
        self.num = None

    def __repr__(self):
        return 'Stream(%r, %d bytes)' % (self.d, len(self.raw))


class Lexer:
    def __init__(self, buf, pos=0, issues=None, where=''):
        self.b, self.p = buf, pos
        self.issues = issues if issues is not None else []
        self.where = where
        self.depth = 0

    def issue(self, m):
        self.issues.append('%s%s (at byte %d)' % (self.where, m, self.p))

    def skip(self):
        self.p = _ws.match(self.b, self.p).end()

    def token(self):
        """Returns ('x', value): kinds: num name str op [ ] << >> eof"""
        self.skip()
        b, p = self.b, self.p
        if p >= len(b):
            return 'eof', None
        c = b[p:p + 1]
        if c == b'/':
            m = _reg.match(b, p + 1)
            raw = m.group(0) if m else b''
            self.p = p + 1 + len(raw)
            if not raw:
                self.issue('empty name')
            out = bytearray()
            i = 0
            while i < len(raw):
                ch = raw[i]
                if ch == 0x23:
                    h = raw[i + 1:i + 3]
                    try:
                        if len(h) != 2:
                            raise ValueError
                        v = int(h, 16)
                        if v == 0:
                            self.issue('#00 in name %r' % raw)
                        out.append(v)
                        i += 3
                        continue
                    except ValueError:
                        self.issue('bad # escape in name %r' % raw)
                elif ch < 33 or ch > 126:
                    self.issue('unescaped byte 0x%02x in name %r' % (ch, raw))
                out.append(ch)
                i += 1
            return 'name', Name(bytes(out).decode('utf-8', 'surrogateescape'))
        if c == b'(':
            return 'str', self._litstr()
        if c == b'<':
            if b[p:p + 2] == b'<<':
                self.p = p + 2
                return '<<', None
            e = b.find(b'>', p)
            if e < 0:
                raise PDFError(self.where + 'unterminated hex string at %d' % p)
            h = bytes(x for x in b[p + 1:e] if x not in WS)
            self.p = e + 1
            if len(h) % 2:
                h += b'0'
            try:
                return 'str', bytes.fromhex(h.decode('latin-1'))
            except ValueError:
                self.issue('bad hex string %r' % h[:40])
                return 'str', b''
        if c == b'>':
            if b[p:p + 2] == b'>>':
                self.p = p + 2
                return '>>', None
            self.p = p + 1
            self.issue('stray >')
            return self.token()
        if c in b'[]':
            self.p = p + 1
            return c.decode(), None
        if c in b'{})':
            self.p = p + 1
            self.issue('stray %s' % c.decode())
            return self.token()
        m = _reg.match(b, p)
        t = m.group(0)
        self.p = m.end()
        if _num.match(t):
            s = t.decode()
            if '.' in s:
                return 'num', float(s)
            return 'num', int(s)
        return 'op', Op(t.decode('latin-1'))

    def _litstr(self):
        b = self.b
        p = self.p + 1
        out = bytearray()
        lvl = 1
        n = len(b)
        while True:
            if p >= n:
                raise PDFError(self.where + 'unterminated string')
            c = b[p]
            p += 1
            if c == 0x28:
                lvl += 1
                out.append(c)
            elif c == 0x29:
                lvl -= 1
                if lvl == 0:
                    break
                out.append(c)
            elif c == 0x5c:
                d = b[p:p + 1]
                p += 1
                k = b'nrtbf'.find(d) if d else -1
                if k >= 0:
                    out.append(b'\n\r\t\b\f'[k])
                elif d in (b'(', b')', b'\\'):
                    out += d
                elif d and d in b'01234567':
                    o = d
                    while len(o) < 3 and b[p:p + 1] and b[p:p + 1] in b'01234567':
                        o += b[p:p + 1]
                        p += 1
                    out.append(int(o, 8) & 255)
                elif d == b'\r':
                    if b[p:p + 1] == b'\n':
                        p += 1
                elif d == b'\n':
                    pass
                else:
                    self.issue('unknown escape \\%r' % d)
                    out += d
            elif c == 0x0d:
                if b[p:p + 1] == b'\n':
                    p += 1
                out.append(0x0a)
            else:
                out.append(c)
        self.p = p
        return bytes(out)

    def obj(self, tok=None, refs=True):
        k, v = tok or self.token()
        if k == 'num':
            if refs and isinstance(v, int):
                save = self.p
                m = _refre.match(self.b, self.p)
                if m:
                    self.p = m.end()
                    if v < 0:
                        self.issue('negative object number')
                    return Ref(v, int(m.group(1)))
                self.p = save
            return v
        if k in ('name', 'str'):
            return v
        if k == '[':
            self.depth += 1
            if self.depth > 200:
                raise PDFError('nesting too deep')
            out = []
            while True:
                t = self.token()
                if t[0] == ']':
                    break
                if t[0] == 'eof':
                    raise PDFError(self.where + 'unterminated array')
                out.append(self.obj(t, refs))
            self.depth -= 1
            return out
        if k == '<<':
            self.depth += 1
            if self.depth > 200:
                raise PDFError('nesting too deep')
            d = {}
            while True:
                t = self.token()
                if t[0] == '>>':
                    break
                if t[0] != 'name':
                    raise PDFError(self.where + 'dictionary key is not a name: %r (at byte %d)' % (t, self.p))
                t2 = self.token()
                if t2[0] in ('>>', 'eof', ']'):
                    raise PDFError(self.where + 'key /%s has no value (at byte %d)' % (t[1], self.p))
                val = self.obj(t2, refs)
                if t[1] in d:
                    self.issue('duplicate key /%s in dictionary' % t[1])
                d[t[1]] = val
            self.depth -= 1
            return d
        if k == 'op':
            if v == 'true':
                return True
            if v == 'false':
                return False
            if v == 'null':
                return None
            raise PDFError(self.where + 'unexpected keyword %r (at byte %d)' % (str(v), self.p))
        raise PDFError(self.where + 'unexpected %r (at byte %d)' % (k, self.p))


_refre = re.compile(rb'[\0\t\n\x0c\r ]+(\d+)[\0\t\n\x0c\r ]+R(?=[\0\t\n\x0c\r ()<>\[\]{}/%]|\Z)')
_objre = re.compile(rb'(\d+) (\d+) obj[\0\t\n\x0c\r ]')


def inflate(data, what, issues):
    d = zlib.decompressobj()
    try:
        out = d.decompress(data) + d.flush()
    except zlib.error as e:
        issues.append('%s: zlib error %s' % (what, e))
        return b''
    if not d.eof:
        issues.append('%s: truncated zlib data' % what)
    if d.unused_data:
        issues.append('%s: %d bytes after end of zlib data' % (what, len(d.unused_data)))
    return out


def unpredict(data, pred, colors, bpc, cols, issues, what):
    if pred < 10:
        issues.append('%s: unsupported predictor' % what)
        return data
    bpp = max(1, colors * bpc // 8)
    row = (colors * bpc * cols + 7) // 8
    out = bytearray()
    prev = bytearray(row)
    if len(data) % (row + 1):
        issues.append('%s: predictor rows do not divide data' % what)
    for o in range(0, len(data) - row, row + 1):
        ft = data[o]
        cur = bytearray(data[o + 1:o + 1 + row])
        for i in range(row):
            a = cur[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            if ft == 1:
                cur[i] = (cur[i] + a) & 255
            elif ft == 2:
                cur[i] = (cur[i] + b) & 255
            elif ft == 3:
                cur[i] = (cur[i] + (a + b) // 2) & 255
            elif ft == 4:
                pa, pb, pc = abs(b - c), abs(a - c), abs(a + b - 2 * c)
                pr = a if pa <= pb and pa <= pc else (b if pb <= pc else c)
                cur[i] = (cur[i] + pr) & 255
        out += cur
        prev = cur
    return bytes(out)


class Pdf:
    """Parsed file: .objects {num: value}, .trailer, .version, .issues"""

    def __init__(self, data):
        self.data = data
        self.issues = []
        self.objects = {}
        self.loc = {}       # num -> ('n', offset) | ('c', stmnum, idx)
        self.trailer = {}
        self.version = None
        self.xref_kind = None
        self.fatal = None
        self._free = set()
        try:
            self._load()
        except PDFError as e:
            self.fatal = str(e)
            self.issues.append('FATAL ' + str(e))
        except (ValueError, IndexError, KeyError, RecursionError, TypeError, AttributeError) as e:
            self.fatal = repr(e)
            self.issues.append('FATAL reader exception %r' % e)

    def issue(self, m):
        self.issues.append(m)

    # -- loading
    def _load(self):
        b = self.data
        m = re.match(rb'%PDF-(\d\.\d)(\r\n|\n|\r)', b)
        if not m:
            raise PDFError('bad header %r' % b[:12])
        self.version = m.group(1).decode()
        m2 = re.compile(rb'%([^\r\n]*)(\r\n|\n|\r)').match(b, m.end())
        if not m2 or sum(1 for c in m2.group(1)[:4] if c >= 128) < 4:
            self.issue('no binary marker comment after header')
            hend = m.end()
        else:
            hend = m2.end()
        m = re.search(rb'startxref(\r\n|\n|\r)(\d+)(\r\n|\n|\r)%%EOF(\r\n|\n|\r)?\Z', b)
        if not m:
            raise PDFError('no startxref/%%EOF at the end of file')
        sx = int(m.group(2))
        spans = [(0, hend), (m.start(), len(b))]
        if b[sx:sx + 4] == b'xref':
            self.xref_kind = 'table'
            end = self._xref_table(sx)
            spans.append((sx, end))
            xnum = None
        else:
            self.xref_kind = 'stream'
            xnum, v, end = self._indirect(sx)
            spans.append((sx, end))
            if not isinstance(v, Stream) or v.d.get('Type') != 'XRef':
                raise PDFError('startxref does not point at a cross-reference')
            self.objects[xnum] = v
            self._xref_stream(v)
            self.trailer = {k: x for k, x in v.d.items() if k not in ('Type', 'W', 'Index', 'Length', 'Filter', 'DecodeParms')}
            if xnum not in self.loc:
                self.issue('cross-reference stream does not list itself')
            elif self.loc[xnum] != ('n', sx):
                self.issue('cross-reference stream entry of itself is %r, not %d' % (self.loc[xnum], sx))
        size = self.trailer.get('Size')
        if not isinstance(size, int):
            self.issue('trailer /Size missing')
        else:
            nums = set(self.loc) | self._free
            if nums and size != max(nums) + 1:
                self.issue('trailer /Size %d but highest object number is %d' % (size, max(nums)))
            if len(nums) != size:
                self.issue('cross-reference lists %d of %d objects' % (len(nums), size))
        seen = {}
        for num, l in sorted(self.loc.items()):
            if l[0] == 'n':
                if num == xnum:
                    continue
                if l[1] in seen:
                    self.issue('objects %d and %d share offset %d' % (seen[l[1]], num, l[1]))
                seen[l[1]] = num
                n, v, end = self._indirect(l[1])
                spans.append((l[1], end))
                if n != num:
                    self.issue('xref entry %d points at object %d' % (num, n))
                self.objects[num] = v
        stms = {}
        for num, l in sorted(self.loc.items()):
            if l[0] == 'c':
                stms.setdefault(l[1], []).append((l[2], num))
        for sn, entries in sorted(stms.items()):
            self._objstm(sn, entries)
        for num, v in self.objects.items():
            if isinstance(v, Stream):
                v.num = num
                if v.d.get('Type') == 'ObjStm' and num not in stms:
                    self.issue('object stream %d is not used by the cross-reference' % num)
        # lengths given by reference
        # coverage of the file by what was parsed
        spans.sort()
        p = 0
        for s, e in spans:
            if s < p:
                self.issue('file regions overlap at byte %d' % s)
            elif s > p and self.data[p:s].strip(WS):
                self.issue('%d stray bytes at %d: %r' % (s - p, p, self.data[p:p + 40]))
            p = max(p, e)
        self._check_refs()
        for k in ('Root', 'Info'):
            v = self.trailer.get(k)
            if not isinstance(v, Ref) and not (k == 'Info' and k not in self.trailer):
                self.issue('trailer /%s is not a reference: %r' % (k, v))
        idv = self.trailer.get('ID')
        if not (isinstance(idv, list) and len(idv) == 2 and all(isinstance(x, bytes) and len(x) >= 16 for x in idv)):
            self.issue('trailer /ID malformed: %r' % (idv,))

    def _xref_table(self, sx):
        b = self.data
        m = re.compile(rb'xref(\r\n|\n|\r)').match(b, sx)
        if not m:
            raise PDFError('malformed xref keyword line')
        p = m.end()
        sub = re.compile(rb'(\d+) (\d+)(\r\n|\n|\r)')
        ent = re.compile(rb'(\d{10}) (\d{5}) ([nf])( \n| \r|\r\n)')
        while True:
            m = sub.match(b, p)
            if not m:
                break
            p = m.end()
            for i in range(int(m.group(2))):
                e = ent.match(b, p)
                if not e:
                    raise PDFError('malformed xref entry at %d: %r' % (p, b[p:p + 20]))
                num = int(m.group(1)) + i
                if e.group(3) == b'n':
                    if num in self.loc:
                        self.issue('object %d listed twice' % num)
                    self.loc[num] = ('n', int(e.group(1)))
                    if int(e.group(2)) != 0:
                        self.issue('object %d has generation %s' % (num, e.group(2)))
                else:
                    self._free.add(num)
                    if num == 0 and int(e.group(2)) != 65535:
                        self.issue('free list head generation is not 65535')
                p = e.end()
        if 0 not in self._free:
            self.issue('object 0 is not free')
        if self._free - {0}:
            self.issue('unexpected free objects %r' % sorted(self._free - {0})[:5])
        m = re.compile(rb'trailer[\r\n ]+').match(b, p)
        if not m:
            raise PDFError('no trailer after xref table')
        lx = Lexer(b, m.end(), self.issues, 'trailer: ')
        self.trailer = lx.obj()
        return lx.p

    def _xref_stream(self, st):
        w = st.d.get('W')
        if not (isinstance(w, list) and len(w) == 3 and all(isinstance(x, int) and x >= 0 for x in w)):
            raise PDFError('bad /W %r' % (w,))
        data = self.decoded(st)
        size = st.d.get('Size')
        idx = st.d.get('Index', [0, size])
        n = sum(w)
        want = sum(idx[1::2]) * n
        if len(data) != want:
            self.issue('cross-reference stream holds %d bytes, expected %d' % (len(data), want))
        p = 0
        for k in range(0, len(idx), 2):
            for i in range(idx[k + 1]):
                e = data[p:p + n]
                if len(e) < n:
                    break
                p += n
                f = []
                o = 0
                for x in w:
                    f.append(int.from_bytes(e[o:o + x], 'big'))
                    o += x
                t = f[0] if w[0] else 1
                num = idx[k] + i
                if t == 1:
                    self.loc[num] = ('n', f[1])
                    if f[2]:
                        self.issue('object %d has generation %d' % (num, f[2]))
                elif t == 2:
                    self.loc[num] = ('c', f[1], f[2])
                elif t == 0:
                    self._free.add(num)
                else:
                    self.issue('unknown cross-reference entry type %d' % t)
        if 0 not in self._free:
            self.issue('object 0 is not free')
        if self._free - {0}:
            self.issue('unexpected free objects %r' % sorted(self._free - {0})[:5])

    def _indirect(self, off):
        b = self.data
        m = _objre.match(b, off)
        if not m:
            raise PDFError('no object at offset %d: %r' % (off, b[off:off + 20]))
        if m.group(2) != b'0':
            self.issue('object %s has generation %s' % (m.group(1), m.group(2)))
        num = int(m.group(1))
        lx = Lexer(b, m.end() - 1, self.issues, 'object %d: ' % num)
        v = lx.obj()
        lx.skip()
        if b[lx.p:lx.p + 6] == b'stream':
            if not isinstance(v, dict):
                raise PDFError('object %d: stream without dictionary' % num)
            p = lx.p + 6
            if b[p:p + 2] == b'\r\n':
                p += 2
            elif b[p:p + 1] == b'\n':
                p += 1
            else:
                self.issue('object %d: stream keyword not followed by newline' % num)
            ln = v.get('Length')
            if isinstance(ln, Ref):
                l = self.loc.get(ln[0])
                if l and l[0] == 'n':
                    ln = self._indirect(l[1])[1]
            if not isinstance(ln, int):
                raise PDFError('object %d: stream without integer Length: %r' % (num, ln))
            raw = b[p:p + ln]
            if len(raw) != ln:
                raise PDFError('object %d: Length beyond end of file' % num)
            m2 = re.compile(rb'(\r\n|\n|\r)?endstream').match(b, p + ln)
            if not m2:
                raise PDFError('object %d: Length %d does not end at endstream: %r' % (num, ln, b[p + ln:p + ln + 20]))
            if m2.group(1) is None:
                self.issue('object %d: no end of line before endstream' % num)
            lx.p = m2.end()
            lx.skip()
            v = Stream(v, raw)
        if b[lx.p:lx.p + 6] != b'endobj':
            raise PDFError('object %d: no endobj: %r' % (num, b[lx.p:lx.p + 20]))
        return num, v, lx.p + 6

    def _objstm(self, sn, entries):
        st = self.objects.get(sn)
        if not isinstance(st, Stream) or st.d.get('Type') != 'ObjStm':
            raise PDFError('object stream %d missing' % sn)
        data = self.decoded(st)
        n, first = st.d.get('N'), st.d.get('First')
        lx = Lexer(data, 0, self.issues, 'ObjStm %d index: ' % sn)
        pairs = []
        for _ in range(n):
            a = lx.token()
            o = lx.token()
            if a[0] != 'num' or o[0] != 'num':
                raise PDFError('ObjStm %d index malformed' % sn)
            pairs.append((a[1], o[1]))
        if lx.p > first:
            self.issue('ObjStm %d: index overlaps /First' % sn)
        byidx = dict(entries)
        if len(pairs) != len(entries):
            self.issue('ObjStm %d holds %d objects, cross-reference lists %d' % (sn, len(pairs), len(entries)))
        for i, (num, off) in enumerate(pairs):
            if byidx.get(i) != num:
                self.issue('ObjStm %d index %d is object %d, cross-reference says %r' % (sn, i, num, byidx.get(i)))
            lx = Lexer(data, first + off, self.issues, 'object %d (in ObjStm): ' % num)
            if off and data[first + off - 1:first + off] not in (b' ', b'\n', b'\r', b'\t'):
                self.issue('ObjStm %d: object %d does not start at a token boundary' % (sn, num))
            v = lx.obj()
            lx.skip()
            nxt = first + pairs[i + 1][1] if i + 1 < len(pairs) else len(data)
            if lx.p != nxt and data[lx.p:nxt].strip(WS):
                self.issue('ObjStm %d: garbage after object %d' % (sn, num))
            if lx.p > nxt:
                self.issue('ObjStm %d: object %d runs into the next one' % (sn, num))
            if num in self.objects:
                self.issue('object %d defined twice' % num)
            self.objects[num] = v
            if isinstance(v, Ref):
                self.issue('object %d in ObjStm is a bare reference' % num)

    def _check_refs(self):
        def walk(v, where):
            if isinstance(v, Ref):
                if v[0] not in self.objects:
                    self.issue('%s refers to missing object %d' % (where, v[0]))
                elif v[1] != 0:
                    self.issue('%s refers to generation %d' % (where, v[1]))
            elif isinstance(v, dict):
                for x in v.values():
                    walk(x, where)
            elif isinstance(v, list):
                for x in v:
                    walk(x, where)
            elif isinstance(v, Stream):
                walk(v.d, where)
        for n, v in list(self.objects.items()):
            walk(v, 'object %d' % n)
        walk(self.trailer, 'trailer')

    # -- access
    def decoded(self, st):
        if st._data is None:
            what = 'stream %s' % (st.num if st.num is not None else st.d.get('Type', ''))
            f = st.d.get('Filter')
            fl = f if isinstance(f, list) else ([] if f is None else [f])
            parms = st.d.get('DecodeParms', st.d.get('DP'))
            pl = parms if isinstance(parms, list) else [parms] * len(fl)
            data = st.raw
            for x, pm in zip(fl, pl):
                if x == 'FlateDecode':
                    data = inflate(data, what, self.issues)
                    if pm and pm.get('Predictor', 1) > 1:
                        data = unpredict(data, pm['Predictor'], pm.get('Colors', 1), pm.get('BitsPerComponent', 8),
                                         pm.get('Columns', 1), self.issues, what)
                elif x == 'DCTDecode':
                    break
                elif x == 'RunLengthDecode':
                    data = rle(data)
                elif x == 'ASCIIHexDecode':
                    data = bytes.fromhex(data.split(b'>')[0].decode('latin-1'))
                else:
                    self.issue('%s: unsupported filter %r' % (what, x))
            st._data = data
        return st._data

    def decode_all(self):
        for n, v in sorted(self.objects.items()):
            if isinstance(v, Stream):
                v.num = n
                self.decoded(v)

    def get(self, v):
        k = 0
        while isinstance(v, Ref):
            v = self.objects.get(v[0])
            k += 1
            if k > 20:
                self.issue('reference chain loop')
                return None
        return v

    def dget(self, d, *keys):
        """Follow keys through dictionaries (streams count as their dictionary)."""
        for k in keys:
            d = self.get(d)
            if isinstance(d, Stream):
                d = d.d
            if isinstance(d, list) and isinstance(k, int):
                d = d[k] if k < len(d) else None
                continue
            if not isinstance(d, dict):
                return None
            d = d.get(k)
        return self.get(d)

    @property
    def root(self):
        return self.get(self.trailer.get('Root'))

    @property
    def info(self):
        return self.get(self.trailer.get('Info'))

    def pages(self):
        """[(Ref, dict)] in order, walking the page tree."""
        out = []

        def walk(ref, depth, parent):
            d = self.get(ref)
            if depth > 60:
                self.issue('page tree too deep')
                return
            if not isinstance(d, dict):
                self.issue('page tree node %r is not a dictionary' % (ref,))
                return
            if d.get('Type') == 'Pages':
                n0 = len(out)
                kids = self.get(d.get('Kids'))
                if not isinstance(kids, list):
                    self.issue('Pages without Kids')
                    return
                for k in kids:
                    kd = self.get(k)
                    if isinstance(kd, dict) and self.get(kd.get('Parent')) is not d:
                        self.issue('page tree kid %r has wrong Parent' % (k,))
                    walk(k, depth + 1, d)
                if d.get('Count') != len(out) - n0:
                    self.issue('Pages Count is %r, has %d leaves' % (d.get('Count'), len(out) - n0))
            elif d.get('Type') == 'Page':
                out.append((ref, d))
            else:
                self.issue('page tree node has Type %r' % (d.get('Type'),))
        walk(self.dget(self.root, 'Pages') and self.root.get('Pages'), 0, None)
        return out


def rle(data):
    out = bytearray()
    i = 0
    while i < len(data):
        n = data[i]
        if n == 128:
            break
        if n < 128:
            out += data[i + 1:i + 2 + n]
            i += 2 + n
        else:
            out += data[i + 1:i + 2] * (257 - n)
            i += 2
    return bytes(out)


def content_ops(data, issues=None, where='content'):
    """Content stream -> [(operator, [operands])]"""
    issues = issues if issues is not None else []
    lx = Lexer(data, 0, issues, where + ': ')
    ops, stack = [], []
    while True:
        try:
            t = lx.token()
            if t[0] == 'eof':
                break
            if t[0] == 'op' and t[1] not in ('true', 'false', 'null'):
                ops.append((str(t[1]), stack))
                stack = []
            elif t[0] in (']', '>>'):
                issues.append('%s: stray %s at byte %d' % (where, t[0], lx.p))
            else:
                stack.append(lx.obj(t, refs=False))
        except PDFError as e:
            issues.append(str(e))
            stack = []
            if lx.p >= len(data):
                break
    if stack:
        issues.append('%s: operands without operator at the end: %r' % (where, stack))
    return ops


def text_string(b, utf8=True):
    """Decode a PDF text string; returns str or None when it is not decodable.  UTF-8 came with PDF 2.0."""
    if b is None:
        return None
    try:
        if b[:2] == b'\xfe\xff':
            return b[2:].decode('utf-16-be')
        if utf8 and b[:3] == b'\xef\xbb\xbf':
            return b[3:].decode('utf-8')
        return ''.join(_pdfdoc(c) for c in b)
    except UnicodeDecodeError:
        return None


_PD = {0x18: 0x2d8, 0x19: 0x2c7, 0x1a: 0x2c6, 0x1b: 0x2d9, 0x1c: 0x2dd, 0x1d: 0x2db, 0x1e: 0x2da, 0x1f: 0x2dc,
       0x80: 0x2022, 0x81: 0x2020, 0x82: 0x2021, 0x83: 0x2026, 0x84: 0x2014, 0x85: 0x2013, 0x86: 0x192, 0x87: 0x2044,
       0x88: 0x2039, 0x89: 0x203a, 0x8a: 0x2212, 0x8b: 0x2030, 0x8c: 0x201e, 0x8d: 0x201c, 0x8e: 0x201d, 0x8f: 0x2018,
       0x90: 0x2019, 0x91: 0x201a, 0x92: 0x2122, 0x93: 0xfb01, 0x94: 0xfb02, 0x95: 0x141, 0x96: 0x152, 0x97: 0x160,
       0x98: 0x178, 0x99: 0x17d, 0x9a: 0x131, 0x9b: 0x142, 0x9c: 0x153, 0x9d: 0x161, 0x9e: 0x17e, 0xa0: 0x20ac}


def _pdfdoc(c):
    return chr(_PD.get(c, c))


if __name__ == '__main__':
    import sys
    for fn in sys.argv[1:]:
        p = Pdf(open(fn, 'rb').read())
        p.decode_all()
        print(fn, p.version, p.xref_kind, len(p.objects), 'objects', len(p.pages()) if not p.fatal else '-', 'pages')
        for i in p.issues:
            print('   ', i)
        if '-v' in sys.argv:
            for n, v in sorted(p.objects.items()):
                print(n, v)
