"""Compares a written file with the model of the calls that made it (model.Doc).

Every difference is tagged with the properties it speaks about; a check keeps those with its own id ('*' counts for all)."""
import calendar, collections, os, re, time
from pdf import Pdf, Name, Ref, Stream, content_ops, text_string
import schema, content, model, fontcheck

BLEND = [b for b in schema.BLEND if b != 'Compatible']
SPOT = [s for s in schema.SPOT if s != 'Cosine']
VIEW = ['D', 'T', 'H', 'C']
CSUB = ['S', 'D', 'N', 'F', 'Desc', 'ModDate', 'CreationDate', 'Size', 'CompressedSize']
DEV = {'RGB': 'DeviceRGB', 'GRAY': 'DeviceGray', 'CMYK': 'DeviceCMYK'}
NCH = {'RGB': 3, 'GRAY': 1, 'CMYK': 4}
IDENT = ('page', 'annot', 'ocg', 'struct', 'outline', 'field')
KTAG = {'icc': 'P16', 'lab': 'P16', 'sep': 'P25', 'function': 'P25', 'shading': 'P25', 'pattern': 'P25', 'softmask': 'P28', 'gstate': 'P28',
        'trgroup': 'P28', 'form': 'P28', 'image': 'P15', 'font': 'P11', 'ocg': 'P20', 'annot': 'P20', 'field': 'P20', 'page': 'P21',
        'struct': 'P18', 'outline': 'P19', 'embedded': 'P27', 'stream3d': 'P20'}
TOL = 5.2e-7


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def close(a, b):
    return isnum(a) and abs(a - b) <= TOL + 1e-12 * abs(b)


def gen_key(s):
    return re.sub(r'[0-9]+', '#', s)[:80]


def nums(vals):
    return ('A', [('n', v) for v in vals])


def N(s):
    return ('N', s)


def T(s):
    return ('t', s)


B = lambda v: ('bool', bool(v))
I = lambda v: ('i', v)


MISSING = {'t': {'P08'}, 'b': {'P09'}, 'N': {'P09'}}


class Mismatch(Exception):
    pass


class V:
    def __init__(self, P, doc, fonts=True, want=None):
        self.P, self.doc = P, doc
        self.issues = []
        self.bound = {}
        self.silent = self.searches = 0
        self.budget = 1000
        self.shallow = False
        self.owner = {}
        self.shows = {}             # font Obj -> {code: set(items)}
        self.showlist = []          # (font Obj, [codes], [items]) in order of appearance
        self.stats = collections.Counter()
        self.fontchecks = fonts
        self.structs_ok = True

    # ---- reporting
    def bad(self, tags, key, msg):
        if isinstance(tags, str):
            tags = tags.split()
        if self.silent:
            raise Mismatch()
        self.issues.append((frozenset(tags), gen_key(key), '%s: %s' % (key, msg)))

    def of(self, prop):
        return [{'key': k, 'msg': m[:900]} for t, k, m in self.issues if prop in t or '*' in t]

    # ---- matching values.  -> None or (extra tags, text)
    def match(self, raw, mt):
        P = self.P
        v = P.get(raw)
        k = mt[0]
        if k == 'n':
            return None if close(v, mt[1]) else ({'P10'} if isnum(v) else set(), 'is %r instead of %r' % (v, mt[1]))
        if k == 'i':
            return None if isinstance(v, int) and not isinstance(v, bool) and v == mt[1] else (set(), 'is %r instead of %r' % (v, mt[1]))
        if k == 'bool':
            return None if isinstance(v, bool) and v == mt[1] else (set(), 'is %r instead of %r' % (v, mt[1]))
        if k == 'N':
            if isinstance(v, Name) and v == mt[1]:
                return None
            return ({'P09'} if isinstance(v, Name) else set()), 'is %r instead of /%s' % (v, mt[1])
        if k == 't':
            if isinstance(v, bytes) and text_string(v, P.version >= '2.0') == mt[1]:
                return None
            return {'P08'}, 'reads %r instead of %r' % (text_string(v, P.version >= '2.0') if isinstance(v, bytes) else v, mt[1])
        if k == 'b':
            return None if isinstance(v, bytes) and v == mt[1] else ({'P09'}, 'is %r instead of %r' % (v, mt[1]))
        if k == 'A':
            if not isinstance(v, list) or len(v) != len(mt[1]):
                return set(), 'is %.200r instead of an array of %d' % (v, len(mt[1]))
            for i, (x, m) in enumerate(zip(v, mt[1])):
                r = self.match(x, m)
                if r:
                    return r[0], '[%d] %s' % (i, r[1])
            return None
        if k == 'D':
            return self.match_dict(v, mt[1])
        if k == 'obj':
            return self.bind(mt[1], raw)
        if k == 'ref':
            return None if isinstance(raw, Ref) and raw == mt[1] else (set(), 'is %r instead of %r' % (raw, mt[1]))
        if k == 'null':
            return None if v is None else (set(), 'is %r instead of null' % (v,))
        if k == 'any':
            return None
        if k == 'mcid':
            return None if v == mt[1].mcid and isinstance(v, int) else ({'P18'}, 'MCID is %r, the item has %r' % (v, mt[1].mcid))
        if k == 'f':
            return mt[1](raw)
        raise ValueError(mt)

    def match_dict(self, v, spec):
        if not isinstance(v, dict):
            return set(), 'is %.200r instead of a dictionary' % (v,)
        for k, m in spec.items():
            if m is None:
                continue
            opt = m[0] == 'opt'
            if k not in v:
                if opt:
                    continue
                return MISSING.get(m[0], set()), 'has no /%s (expected %.200r)' % (k, m)
            r = self.match(v[k], m[1] if opt else m)
            if r:
                return r[0], '/%s %s' % (k, r[1])
        for k in v:
            if spec.get(k) is None and k not in ('Type',):
                # a marked-content property list can hold any name
                return ({'P09'}, 'has an unexpected /%s (%.100r)' % (k, v[k]))
        return None

    def dict(self, tags, where, d, spec, keytags={}, ignore=()):
        """Compares key by key so that every difference is reported under the key's own tags."""
        tags = frozenset(tags.split()) if isinstance(tags, str) else frozenset(tags)
        if isinstance(d, Stream):
            d = d.d
            ignore = tuple(ignore) + ('Length', 'Filter')
        if not isinstance(d, dict):
            self.bad(tags, where, 'is %.200r instead of a dictionary' % (d,))
            return
        for k, m in spec.items():
            t = tags | frozenset(keytags.get(k, '').split())
            if m is None:
                continue
            opt = m[0] == 'opt'
            if k not in d:
                if not opt:
                    self.bad(t | MISSING.get(m[0], set()), where + '.' + k, 'is missing, expected %.300r' % (m,))
                continue
            r = self.match(d[k], m[1] if opt else m)
            if r:
                self.bad(t | frozenset(r[0]), where + '.' + k, r[1])
        for k in d:
            if spec.get(k) is None and k != 'Type' and k not in ignore:
                self.bad(tags | frozenset(keytags.get(k, '').split()), where + '.' + k, 'should not be there: %.200r' % (d[k],))
        if 'Type' in spec and spec['Type'] is not None:
            pass

    # ---- objects
    def bind(self, o, raw):
        """The value has to denote object o.  -> None or (tags, text)"""
        kt = KTAG[o.kind]
        if not isinstance(raw, Ref):
            if o.kind == 'shading' or o.kind in ('sep', 'lab', 'icc'):
                pass
            else:
                return {kt}, 'is %.200r instead of a reference to %r' % (raw, o)
        key = raw if isinstance(raw, Ref) else None
        if o in self.bound:
            if key == self.bound[o]:
                return None
            if self.shallow:
                return {kt}, 'is another object'
            if o.kind in ('sep', 'lab', 'icc', 'shading', 'function', 'gstate', 'image', 'softmask') :
                # an equal copy is as good
                if self.silently(o, raw):
                    return None
            return {kt}, 'is %r, but %r is %r' % (raw, o, self.bound[o])
        if o.kind in IDENT:
            other = self.owner.get((o.kind, key))
            if other is not None:
                return {kt}, 'is %r, which is already %r, instead of %r' % (raw, other, o)
        if self.shallow:
            return None
        if o.kind in IDENT:
            self.owner[(o.kind, key)] = o
        self.bound[o] = key
        n = len(self.issues)
        self.verify_obj(o, raw)
        if any('png-mono-shift' != k for _, k, _ in self.issues[n:]) and o.kind not in IDENT and not self.silent and self.searches < 20:
            self.searches += 1
            # something else of that kind?  then the reference is wrong, not the object
            for p in self.doc.all(o.kind):
                if p is not o and self.silently(p, raw):
                    del self.issues[n:]
                    del self.bound[o]
                    return {kt, 'P07'}, 'is %r, which is %r instead of %r' % (raw, p, o)
        return None

    def silently(self, o, raw):
        if self.silent > 2 or self.budget <= 0:
            return False        # bounds the search; reached only where much is wrong already
        self.budget -= 1
        save = (list(self.issues), dict(self.bound), dict(self.owner), {k: {c: set(s) for c, s in d.items()} for k, d in self.shows.items()},
                list(self.showlist), self.stats.copy())
        self.issues = []
        self.bound[o] = raw if isinstance(raw, Ref) else None
        self.silent += 1
        try:
            self.verify_obj(o, raw)
            ok = True
        except Mismatch:
            ok = False
        self.silent -= 1
        self.issues, self.bound, self.owner, self.shows, self.showlist, self.stats = save
        return ok

    def verify_obj(self, o, raw):
        self.stats['v_' + o.kind] += 1
        getattr(self, 'v_' + o.kind)(o, self.P.get(raw), raw)

    def stream(self, v, tags, where):
        if not isinstance(v, Stream):
            self.bad(tags, where, 'is %.200r instead of a stream' % (v,))
            return None
        return self.P.decoded(v)

    def v_icc(self, o, v, raw):
        if not isinstance(v, list) or len(v) != 2 or v[0] != 'ICCBased':
            self.bad('P16', 'icc', 'is %.200r' % (v,))
            return
        self.icc_stream(o, v[1], 'P16')

    def icc_stream(self, o, raw, tags):
        st = self.P.get(raw)
        d = self.stream(st, tags, 'icc.stream')
        if d is None:
            return
        if d != o.data:
            self.bad(tags, 'icc.data', 'profile data differs (%d bytes instead of %d)' % (len(d), len(o.data)))
        self.dict(tags, 'icc.stream', st, {'N': I(o.n)} if o.n else {'N': ('any',)})

    def v_lab(self, o, v, raw):
        if not isinstance(v, list) or len(v) != 2 or v[0] != 'Lab':
            self.bad('P16', 'lab', 'is %.200r' % (v,))
            return
        self.dict('P16', 'lab', self.P.get(v[1]), {'WhitePoint': nums(o.wp), 'Range': nums(o.rng)})

    def v_sep(self, o, v, raw):
        if not isinstance(v, list) or len(v) != 4:
            self.bad('P25 P16', 'sep', 'is %.200r' % (v,))
            return
        for what, x, m, t in (('kind', v[0], N('Separation'), 'P25'), ('name', v[1], N(o.name), 'P25 P16 P09'), ('alternate', v[2], N(DEV[o.cs]), 'P25 P16'),
                              ('tint', v[3], ('obj', o.fn), 'P25')):
            r = self.match(x, m)
            if r:
                self.bad(set(t.split()) | set(r[0]), 'sep.' + what, r[1])

    def v_function(self, o, v, raw):
        t = 'P25'
        if o.ft == 2:
            self.dict(t, 'fn2', v, {'FunctionType': I(2), 'Domain': nums(o.domain), 'C0': nums(o.c0), 'C1': nums(o.c1), 'N': ('n', o.n)})
        elif o.ft == 3:
            self.dict(t, 'fn3', v, {'FunctionType': I(3), 'Domain': nums(o.domain), 'Functions': ('A', [('obj', f) for f in o.fns]),
                                    'Bounds': nums(o.bounds), 'Encode': nums(o.encode)})
        else:
            d = self.stream(v, t, 'fn4')
            if d is None:
                return
            self.dict(t, 'fn4', v, {'FunctionType': I(4), 'Domain': nums(o.domain), 'Range': nums(o.rng)})
            code = o.code.encode() if isinstance(o.code, str) else o.code
            if d.strip() != code.strip():
                self.bad(t, 'fn4.code', 'is %.200r instead of %.200r' % (d, code))

    def v_shading(self, o, v, raw):
        t = 'P25'
        cs = N(DEV[o.cs])
        if o.st in (2, 3):
            ext = ('A', [B(x) for x in o.extend]) if o.extend is not None else ('opt', ('A', [B(0), B(0)]))
            dom = nums(o.domain) if o.domain is not None else ('opt', nums([0, 1]))
            self.dict(t, 'shading%d' % o.st, v, {'ShadingType': I(o.st), 'ColorSpace': cs, 'Coords': nums(o.coords), 'Function': ('obj', o.fn),
                                                 'Extend': ext, 'Domain': dom})
            return
        d = self.stream(v, t, 'mesh')
        if d is None:
            return
        self.dict(t, 'mesh', v, {'ShadingType': I(o.st), 'ColorSpace': cs, 'BitsPerCoordinate': ('any',), 'BitsPerComponent': ('any',),
                                 'BitsPerFlag': ('any',), 'Decode': ('any',)})
        try:
            got = decode_mesh(v.d, d, o.st, NCH[o.cs])
        except Exception as e:
            self.bad(t, 'mesh.data', 'can not be decoded: %r' % (e,))
            return
        want = mesh_items(o)
        if len(got) != len(want):
            self.bad(t, 'mesh.count', '%d elements instead of %d' % (len(got), len(want)))
            return
        dec = v.d['Decode']
        span = max(dec[1] - dec[0], dec[3] - dec[2])
        tol = abs(span) * 2.0 ** -31 + 3e-6
        for i, ((f1, p1, c1), (f2, p2, c2)) in enumerate(zip(got, want)):
            if f1 != f2:
                self.bad(t, 'mesh.flag', 'element %d has flag %d instead of %d' % (i, f1, f2))
            if len(p1) != len(p2) or any(abs(a - b) > tol for a, b in zip(p1, p2)):
                self.bad(t, 'mesh.points', 'element %d has points %r instead of %r' % (i, p1, p2))
            if len(c1) != len(c2) or any(abs(a - b) > 2.0 / 65535 for a, b in zip(c1, c2)):
                self.bad(t, 'mesh.colors', 'element %d has colours %r instead of %r' % (i, c1, c2))

    def v_pattern(self, o, v, raw):
        t = 'P25'
        if o.ctxkind == 'shading':
            self.dict(t, 'shpattern', v, {'PatternType': I(2), 'Shading': ('obj', o.shading),
                                          'Matrix': nums(o.matrix) if o.matrix else ('opt', nums([1, 0, 0, 1, 0, 0]))})
            return
        d = self.stream(v, t, 'tiling')
        if d is None:
            return
        b = o.bbox
        self.dict(t, 'tiling', v, {'PatternType': I(1), 'PaintType': I(1), 'TilingType': ('any',), 'BBox': nums(b), 'XStep': ('n', b[2] - b[0]),
                                   'YStep': ('n', b[3] - b[1]), 'Resources': ('any',),
                                   'Matrix': nums(o.matrix) if o.matrix else ('opt', nums([1, 0, 0, 1, 0, 0]))})
        self.contents(o, d, v.d.get('Resources'), 'tiling', {'P25'})

    def trgroup(self, t):
        return ('D', {'Type': ('opt', N('Group')), 'S': N('Transparency'), 'CS': N(DEV[t['CS']]) if t.get('CS') else None,
                      'I': B(t['I']) if t.get('I') is not None else ('opt', B(0)), 'K': B(t['K']) if t.get('K') is not None else ('opt', B(0))})

    def v_form(self, o, v, raw):
        self.form(o, v, None, 'form')

    def v_trgroup(self, o, v, raw):
        self.form(o, v, o.group or {}, 'trgroup')

    def form(self, o, v, group, where):
        t = {'P28'}
        d = self.stream(v, t, where)
        if d is None:
            return
        g = self.trgroup(group) if group is not None else None
        self.dict(t, where, v, {'Subtype': N('Form'), 'BBox': nums(o.bbox), 'Resources': ('any',), 'Group': g,
                                'Matrix': nums(o.matrix) if o.matrix else ('opt', nums([1, 0, 0, 1, 0, 0]))})
        self.contents(o, d, v.d.get('Resources'), where, t)

    def v_softmask(self, o, v, raw):
        self.dict('P28', 'softmask', v, {'S': N({'ALPHA': 'Alpha', 'LUMINOSITY': 'Luminosity'}[o.subtype]), 'G': ('obj', o.tg)})

    def v_gstate(self, o, v, raw):
        s = {}
        for k, x in o.vals.items():
            if k == 'BM':
                s['BM'] = N(BLEND[x])
            elif k == 'HT':
                s['HT'] = N('Default') if x == 'default' else ('D', {'HalftoneType': I(1), 'Frequency': ('n', x[0]), 'Angle': ('n', x[1]),
                                                                     'SpotFunction': N(SPOT[x[2]])})
            elif k == 'SMask':
                s['SMask'] = ('obj', x)
            elif k == 'BPC':
                s['UseBlackPtComp'] = N(['OFF', 'ON', 'Default'][x])
            elif k in ('CA', 'ca', 'FL', 'SM'):
                s[k] = ('n', x)
            elif k == 'OPM':
                s[k] = I(x)
            else:
                s[k] = B(x)
        self.dict('P28', 'gstate', v, s)

    def v_image(self, o, v, raw):
        conv = getattr(o, 'converted', None)
        t = {'P16', 'P15'} if conv else {'P15'}
        if not isinstance(v, Stream):
            self.bad(t, 'image', 'is %.100r' % (v,))
            return
        pr = o.props
        mask = pr.get('mask')
        s = {'Subtype': N('Image'), 'Width': I(o.w), 'Height': I(o.h), 'BitsPerComponent': I(o.depth)}
        if mask:
            s['ImageMask'] = B(1)
        else:
            s['ColorSpace'] = self.image_cs(o)
        it = pr.get('interp', 'AUTO')
        s['Interpolate'] = B(it == 'SMOOTH') if it != 'AUTO' else None
        if o.alpha is not None:
            s['SMask'] = ('f', lambda r: self.smask(o, r))
        if o.jpg is not None:
            if o.cs == 'CMYK':
                s['Decode'] = nums([1, 0] * 4)
            self.dict(t, 'image', v, s)
            if v.d.get('Filter') != 'DCTDecode' or v.raw != o.jpg:
                self.bad(t, 'image.jpeg', 'the JPEG file is not embedded unchanged')
            return
        s['Decode'] = ('opt', nums([0, 1] * NCH[o.cs]))
        self.dict(t, 'image', v, s)
        d = self.P.decoded(v)
        if conv:
            far = sum(abs(a - b) > 1 for a, b in zip(d, o.pixels))
            if len(d) != len(o.pixels) or far:
                self.bad('P16', 'image.converted', '%s: %d bytes instead of %d, %d components differ, first difference at %d' % (
                    conv, len(d), len(o.pixels), far, next((i for i, (a, b) in enumerate(zip(d, o.pixels)) if abs(a - b) > 1), -1)))
            self.stats['converted_images'] = self.stats.get('converted_images', 0) + 1
            return
        if d != o.pixels:
            alt = getattr(o, 'alt', None)
            care = getattr(o, 'care', None)
            if alt and d == alt[1]:
                self.bad(t, alt[0], 'the pixels of a 1 bit palette picture without transparency are shifted by one')
            elif not (care and masked_equal(d, o.pixels, o.w, o.h, care)):
                self.bad(t, 'image.pixels', '%d bytes instead of %d, first difference at %d' % (
                    len(d), len(o.pixels), next((i for i, (a, b) in enumerate(zip(d, o.pixels)) if a != b), min(len(d), len(o.pixels)))))

    def image_cs(self, o):
        if o.icc is None:
            return N(DEV[o.cs])
        def f(r):
            v = self.P.get(r)
            if not isinstance(v, list) or len(v) != 2 or v[0] != 'ICCBased':
                return set(), 'is %.200r instead of an ICC colour space' % (v,)
            st = self.P.get(v[1])
            if not isinstance(st, Stream) or self.P.decoded(st) != o.icc:
                return set(), 'is not the profile of the picture'
            if st.d.get('N') != NCH[o.cs]:
                return set(), 'profile has N %r' % st.d.get('N')
        return ('f', f)

    def smask(self, o, r):
        v = self.P.get(r)
        if not isinstance(v, Stream):
            return set(), 'is %.100r' % (v,)
        it = o.props.get('interp', 'AUTO')
        rr = self.match_dict({k: x for k, x in v.d.items() if k not in ('Length', 'Filter')}, {
            'Interpolate': B(it == 'SMOOTH') if it != 'AUTO' else None, 'Subtype': N('Image'), 'Width': I(o.w), 'Height': I(o.h), 'BitsPerComponent': I(o.alpha_depth), 'ColorSpace': N('DeviceGray'),
            'Decode': ('opt', nums([0, 1]))})
        if rr:
            return rr
        if self.P.decoded(v) != o.alpha:
            return set(), 'the alpha channel differs (%d bytes instead of %d)' % (len(self.P.decoded(v)), len(o.alpha))

    def v_font(self, o, v, raw):
        if not isinstance(v, dict) or v.get('Subtype') != 'Type0':
            self.bad('P11 P04', 'font', 'is %.200r' % (v,))

    def v_ocg(self, o, v, raw):
        self.dict('P20', 'ocg', v, {'Type': N('OCG'), 'Name': T(o.name)}, {'Name': 'P08'})

    def v_stream3d(self, o, v, raw):
        d = self.stream(v, 'P20', '3dstream')
        if d is None:
            return
        self.dict('P20', '3dstream', v, {'Subtype': N({'UDF': 'U3D', 'PRC': 'PRC'}[o.fmt])})
        if d != o.data:
            self.bad('P20', '3dstream.data', 'differs')

    def v_embedded(self, o, v, raw, af=False):
        """v: file specification"""
        def ef(r):
            st = self.P.get(r)
            if not isinstance(st, Stream):
                return {'P27'}, 'is %.100r' % (st,)
            if self.P.decoded(st) != (o.data or b''):
                return {'P27'}, 'holds %d bytes instead of %d' % (len(self.P.decoded(st)), len(o.data or b''))
            sub = st.d.get('Subtype')
            if (sub is None) != (o.subtype is None) or (sub is not None and (not isinstance(sub, Name) or sub != o.subtype)):
                return {'P27', 'P09'}, 'has MIME type %r instead of %r' % (sub, o.subtype)
            pr = self.P.get(st.d.get('Params'))
            if pr is not None and 'Size' in pr and pr['Size'] != len(o.data or b''):
                return {'P27'}, 'has size %r instead of %d' % (pr['Size'], len(o.data or b''))
        nm = o.name.replace('/', '\\/')
        self.dict('P27', 'filespec', v, {'F': ('f', lambda r: self.fname(r, nm)), 'UF': T(nm), 'AFRelationship': N('Data') if af else ('opt', N('Data')),
                                         'EF': ('D', {'F': ('f', ef), 'UF': ('opt', ('f', ef))})}, {'UF': 'P08', 'F': 'P08'})

    def fname(self, r, nm):
        v = self.P.get(r)
        if isinstance(v, bytes) and (v == nm.encode() or text_string(v, self.P.version >= '2.0') == nm):
            return None
        return {'P08'}, 'is %r instead of %r' % (v, nm)

    # ---- annotations and forms
    def dest(self, d):
        def f(r):
            v = self.P.get(r)
            if not isinstance(v, list) or not v:
                return {'P19', 'P20'} if False else set(), 'destination is %.200r' % (v,)
            if not 0 <= d[1] < len(self.doc.pages):
                return set(), 'page number %d' % d[1]
            m = [('obj', self.doc.pages[d[1]])]
            if d[0] == 'fit':
                m.append(N('Fit'))
            else:
                m += [N('XYZ')] + [('null',) if x is None else ('n', x) for x in d[2]]
            return self.match(v, ('A', m))
        return ('f', f)

    def v_annot(self, o, v, raw):
        s = {'Rect': nums(o.rect), 'F': I(o.flags) if o.flags is not None else ('opt', I(0)), 'P': ('obj', o.page) if o.page is not None else ('opt', ('any',))}
        at = o.at
        kt = {}
        if at == 'text':
            s.update(Subtype=N('Text'), Contents=T(o.text))
        elif at == 'line':
            s.update(Subtype=N('Line'), Contents=T(o.text), L=nums(o.line))
            ld, en = getattr(o, 'leader', None), getattr(o, 'ends', None)
            s['LL'] = ('n', ld[0]) if ld else ('opt', ('n', 0))
            s['LLE'] = ('n', ld[1]) if ld else ('opt', ('n', 0))
            s['LE'] = ('A', [N(schema.LE[x]) for x in en]) if en else ('opt', ('A', [N('None'), N('None')]))
        elif at == 'link':
            s['Subtype'] = N('Link')
            if getattr(o, 'dest', None):
                s['Dest'] = self.dest(o.dest)
            if getattr(o, 'uri', None) is not None:
                s['A'] = ('D', {'Type': ('opt', N('Action')), 'S': N('URI'), 'URI': ('b', o.uri.encode())})
                kt['A'] = 'P09'
        elif at == 'file':
            s.update(Subtype=N('FileAttachment'), FS=('f', lambda r: self.fs(o.file, r)))
            kt['FS'] = 'P27'
        elif at == 'printers_mark':
            s.update(Subtype=N('PrinterMark'), AP=('D', {'N': ('obj', o.form)}))
        elif at == '3d':
            s.update(Subtype=N('3D'), **{'3DD': ('obj', o.stream), 'AP': ('any',), 'AS': ('any',)})
        elif at == 'widget':
            s['Subtype'] = N('Widget')
            if getattr(o, 'parent', None) is not None:
                s['Parent'] = ('obj', o.parent)
            b = getattr(o, 'button', None)
            if b:
                on, off, nm = b
                s['AP'] = ('D', {'N': ('D', {nm: ('obj', on), 'Off': ('obj', off)})})
                s['AS'] = ('opt', N('Off'))
        self.dict('P20', 'annot.' + at, v, s, kt)

    def fs(self, emb, r, af=False):
        n = len(self.issues)
        self.v_embedded(emb, self.P.get(r), r, af)
        if len(self.issues) > n:
            m = self.issues[n][2]
            tags = {'P27', 'P20'}.union(*(x[0] for x in self.issues[n:]))
            del self.issues[n:]
            return tags, 'file specification: ' + m

    def v_field(self, o, v, raw):
        kids = [f for f in self.doc.all('field') if f.parent is o]
        wids = [a for a in self.doc.all('annot') if a.at == 'widget' and getattr(a, 'parent', None) is o]
        s = {'FT': N({'BTN': 'Btn', 'TX': 'Tx', 'CH': 'Ch'}[o.ft]), 'T': T(o.T) if o.T is not None else None,
             'Ff': I(o.Ff) if o.Ff is not None else ('opt', I(0)), 'Parent': ('obj', o.parent) if o.parent is not None else None,
             'Opt': ('A', [T(x) for x in o.opts]) if o.opts else None}
        if o.V is not None:
            s['V'] = N(o.V) if o.ft == 'BTN' else T(o.V)
        if kids or wids:
            s['Kids'] = ('f', lambda r: self.kids(r, kids, wids))
        self.dict('P20', 'field', v, s, {'T': 'P08', 'V': 'P08 P09', 'Opt': 'P08'})

    def kids(self, r, kids, wids):
        v = self.P.get(r)
        if not isinstance(v, list) or not all(isinstance(x, Ref) for x in v) or len(v) != len(kids) + len(wids):
            return set(), 'is %r, expected %d fields and %d widgets' % (v, len(kids), len(wids))
        for x, f in zip(v, kids):
            rr = self.bind(f, x)
            if rr:
                return rr
        return self.assign(v[len(kids):], wids)

    def assign(self, refs, objs):
        """Unordered assignment of references to objects (annotations)."""
        refs, left = list(refs), []
        if len(set(refs)) != len(refs):
            return {'P20'}, 'lists an object twice: %r' % (refs,)
        for o in objs:
            if o in self.bound:
                if self.bound[o] in refs:
                    refs.remove(self.bound[o])
                else:
                    return {'P20'}, '%r is not listed' % o
            else:
                left.append(o)
        free = [r for r in refs if (left and self.owner.get((left[0].kind, r)) is None)]
        cand = {o: [r for r in free if self.plausible(o, r)] for o in left}
        hold = []
        # the least ambiguous first
        for o in sorted(left, key=lambda o: len(cand[o])):
            c = [r for r in cand[o] if r in free]
            if len(c) > 1:
                c = [r for r in c if self.silently(o, r)] or c
            if c:
                free.remove(c[0])
                rr = self.bind(o, c[0])
                if rr:
                    return rr
            else:
                hold.append(o)
        for o, r in zip(hold, list(free)):
            rr = self.bind(o, r)
            if rr:
                return rr
        if len(hold) != len(free):
            return {'P20'}, 'lists %d objects instead of %d' % (len(refs), len(objs))

    def plausible(self, o, r):
        """The object's own entries fit; the objects it refers to are not looked into."""
        self.stats['assign'] += 1
        if not isinstance(self.P.get(r), dict):
            return False
        save, self.issues = self.issues, []
        prev = self.bound.get(o, 0)
        self.shallow = True
        self.bound[o] = r
        try:
            self.verify_obj(o, r)
            return not self.issues
        finally:
            self.shallow = False
            self.issues = save
            if prev == 0:
                del self.bound[o]
            else:
                self.bound[o] = prev

    # ---- content streams
    def contents(self, o, data, R, where, tags):
        """Operators of a context against the recorded calls."""
        R = self.P.get(R)
        got = merge([(op, a) for op, a in content_ops(data, [], where)])
        want = merge_model(o.ops)
        self.stats['ops'] += len(want)
        font = None
        fstack = []
        n = 0
        for (gop, ga), (wop, wm, wt) in zip(got, want):
            if gop == 'SHOW' and wop == 'SHOW':
                r = self.show(font, ga, wm)
            elif gop != wop:
                r = (set(), 'is %s %.150r, the call was %s %.150r' % (gop, ga, wop, wm))
            elif len(ga) != len(wm):
                r = (set(), '%s has operands %.150r instead of %.150r' % (gop, ga, wm))
            else:
                r = None
                for a, m in zip(ga, wm):
                    r = self.operand(gop, a, m, R)
                    if r:
                        r = (r[0], '%s %.100r %s' % (gop, ga, r[1]))
                        break
            if r:
                self.bad({'P04'} | set(tags) | set(wt) | set(r[0]), 'content.' + (wop if wop.isalnum() else wop), 'operation %d of %s %r %s' % (n, where, o, r[1]))
                return
            if wop == 'Tf':
                font = wm[0][2]
            elif wop == 'q':
                fstack.append(font)
            elif wop == 'Q':
                font = fstack.pop() if fstack else font
            n += 1
        if len(got) != len(want):
            x = got[n] if len(got) > len(want) else want[n]
            self.bad({'P04'} | set(tags) | (set(want[n][2]) if len(want) > n else set()), 'content.count',
                     '%s %r has %d operations instead of %d, next %.200r' % (where, o, len(got), len(want), x))

    def operand(self, op, a, m, R):
        if m[0] != 'X':
            return self.match(a, m)
        if not isinstance(a, Name):
            return set(), 'operand is %r' % (a,)
        d = self.P.get(R.get(m[1])) if isinstance(R, dict) else None
        if not isinstance(d, dict) or a not in d:
            return {'P03'}, 'names %s, which is not in the %s resources' % (a, m[1])
        return self.bind(m[2], d[a])

    def show(self, font, got, want):
        """got: [code | ('k', n)], want: items"""
        if font is None:
            return set(), 'text is shown without a font'
        if len(got) != len(want):
            return {'P12'}, 'shows %d glyphs and kernings instead of %d' % (len(got), len(want))
        d = self.shows.setdefault(font, {})
        codes = []
        for i, (g, w) in enumerate(zip(got, want)):
            if isinstance(g, tuple) != (w[0] == 'k'):
                return {'P12'}, 'item %d is %r instead of %r' % (i, g, w)
            if w[0] == 'k':
                if not close(g[1], w[1]):
                    return set(), 'kerning %d is %r instead of %r' % (i, g[1], w[1])
            else:
                d.setdefault(g, set()).add(w)
                codes.append((g, w))
        self.showlist.append((font, codes))
        self.stats['glyphs'] += len(codes)

    # ---- the whole file
    def run(self):
        P = self.P
        for x in P.issues:
            self.bad('P01', 'parse.' + x[:60], x)
        if P.fatal:
            self.bad('*', 'fatal', P.fatal if isinstance(P.fatal, str) else 'the file can not be read: %s' % (P.issues[:3],))
            return self
        n0 = len(P.issues)
        P.decode_all()
        for x in P.issues[n0:]:
            self.bad('P01', 'parse.' + x[:60], x)
        sc = schema.Schema(P)
        for x in sc.run():
            self.bad('P02', 'schema.' + x[:70], x)
        self.schema = sc
        cc = content.Checker(P)
        for x in cc.run():
            self.bad('P03', 'syntax.' + re.sub(r'^\w+ \d+: ', '', x)[:60], x)
        self.syntax = cc
        self.stats['streams'] += cc.nstreams
        self.stats['stream_ops'] += cc.nops
        self.stats['objects'] += len(P.objects)
        self.model()
        return self

    def model(self):
        P, doc = self.P, self.doc
        pages = P.pages()
        if len(pages) != len(doc.pages):
            self.bad('P21 P07 P04', 'pages', '%d pages instead of %d' % (len(pages), len(doc.pages)))
            return
        for (ref, d), o in zip(pages, doc.pages):
            self.bound[o] = ref
            self.owner[('page', ref)] = o
        self.catalog()
        for (ref, d), o in zip(pages, doc.pages):
            self.page(o, ref, d)
        self.struct_pages()
        if self.fontchecks:
            fontcheck.run(self)
        self.info()

    def page(self, o, ref, d):
        doc = self.doc
        self.stats['v_page'] += 1
        s = {'Parent': ('any',), 'LastModified': ('any',), 'Resources': ('any',), 'Contents': ('any',)}
        for k in ('MediaBox', 'CropBox', 'BleedBox', 'TrimBox', 'ArtBox'):
            b = o.boxes.get(k) or doc.p['boxes'].get(k)
            s[k] = nums(b) if b else None
        g = o.group if o.group is not None else doc.p['trgroup']
        s['Group'] = self.trgroup(g) if g is not None else None
        if o.structs:
            s['StructParents'] = ('any',)
        if o.annots:
            s['Annots'] = ('f', lambda r: self.annots(o, r))
        if o.trans is not None:
            s['Trans'] = self.trans(o.trans)
        if o.viewports:
            s['VP'] = ('A', [self.viewport(b, m) for b, m in o.viewports])
        if o.nav:
            s['PresSteps'] = ('f', lambda r: self.nav(o, r))
        self.dict('P21', 'page', d, s, {'Annots': 'P20', 'StructParents': 'P18', 'Group': 'P28', 'Contents': 'P04'})
        c = self.P.get(d.get('Contents'))
        data = self.stream(c, 'P04 P03', 'page.contents')
        if data is not None:
            self.contents(o, data, d.get('Resources'), 'page', set())

    def annots(self, o, r):
        v = self.P.get(r)
        if not isinstance(v, list) or not all(isinstance(x, Ref) for x in v):
            return {'P20'}, 'is %.200r' % (v,)
        if len(v) != len(o.annots):
            return {'P20'}, 'lists %d annotations instead of %d' % (len(v), len(o.annots))
        return self.assign(v, o.annots)

    def trans(self, t):
        s = {'Type': ('opt', N('Trans'))}
        for k, x in t.items():
            if k == 'S':
                s[k] = N(schema.TRANS[x])
            elif k in ('D', 'SS'):
                s[k] = ('n', x)
            elif k == 'Dm':
                s[k] = N('HV'[x])
            elif k == 'M':
                s[k] = N('IO'[x])
            elif k == 'Di':
                s[k] = I(x)
            elif k == 'B':
                s[k] = B(x)
        return ('D', s)

    def viewport(self, box, m):
        s = {'BBox': nums(box)}
        if m is not None:
            md = {'R': ('opt', ('any',)), 'Subtype': ('opt', N('RL'))}
            for k in 'XYDA':
                if m.get(k):
                    md[k] = ('A', [('D', {'U': T(u), 'C': ('n', c)}) for u, c in m[k]])
            s['Measure'] = ('D', md)
        return ('D', s)

    def nav(self, o, r):
        """A chain of navigation nodes that shows the groups one after another, and hides them again going back."""
        ocgs, tr = o.nav
        P = self.P
        def actions(v, what):
            out = []
            seen = 0
            while v is not None:
                v = P.get(v)
                if not isinstance(v, dict):
                    return None
                if v.get('S') == 'SetOCGState':
                    st = P.get(v.get('State'))
                    cur = None
                    for x in st if isinstance(st, list) else []:
                        if isinstance(x, Name):
                            cur = x
                        else:
                            out.append((cur, x))
                elif v.get('S') == 'Trans':
                    out.append(('Trans', P.get(v.get('Trans'))))
                v = v.get('Next')
                seen += 1
                if seen > 50:
                    return None
            return out
        nodes = []
        cur = r
        while cur is not None:
            d = P.get(cur)
            if not isinstance(d, dict) or len(nodes) > 300:
                return {'P21'}, 'navigation node is %.100r' % (d,)
            nodes.append((cur, d))
            cur = d.get('Next')
        if len(nodes) < len(ocgs) + 1:
            return {'P21'}, '%d navigation nodes for %d groups' % (len(nodes), len(ocgs))
        for g in ocgs:
            if g not in self.bound:
                return {'P21'}, '%r is not in the file' % g
        refs = [self.bound[g] for g in ocgs]
        state = {}
        trs = []
        shown = []
        # walk forward from the first node over its NA actions
        first_na = None
        for k, (rf, d) in enumerate(nodes):
            a = actions(d.get('NA'), 'NA')
            if a is None:
                return {'P21'}, 'damaged action'
            for what, x in a:
                if what == 'ON':
                    shown.append(x)
                elif what == 'Trans':
                    trs.append(x)
            if k and d.get('Prev') != nodes[k - 1][0]:
                if not (k == 1 and d.get('Prev') is None):
                    return {'P21'}, 'navigation node %d does not lead back' % k
        if shown != refs:
            return {'P21', 'P20'}, 'navigation shows %r instead of %r' % (shown, refs)
        if tr is not None:
            if len(trs) != len(refs):
                return {'P21'}, '%d transitions for %d steps' % (len(trs), len(refs))
            for x in trs:
                rr = self.match(x, self.trans(tr))
                if rr:
                    return {'P21'}, 'step transition ' + rr[1]
        elif trs:
            return {'P21'}, 'unexpected transitions %r' % trs
        # going back hides them in reverse
        hidden = []
        for rf, d in reversed(nodes):
            for what, x in actions(d.get('PA'), 'PA') or []:
                if what == 'OFF' and x in refs:
                    hidden.append(x)
        if hidden != list(reversed(refs)):
            return {'P21'}, 'navigating back hides %r instead of %r' % (hidden, list(reversed(refs)))
        # before the first step everything is hidden
        off = [x for what, x in actions(nodes[0][1].get('NA'), 'NA') if what == 'OFF']
        if sorted(off) != sorted(set(refs)) and len(set(refs)) == len(refs):
            return {'P21'}, 'the first node hides %r instead of %r' % (off, refs)

    # ---- catalog
    def catalog(self):
        P, doc, p = self.P, self.doc, self.doc.p
        R = P.root
        s = {'Pages': ('any',)}
        kt = {}
        if doc.labels:
            s['PageLabels'] = ('f', self.labels)
            kt['PageLabels'] = 'P21'
        s['PageLayout'] = N(schema.LAYOUT[p['layout']]) if p['layout'] is not None else None
        s['PageMode'] = N(schema.MODE[p['mode']]) if p['mode'] is not None else None
        s['Lang'] = ('b', p['lang'].encode()) if p['lang'] else None
        kt['Lang'] = 'P09 P21'
        # tagged
        st = doc.all('struct')
        if st:
            s['StructTreeRoot'] = ('f', self.struct_root)
        kt['StructTreeRoot'] = 'P18'
        s['MarkInfo'] = ('D', {'Marked': B(1)}) if p['tagged'] else None
        kt['MarkInfo'] = 'P18 P21'
        if doc.all('field'):
            s['AcroForm'] = ('f', self.acroform)
        kt['AcroForm'] = 'P20'
        if doc.all('ocg'):
            s['OCProperties'] = ('D', {'OCGs': ('A', [('obj', o) for o in doc.all('ocg')]), 'D': ('D', {'BaseState': ('opt', N('ON'))})})
        kt['OCProperties'] = 'P20'
        if doc.all('outline'):
            s['Outlines'] = ('f', self.outlines)
        kt['Outlines'] = 'P19'
        emb = doc.all('embedded')
        a4f = p['pdfa'] in ('PDFA_4f', 'PDFA_4e')
        if emb:
            s['Names'] = ('f', self.names)
            s['AF'] = ('f', self.af)
        elif a4f:
            s['Names'] = ('opt', ('f', self.names))
            s['AF'] = ('opt', ('f', self.af))
        kt['Names'] = kt['AF'] = 'P27'
        if doc.collection is not None:
            s['Collection'] = self.collection(doc.collection)
        kt['Collection'] = 'P27'
        if p['pdfx'] or p['pdfa']:
            s['OutputIntents'] = ('f', self.intents)
        if p['pdfa'] or p['metadata'] is not None:
            s['Metadata'] = ('f', self.metadata)
        kt['OutputIntents'] = kt['Metadata'] = 'P22'
        for k in ('PageLayout', 'PageMode'):
            kt[k] = 'P21'
        self.dict('', 'catalog', R, s, kt)

    def labels(self, r):
        v = self.P.get(r)
        n = self.P.get(v.get('Nums')) if isinstance(v, dict) else None
        m = []
        for start, style, prefix, num in self.doc.labels:
            d = {'S': N('DRrAa'[style]) if style is not None else None,
                 'P': T(prefix) if prefix else (('opt', T('')) if prefix is not None else None),
                 'St': I(num) if num is not None else ('opt', I(1))}
            m += [I(start), ('D', d)]
        rr = self.match(n, ('A', m))
        if rr:
            return {'P21'} | set(rr[0]), 'Nums ' + rr[1]

    def acroform(self, r):
        v = self.P.get(r)
        roots = [f for f in self.doc.all('field') if f.parent is None]
        rr = self.match(v, ('D', {'Fields': ('A', [('obj', f) for f in roots]), 'NeedAppearances': ('opt', ('any',)), 'SigFlags': ('opt', ('any',)),
                                  'DA': ('opt', ('any',)), 'DR': ('opt', ('any',))}))
        if rr:
            return {'P20'} | set(rr[0]), rr[1]
        for f in self.doc.all('field'):
            if f not in self.bound:
                return {'P20'}, '%r is not reachable' % f

    def outlines(self, r):
        doc = self.doc
        items = doc.all('outline')
        v = self.P.get(r)
        tree = {}
        for o in items:
            tree.setdefault(o.parent, []).append(o)
        top = tree.get(None, [])
        if not isinstance(r, Ref) or not isinstance(v, dict):
            return {'P19'}, 'is %r' % (r,)
        seen = set()
        def level(first, last, objs, parent_ref, where):
            cur, prev = first, None
            for i, o in enumerate(objs):
                if not isinstance(cur, Ref) or cur in seen:
                    self.bad('P19', 'outline.chain', 'item %d of %s is %r' % (i, where, cur))
                    return False
                seen.add(cur)
                self.bound[o] = cur
                d = self.P.get(cur)
                kids = tree.get(o, [])
                s = {'Title': T(o.title), 'Parent': ('ref', parent_ref), 'Prev': ('ref', prev) if prev is not None else None,
                     'Next': ('any',) if i + 1 < len(objs) else None, 'First': ('any',) if kids else None, 'Last': ('any',) if kids else None,
                     'Count': I(-len(kids)) if kids else ('opt', I(0)), 'Dest': self.dest(o.dest) if o.dest else None,
                     'C': nums(o.C) if o.C else ('opt', nums([0, 0, 0])), 'F': I(o.F) if o.F else ('opt', I(0))}
                self.dict('P19', 'outline', d, s, {'Title': 'P08'})
                self.stats['v_outline'] += 1
                if not isinstance(d, dict):
                    return False
                if kids and not level(d.get('First'), d.get('Last'), kids, cur, 'children of %r' % o.title):
                    return False
                prev, cur = cur, d.get('Next')
            if last != prev:
                self.bad('P19', 'outline.last', '%s: Last is %r instead of %r' % (where, last, prev))
            return True
        self.dict('P19', 'outlines', v, {'First': ('any',), 'Last': ('any',), 'Count': I(len(top))})
        level(v.get('First'), v.get('Last'), top, r, 'the top level')
        return None

    def names(self, r):
        v = self.P.get(r)
        emb = self.doc.all('embedded')
        if not isinstance(v, dict) or set(v) - {'EmbeddedFiles'}:
            return {'P27'}, 'is %.200r' % (v,)
        t = self.P.get(v.get('EmbeddedFiles'))
        if not isinstance(t, dict) or set(t) - {'Names', 'Limits'}:
            return {'P27'}, 'EmbeddedFiles is %.200r' % (t,)
        l = self.P.get(t.get('Names'))
        if not emb:
            return ({'P27'}, 'lists %r' % (l,)) if l else None
        if not isinstance(l, list) or len(l) != 2 * len(emb):
            return {'P27'}, 'lists %r' % (l,)
        keys = [self.P.get(x) for x in l[::2]]
        if not all(isinstance(k, bytes) for k in keys) or keys != sorted(keys) or len(set(keys)) != len(keys):
            return {'P27'}, 'keys are not sorted: %r' % (keys,)
        if 'Limits' in t and keys and self.P.get(t['Limits']) != [keys[0], keys[-1]]:
            return {'P27'}, 'Limits are %r' % (t['Limits'],)
        by = {}
        for k, x in zip(keys, l[1::2]):
            by[text_string(k)] = x
            try:
                by[k.decode()] = x
            except UnicodeDecodeError:
                pass
        for e in emb:
            if e.name not in by:
                return {'P27', 'P08'}, '%r is not in the name tree: %r' % (e.name, keys)
            rr = self.fs(e, by[e.name])
            if rr:
                return rr[0] - {'P20'}, rr[1]

    def af(self, r):
        v = self.P.get(r)
        emb = self.doc.all('embedded')
        if not isinstance(v, list) or len(v) != len(emb):
            return {'P27'}, 'lists %.200r' % (v,)
        for x, e in zip(v, emb):
            rr = self.fs(e, x, True)
            if rr:
                return rr[0] - {'P20'}, rr[1]

    def collection(self, c):
        s = {'View': N(VIEW[c['view']]) if c['view'] is not None else None, 'D': ('f', lambda r: self.fname(r, c['D'])) if c['D'] is not None else None}
        if c['schema'] is not None:
            sd = {}
            for k, (st, n, O, Vv, E) in c['schema'].items():
                sd[k] = ('D', {'Subtype': N(CSUB[st]), 'N': T(n), 'O': I(O) if O is not None else None,
                               'V': B(Vv) if Vv is not None else ('opt', B(1)), 'E': B(E) if E is not None else ('opt', B(0))})
            s['Schema'] = ('D', sd)
        return ('D', s)

    def metadata(self, r):
        st = self.P.get(r)
        d = self.stream(st, 'P22', 'metadata')
        if d is None:
            return None
        if self.doc.p['metadata'] is not None and d != self.doc.p['metadata'].encode():
            return {'P22'}, 'user metadata was changed: %r' % d[:200]
        if self.doc.p['metadata'] is None:
            self.xmp(d)

    def xmp(self, d):
        import xml.etree.ElementTree as ET
        p = self.doc.p
        if not re.match(rb'<\?xpacket begin="(\xef\xbb\xbf)?" id="W5M0MpCehiHzreSzNTczkc9d"[^?]*\?>', d) or not re.search(rb'<\?xpacket end="[rw]"\?>\s*$', d):
            self.bad('P22', 'xmp.packet', 'the metadata is no XMP packet: %r ... %r' % (d[:80], d[-40:]))
        try:
            root = ET.fromstring(d.decode('utf-8'))
        except (ET.ParseError, UnicodeDecodeError) as e:
            self.bad('P22', 'xmp.malformed', 'the metadata is not well-formed XML (%s): %r' % (e, d[-500:]))
            return
        X, RDF = '{adobe:ns:meta/}', '{http://www.w3.org/1999/02/22-rdf-syntax-ns#}'
        PA, PDF_, XMP = '{http://www.aiim.org/pdfa/ns/id/}', '{http://ns.adobe.com/pdf/1.3/}', '{http://ns.adobe.com/xap/1.0/}'
        if root.tag != X + 'xmpmeta' or [c.tag for c in root] != [RDF + 'RDF']:
            self.bad('P22', 'xmp.root', 'the metadata has %s holding %s' % (root.tag, [c.tag for c in root]))
            return
        got = {}
        for desc in root[0]:
            if desc.tag != RDF + 'Description' or set(desc.attrib) - {RDF + 'about', 'about'} or any(desc.attrib.values()):
                self.bad('P22', 'xmp.description', 'unexpected %s %r' % (desc.tag, desc.attrib))
            for c in desc:
                if c.tag in got:
                    self.bad('P22', 'xmp.twice', '%s appears twice' % c.tag)
                if c.tag.startswith('{http://purl.org/dc/'):
                    box = c[0] if len(c) == 1 else None
                    li = box[0] if box is not None and len(box) == 1 and box[0].tag == RDF + 'li' else None
                    if li is None or box.tag != RDF + {'title': 'Alt', 'creator': 'Seq'}.get(c.tag.split('}')[1]):
                        self.bad('P22', 'xmp.dc', '%s is malformed: %r' % (c.tag, ET.tostring(c)))
                        continue
                    got[c.tag] = li.text or ''
                    continue
                if len(c):
                    self.bad('P22', 'xmp.twice', '%s holds elements' % c.tag)
                got[c.tag] = c.text or ''
        part, conf = p['pdfa'][5], p['pdfa'][6].upper()
        want = {PA + 'part': part, PA + 'conformance': conf, PDF_ + 'Producer': producer()}
        if part == '4':
            want[PA + 'rev'] = '2020'
        DC = '{http://purl.org/dc/elements/1.1/}'
        mine = {'creator': XMP + 'CreatorTool', 'title': DC + 'title', 'author': DC + 'creator'}
        for k, tag in mine.items():
            if p[k]:
                want[tag] = ''.join('\ufffd' if (c < ' ' and c not in '\t\n\r') or c in '\ufffe\uffff' else c for c in p[k])
        for k in sorted(set(want) | (set(got) & {PA + 'rev', *mine.values()})):
            if got.get(k) != want.get(k):
                self.bad('P22 P08' if k in mine.values() else 'P22', 'xmp.' + k.split('}')[1], 'the metadata says %r instead of %r' % (got.get(k), want.get(k)))
        self.stats['xmp'] += 1

    def intents(self, r):
        v = self.P.get(r)
        p = self.doc.p
        import gen
        prof = open(p['profiles'][p['cs']], 'rb').read()
        def profile(rf):
            st = self.P.get(rf)
            if not isinstance(st, Stream) or self.P.decoded(st) != prof:
                return {'P22'}, 'is not the output profile'
        rr = self.match(v, ('A', [('D', {'S': N('GTS_PDFX' if p['pdfx'] else 'GTS_PDFA1'), 'OutputConditionIdentifier': T(p['intent']),
                                         'DestOutputProfile': ('f', profile), 'Info': ('opt', ('any',)), 'RegistryName': ('opt', ('any',)),
                                         'OutputCondition': ('opt', ('any',))})]))
        if rr:
            return {'P22'} | set(rr[0]), rr[1]

    # ---- structure
    def struct_root(self, r):
        P, doc = self.P, self.doc
        items = doc.all('struct')
        v = P.get(r)
        roots = [o for o in items if o.parent is None]
        self.sroot = r
        if not isinstance(r, Ref):
            return {'P18'}, 'is no reference'
        def klist(x):
            x = P.get(x) if not isinstance(x, Ref) or isinstance(P.get(x), list) else [x]
            return x if isinstance(x, list) else [x]
        roles = {o.name: ('N', schema_struct(o.builtin)) for o in doc.all('role')}
        self.dict('P18', 'structroot', v, {'K': ('f', lambda k: self.match(klist(k), ('A', [('obj', o) for o in roots]))), 'ParentTree': ('any',),
                                           'ParentTreeNextKey': ('any',), 'RoleMap': ('D', roles) if roles else ('opt', ('D', {}))},
                  {'RoleMap': 'P09'})
        for o in items:
            if o not in self.bound:
                self.bad('P18', 'struct.unreachable', '%r is not in the structure tree' % o)
                break
        return None

    def v_struct(self, o, v, raw):
        P = self.P
        s = {'S': N(model.stype_name(o)), 'P': ('obj', o.parent) if o.parent is not None else ('ref', self.sroot)}
        for k, x in o.extra.items():
            if x:
                s[k] = ('b', x.encode()) if k == 'Lang' else T(x)
        kids = list(o.kids)
        used = o.page is not None
        if used:
            s['Pg'] = ('obj', o.page)
        def kk(r):
            l = P.get(r) if isinstance(P.get(r), list) else [r]
            if not isinstance(l, list):
                l = [l]
            objs, mc = [], []
            for x in l:
                y = P.get(x)
                if isinstance(y, int):
                    mc.append((None, y))
                elif isinstance(y, dict) and y.get('Type') == 'MCR':
                    mc.append((y.get('Pg'), y.get('MCID')))
                else:
                    objs.append(x)
            want = [o.mcid] if used else []
            if [m for _p, m in mc] != want or any(pg is not None and pg != self.bound.get(o.page) for pg, _m in mc):
                return set(), 'lists marked content %r instead of %r' % (mc, want)
            return self.match(objs, ('A', [('obj', k) for k in kids]))
        if kids or used:
            s['K'] = ('f', kk)
        self.dict('P18', 'struct', v, s, {'T': 'P08', 'Alt': 'P08', 'ActualText': 'P08', 'Lang': 'P09', 'S': 'P09'})

    def struct_pages(self):
        P, doc = self.P, self.doc
        if not doc.all('struct'):
            return
        root = P.get(getattr(self, 'sroot', None))
        if not isinstance(root, dict):
            return
        nums_ = {}
        def walk(n):
            n = P.get(n)
            if not isinstance(n, dict):
                return
            l = P.get(n.get('Nums')) or []
            for i in range(0, len(l) - 1, 2):
                if l[i] in nums_:
                    self.bad('P18', 'parenttree.dup', 'key %r twice' % l[i])
                nums_[l[i]] = l[i + 1]
            for k in P.get(n.get('Kids')) or []:
                walk(k)
        walk(root.get('ParentTree'))
        nk = P.get(root.get('ParentTreeNextKey'))
        if nums_ and (not isinstance(nk, int) or nk <= max(nums_)):
            self.bad('P18', 'parenttree.nextkey', 'is %r with keys %r' % (nk, sorted(nums_)))
        usedkeys = set()
        for o in doc.pages:
            d = P.get(self.bound[o])
            if not o.structs:
                continue
            k = P.get(d.get('StructParents'))
            if not isinstance(k, int) or k not in nums_ or k in usedkeys:
                self.bad('P18', 'parenttree.page', 'page %d has StructParents %r, tree has %r' % (o.id, k, sorted(nums_)))
                continue
            usedkeys.add(k)
            arr = P.get(nums_[k])
            want = [self.bound.get(s) for s in o.structs]
            if arr != want:
                self.bad('P18', 'parenttree.entry', 'page %d maps to %r instead of %r' % (o.id, arr, want))
            self.stats['marked_content'] += len(want)
        if set(nums_) != usedkeys:
            self.bad('P18', 'parenttree.extra', 'keys %r, used %r' % (sorted(nums_), sorted(usedkeys)))

    # ---- info
    def date(self, r):
        """the date of SOURCE_DATE_EPOCH when that is set"""
        v = self.P.get(r)
        e = os.environ.get('SOURCE_DATE_EPOCH')
        if e and v != time.strftime('D:%Y%m%d%H%M%SZ', time.gmtime(int(e))).encode():
            m = re.match(rb"D:(\d{14})([-+])(\d\d)'(\d\d)", v or b'')
            if not m or calendar.timegm(time.strptime(m[1].decode(), '%Y%m%d%H%M%S')) - int(m[2] + b'1') * (int(m[3]) * 3600 + int(m[4]) * 60) != int(e):
                return {'P23'}, 'is %r with SOURCE_DATE_EPOCH %s' % (v, e)

    def info(self):
        P, p = self.P, self.doc.p
        a4 = p['pdfa'] in ('PDFA_4f', 'PDFA_4e')
        if a4:
            if P.trailer.get('Info') is not None:
                self.bad('P22', 'info.pdfa4', 'PDF/A-4 file has an info dictionary')
            return
        i = P.info
        s = {'ModDate': ('f', self.date), 'CreationDate': ('f', self.date), 'Producer': T(producer())}
        for k in ('title', 'author', 'creator'):
            s[k.capitalize()] = T(p[k]) if p[k] else ('opt', T(''))
        if p['pdfx']:
            name = p['pdfx'][5:].replace('A_', 'a_').replace('P', 'p').replace('G', 'g').replace('_', ':')
            s['GTS_PDFXVersion'] = ('b', ('PDF/X-' + name).encode())
            s['Trapped'] = ('f', lambda r: None if r in ('True', 'False') and isinstance(r, Name) else ({'P22'}, 'is %r' % (r,)))
            if name == '1a:2001':
                s['GTS_PDFXVersion'] = ('b', b'PDF/X-1:2001')
                s['GTS_PDFXConformance'] = ('b', b'PDF/X-1a:2001')
        self.dict('P22', 'info', i, s, {'Title': 'P08', 'Author': 'P08', 'Creator': 'P08', 'ModDate': 'P23', 'CreationDate': 'P23'})
        want = version_for(p)
        if P.version != want:
            self.bad('P22 P01', 'version', 'the file is version %s instead of %s' % (P.version, want))


def producer():
    import build
    return 'CapyPDF ' + build.version()[0]


def version_for(p):
    x = p['pdfx']
    if x:
        return {'1': '1.3', '3': '1.3', '4': '1.6', '5': '1.6', '6': '2.0'}[x[5]]
    return {'1': '1.4', '2': '1.7', '3': '1.7', '4': '2.0'}[p['pdfa'][5]] if p['pdfa'] else '2.0'


def schema_struct(i):
    return model.STRUCT_NAMES[i]


def masked_equal(d, pix, w, h, care):
    """equal at all pixels that are not fully transparent"""
    if len(d) != len(pix):
        return False
    row = (w + 7) // 8
    for y in range(h):
        a, b = d[y * row:(y + 1) * row], pix[y * row:(y + 1) * row]
        if a == b:
            continue
        for x in range(w):
            if care[y][x] and (a[x >> 3] ^ b[x >> 3]) >> (7 - (x & 7)) & 1:
                return False
    return True


def merge(ops):
    """Consecutive text showing operators become one SHOW with codes and summed kernings."""
    out = []
    cur = None
    for op, a in ops:
        if op in ('Tj', 'TJ'):
            if cur is None:
                cur = []
            for x in (a[0] if op == 'TJ' and a and isinstance(a[0], list) else a):
                if isinstance(x, bytes):
                    for i in range(0, len(x), 2):
                        cur.append(int.from_bytes(x[i:i + 2], 'big') if len(x) - i >= 2 else 0x10000 + x[i])
                elif isnum(x):
                    addk(cur, x)
                else:
                    cur.append(-1)
            continue
        if cur is not None:
            if cur:
                out.append(('SHOW', trim(cur)))
            cur = None
        out.append((op, a))
    if cur:
        out.append(('SHOW', trim(cur)))
    return [o for o in out if o[0] != 'SHOW' or o[1]]


def addk(cur, n):
    if cur and isinstance(cur[-1], tuple) and cur[-1][0] == 'k':
        cur[-1] = ('k', cur[-1][1] + n)
    else:
        cur.append(('k', n))


def trim(items):
    return [x for x in items if not (isinstance(x, tuple) and x[0] == 'k' and x[1] == 0)]


def merge_model(ops):
    out = []
    cur, tags = None, None
    def flush():
        nonlocal cur
        if cur is not None:
            t = trim(cur)
            if t:
                out.append(('SHOW', t, tags | {'P12'}))
            cur = None
    for op, m, t in ops:
        if op == 'SHOW':
            if cur is None:
                cur, tags = [], frozenset()
            tags = tags | t
            for x in m:
                if x[0] == 'k':
                    addk(cur, x[1])
                else:
                    cur.append(tuple(x))
        else:
            flush()
            out.append((op, m, t))
    flush()
    return out


def decode_mesh(d, data, st, nc):
    bc, bp, bf, dec = d['BitsPerCoordinate'], d['BitsPerComponent'], d['BitsPerFlag'], d['Decode']
    if len(dec) != 4 + 2 * nc:
        raise ValueError('Decode has %d entries' % len(dec))
    bits = int.from_bytes(data, 'big')
    total = len(data) * 8
    pos = 0
    def rd(n):
        nonlocal pos
        if pos + n > total:
            raise ValueError('data ends early')
        v = bits >> (total - pos - n) & ((1 << n) - 1)
        pos += n
        return v
    def coord(i):
        return dec[2 * i] + rd(bc) * (dec[2 * i + 1] - dec[2 * i]) / ((1 << bc) - 1)
    def comp(i):
        return dec[4 + 2 * i] + rd(bp) * (dec[5 + 2 * i] - dec[4 + 2 * i]) / ((1 << bp) - 1)
    out = []
    while total - pos >= bf + 8:
        f = rd(bf)
        pts, cols = [], []
        if st == 4:
            npt, ncol = 1, 1
        else:
            npt, ncol = (12, 4) if f == 0 else (8, 2)
        for _ in range(npt):
            pts += [coord(0), coord(1)]
        for _ in range(ncol):
            cols += [comp(i) for i in range(nc)]
        pos = (pos + 7) // 8 * 8 if st == 4 else pos
        out.append((f, pts, cols))
    return out


def mesh_items(o):
    clamp = lambda p: [min(max(v, o.box[i % 2]), o.box[2 + i % 2]) for i, v in enumerate(p)]
    cl = lambda c: [model.CLAMP(v) for v in c[1]]
    out = []
    for it in o.items:
        if it[0] == 'tri':
            for k in range(3):
                out.append((0, clamp(it[1][2 * k:2 * k + 2]), cl(it[2][k])))
        elif it[0] == 'patch':
            out.append((0, clamp(it[1]), [v for c in it[2] for v in cl(c)]))
        elif o.st == 4:
            out.append((it[1], clamp(it[2]), cl(it[3])))
        else:
            out.append((it[1], clamp(it[2]), [v for c in it[3] for v in cl(c)]))
    return out


def check_file(doc, **kw):
    P = Pdf(open(doc.path, 'rb').read())
    return V(P, doc, **kw).run()
