"""Random programs over the whole API, driven through the model in model.py."""
import hashlib, math, os, random, zlib
import fonts, profiles, synthfonts
from model import *

TD = os.path.join(os.environ.get('CAPY_REPO', '/repo'), 'testdata')
ICC = {'CMYK': TD + '/icc/FOGRA29L_T.icc', 'CMYK2': TD + '/icc/FOGRA30L_T.icc', 'RGB': TD + '/icc/compatibleWithAdobeRGB1998.icc'}
FONTS = [('NotoSans-Regular.ttf', None), ('NotoSans-Bold.ttf', None), ('NotoSerif-Regular.ttf', None),
         ('NotoSansSymbols2-Regular.ttf', None), ('P052-Roman.otf', None), ('AmstelVar-Roman.ttf', None)]


def find_files():
    out = {}
    for d, _s, fs in os.walk(TD):
        for f in sorted(fs):
            out[f] = os.path.join(d, f)
    return out


FILES = find_files()
_icc = [v for k, v in sorted(FILES.items()) if k.endswith('.icc')]
for p_ in _icc:
    cs_ = open(p_, 'rb').read(20)[16:20]
    if cs_ == b'RGB ':
        ICC['RGB'] = p_
    elif '29' in os.path.basename(p_):
        ICC['CMYK'] = p_
    else:
        ICC['CMYK2'] = p_
ICCN = {b'RGB ': 3, b'CMYK': 4, b'GRAY': 1}

DEFAULT = dict(
    steps=(30, 120), pages=1, nums='normal', strs='normal', names='normal', mutate=0.15, nasty_text=0.3,
    new=dict(page=4, form=2, tiling=2, trgroup=2, res=10), ops=None, res=None, reuse_ctx=0.35, fresh=False, aux=None, max_open=4,
    tagged=0.4, labels=0.4, outlines=0.5, embed=0.4, annots=1.0, metadata=0.1, pdfx=0.0, pdfa=0.0, layout=0.3, mode=0.3,
    profiles=0.4, boxes=0.5, lang=0.3, titles=0.6, collection=0.15, blob=(0, 400), img_max=12, cs=('RGB', 'RGB', 'GRAY', 'CMYK'),
    img_rgb=True, big=0.0, use_all=0.5, textlen=(0, 12), fonts=None, synth=0.1, convert=0.08, measure=0.05, icc_synth=0.15,
)
OPW = dict(path=14, paint=6, state=6, q=4, devcolor=4, color=5, gs=3, sh=2, image=2, tr=2, mc=3, text=6, rtext=3, annot=2, ocg=2,
           props=1, matrix=1, group=1, trans=1, nav=1, viewport=1, tag=2, dash=2)
RESW = dict(font=4, icc=1, lab=1, sep=2, fn=3, shading=3, shpat=2, softmask=1, gstate=4, image=4, ocg=2, dest=0, outline=2, role=1,
            struct=3, embed=2, field=1, annot=4, stream3d=0.5, label=1)


class Gen:
    def __init__(self, A, rng, path, **prof):
        self.A, self.rng = A, rng
        self.reused = 0
        self.o = dict(DEFAULT)
        self.o.update(prof)
        self.opw = dict(OPW)
        self.opw.update(self.o['ops'] or {})
        self.resw = dict(RESW)
        self.resw.update(self.o['res'] or {})
        self.doc = Doc(A, rng, path)
        self.doc.mutate = self.o['mutate']
        self.ctxs = []
        self.idle = []
        self.synth_files = []
        self.npages = 0
        self.uniq = 0
        self.form_users = []
        self.late = []
        self.depth = {}

    # ---- value generators
    def pick(self, seq):
        return self.rng.choice(seq)

    def num(self, lo=-1000.0, hi=1000.0):
        r = self.rng
        k = r.random()
        if self.o['nums'] == 'hard' and k < 0.6:
            v = self.hard()
            return min(hi, max(lo, v)) if not (lo == -1000.0 and hi == 1000.0) else v
        if k < 0.3:
            v = float(r.randint(math.ceil(lo), math.floor(hi))) if math.ceil(lo) <= math.floor(hi) else r.uniform(lo, hi)
        elif k < 0.6:
            v = round(r.uniform(lo, hi), 2)
        elif k < 0.9:
            v = r.uniform(lo, hi)
        elif k < 0.95:
            v = min(hi, max(lo, r.choice([0.0, -0.0, 1e-7, -1e-7, 0.000001, 0.5])))
        else:
            v = r.choice([lo, hi])
        return min(hi, max(lo, v))

    def hard(self):
        r = self.rng
        k = r.randrange(9)
        if k == 0:
            return r.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3, 2 / 3, 1e-6, 5e-7, 4.9999e-7, 1e-300, 5e-324, 0.9999999, 0.99999951])
        if k == 1:
            return r.uniform(-1, 1) * 10.0 ** r.randint(-12, 0)
        if k == 2:
            return r.uniform(-1, 1) * 10.0 ** r.randint(0, 15)
        if k == 3:
            return float(r.choice([2**31, -2**31, 2**32, 2**53, 2**53 + 2, -2**63, 32767, 32768, 123456789, 1e9, 1e10, 999999.9999995]))
        if k == 4:
            return r.uniform(-1, 1) * 10.0 ** r.randint(15, 37)
        if k == 5:
            return float(r.randint(-10**6, 10**6)) / 10.0 ** r.randint(0, 9)
        if k == 6:
            return round(r.uniform(-1000, 1000), r.randint(0, 9))
        if k == 7:
            return r.uniform(-1, 1) * 10.0 ** r.randint(37, 307)
        return math.ldexp(r.random() - 0.5, r.randint(-60, 60))

    def unit(self):
        return self.num(0.0, 1.0)

    def wild(self):
        """colour component, sometimes outside 0..1"""
        return self.unit() if self.rng.random() < 0.85 else self.num(-2.0, 3.0)

    def nums(self, n, lo=-1000.0, hi=1000.0):
        return [self.num(lo, hi) for _ in range(n)]

    def matrix(self, m):
        # often with the zeros and ones of translations, scalings and turns
        r = self.rng
        v = self.nums(6, -m, m)
        k = r.random()
        if k < 0.5:
            return v
        one = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0]
        return [one[i] if r.random() < 0.6 else -1.0 if r.random() < 0.1 else v[i] for i in range(6)]

    def box(self, lo=-200.0, hi=800.0):
        x, y = self.num(lo, hi - 50), self.num(lo, hi - 50)
        return (x, y, x + self.num(1.0, 400.0), y + self.num(1.0, 400.0))

    TEXT_SETS = ['abcXYZ 0189', '()\\', '<>[]{}/%#', '&"\'', 'äöåÄñßé', '\u4e2d\u6587\u3042', '\U0001f600\U0001d11e\U0010fffd',
                 '\u0301\u200d\u202e', '\ufeff', '\r\n\t', '\x01\x1b\x7f', '\u0080\u00ad\u00a0', '\u20ac\u2022\u0192', '\uffff\ufffe', '\ud7ff\ue000',
                 '\U00010000\U0001ffff']

    def textstr(self, lo=0, hi=14, nasty=None):
        r = self.rng
        n = r.randint(lo, hi)
        if r.random() < 0.02:
            n = r.choice([31, 32, 63, 64, 127, 128, 129, 200, 255, 256, 257, 1000])
        nasty = self.o['nasty_text'] if nasty is None else nasty
        if self.o['strs'] == 'nasty':
            nasty = max(nasty, 0.9)
        if r.random() >= nasty:
            return ''.join(r.choice('abcdefgh ijKLMN 0123') for _ in range(n)) or ('x' if lo else '')
        sets = [r.choice(self.TEXT_SETS) for _ in range(r.randint(1, 3))]
        return ''.join(r.choice(r.choice(sets)) for _ in range(max(n, 1 if lo else 0)))

    def ascii(self, lo=1, hi=10, alphabet=None):
        r = self.rng
        n = r.randint(lo, hi) if r.random() < 0.97 else r.choice([32, 64, 127, 128, 129, 255, 256, 300])
        if alphabet is None:
            if self.o['strs'] == 'nasty' or r.random() < self.o['nasty_text']:
                alphabet = r.choice(['()\\ab', '<>[]{}/%#ab', ''.join(chr(c) for c in range(32, 127)), '\r\n\tab', '\\\\))', 'a\x01\x7f'])
            else:
                alphabet = 'abcdefXYZ019'
        return ''.join(r.choice(alphabet) for _ in range(n))

    def name(self, lo=2, hi=10, first='abcdXYZ'):
        r = self.rng
        if self.o['names'] == 'nasty' and r.random() < 0.8:
            alph = r.choice(['()<>[]{}/%#ab', ''.join(chr(c) for c in range(33, 127)), 'a b', 'x#41', 'q\t\n\r', 'a\x01\x7f'])
        else:
            alph = 'abcdXYZ019-_.'
        n = r.randint(max(0, lo - 1), hi - 1) if r.random() < 0.97 else r.choice([30, 62, 126, 127, 128, 200, 255])
        s = r.choice(first) + ''.join(r.choice(alph) for _ in range(n))
        return s

    def bytestr(self, n=None):
        r = self.rng
        if n is None and r.random() < self.o['big']:
            # around the sizes at which buffers and counters roll over
            n = r.choice([1 << 16, 1 << 20, 1 << 20, 2 << 20]) + r.choice([-1, 0, 1, r.randint(-400, 400), r.randint(0, 40000)])
            return r.randbytes(n) if r.random() < 0.8 else bytes(n)
        if n is None:
            n = r.choice([0, 1, 2, 3, 10, r.randint(0, 40), r.randint(*self.o['blob'])])
        k = r.random()
        if k < 0.5:
            return r.randbytes(n)
        if k < 0.6:
            return b'endstream endobj\n%%EOF'[:max(n, 1)]
        return bytes(r.choice(b'abc \r\n\0') for _ in range(n))

    # ---- fonts and glyphs
    def face(self, f):
        return fonts.face(f.path, f.props)

    def chars(self, f, n):
        r = self.rng
        cs = [c for c in self.face(f).chars() if c]
        if r.random() < 0.6:
            lat = [c for c in cs if 32 <= c < 127]
            if lat:
                cs = lat
        return [r.choice(cs) for _ in range(n)]

    def text_for(self, f, lo=None, hi=None):
        lo = self.o['textlen'][0] if lo is None else lo
        hi = self.o['textlen'][1] if hi is None else hi
        return ''.join(chr(c) for c in self.chars(f, self.rng.randint(lo, hi)))

    # ---- setup
    def props(self):
        r, p, o = self.rng, self.doc.p, self.o
        P = lambda k: r.random() < o[k]
        p['cs'] = self.pick(o['cs'])
        for k in ('title', 'author', 'creator'):
            if P('titles'):
                p[k] = self.textstr(0, 20)
        if P('lang'):
            p['lang'] = self.pick(['en', 'fi-FI', 'x-klingon', self.ascii(1, 8)])
        if P('profiles') or p['cs'] == 'CMYK' or r.random() < 0.1:
            for cs in ('RGB', 'CMYK', 'GRAY'):
                if r.random() < (0.6 if cs != 'GRAY' else 0.3) or p['cs'] == cs == 'CMYK':
                    p['profiles'][cs] = self.profile_file(cs)
        if P('boxes'):
            p['boxes'] = self.boxes(True)
            if r.random() < 0.3:
                p['trgroup'] = self.trprops()
        p['tagged'] = 1 if P('tagged') else 0
        if P('layout'):
            p['layout'] = r.randrange(6)
        if P('mode'):
            p['mode'] = r.randrange(6)
        if P('pdfx'):
            p['pdfx'] = self.o.get('pdfx_type') or self.pick([k for k, _ in self.A.h.enumtypes['CapyPDF_PDFX_Type']])[5:]
        elif P('pdfa'):
            p['pdfa'] = self.pick([k for k, _ in self.A.h.enumtypes['CapyPDF_PDFA_Type']])[5:]
        if p['pdfx'] or p['pdfa']:
            p['cs'] = self.pick(['RGB', 'CMYK'] if p['pdfa'] else ['CMYK'])
            p['profiles'][p['cs']] = self.profile_file(p['cs'])
            p['intent'] = self.textstr(1, 10)
        elif p['profiles'].get(p['cs']) and r.random() < 0.3:
            p['intent'] = self.textstr(1, 10)
        if P('metadata'):
            p['metadata'] = '<?xpacket begin="\ufeff" id="W5M0MpCehiHzreSzNTczkc9d"?>\n<x>%s</x><pdf:Producer>%s</pdf:Producer>' % (
                self.textstr(0, 30), self.producer())

    def profile_file(self, cs):
        """path of a colour profile, sometimes a synthesised one"""
        if cs in ICC and self.rng.random() >= self.o['icc_synth']:
            return ICC[cs]
        d = profiles.MAKE[cs](self.rng)
        path = (self.o['aux'] or self.doc.path) + '.%s.icc' % hashlib.sha1(d).hexdigest()[:16]
        open(path, 'wb').write(d)
        self.synth_files.append(path)
        return path

    def producer(self):
        import build
        return 'CapyPDF ' + build.version()[0]

    def boxes(self, media):
        r = self.rng
        b = {}
        for k in ('MediaBox', 'CropBox', 'BleedBox', 'TrimBox', 'ArtBox'):
            if (k == 'MediaBox' and media) or r.random() < 0.35:
                b[k] = tuple(self.box()) if r.random() < 0.7 else (0, 0, self.num(1.0, 2000.0), self.num(1.0, 2000.0))
        return b

    def trprops(self):
        r = self.rng
        t = {}
        if r.random() < 0.6:
            t['CS'] = self.pick(['RGB', 'GRAY', 'CMYK'])
        if r.random() < 0.6:
            t['I'] = r.randrange(2)
        if r.random() < 0.6:
            t['K'] = r.randrange(2)
        return t

    def start(self):
        self.props()
        self.doc.open()
        self.n_pages_target = self.o['pages']

    # ---- resources
    def some(self, kind, filt=None, make=None):
        c = [x for x in self.doc.all(kind) if filt is None or filt(x)]
        if c and (make is None or self.rng.random() < 0.75):
            return self.rng.choice(c)
        return make() if make else None

    def mk_font(self):
        r = self.rng
        if r.random() < self.o['synth']:
            return self.synth_font()
        names = self.o['fonts'] or [f for f, _ in FONTS if f in FILES]
        fn = r.choice(names)
        props = None
        if 'Amstel' in fn:
            k = r.random()
            if k < 0.3:
                props = {'instance': r.randrange(0, 2)}
            elif k < 0.7:
                props = {'axes': {a: v for a, v in (('wght', r.randint(38, 250)), ('wdth', r.randint(60, 402))) if r.random() < 0.7}}
            if props is not None and not props.get('axes', True):
                props = {}
        elif r.random() < 0.2:
            props = {'subfont': 0} if r.random() < 0.5 else {}
        return self.doc.font(FILES[fn], props)

    def synth_font(self):
        r = self.rng
        kind, data, idx = synthfonts.font(r)
        path = (self.o['aux'] or self.doc.path) + '.%s.font' % hashlib.sha1(data).hexdigest()[:16]
        open(path, 'wb').write(data)
        self.synth_files.append(path)
        return self.doc.font(path, {'subfont': idx} if idx or r.random() < 0.1 else None)

    def a_font(self):
        return self.some('font', None, self.mk_font)

    def mk_icc(self):
        p = self.pick([ICC['RGB'], ICC['CMYK'], ICC['CMYK2']]) if self.rng.random() >= self.o['icc_synth'] else self.profile_file(self.pick(['RGB', 'GRAY', 'CMYK']))
        n = ICCN[open(p, 'rb').read(20)[16:20]]
        if self.rng.random() < 0.5:
            return self.doc.icc(path=p, n=n)
        return self.doc.icc(data=open(p, 'rb').read(), n=n)

    def mk_lab(self):
        a, b = self.num(-128.0, 0.0), self.num(-128.0, 0.0)
        return self.doc.lab((self.num(0.5, 1.0), 1.0, self.num(0.5, 1.5)), (a, a + self.num(1.0, 200.0), b, b + self.num(1.0, 200.0)))

    NCH = {'RGB': 3, 'GRAY': 1, 'CMYK': 4}

    def mk_fn(self, nin=1, nout=None, ft=None):
        r, d = self.rng, self.doc
        nout = nout or self.pick([1, 3, 4])
        k = 0.6 if ft == 4 else r.random()
        kind = {1: 'gray', 3: 'rgb', 4: 'cmyk'}[nout]
        have = [f for f in d.all('function') if f.nout == nout and f.ft in (2, 3) or f.ft == 4 and f.nout == nout and len(f.domain) == 2]
        if ft is None and k < 0.55 or (k >= 0.75 and not have):
            lo = self.pick([0.0, 0.0, -1.0, 0.25])
            dom = [lo, lo + self.pick([1.0, 0.5, 2.0, 1.75])]
            n = self.pick([1.0, 2.0, 0.5, 3.7]) if dom[0] >= 0 else self.pick([1.0, 2.0, 3.0])
            return d.fn2(dom, (kind, [self.unit() for _ in range(nout)]), (kind, [self.unit() for _ in range(nout)]), n)
        if k < 0.75:
            code = {1: '{ %s }', 3: '{ dup dup %s }', 4: '{ dup dup dup %s }'}[nout] % self.pick(['1 exch sub', '0.5 mul', 'sin abs', ''])
            rng = []
            for _ in range(nout):
                rng += [0.0, 1.0]
            return d.fn4([0.0, 1.0] if r.random() < 0.6 else [-1.0, 2.0], rng, code)
        m = r.randint(1, 4)
        fns = [r.choice(have) for _ in range(m)]
        dom = [0.0, 1.0] if r.random() < 0.6 else [-2.0, 3.0]
        bounds = sorted(dom[0] + (dom[1] - dom[0]) * (i + 1) / m + self.num(-0.05, 0.05) for i in range(m - 1))
        enc = []
        for f in fns:
            enc += self.pick([[0.0, 1.0], [1.0, 0.0], [0.25, 0.75], self.nums(2, -3.0, 3.0)])
        return d.fn3(dom, fns, bounds, enc)

    def a_fn(self, nout):
        return self.some('function', lambda f: f.nout == nout and len(f.domain) == 2, lambda: self.mk_fn(1, nout))

    def mk_sep(self):
        cs = self.pick(['RGB', 'GRAY', 'CMYK'])
        n = self.NCH[cs]
        fn = self.some('function', lambda f: f.ft == 4 and f.nout == n and len(f.domain) == 2, lambda: self.mk_fn(1, n, 4))
        return self.doc.separation(self.name(), cs, fn)

    def devcolor(self, cs):
        k = {'RGB': 'rgb', 'GRAY': 'gray', 'CMYK': 'cmyk'}[cs]
        return (k, [self.wild() for _ in range(self.NCH[cs])])

    def mk_shading(self):
        r, d = self.rng, self.doc
        cs = self.pick(['RGB', 'GRAY', 'CMYK'])
        k = r.choice([2, 2, 3, 3, 4, 6])
        ext = (r.randrange(2), r.randrange(2)) if r.random() < 0.6 else None
        dom = None
        if k in (2, 3) and r.random() < 0.4:
            a = self.num(-1.0, 1.0)
            dom = (a, a + self.num(0.1, 2.0))
        if k == 2:
            p = self.nums(4)
            if r.random() < 0.08:
                # coincident points: nothing is painted, but it is valid
                p[2:] = p[:2]
            return d.shading2(cs, p, self.a_fn(self.NCH[cs]), ext, dom)
        if k == 3:
            p = self.nums(6)
            p[2], p[5] = abs(p[2]), abs(p[5])
            if r.random() < 0.08:
                p[3:5] = p[:2]
            if r.random() < 0.08:
                p[5] = p[2]
            return d.shading3(cs, p, self.a_fn(self.NCH[cs]), ext, dom)
        x, y = self.num(-100.0, 100.0), self.num(-100.0, 100.0)
        b = (x, y, x + self.num(1.0, 500.0), y + self.num(1.0, 500.0))
        pt = lambda n: [v for _ in range(n) for v in (r.uniform(b[0], b[2]), r.uniform(b[1], b[3]))]
        items = []
        if k == 4:
            for i in range(r.randint(1, 5)):
                if i == 0 or r.random() < 0.6:
                    items.append(('tri', pt(3), [self.devcolor(cs) for _ in range(3)]))
                else:
                    items.append(('ext', r.choice([1, 2]), pt(1), self.devcolor(cs)))
            return d.shading4(cs, b, items)
        for i in range(r.randint(1, 4)):
            if i == 0 or r.random() < 0.6:
                items.append(('patch', pt(12), [self.devcolor(cs) for _ in range(4)]))
            else:
                items.append(('ext', r.choice([1, 2, 3]), pt(8), [self.devcolor(cs) for _ in range(2)]))
        return d.shading6(cs, b, items)

    def mk_shpat(self):
        return self.doc.shading_pattern(self.some('shading', None, self.mk_shading), self.matrix(10.0) if self.rng.random() < 0.6 else None)

    def mk_softmask(self):
        t = self.some('trgroup')
        return self.doc.soft_mask(self.pick(['ALPHA', 'LUMINOSITY']), t) if t else None

    def mk_gstate(self):
        r = self.rng
        v = {}
        def m(k, f):
            if r.random() < 0.35:
                v[k] = f()
        E = lambda t: r.randrange(len(self.A.h.enumtypes['CapyPDF_' + t]))
        m('CA', self.unit), m('ca', self.unit), m('BM', lambda: E('Blend_Mode'))
        m('op', lambda: r.randrange(2)), m('OP', lambda: r.randrange(2)), m('OPM', lambda: r.randrange(2))
        m('FL', lambda: self.num(0.0, 100.0)), m('SM', self.unit), m('AIS', lambda: r.randrange(2)), m('TK', lambda: r.randrange(2))
        m('BPC', lambda: E('Black_Point_Compensation'))
        if r.random() < 0.25:
            v['HT'] = 'default' if r.random() < 0.3 else (self.num(1.0, 200.0), self.num(0.0, 180.0), E('Halftone_Spot_Function'))
        if self.doc.all('softmask') and r.random() < 0.4:
            v['SMask'] = self.some('softmask')
        if not v:
            v['CA'] = 0.5
        return self.doc.gstate(v)

    def image_props(self, maskable):
        r = self.rng
        p = {}
        if r.random() < 0.5:
            p['interp'] = self.pick(['AUTO', 'PIXELATED', 'SMOOTH'])
        if maskable and r.random() < 0.5:
            p['mask'] = 1
        return p

    def mk_raw_image(self):
        r = self.rng
        w, h = r.randint(1, self.o['img_max']), r.randint(1, self.o['img_max'])
        rgb = self.o['img_rgb']
        cs = self.pick((['RGB'] if rgb else []) + ['GRAY', 'CMYK', 'GRAY'])
        depth = 8
        if cs == 'GRAY':
            depth = r.choice([1, 8, 1, 8, 1, 8, 2, 4, 16])
        elif r.random() < 0.2:
            depth = r.choice([1, 2, 4, 16])
        bits = depth * self.NCH[cs] * w
        row = (bits + 7) // 8
        pix = r.randbytes(row * h) if r.random() < 0.8 else bytes([r.randrange(256)]) * (row * h)
        alpha = ad = None
        if r.random() < 0.35:
            ad = r.choice([1, 8, 8, 2, 4, 16])
            alpha = r.randbytes((ad * w + 7) // 8 * h)
        dfl = (lambda b: zlib.compress(b, r.randint(0, 9))) if r.random() < 0.3 else None
        conv = self.conversions()
        return self.doc.raw_image(w, h, cs, depth, pix, alpha, ad, dfl, self.image_props(depth == 1 and cs == 'GRAY' and alpha is None), convert=conv)

    def conversions(self):
        r = self.rng
        c = []
        while r.random() < self.o['convert'] and len(c) < 3:
            c.append((self.pick((['RGB'] if self.o['img_rgb'] else []) + ['GRAY', 'CMYK']), r.randrange(4)))
        return c

    def mk_profiled_image(self):
        """a picture file with an embedded profile, converted"""
        import io
        from PIL import Image
        r = self.rng
        mode = self.pick((['RGB', 'RGBA'] if self.o['img_rgb'] else []) + ['L', 'LA', 'CMYK'])
        w, h = r.randint(1, self.o['img_max']), r.randint(1, self.o['img_max'])
        nc = len(mode)
        data = r.randbytes(w * h * nc)
        cs = {'L': 'GRAY', 'LA': 'GRAY', 'RGBA': 'RGB'}.get(mode, mode)
        icc = profiles.MAKE[cs](r) if r.random() < 0.8 else None
        b = io.BytesIO()
        Image.frombytes(mode, (w, h), data).save(b, 'TIFF' if mode == 'CMYK' else 'PNG', **({'icc_profile': icc} if icc else {}))
        pix, alpha = data, None
        if mode in ('LA', 'RGBA'):
            n = nc - 1
            p = bytearray(w * h * n)
            for c in range(n):
                p[c::n] = data[c::nc]
            pix, alpha = bytes(p), data[n::nc]
        spec = dict(w=w, h=h, cs=cs, depth=8, pixels=pix, alpha=alpha, alpha_depth=8 if alpha is not None else None, icc=icc, jpg=None)
        return self.doc.file_image(None, spec, self.image_props(False), mem=True, convert=self.conversions(), data=b.getvalue())

    def mk_synth_image(self):
        """a picture file of any readable kind, from memory or under any name it may have"""
        import images
        r = self.rng
        fmt, data, spec = images.synth(r, self.o['img_max'], self.o['img_rgb'], lambda cs: profiles.MAKE[cs](r))
        props, conv = self.image_props(spec['depth'] == 1 and spec['alpha'] is None), self.conversions()
        if r.random() < 0.5:
            return self.doc.file_image(None, spec, props, mem=True, convert=conv, data=data)
        # kept until the next case: recorded calls may be made again
        d = os.path.join(os.environ.get('CAPY_SCRATCH', '/tmp'), 'synth')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, hashlib.sha256(data).hexdigest()[:24] + r.choice(images.EXT[fmt]))
        tmp = '%s.%d' % (path, os.getpid())
        with open(tmp, 'wb') as f:
            f.write(data)
        os.rename(tmp, path)
        return self.doc.file_image(path, spec, props, convert=conv)

    def mk_image(self):
        import images
        x = self.rng.random()
        if x < 0.7:
            return self.mk_raw_image()
        if x < 0.77:
            return self.mk_profiled_image()
        if x < 0.9:
            return self.mk_synth_image()
        k = self.pick([n for n in images.KNOWN if self.o['img_rgb'] or images.KNOWN[n] != 'RGB'] or [None])
        if k is None:
            return self.mk_raw_image()
        s = images.known(k)
        return self.doc.file_image(FILES[k], dict(s), self.image_props(s['depth'] == 1 and s['alpha'] is None), mem=self.rng.random() < 0.4, convert=self.conversions())

    def mk_ocg(self):
        return self.doc.ocg(self.textstr(1, 8).replace('\0', '') if self.rng.random() < 0.7 else self.name())

    def dest_spec(self):
        r = self.rng
        pg = r.randrange(max(1, self.n_pages_target))
        if r.random() < 0.4:
            return ('fit', pg)
        return ('xyz', pg, [None if r.random() < 0.3 else self.num(0.0, 800.0) for _ in range(3)])

    def mk_outline(self):
        r = self.rng
        par = None
        if self.doc.all('outline') and r.random() < 0.65:
            par = self.some('outline')
        return self.doc.outline(self.textstr(1, 20), self.dest_spec() if r.random() < 0.8 else None,
                                tuple(self.unit() for _ in range(3)) if r.random() < 0.4 else None,
                                r.randrange(4) if r.random() < 0.4 else None, par)

    def mk_role(self):
        self.uniq += 1
        n = self.name(1, 8)
        if self.rng.random() < (0.5 if self.o['names'] == 'nasty' else 0.1):
            # these may be any bytes
            n += self.textstr(1, 10, nasty=1) if self.rng.random() < 0.7 else self.rng.randbytes(self.rng.randint(1, 12)).replace(b'\0', b'').decode('utf-8', 'surrogateescape')
        n += '_%d' % self.uniq
        return self.doc.role(n, self.rng.randrange(len(STRUCT_NAMES)))

    def mk_struct(self):
        r = self.rng
        if not self.doc.p['tagged']:
            return None
        st = self.some('role') if self.doc.all('role') and r.random() < 0.3 else r.randrange(len(STRUCT_NAMES))
        par = None
        cands = self.doc.all('struct')
        if not cands:
            st = 0
        elif r.random() < 0.92:
            par = r.choice(cands)
        ex = None
        if r.random() < 0.4:
            ex = {}
            if r.random() < 0.5:
                ex['T'] = self.textstr(1, 10)
            if r.random() < 0.4:
                ex['Lang'] = self.ascii(2, 6)
            if r.random() < 0.4:
                ex['Alt'] = self.textstr(1, 10)
            if r.random() < 0.4:
                ex['ActualText'] = self.textstr(1, 10)
        return self.doc.struct(st, par, ex)

    def free_struct(self):
        c = [s for s in self.doc.all('struct') if not getattr(s, 'claimed', False)]
        return self.rng.choice(c) if c else None

    def mk_embed(self):
        r = self.rng
        self.uniq += 1
        if r.random() < 0.2:
            p = (self.o['aux'] or self.doc.path) + '.%d.dat' % self.uniq
            open(p, 'wb').write(self.bytestr())
            nm = None
            if r.random() < 0.6:
                nm = self.textstr(1, 8).replace('\0', '') + '-%d' % self.uniq
            return self.doc.embed(nm, path=p, subtype=self.subtype())
        return self.doc.embed(self.textstr(1, 8).replace('/', '_') + '-%d' % self.uniq, data=self.bytestr(), subtype=self.subtype())

    def subtype(self):
        if self.rng.random() < 0.5:
            return None
        return self.pick(['text/plain', 'application/octet-stream', 'image/svg+xml', 'application/x-a b#c'])

    def mk_3d(self):
        f = [v for k, v in sorted(FILES.items()) if k.endswith('.u3d')]
        return self.doc.stream3d(self.pick(f), 'UDF') if f and not self.doc.all('stream3d') else None

    FT = ['BTN', 'TX', 'CH']

    def mk_field(self):
        r = self.rng
        ft = self.pick(self.FT)
        par = self.some('field') if self.doc.all('field') and r.random() < 0.45 else None
        if par is not None and r.random() < 0.5:
            par = self.doc.all('field')[0]      # many children of one field
        self.uniq += 1
        return self.doc.field(ft, T=(self.textstr(1, 6) + str(self.uniq)) if r.random() < 0.9 else None,
                              Ff=r.choice([0, 1, 2, 3, 1 << 12, 1 << 16, 0xffffffff >> 1]) if r.random() < 0.5 else None,
                              V=self.field_value(ft) if r.random() < 0.5 else None,
                              opts=[self.textstr(1, 6) for _ in range(r.randint(1, 4))] if ft == 'CH' else (), parent=par)

    def field_value(self, ft):
        return self.name() if ft == 'BTN' else self.textstr(1, 8)

    def mk_annot(self):
        r, d = self.rng, self.doc
        k = r.choice(['text', 'link', 'link', 'line', 'file', 'widget', 'printers_mark', '3d'])
        rect = self.box()
        fl = r.choice([0, 1, 2, 4, 8, 16, 32, 64, 128, 512, 4 | 64]) if r.random() < 0.6 else None
        if k == 'text':
            return d.annotation('text', rect, fl, text=self.textstr(0, 15))
        if k == 'line':
            kw = {}
            if r.random() < 0.5:
                kw['leader'] = (self.num(-20.0, 20.0), self.num(0.0, 20.0))
            if r.random() < 0.5:
                kw['ends'] = (r.randrange(10), r.randrange(10))
            return d.annotation('line', rect, fl, text=self.textstr(0, 10), line=tuple(self.nums(4)), **kw)
        if k == 'file':
            return d.annotation('file', rect, fl, file=self.some('embedded', None, self.mk_embed))
        if k == 'printers_mark':
            f = self.some('form')
            return d.annotation('printers_mark', rect, fl, form=f) if f else None
        if k == '3d':
            s = self.some('stream3d')
            return d.annotation('3d', rect, fl, stream=s) if s else None
        if k == 'widget':
            kw = {}
            f = self.some('field')
            if f is None:
                return None
            kw['parent'] = f
            fs = d.all('form')
            if fs and r.random() < 0.7:
                kw['button'] = (r.choice(fs), r.choice(fs), self.pdfname())
            return d.annotation('widget', rect, fl, **kw)
        if r.random() < 0.5:
            return d.annotation('link', rect, fl, dest=self.dest_spec())
        return d.annotation('link', rect, fl, uri=self.pick(['https://example.org/a?b=(c)', 'http://x', self.ascii(1, 12)]))

    def pdfname(self):
        return self.pick(['On', 'Yes', 'On1', 'A-b'])

    def mk_label(self):
        r = self.rng
        L = self.doc.labels
        start = 0 if not L else L[-1][0] + r.randint(1, 3)
        self.doc.label(start, r.randrange(5) if r.random() < 0.7 else None, self.textstr(0, 6) if r.random() < 0.5 else None,
                       r.randint(1, 50) if r.random() < 0.5 else None)

    def mk_res(self):
        r = self.rng
        ks = list(self.resw)
        k = r.choices(ks, [self.resw[x] for x in ks])[0]
        if k == 'outline' and not self.use('outlines') or k == 'embed' and not self.use('embed') or k == 'label' and not self.use('labels'):
            return
        f = {'font': self.mk_font, 'icc': self.mk_icc, 'lab': self.mk_lab, 'sep': self.mk_sep, 'fn': self.mk_fn, 'shading': self.mk_shading,
             'shpat': self.mk_shpat, 'softmask': self.mk_softmask, 'gstate': self.mk_gstate, 'image': self.mk_image, 'ocg': self.mk_ocg,
             'outline': self.mk_outline, 'role': self.mk_role, 'struct': self.mk_struct, 'embed': self.mk_embed, 'field': self.mk_field,
             'annot': self.mk_annot, 'stream3d': self.mk_3d, 'label': self.mk_label}[k]
        if k == 'font' and len(self.doc.all('font')) >= self.o.get('max_fonts', 4):
            return
        f()
        self.doc.count('res_' + k)

    def use(self, k):
        if k not in self.__dict__.setdefault('_use', {}):
            self._use[k] = self.rng.random() < self.o[k]
        return self._use[k]

    # ---- contexts
    def new_ctx(self, kind=None):
        r, d = self.rng, self.doc
        if kind is None:
            w = self.o['new']
            ks = ['page', 'form', 'tiling', 'trgroup']
            kind = r.choices(ks, [w[k] for k in ks])[0]
        same = [c for c in self.idle if c.kind == kind]
        if same and r.random() < self.o['reuse_ctx']:
            self.reused += 1
            c = r.choice(same)
            self.idle.remove(c)
            if self.o['fresh']:
                # what a reused context draws has to look the same as in a new one
                old, c = c, d.page() if kind == 'page' else getattr(d, kind)(c.bbox)
                old.destroy()
        elif kind == 'page':
            c = d.page()
        else:
            c = getattr(d, kind)(tuple(self.box(-100.0, 400.0)))
        self.ctxs.append(c)
        return c

    def in_mc(self, c):
        return 'MC' in c.stack

    def op(self, c):
        r = self.rng
        ks = list(self.opw)
        k = r.choices(ks, [self.opw[x] for x in ks])[0]
        f = getattr(self, 'op_' + k)
        f(c)
        self.doc.count('op_' + k)

    def op_path(self, c):
        n = self.num
        k = self.rng.randrange(7)
        if k == 0:
            c.num('m', 'm', n(), n())
        elif k == 1:
            c.num('l', 'l', n(), n())
        elif k == 2:
            c.num('c', 'c', *self.nums(6))
        elif k == 3:
            c.num('v', 'v', *self.nums(4))
        elif k == 4:
            c.num('y', 'y', *self.nums(4))
        elif k == 5:
            c.num('re', 're', *self.nums(4))
        else:
            c.paint('h')

    def op_paint(self, c):
        c.paint(self.pick(['b', 'B', 'b*', 'B*', 'f', 'f*', 'n', 's', 'S', 'W', 'W*']))

    def op_state(self, c):
        k = self.rng.randrange(7)
        if k == 0:
            c.num('w', 'w', self.num(0.0, 1000.0))
        elif k == 1:
            c.num('M', 'M', self.num(1.0, 50.0))
        elif k == 2:
            c.enum('j', 'j', self.rng.randrange(3))
        elif k == 3:
            c.enum('J', 'J', self.rng.randrange(3))
        elif k == 4:
            c.num('i', 'i', self.num(0.0, 100.0))
        elif k == 5:
            c.ri(self.rng.randrange(4))
        else:
            c.num('cm', 'cm', *self.matrix(10.0))

    def op_dash(self, c):
        c.dash([self.num(0.0, 50.0) for _ in range(self.rng.randint(1, 5))], self.num(0.0, 30.0))

    def op_q(self, c):
        if c.stack and c.stack[-1] == 'q' and self.rng.random() < 0.5:
            c.Q()
        elif len(c.stack) < 25:
            c.q()

    def op_devcolor(self, c):
        k = self.pick(['G', 'g', 'RG', 'rg', 'K', 'k'])
        n = {'g': 1, 'rg': 3, 'k': 4}[k.lower()]
        c.num(k, k, *[self.wild() for _ in range(n)], clamp=True, tags=frozenset(['P04', 'P16']))

    def color_spec(self, pattern=True):
        r = self.rng
        k = r.choice(['rgb', 'gray', 'cmyk', 'icc', 'sep', 'lab'] + (['pat'] * 2 if pattern else []))
        if k in ('rgb', 'gray', 'cmyk'):
            return self.devcolor(k.upper())
        if k == 'icc':
            o = self.some('icc', lambda x: x.id is not None, self.mk_icc)
            return ('icc', [self.unit() for _ in range(o.n)], o)
        if k == 'sep':
            return ('sep', [self.unit()], self.some('sep', None, self.mk_sep))
        if k == 'lab':
            o = self.some('lab', None, self.mk_lab)
            return ('lab', [self.num(0.0, 100.0), self.num(o.rng[0], o.rng[1]), self.num(o.rng[2], o.rng[3])], o)
        o = self.some('pattern', None, self.mk_shpat)
        return ('pat', [], o)

    def op_color(self, c):
        s = self.color_spec()
        if s[0] == 'pat' and s[2] is c:
            return
        c.color(s, self.rng.random() < 0.5)

    def op_gs(self, c):
        g = self.some('gstate', None, self.mk_gstate)
        c.gs(g)

    def op_sh(self, c):
        c.sh(self.some('shading', None, self.mk_shading))

    def op_image(self, c):
        c.do_image(self.some('image', None, self.mk_image))

    def op_tr(self, c):
        t = self.some('trgroup')
        if t:
            c.do_trgroup(t)

    def op_mc(self, c):
        r = self.rng
        if self.in_mc(c):
            if c.stack[-1] == 'MC':
                c.EMC()
            return
        k = r.random()
        if k < 0.4:
            c.bmc(self.name(2, 8))
        elif k < 0.6:
            c.bdc_testing(self.name(2, 8), self.bdc_tags())
        else:
            s = self.free_struct() if c.kind == 'page' else None
            if s is not None:
                c.bdc_struct(s, self.bdc_tags() if r.random() < 0.4 else None)

    def bdc_tags(self):
        t = {}
        for _ in range(self.rng.randint(1, 3)):
            t[self.name(1, 6)] = self.ascii(1, 8)
        return t

    def op_tag(self, c):
        r = self.rng
        if c.kind != 'page' or not self.doc.p['tagged']:
            return
        if self.in_mc(c):
            return
        s = self.free_struct() or self.mk_struct()
        if s is None or getattr(s, 'claimed', False):
            return
        c.bdc_struct(s)
        for _ in range(r.randint(0, 2)):
            self.op_path(c)
        c.EMC()

    def op_ocg(self, c):
        if self.in_mc(c):
            return
        c.bdc_ocg(self.some('ocg', None, self.mk_ocg))
        if self.rng.random() < 0.7:
            self.op_path(c)
            c.EMC()

    def op_rtext(self, c):
        f = self.a_font()
        t = self.text_for(f, 1)
        if t:
            c.render_text(t, f, self.num(1.0, 100.0), self.num(), self.num())

    def tj_items(self, f):
        r = self.rng
        items = []
        face = self.face(f)
        act = False
        for _ in range(r.randint(1, 6)):
            k = r.random()
            if k < 0.3:
                items.append(('u', self.chars(f, 1)[0]))
            elif k < 0.55:
                t = self.text_for(f)
                items.append(('s', t))
            elif k < 0.75:
                items.append(('k', r.choice([0, 1, -1, r.randint(-2000, 2000), 2**31 - 1, -2**31]) if r.random() < 0.2 else r.randint(-500, 500)))
            elif k < 0.85:
                cp = self.chars(f, 1)[0]
                gid = face.gid(cp) if r.random() < 0.5 else r.randrange(1, face.nglyphs)
                if r.random() < 0.25:
                    # any character can be given for a glyph
                    cp = r.choice([0, 0, 1, 10, 0x7f, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1d538, 0xf0000, 0x100000, 0x10ffff, r.randrange(0x110000)])
                    if 0xd800 <= cp < 0xe000:
                        cp = 0xe000
                items.append(('g', gid, cp))
            elif k < 0.92:
                t = self.text_for(f, 2, 4)
                items.append(('l', r.randrange(1, face.nglyphs) if r.random() < 0.5 else min(face.nglyphs - 1, r.randint(1, 3)), t))
            elif not act and self.o.get('actualtext', 1):
                items.append(('as', self.textstr(1, 8)))
                act = True
            elif act:
                items.append(('ae',))
                act = False
        if act:
            items.append(('ae',))
        return items

    def op_text(self, c):
        r = self.rng
        t = c.text()
        pend = [c]
        others = [x for x in self.ctxs if x is not c]
        for _ in range(r.randint(1, 10)):
            k = r.choice(['Tf', 'Tj', 'Tj', 'TJ', 'TJ', 'num', 'num', 'state', 'color', 'color', 'gs', 'dash', 'tag', 'other'])
            if k == 'Tf':
                t.Tf(self.a_font(), self.num(0.5, 200.0))
            elif k in ('Tj', 'TJ'):
                if t.font is None:
                    t.Tf(self.a_font(), self.num(0.5, 200.0))
                if k == 'Tj':
                    s = self.text_for(t.font, 1)
                    t.Tj(s)
                    if r.random() < self.o['measure']:
                        self.doc.measure(t.font, s, self.num(0.5, 200.0))
                else:
                    items = self.tj_items(t.font)
                    if (t.mc or self.in_mc(c)):
                        items = [i for i in items if i[0] not in ('as', 'ae')]
                    if items:
                        t.TJ(items)
            elif k == 'num':
                q = r.choice(['Tc', 'Td', 'TD', 'TL', 'Tm', 'T*', 'w', 'M'])
                if q == 'T*':
                    t.A.do('text_cmd_Tstar', t.h)
                    t.op('T*')
                elif q in ('w', 'M'):
                    t.num(q, q, self.num(1.0, 50.0))
                else:
                    t.num(q, q, *self.nums({'Tc': 1, 'Td': 2, 'TD': 2, 'TL': 1, 'Tm': 6}[q]))
            elif k == 'state':
                q = r.choice(['Tr', 'j', 'J'])
                t.enum(q, q, r.randrange({'Tr': 8, 'j': 3, 'J': 3}[q]))
            elif k == 'color':
                t.color(self.color_spec(), r.random() < 0.5)
            elif k == 'gs':
                t.gs(self.some('gstate', None, self.mk_gstate))
            elif k == 'dash':
                t.dash([self.num(0.0, 50.0) for _ in range(r.randint(1, 5))], self.num(0.0, 30.0))
            elif k == 'tag':
                if t.mc:
                    t.EMC()
                elif not self.in_mc(c) and c.kind == 'page':
                    s = self.free_struct()
                    if s is not None:
                        t.bdc(s)
            elif k == 'other' and others:
                self.op_path(r.choice(others))      # work elsewhere while the text object is open
        if t.mc:
            t.EMC()
        if r.random() < 0.95:
            t.render()
        else:
            for s in t.structs:
                s.claimed = False
        t.destroy()

    def op_annot(self, c):
        if c.kind != 'page':
            return
        free = [a for a in self.doc.all('annot') if not getattr(a, 'claimed', False)]
        a = self.rng.choice(free) if free else self.mk_annot()
        if a is not None:
            c.annotate(a)

    def op_props(self, c):
        if c.kind == 'page':
            c.set_props(self.boxes(False), self.trprops() if self.rng.random() < 0.4 else None)

    def op_matrix(self, c):
        if c.kind != 'page':
            c.set_matrix(tuple(self.matrix(20.0)))

    def op_group(self, c):
        if c.kind in ('page', 'trgroup'):
            c.set_group(self.trprops())

    def trans(self):
        r = self.rng
        t = {}
        E = lambda n: r.randrange(len(self.A.h.enumtypes['CapyPDF_' + n]))
        for k, f in (('S', lambda: E('Transition_Type')), ('D', lambda: self.num(0.0, 10.0)), ('Dm', lambda: E('Transition_Dimension')),
                     ('M', lambda: E('Transition_Motion')), ('Di', lambda: r.choice([0, 90, 180, 270, 315])), ('SS', lambda: self.num(0.1, 3.0)),
                     ('B', lambda: r.randrange(2))):
            if r.random() < 0.5:
                t[k] = f()
        return t

    def op_trans(self, c):
        if c.kind == 'page':
            c.set_transition(self.trans())

    def op_nav(self, c):
        if c.kind == 'page' and c.used_ocgs and c.nav is None:
            for _ in range(self.rng.choice([0, 0, 1, 2, 3])):
                if not self.in_mc(c):
                    self.op_ocg(c)
            l = sorted(c.used_ocgs, key=lambda o: o.id)
            self.rng.shuffle(l)
            c.set_nav(l[:self.rng.randint(1, len(l))], self.trans() if self.rng.random() < 0.5 else None)

    def op_viewport(self, c):
        r = self.rng
        if c.kind != 'page':
            return
        m = None
        if r.random() < 0.7:
            m = {k: [(self.textstr(1, 5), self.num(0.001, 100.0)) for _ in range(r.randint(1, 2))] for k in 'XYDA'
                 if k in 'XDA' or r.random() < 0.5}
        c.viewport(self.box(), m)

    def close(self, c):
        while c.stack:
            if c.stack[-1] == 'q':
                c.Q()
            else:
                c.EMC()
        self.doc.commit(c)
        self.ctxs.remove(c)
        if c.kind == 'page':
            self.npages += 1
        if self.rng.random() < self.o['reuse_ctx']:
            self.idle.append(c)
        else:
            c.destroy()

    # ---- the program
    def step(self):
        r, o = self.rng, self.o
        k = r.random()
        if k < 0.12 or not self.ctxs:
            if len(self.ctxs) < o['max_open'] and r.random() < 0.8:
                kind = None
                if self.npages + sum(c.kind == 'page' for c in self.ctxs) >= self.n_pages_target:
                    kind = self.pick(['form', 'tiling', 'trgroup'])
                if not self.ctxs and kind and r.random() < 0.5:
                    self.mk_res()
                else:
                    self.new_ctx(kind)
            else:
                self.mk_res()
        elif k < 0.3:
            self.mk_res()
        elif k < 0.36:
            self.close(r.choice(self.ctxs))
        else:
            self.op(r.choice(self.ctxs))

    def run(self, write=True):
        r = self.rng
        self.start()
        self.n_pages_target = self.o['pages'] if isinstance(self.o['pages'], int) else r.randint(*self.o['pages'])
        for _ in range(r.randint(*self.o['steps'])):
            self.step()
        self.finish(write)
        return self.doc

    # ---- many of one thing, or one of a large size
    def bulk(self, what, n):
        r, d = self.rng, self.doc
        kind, _, name = what.partition(':')
        d.count('bulk_' + what, n)
        if kind == 'res':
            self._use = dict(self.__dict__.get('_use', {}), outlines=True, embed=True, labels=True)
            for _ in range(n):
                getattr(self, 'mk_' + {'stream3d': '3d'}.get(name, name))()
        elif kind == 'op':
            c = self.new_ctx(name.partition('/')[2] or 'page')
            for _ in range(n):
                getattr(self, 'op_' + name.partition('/')[0])(c)
            self.close(c)
        elif kind == 'pages':
            for _ in range(n):
                c = self.new_ctx('page')
                if r.random() < 0.3:
                    self.op(c)
                self.close(c)
            self.n_pages_target = max(self.n_pages_target, self.npages)
        elif kind == 'glyphs':
            f = self.a_font()
            cs = sorted({x for x in self.face(f).chars() if x > 32})
            r.shuffle(cs)
            cs = cs[:n]
            c = self.new_ctx('page')
            while cs:
                k = r.choice([1, 7, 40, 90])
                c.render_text(''.join(map(chr, cs[:k])), f, self.num(1.0, 100.0), self.num(), self.num())
                cs = cs[k:]
            self.close(c)
        elif kind == 'gids':
            f = self.a_font()
            face = self.face(f)
            gs = list(range(1, face.nglyphs))
            r.shuffle(gs)
            gs = gs[:n]
            c = self.new_ctx('page')
            cs = [x for x in face.chars() if x > 32]
            while gs:
                k = r.choice([1, 13, 60])
                t = c.text()
                t.Tf(f, self.num(1.0, 100.0))
                t.TJ([('g', g, r.choice(cs)) for g in gs[:k]])
                t.render()
                t.destroy()
                gs = gs[k:]
            self.close(c)
        elif kind == 'embed':
            self.uniq += 1
            b = r.randbytes(n) if name == 'random' else bytes(n) if name == 'zero' else (r.randbytes(997) * (n // 997 + 1))[:n]
            d.embed('big-%d' % self.uniq, data=b, subtype=None)
        elif kind == 'image':
            w = r.choice([1, 7, 255, 256, 1024, 4096])
            h = max(1, n // w)
            cs = 'GRAY' if not self.o['img_rgb'] else r.choice(['GRAY', 'RGB', 'CMYK'])
            h = max(1, h // self.NCH[cs])
            row = w * self.NCH[cs]
            alpha = r.randbytes(w * h) if r.random() < 0.5 else None
            d.raw_image(w, h, cs, 8, r.randbytes(row * h) if name == 'random' else (r.randbytes(4099) * (row * h // 4099 + 1))[:row * h], alpha, 8 if alpha else None,
                        None, self.image_props(False))
        elif kind == 'deep':
            par = None
            for i in range(n):
                if name == 'outline':
                    par = d.outline(self.textstr(1, 6), self.dest_spec() if r.random() < 0.3 else None, None, None, par)
                elif name == 'struct':
                    par = d.struct(0 if par is None and not d.all('struct') else r.randrange(1, len(STRUCT_NAMES)), par or (d.all('struct') or [None])[0], None)
                elif name == 'field':
                    self.uniq += 1
                    par = d.field('TX', T='n%d' % self.uniq, parent=par)
        elif kind == 'wide':
            par = None
            for i in range(n):
                if name == 'outline':
                    o = d.outline(self.textstr(1, 6), self.dest_spec() if r.random() < 0.3 else None, None, None, par)
                elif name == 'struct':
                    o = d.struct(0 if not d.all('struct') else r.randrange(1, len(STRUCT_NAMES)), par or (d.all('struct') or [None])[0], None)
                elif name == 'field':
                    self.uniq += 1
                    o = d.field('TX', T='n%d' % self.uniq, parent=par)
                par = par or o
        elif kind == 'string':
            t = self.textstr(n, n)
            d.outline(t, None)
            c = self.new_ctx('page')
            self.close(c)
        elif kind == 'annots':
            c = self.new_ctx('page')
            for _ in range(n):
                a = self.mk_annot()
                if a is not None:
                    c.annotate(a)
            self.close(c)
        else:
            raise ValueError(what)

    def finish(self, write=True):
        r = self.rng
        for what, n in self.o.get('bulk', ()):
            self.bulk(what, n)
        while self.ctxs:
            self.close(r.choice(self.ctxs))
        while self.npages < self.n_pages_target:
            c = self.new_ctx('page')
            for _ in range(r.randint(0, 8)):
                self.op(c)
            self.close(c)
        if r.random() < self.o['use_all']:
            self.use_everything()
        if self.rng.random() < self.o['collection'] and self.doc.all('embedded'):
            self.mk_collection()
        if self.doc.p['tagged'] and not self.doc.all('struct') and r.random() < 0.5:
            self.mk_struct()
        if write:
            self.doc.write()

    def use_everything(self):
        """A page that refers to every resource there is."""
        r, d = self.rng, self.doc
        c = self.new_ctx('page')
        jobs = []
        for o in d.all('shading'):
            jobs.append(lambda o=o: c.sh(o))
        for o in d.all('gstate'):
            jobs.append(lambda o=o: c.gs(o))
        for o in d.all('image'):
            jobs.append(lambda o=o: c.do_image(o))
        for o in d.all('trgroup'):
            jobs.append(lambda o=o: c.do_trgroup(o))
        for o in d.all('pattern'):
            jobs.append(lambda o=o: c.color(('pat', [], o), r.random() < 0.5))
        for o in d.all('sep'):
            jobs.append(lambda o=o: c.color(('sep', [self.unit()], o), r.random() < 0.5))
        for o in d.all('lab'):
            jobs.append(lambda o=o: c.color(('lab', [self.num(0.0, 100.0), self.num(o.rng[0], o.rng[1]), self.num(o.rng[2], o.rng[3])], o), r.random() < 0.5))
        for o in d.all('icc'):
            if o.id is not None:
                jobs.append(lambda o=o: c.color(('icc', [self.unit() for _ in range(o.n)], o), r.random() < 0.5))
        for o in d.all('font'):
            jobs.append(lambda o=o: c.render_text(self.text_for(o, 1, 4), o, self.num(1.0, 100.0), self.num(), self.num()))
        for o in d.all('annot'):
            if not getattr(o, 'claimed', False):
                jobs.append(lambda o=o: c.annotate(o))
        used = {getattr(a, 'form', None) for a in d.all('annot')}
        for o in d.all('form'):
            if o not in used and r.random() < 0.8:
                jobs.append(lambda o=o: c.annotate(d.annotation('printers_mark', self.box(), None, form=o)))
        for o in d.all('ocg'):
            jobs.append(lambda o=o: (c.bdc_ocg(o), self.op_path(c), c.EMC()))
        for o in d.all('struct'):
            if not getattr(o, 'claimed', False) and r.random() < 0.6:
                jobs.append(lambda o=o: (c.bdc_struct(o), self.op_path(c), c.EMC()))
        r.shuffle(jobs)
        for j in jobs:
            if r.random() < 0.15:
                self.op_q(c) if not c.stack or c.stack[-1] == 'q' else None
            j()
        self.close(c)

    def mk_collection(self):
        r = self.rng
        schema = None
        if r.random() < 0.7:
            schema = {}
            for _ in range(r.randint(1, 4)):
                schema[self.name(1, 6)] = (r.randrange(self.o.get('ncollsub', 6)), self.textstr(1, 6), *[
                    x if r.random() < 0.5 else None for x in (r.randint(0, 5), r.randrange(2), r.randrange(2))])
        D = None
        if r.random() < 0.6:
            D = self.some('embedded').name
        self.doc.set_collection(D, r.randrange(3) if r.random() < 0.6 else None, schema)

    def cleanup(self):
        for c in self.ctxs + self.idle:
            c.destroy()
        self.ctxs, self.idle = [], []
        self.doc.destroy_all()
        if not self.o['aux']:
            for p in self.synth_files:
                fonts.forget(p)
                if os.path.exists(p):
                    os.unlink(p)
