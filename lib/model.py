"""Executes API calls through ctypes and keeps a model of what the written file has to contain.

Content operations are recorded as (operator, [matchers], tags); matchers:
  ('n', x) number   ('i', n) exact integer   ('N', s) name   ('X', category, Obj) resource
  ('A', [m...]) array   ('D', {key: m}) dictionary   ('t', s) text string   ('b', bytes) byte string
  ('mcid', Obj) marked-content id of a structure item
  operator 'SHOW' carries a list of ('u', cp) / ('g', gid, cp) / ('l', gid, text) / ('k', n) items."""
import ctypes as C, os

ENC = 'utf-8'


IMG = {'P15', 'P16'}


class Refused(Exception):
    def __init__(self, fn, rc, msg):
        super().__init__('%s returned %d (%s)' % (fn, rc, msg))
        self.fn, self.rc, self.msg = fn, rc, msg


class Obj:
    def __init__(self, kind, id_, **spec):
        self.kind, self.id = kind, id_
        self.__dict__.update(spec)

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.id)


class Api:
    """Thin call layer.  do(): the call has to succeed; raw(): any result."""

    def __init__(self, lib, rng, exact_strings=True):
        self.lib, self.dll, self.h = lib, lib.dll, lib.h
        self.rng = rng
        self.meddler = None         # takes over objects instead of their destruction
        self.before = None          # hook(fn, args) run before each call (used to inject invalid calls)
        self.after = None           # hook(fn, args, result) run after each successful call that returns an id
        self.ctxmap, self.textmap = {}, {}
        self.trace = None           # list of (fn, args) when tracing
        self.ncalls = 0
        self.fns = set()
        self.exact = exact_strings
        self.keep = []

    def E(self, name):
        return self.lib.E['CAPY_' + name]

    def msg(self, rc):
        m = self.dll.capy_error_message(rc)
        return m.decode('utf-8', 'replace') if m else ''

    def raw(self, fn, *args):
        return getattr(self.dll, 'capy_' + fn)(*args)

    def do(self, fn, *args):
        if self.before is not None:
            self.before(fn, args)
        self.ncalls += 1
        if self.meddler is not None and fn.endswith('_destroy') and self.meddler.release(fn, args[0]):
            return
        self.fns.add(fn)
        if self.trace is not None:
            self.trace.append((fn, args))
        rc = getattr(self.dll, 'capy_' + fn)(*args)
        if rc != 0:
            raise Refused(fn, rc, self.msg(rc))

    def ptr(self, fn, *args, at=None):
        out = C.c_void_p()
        a = list(args)
        a.insert(len(a) if at is None else at, C.byref(out))
        self.do(fn, *a)
        return out.value

    def newid(self, fn, *args):
        from capi import IdStruct
        out = IdStruct(-12345)
        self.do(fn, *(list(args) + [C.byref(out)]))
        if self.after is not None:
            self.after(fn, args, out.id)
        return out.id

    def s(self, v, lenmode=None):
        """string argument pair (pointer, size)"""
        b = v.encode(ENC, 'surrogateescape') if isinstance(v, str) else v
        m = lenmode if lenmode is not None else self.rng.random() < 0.5
        if m or b'\0' in b:
            if self.exact and b:
                buf = (C.c_char * len(b)).from_buffer_copy(b)
                self.keep.append(buf)
                if len(self.keep) > 64:
                    self.keep = self.keep[-32:]
                return C.cast(buf, C.c_char_p), len(b)
            return b, len(b)
        return b, -1


def dbl(vals):
    return (C.c_double * len(vals))(*vals)


def ID(o):
    from capi import IdStruct
    return IdStruct(o.id if isinstance(o, Obj) else int(o))


CLAMP = lambda v: min(1.0, max(0.0, v))


class Doc:
    def __init__(self, A, rng, path):
        self.A, self.rng, self.path = A, rng, path
        A.doc = self
        self.h = None
        self.p = dict(title='', author='', creator='', lang='', cs='RGB', profiles={}, intent=None, pdfx=None, pdfa=None,
                      boxes={'MediaBox': (0, 0, 595.28, 841.89)}, trgroup=None, tagged=0, layout=None, mode=None, metadata=None)
        self.obj = {}               # kind -> list of Obj in order
        self.pages = []             # committed page contexts
        self.labels = []
        self.outlines = []
        self.collection = None
        self.trash = []             # (destroy function, handle)
        self.iccs = {}
        self.found = []             # (tags, key, message): wrong answers of calls
        self.device = None          # device profiles by colour space
        self.used_annots = set()
        self.written = False
        self.mutate = 0.0           # probability of changing a caller object after it was used
        self.stats = {}

    # -- bookkeeping
    def reg(self, o):
        self.obj.setdefault(o.kind, []).append(o)
        return o

    def all(self, kind):
        return self.obj.get(kind, [])

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def drop(self, fn, h):
        """Destroy a caller object now or at the end."""
        if self.rng.random() < 0.5:
            self.A.do(fn, h)
        else:
            self.trash.append((fn, h))

    def destroy_all(self, gen_first=False):
        t = self.trash
        self.trash = []
        self.rng.shuffle(t)
        for fn, h in t:
            self.A.do(fn, h)
        if self.h:
            self.A.do('generator_destroy', self.h)
            self.h = None

    # -- document level
    def open(self, early_destroy=True):
        A, p = self.A, self.p
        d = A.ptr('document_properties_new')
        for k in ('title', 'author', 'creator'):
            if p[k] or k in p.get('set_empty', ()):
                A.do('document_properties_set_' + k, d, *A.s(p[k]))
        if p['lang']:
            A.do('document_properties_set_language', d, *A.s(p['lang']))
        if p['cs'] != 'RGB' or self.rng.random() < 0.3:
            A.do('document_properties_set_colorspace', d, A.E('DEVICE_CS_' + p['cs']))
        for cs, f in p['profiles'].items():
            A.do('document_properties_set_device_profile', d, A.E('DEVICE_CS_' + cs), f.encode())
        if p['intent'] is not None:
            A.do('document_properties_set_output_intent', d, *A.s(p['intent']))
        if p['pdfx']:
            A.do('document_properties_set_pdfx', d, A.E(p['pdfx']))
        if p['pdfa']:
            A.do('document_properties_set_pdfa', d, A.E(p['pdfa']))
        if p['boxes'] != {'MediaBox': (0, 0, 595.28, 841.89)} or p['trgroup'] is not None:
            h = self.page_props(p['boxes'], p['trgroup'])
            A.do('document_properties_set_default_page_properties', d, h)
            if self.rng.random() < self.mutate:
                A.do('page_properties_set_pagebox', h, A.E('BOX_MEDIA'), 1, 2, 3.5, 4.5)
            A.do('page_properties_destroy', h)
        if p['tagged']:
            A.do('document_properties_set_tagged', d, 1)
        if p['layout'] is not None:
            A.do('document_properties_set_page_layout', d, p['layout'])
        if p['mode'] is not None:
            A.do('document_properties_set_page_mode', d, p['mode'])
        if p['metadata'] is not None:
            A.do('document_properties_set_metadata_xml', d, *A.s(p['metadata']))
        self.h = A.ptr('generator_new', os.fsencode(self.path), d)
        if self.rng.random() < self.mutate:
            A.do('document_properties_set_title', d, b'mutated afterwards', -1)
            A.do('document_properties_set_tagged', d, 0 if p['tagged'] else 1)
        self.drop('document_properties_destroy', d)
        return self

    def page_props(self, boxes, trgroup):
        A = self.A
        h = A.ptr('page_properties_new')
        for k, v in boxes.items():
            A.do('page_properties_set_pagebox', h, A.E('BOX_' + k[:-3].upper()), *v)
        if trgroup is not None:
            t = self.trprops(trgroup)
            A.do('page_properties_set_transparency_group_properties', h, t)
            if self.rng.random() < self.mutate:
                A.do('transparency_group_properties_set_I', t, 1 - (trgroup.get('I') or 0))
            A.do('transparency_group_properties_destroy', t)
        return h

    def trprops(self, t):
        A = self.A
        h = A.ptr('transparency_group_properties_new')
        if t.get('CS'):
            A.do('transparency_group_properties_set_CS', h, A.E('DEVICE_CS_' + t['CS']))
        for k in ('I', 'K'):
            if t.get(k) is not None:
                A.do('transparency_group_properties_set_' + k, h, t[k])
        return h

    def write(self):
        self.A.do('generator_write', self.h)
        self.written = True

    def label(self, start, style, prefix, num):
        A = self.A
        st = C.c_int(style) if style is not None else None
        n = C.c_uint32(num) if num is not None else None
        if prefix is None:
            ps = (None, 0)
        else:
            ps = A.s(prefix)
        A.do('generator_add_page_labeling', self.h, start, C.byref(st) if st is not None else None, ps[0], ps[1],
             C.byref(n) if n is not None else None)
        self.labels.append((start, style, prefix, num))

    # -- contexts
    def page(self):
        return Ctx(self, 'page', self.A.ptr('page_draw_context_new', self.h), None)

    def form(self, box):
        return Ctx(self, 'form', self.A.ptr('form_xobject_new', self.h, *box), box)

    def tiling(self, box):
        return Ctx(self, 'tiling', self.A.ptr('tiling_pattern_context_new', self.h, *box, at=1), box)

    def trgroup(self, box):
        return Ctx(self, 'trgroup', self.A.ptr('transparency_group_new', self.h, *box), box)

    def commit(self, c):
        """Adds the context to the document, returns the model object; c is empty afterwards."""
        A = self.A
        snap = c.snapshot()
        if c.kind == 'page':
            A.do('generator_add_page', self.h, c.h)
            o = Obj('page', len(self.pages), **snap)
            self.pages.append(o)
            for a in o.annots:
                self.used_annots.add(a)
                a.page = o
            for i, s in enumerate(o.structs):
                s.page, s.mcid = o, i
        else:
            fn, kind = {'form': ('add_form_xobject', 'form'), 'tiling': ('add_tiling_pattern', 'pattern'),
                        'trgroup': ('add_transparency_group', 'trgroup')}[c.kind]
            i = A.newid('generator_' + fn, self.h, c.h)
            o = self.reg(Obj(kind, i, ctxkind=c.kind, **snap))
        c.reset()
        self.count('commit_' + c.kind)
        return o

    # -- colours.  spec: (kind, values...)
    def color(self, spec):
        A = self.A
        h = A.ptr('color_new')
        self.color_set(h, spec)
        return h

    def color_set(self, h, spec):
        A, k = self.A, spec[0]
        if k == 'rgb':
            A.do('color_set_rgb', h, *spec[1])
        elif k == 'gray':
            A.do('color_set_gray', h, *spec[1])
        elif k == 'cmyk':
            A.do('color_set_cmyk', h, *spec[1])
        elif k == 'icc':
            A.do('color_set_icc', h, ID(spec[2]), dbl(spec[1]), len(spec[1]))
        elif k == 'sep':
            A.do('color_set_separation', h, ID(spec[2]), spec[1][0])
        elif k == 'lab':
            A.do('color_set_lab', h, ID(spec[2]), *spec[1])
        elif k == 'pat':
            A.do('color_set_pattern', h, ID(spec[2]))

    def after_color(self, h):
        if self.rng.random() < self.mutate:
            self.A.do('color_set_cmyk', h, 0.9, 0.8, 0.7, 0.6)
        self.drop('color_destroy', h)

    # -- objects
    def icc(self, path=None, data=None, n=None):
        A = self.A
        if path:
            i = A.newid('generator_load_icc_profile', self.h, path.encode())
            data = open(path, 'rb').read()
        else:
            i = A.newid('generator_add_icc_profile', self.h, data, len(data), n)
        if data in self.iccs:
            o = self.iccs[data]
            if o.id is None:
                o.id = i
            if o.id != i:
                self.problem('icc-id', 'the same profile got ids %d and %d' % (o.id, i))
            return o
        o = self.reg(Obj('icc', i, data=data, n=n))
        self.iccs[data] = o
        return o

    def problem(self, key, msg):
        raise Refused(key, 0, msg)

    def lab(self, wp, rng):
        i = self.A.newid('generator_add_lab_colorspace', self.h, *wp, *rng)
        return self.reg(Obj('lab', i, wp=wp, rng=rng))

    def separation(self, name, cs, fn):
        i = self.A.newid('generator_add_separation', self.h, *self.A.s(name), self.A.E('DEVICE_CS_' + cs), ID(fn))
        return self.reg(Obj('sep', i, name=name, cs=cs, fn=fn))

    def add_function(self, h, **spec):
        i = self.A.newid('generator_add_function', self.h, h)
        self.drop('function_destroy', h)
        return self.reg(Obj('function', i, **spec))

    def fn2(self, domain, c0, c1, n):
        a, b = self.color(c0), self.color(c1)
        h = self.A.ptr('type2_function_new', dbl(domain), len(domain), a, b, n)
        self.after_color(a)
        self.after_color(b)
        return self.add_function(h, ft=2, domain=domain, c0=[CLAMP(v) for v in c0[1]], c1=[CLAMP(v) for v in c1[1]], n=n,
                                 nout=len(c0[1]))

    def fn3(self, domain, fns, bounds, encode):
        from capi import IdStruct
        arr = (IdStruct * len(fns))(*[IdStruct(f.id) for f in fns])
        h = self.A.ptr('type3_function_new', dbl(domain), len(domain), arr, len(fns), dbl(bounds), len(bounds), dbl(encode), len(encode))
        return self.add_function(h, ft=3, domain=domain, fns=list(fns), bounds=bounds, encode=encode, nout=fns[0].nout)

    def fn4(self, domain, rng, code):
        p, n = self.A.s(code)
        h = self.A.ptr('type4_function_new', dbl(domain), len(domain), dbl(rng), len(rng), p, n)
        return self.add_function(h, ft=4, domain=domain, rng=rng, code=code, nout=len(rng) // 2)

    def shading2(self, cs, pts, fn, extend=None, domain=None):
        A = self.A
        h = A.ptr('type2_shading_new', A.E('DEVICE_CS_' + cs), *pts, ID(fn))
        return self._shading(h, extend, domain, st=2, cs=cs, coords=list(pts), fn=fn)

    def shading3(self, cs, pts, fn, extend=None, domain=None):
        A = self.A
        h = A.ptr('type3_shading_new', A.E('DEVICE_CS_' + cs), dbl(pts), ID(fn))
        return self._shading(h, extend, domain, st=3, cs=cs, coords=list(pts), fn=fn)

    def _shading(self, h, extend, domain, **spec):
        A = self.A
        if extend is not None:
            A.do('shading_set_extend', h, *extend)
        if domain is not None:
            A.do('shading_set_domain', h, *domain)
        i = A.newid('generator_add_shading', self.h, h)
        if self.rng.random() < self.mutate and spec['st'] in (2, 3):
            A.do('shading_set_domain', h, 0.25, 0.75)
        self.drop('shading_destroy', h)
        return self.reg(Obj('shading', i, extend=extend, domain=domain, **spec))

    def shading4(self, cs, box, items):
        """items: ('tri', 6 coords, 3 colours) | ('ext', flag, 2 coords, colour)"""
        A = self.A
        h = A.ptr('type4_shading_new', A.E('DEVICE_CS_' + cs), *box)
        for it in items:
            if it[0] == 'tri':
                cs_ = [self.color(c) for c in it[2]]
                A.do('type4_shading_add_triangle', h, dbl(it[1]), (C.c_void_p * 3)(*cs_))
            else:
                cs_ = [self.color(it[3])]
                A.do('type4_shading_extend', h, it[1], dbl(it[2]), cs_[0])
            for c in cs_:
                self.after_color(c)
        return self._shading(h, None, None, st=4, cs=cs, box=box, items=items)

    def shading6(self, cs, box, items):
        """items: ('patch', 24 coords, 4 colours) | ('ext', flag, 16 coords, 2 colours)"""
        A = self.A
        h = A.ptr('type6_shading_new', A.E('DEVICE_CS_' + cs), *box)
        for it in items:
            if it[0] == 'patch':
                cs_ = [self.color(c) for c in it[2]]
                A.do('type6_shading_add_patch', h, dbl(it[1]), (C.c_void_p * 4)(*cs_))
            else:
                cs_ = [self.color(c) for c in it[3]]
                A.do('type6_shading_extend', h, it[1], dbl(it[2]), (C.c_void_p * 2)(*cs_))
            for c in cs_:
                self.after_color(c)
        return self._shading(h, None, None, st=6, cs=cs, box=box, items=items)

    def shading_pattern(self, sh, matrix=None):
        A = self.A
        h = A.ptr('shading_pattern_new', ID(sh))
        if matrix:
            A.do('shading_pattern_set_matrix', h, *matrix)
        i = A.newid('generator_add_shading_pattern', self.h, h)
        if self.rng.random() < self.mutate:
            A.do('shading_pattern_set_matrix', h, 9, 8, 7, 6, 5, 4)
        self.drop('shading_pattern_destroy', h)
        return self.reg(Obj('pattern', i, ctxkind='shading', shading=sh, matrix=matrix))

    def soft_mask(self, subtype, tg):
        A = self.A
        h = A.ptr('soft_mask_new', A.E('SOFT_MASK_' + subtype), ID(tg))
        i = A.newid('generator_add_soft_mask', self.h, h)
        self.drop('soft_mask_destroy', h)
        return self.reg(Obj('softmask', i, subtype=subtype, tg=tg))

    def gstate(self, vals):
        """vals: dict of CA ca BM op OP OPM SMask FL HT SM AIS TK BPC"""
        A = self.A
        h = A.ptr('graphics_state_new')
        order = list(vals)
        self.rng.shuffle(order)
        for k in order:
            v = vals[k]
            if k == 'HT':
                ht = A.ptr('halftone_new')
                if v == 'default':
                    A.do('halftone_set_default', ht)
                else:
                    A.do('halftone_set_type1', ht, v[0], v[1], v[2])
                A.do('graphics_state_set_HT', h, ht)
                if self.rng.random() < self.mutate:
                    A.do('halftone_set_default', ht)
                self.drop('halftone_destroy', ht)
            elif k == 'SMask':
                A.do('graphics_state_set_SMask', h, ID(v))
            elif k == 'BPC':
                A.do('graphics_state_set_blackpoint_compensation', h, v)
            else:
                A.do('graphics_state_set_' + k, h, v)
        i = A.newid('generator_add_graphics_state', self.h, h)
        if self.rng.random() < self.mutate:
            A.do('graphics_state_set_CA', h, 0.123)
            A.do('graphics_state_set_TK', h, 1)
        self.drop('graphics_state_destroy', h)
        return self.reg(Obj('gstate', i, vals=dict(vals)))

    def raw_image(self, w, h_, cs, depth, pixels, alpha=None, alpha_depth=None, deflate=None, props=None, convert=()):
        A = self.A
        b = A.ptr('raster_image_builder_new')
        A.do('raster_image_builder_set_size', b, w, h_)
        if cs is not None:
            A.do('raster_image_builder_set_colorspace', b, A.E('IMAGE_CS_' + cs))
        A.do('raster_image_builder_set_pixel_depth', b, depth)
        data = pixels
        if deflate:
            A.do('raster_image_builder_set_input_data_compression_format', b, A.E('COMPRESSION_DEFLATE'))
            data = deflate(pixels)
        A.do('raster_image_builder_set_pixel_data', b, data, len(data))
        if alpha is not None:
            ad = deflate(alpha) if deflate else alpha
            A.do('raster_image_builder_set_alpha_depth', b, alpha_depth)
            A.do('raster_image_builder_set_alpha_data', b, ad, len(ad))
        im = A.ptr('raster_image_builder_build', b)
        self.drop('raster_image_builder_destroy', b)
        spec = dict(w=w, h=h_, cs=cs or 'GRAY', depth=depth, pixels=pixels, alpha=alpha, alpha_depth=alpha_depth, icc=None, jpg=None, packed=bool(deflate))
        return self.add_image(im, spec, props, convert)

    def device_profiles(self):
        if self.device is None:
            self.device = {cs: open(f, 'rb').read() for cs, f in self.p['profiles'].items()}
        return self.device

    def converted(self, im, spec, to, ri):
        """-> (image, specification) after converting im, which is unchanged when the conversion has to be refused"""
        import cmm
        A = self.A
        if spec['depth'] != 8 or spec['jpg'] is not None or spec.get('packed') or not cmm.convertible(spec['cs'], to, spec['icc'], self.device_profiles()):
            out = C.c_void_p()
            rc = A.raw('generator_convert_image', self.h, im, A.E('DEVICE_CS_' + to), ri, C.byref(out))
            if rc == 0:
                A.raw('raster_image_destroy', out)
                self.found.append(({'P16', 'P05'}, 'convert.accepted', 'a picture (%s, depth %d, %s) was converted to %s with the device profiles %r' % (
                    spec['cs'], spec['depth'], 'JPEG' if spec['jpg'] is not None else 'raw', to, sorted(self.device_profiles()))))
            self.stats['conversions_refused'] = self.stats.get('conversions_refused', 0) + 1
            return im, spec
        out = A.ptr('generator_convert_image', self.h, im, A.E('DEVICE_CS_' + to), ri)
        if self.rng.random() < 0.5:
            self.drop('raster_image_destroy', im)
        else:
            self.trash.append(('raster_image_destroy', im))
        self.stats['conversions'] = self.stats.get('conversions', 0) + 1
        return out, dict(spec, cs=to, icc=None, pixels=cmm.convert(spec['pixels'], spec['cs'], to, ri, spec['icc'], self.device_profiles()),
                         converted='%s to %s with intent %d' % (spec['cs'], to, ri), alt=None)

    def measure(self, font, text, size):
        import fonts
        w = C.c_double(-1e99)
        rc = self.A.raw('generator_text_width', self.h, *self.A.s(text), ID(font), size, C.byref(w))
        f = fonts.face(font.path, font.props)
        units, kerned = f.width(text)
        want = units * size / f.upem
        self.stats['measured'] = self.stats.get('measured', 0) + 1
        self.stats['kerned_pairs'] = self.stats.get('kerned_pairs', 0) + kerned
        if rc or abs(w.value - want) > 1e-6 * (1 + abs(want)):
            self.found.append(({'P11'}, 'text_width', 'the width of %r in %s %r at %r is %r instead of %r (%d units, %d kerned pairs), result %d' % (
                text, font.path, font.props, size, w.value, want, units, kerned, rc)))

    def getters(self, im, spec):
        A = self.A
        w, h, cs, hp = C.c_uint32(), C.c_uint32(), C.c_int(-1), C.c_int32(-1)
        if A.raw('raster_image_get_size', im, C.byref(w), C.byref(h)) or (w.value, h.value) != (spec['w'], spec['h']):
            self.found.append((IMG, 'image.size', 'raster_image_get_size says %d x %d for a picture of %d x %d' % (w.value, h.value, spec['w'], spec['h'])))
        if spec['jpg'] is not None:
            return
        if A.raw('raster_image_get_colorspace', im, C.byref(cs)) or cs.value != A.E('IMAGE_CS_' + spec['cs']):
            self.found.append((IMG, 'image.colorspace', 'raster_image_get_colorspace says %d for a picture in %s' % (cs.value, spec['cs'])))
        if A.raw('raster_image_has_profile', im, C.byref(hp)) or hp.value != (1 if spec['icc'] else 0):
            self.found.append((IMG, 'image.has_profile', 'raster_image_has_profile says %d for a picture with %d bytes of profile' % (hp.value, len(spec['icc'] or b''))))

    def file_image(self, path, spec, props=None, mem=False, convert=(), data=None):
        A = self.A
        if mem:
            d = data or open(path, 'rb').read()
            buf = (C.c_char * len(d)).from_buffer_copy(d)
            im = A.ptr('generator_load_image_from_memory', self.h, C.cast(buf, C.c_char_p), len(d))
        else:
            im = A.ptr('generator_load_image', self.h, os.fsencode(path))
        return self.add_image(im, spec, props, convert)

    def image_props(self, props):
        A = self.A
        p = A.ptr('image_pdf_properties_new')
        props = props or {}
        if 'mask' in props:
            A.do('image_pdf_properties_set_mask', p, props['mask'])
        if 'interp' in props:
            A.do('image_pdf_properties_set_interpolate', p, A.E('INTERPOLATION_' + props['interp']))
        if 'intent' in props:
            A.do('image_pdf_properties_set_conversion_intent', p, props['intent'])
        return p

    def add_image(self, im, spec, props=None, convert=()):
        A = self.A
        for to, ri in convert:
            im, spec = self.converted(im, spec, to, ri)
        if self.rng.random() < 0.5:
            self.getters(im, spec)
        p = self.image_props(props)
        i = A.newid('generator_add_image', self.h, im, p)
        self.drop('image_pdf_properties_destroy', p)
        self.drop('raster_image_destroy', im)
        return self.reg(Obj('image', i, props=dict(props or {}), **spec))

    def font(self, path, props=None):
        A = self.A
        p = None
        if props is not None:
            p = A.ptr('font_properties_new')
            if 'subfont' in props:
                A.do('font_properties_set_subfont', p, props['subfont'])
            if 'instance' in props:
                A.do('font_properties_set_named_instance', p, props['instance'])
            for ax, v in props.get('axes', {}).items():
                A.do('font_properties_set_variation', p, *A.s(ax), v)
        i = A.newid('generator_load_font', self.h, path.encode(), p)
        if p is not None:
            self.drop('font_properties_destroy', p)
        return self.reg(Obj('font', i, path=path, props=props, asked=set()))

    def ocg(self, name):
        A = self.A
        h = A.ptr('optional_content_group_new', name.encode(), at=0)
        i = A.newid('generator_add_optional_content_group', self.h, h)
        self.drop('optional_content_group_destroy', h)
        return self.reg(Obj('ocg', i, name=name))

    def dest(self, d):
        A = self.A
        h = A.ptr('destination_new')
        self.dest_set(h, d)
        return h

    def dest_set(self, h, d):
        if d[0] == 'fit':
            self.A.do('destination_set_page_fit', h, d[1])
        else:
            a = [None if v is None else C.byref(C.c_double(v)) for v in d[2]]
            self.A.do('destination_set_page_xyz', h, d[1], *a)

    def after_dest(self, h):
        if self.rng.random() < self.mutate:
            self.A.do('destination_set_page_fit', h, 0)
        self.drop('destination_destroy', h)

    def outline(self, title, dest=None, C_=None, F=None, parent=None):
        A = self.A
        h = A.ptr('outline_new')
        A.do('outline_set_title', h, *A.s(title))
        if dest:
            d = self.dest(dest)
            A.do('outline_set_destination', h, d)
            self.after_dest(d)
        if C_:
            A.do('outline_set_C', h, *C_)
        if F is not None:
            A.do('outline_set_F', h, F)
        if parent is not None:
            A.do('outline_set_parent', h, ID(parent))
        i = A.newid('generator_add_outline', self.h, h)
        if self.rng.random() < self.mutate:
            A.do('outline_set_title', h, b'changed later', -1)
        self.drop('outline_destroy', h)
        o = self.reg(Obj('outline', i, title=title, dest=dest, C=C_, F=F, parent=parent))
        return o

    def role(self, name, builtin):
        i = self.A.newid('generator_add_rolemap_entry', self.h, *self.A.s(name), builtin)
        return self.reg(Obj('role', i, name=name, builtin=builtin))

    def struct(self, stype, parent=None, extra=None):
        """stype: int (builtin) or role Obj"""
        from capi import IdStruct
        A = self.A
        e = None
        if extra is not None:
            e = A.ptr('struct_item_extra_data_new')
            for k, v in extra.items():
                A.do('struct_item_extra_data_set_' + {'T': 't', 'Lang': 'lang', 'Alt': 'alt', 'ActualText': 'actual_text'}[k], e, *A.s(v))
        pp = C.byref(IdStruct(parent.id)) if parent is not None else None
        if isinstance(stype, Obj):
            i = A.newid('generator_add_custom_structure_item', self.h, ID(stype), pp, e)
        else:
            i = A.newid('generator_add_structure_item', self.h, stype, pp, e)
        if e is not None:
            if self.rng.random() < self.mutate:
                A.do('struct_item_extra_data_set_t', e, b'changed later', -1)
            self.drop('struct_item_extra_data_destroy', e)
        o = self.reg(Obj('struct', i, stype=stype, parent=parent, extra=dict(extra or {}), page=None, mcid=None, kids=[]))
        if parent is not None:
            parent.kids.append(o)
        return o

    def embed(self, name, data=None, path=None, subtype=None):
        A = self.A
        h = A.ptr('embedded_file_new')
        if path:
            A.do('embedded_file_load_file', h, path.encode())
            data = open(path, 'rb').read()
        if data is not None and not path:
            A.do('embedded_file_set_contents', h, data, len(data))
        if subtype is not None:
            A.do('embedded_file_set_subtype', h, *A.s(subtype))
        if name is not None:
            A.do('embedded_file_set_pdf_name', h, *A.s(name))
        elif path:
            name = os.path.basename(path)
        i = A.newid('generator_embed_file', self.h, h)
        if self.rng.random() < self.mutate:
            A.do('embedded_file_set_pdf_name', h, b'other.bin', -1)
            A.do('embedded_file_set_contents', h, b'other', 5)
        self.drop('embedded_file_destroy', h)
        return self.reg(Obj('embedded', i, name=name, data=data, subtype=subtype))

    def stream3d(self, path, fmt):
        h = self.A.ptr('3d_stream_new', path.encode(), self.A.E('3D_' + fmt))
        i = self.A.newid('generator_add_3d_stream', self.h, h)
        self.drop('3d_stream_destroy', h)
        return self.reg(Obj('stream3d', i, data=open(path, 'rb').read(), fmt=fmt))

    def annotation(self, at, rect, flags=None, **kw):
        A = self.A
        if at == 'text':
            h = A.ptr('text_annotation_new', *A.s(kw['text']))
        elif at == 'line':
            h = A.ptr('line_annotation_new', *A.s(kw['text']), *kw['line'])
        elif at == 'file':
            h = A.ptr('file_attachment_annotation_new', ID(kw['file']))
        elif at == 'printers_mark':
            h = A.ptr('printers_mark_annotation_new', ID(kw['form']))
        else:
            h = A.ptr({'link': 'link_annotation_new', 'widget': 'widget_annotation_new', '3d': '3d_annotation_new'}[at])
        A.do('annotation_set_rectangle', h, *rect)
        if flags is not None:
            A.do('annotation_set_flags', h, flags)
        if at == 'link':
            if kw.get('dest'):
                d = self.dest(kw['dest'])
                A.do('annotation_set_destination', h, d)
                self.after_dest(d)
            if kw.get('uri') is not None:
                A.do('annotation_set_uri', h, *A.s(kw['uri']))
        if at == 'line':
            if kw.get('leader'):
                A.do('annotation_set_line_leader', h, *kw['leader'])
            if kw.get('ends'):
                A.do('annotation_set_line_endings', h, *kw['ends'])
        if at == 'widget':
            if kw.get('parent') is not None:
                A.do('annotation_set_parent_field', h, ID(kw['parent']))
            if kw.get('button'):
                on, off, nm = kw['button']
                A.do('annotation_set_widget_button_appearance', h, ID(on), ID(off), *A.s(nm))
        if at == '3d':
            A.do('annotation_set_3d_stream', h, ID(kw['stream']))
        i = A.newid('generator_add_annotation', self.h, h)
        if self.rng.random() < self.mutate:
            A.do('annotation_set_rectangle', h, 1, 1, 2, 2)
            A.do('annotation_set_flags', h, 1)
        self.drop('annotation_destroy', h)
        return self.reg(Obj('annot', i, at=at, rect=rect, flags=flags, page=None, **{k: v for k, v in kw.items()}))

    def field(self, ft, T=None, Ff=None, V=None, opts=(), parent=None):
        A = self.A
        h = A.ptr('form_field_new', A.E('FORM_FIELD_TYPE_' + ft))
        if T is not None:
            A.do('form_field_set_T', h, *A.s(T))
        if Ff is not None:
            A.do('form_field_set_Ff', h, Ff)
        if V is not None:
            A.do('form_field_set_V', h, *A.s(V))
        for o in opts:
            A.do('form_field_add_Opt_entry', h, *A.s(o))
        if parent is not None:
            A.do('form_field_set_parent', h, ID(parent))
        i = A.newid('generator_add_form_field', self.h, h)
        self.drop('form_field_destroy', h)
        return self.reg(Obj('field', i, ft=ft, T=T, Ff=Ff, V=V, opts=list(opts), parent=parent))

    def set_collection(self, D=None, view=None, schema=None):
        """schema: {key: (subtype, N, O, V, E)}"""
        A = self.A
        h = A.ptr('collection_new')
        if D is not None:
            A.do('collection_set_D', h, *A.s(D))
        if view is not None:
            A.do('collection_set_view', h, view)
        if schema is not None:
            sc = A.ptr('collection_schema_new')
            for k, (st, N, O, V, E_) in schema.items():
                f = A.ptr('collection_field_new', st, *A.s(N))
                for nm, v in (('O', O), ('V', V), ('E', E_)):
                    if v is not None:
                        A.do('collection_field_set_' + nm, f, v)
                A.do('collection_schema_add_entry', sc, *A.s(k), f)
                self.drop('collection_field_destroy', f)
            A.do('collection_set_schema', h, sc)
            self.drop('collection_schema_destroy', sc)
        A.do('generator_set_collection', self.h, h)
        self.drop('collection_destroy', h)
        self.collection = dict(D=D, view=view, schema=schema)

    def transition(self, t):
        A = self.A
        h = A.ptr('transition_new')
        for k, v in t.items():
            A.do('transition_set_' + k, h, v)
        return h

    def after_transition(self, h):
        if self.rng.random() < self.mutate:
            self.A.do('transition_set_D', h, 77.5)
        self.drop('transition_destroy', h)


T4 = frozenset(['P04'])


class Ctx:
    def __init__(self, doc, kind, h, bbox):
        self.doc, self.A, self.kind, self.h, self.bbox = doc, doc.A, kind, h, bbox
        self.dead = False
        self.A.ctxmap[h] = self
        self.reset()

    def reset(self):
        self.ops = []
        self.stack = []
        self.annots, self.structs = [], []
        self.trans, self.nav, self.viewports = None, None, []
        self.boxes, self.group, self.matrix = {}, None, None
        self.used_ocgs = set()

    def snapshot(self):
        return dict(ops=self.ops, bbox=self.bbox, annots=self.annots, structs=self.structs, trans=self.trans, nav=self.nav,
                    viewports=self.viewports, boxes=self.boxes, group=self.group, matrix=self.matrix)

    def op(self, op, ms=(), tags=T4):
        self.ops.append((op, list(ms), tags))

    def destroy(self):
        if not self.dead:
            self.dead = True
            self.A.ctxmap.pop(self.h, None)
            self.doc.trash_ctx = True
            self.A.do('dc_destroy', self.h)

    # plain numeric operators: name -> call
    def num(self, op, fn, *v, clamp=False, tags=T4):
        self.A.do('dc_cmd_' + fn, self.h, *v)
        self.op(op, [('n', CLAMP(x) if clamp else x) for x in v], tags)

    def paint(self, op):
        fn = op.replace('*', 'star')
        self.A.do('dc_cmd_' + fn, self.h)
        self.op(op)

    def enum(self, op, fn, v):
        self.A.do('dc_cmd_' + fn, self.h, v)
        self.op(op, [('i', v)])

    def ri(self, v):
        self.A.do('dc_cmd_ri', self.h, v)
        self.op('ri', [('N', ['RelativeColorimetric', 'AbsoluteColorimetric', 'Saturation', 'Perceptual'][v])])

    def dash(self, arr, phase):
        self.A.do('dc_cmd_d', self.h, dbl(arr), len(arr), phase)
        self.op('d', [('A', [('n', x) for x in arr]), ('n', phase)])

    def q(self):
        self.A.do('dc_cmd_q', self.h)
        self.stack.append('q')
        self.op('q')

    def Q(self):
        self.A.do('dc_cmd_Q', self.h)
        assert self.stack.pop() == 'q'
        self.op('Q')

    def EMC(self):
        self.A.do('dc_cmd_EMC', self.h)
        assert self.stack.pop() == 'MC'
        self.op('EMC')

    def bmc(self, tag):
        self.A.do('dc_cmd_BMC', self.h, tag.encode())
        self.stack.append('MC')
        self.op('BMC', [('N', tag)], frozenset(['P04', 'P09']))

    def _tags(self, tags):
        A = self.A
        t = A.ptr('bdc_tags_new')
        for k, v in tags.items():
            kp, kn = A.s(k)
            vp, vn = A.s(v)
            A.do('bdc_tags_add_tag', t, kp, kn, vp, vn)
        return t

    def _bdc_done(self, t):
        if t is not None:
            if self.doc.rng.random() < self.doc.mutate:
                self.A.do('bdc_tags_add_tag', t, b'Later', -1, b'changed', -1)
            self.doc.drop('bdc_tags_destroy', t)

    def bdc_struct(self, s, tags=None):
        t = self._tags(tags) if tags is not None else None
        self.A.do('dc_cmd_BDC_builtin', self.h, ID(s), t)
        self._bdc_done(t)
        self.stack.append('MC')
        self.structs.append(s)
        s.claimed = True
        d = {k.lstrip('/'): ('b', v.encode()) for k, v in (tags or {}).items()}
        d['MCID'] = ('mcid', s)
        self.op('BDC', [('N', stype_name(s)), ('D', d)], frozenset(['P04', 'P18', 'P09']))

    def bdc_testing(self, name, tags):
        t = self._tags(tags)
        p, n = self.A.s(name)
        self.A.do('dc_cmd_BDC_testing', self.h, p, n, t)
        self._bdc_done(t)
        self.stack.append('MC')
        self.op('BDC', [('N', name), ('D', {k.lstrip('/'): ('b', v.encode()) for k, v in tags.items()})], frozenset(['P04', 'P08', 'P09']))

    def bdc_ocg(self, o):
        self.A.do('dc_cmd_BDC_ocg', self.h, ID(o))
        self.stack.append('MC')
        self.used_ocgs.add(o)
        self.op('BDC', [('N', 'OC'), ('X', 'Properties', o)], frozenset(['P04', 'P20']))

    def gs(self, g):
        self.A.do('dc_cmd_gs', self.h, ID(g))
        self.op('gs', [('X', 'ExtGState', g)], frozenset(['P04', 'P28']))

    def sh(self, s):
        self.A.do('dc_cmd_sh', self.h, ID(s))
        self.op('sh', [('X', 'Shading', s)], frozenset(['P04', 'P25']))

    def do_image(self, i):
        self.A.do('dc_cmd_Do_image', self.h, ID(i))
        self.op('Do', [('X', 'XObject', i)])

    def do_trgroup(self, t):
        self.A.do('dc_cmd_Do_trgroup', self.h, ID(t))
        self.op('Do', [('X', 'XObject', t)], frozenset(['P04', 'P28']))

    def color(self, spec, stroke):
        d = self.doc
        h = d.color(spec)
        self.A.do('dc_set_stroke' if stroke else 'dc_set_nonstroke', self.h, h)
        d.after_color(h)
        for o in color_ops(spec, stroke):
            self.op(*o)

    def render_text(self, text, font, size, x, y):
        self.A.do('dc_render_text', self.h, *self.A.s(text), ID(font), size, x, y)
        self.op('BT')
        self.op('Tf', [('X', 'Font', font), ('n', size)])
        self.op('Td', [('n', x), ('n', y)])
        font.asked.update(('u', ord(c)) for c in text)
        self.op('SHOW', [('u', ord(c)) for c in text])
        self.op('ET')

    def text(self):
        return Text(self)

    def annotate(self, a):
        self.A.do('dc_annotate', self.h, ID(a))
        self.annots.append(a)
        a.claimed = True

    def set_matrix(self, m):
        self.A.do('dc_set_group_matrix', self.h, *m)
        self.matrix = m

    def set_group(self, t):
        h = self.doc.trprops(t)
        self.A.do('dc_set_transparency_group_properties', self.h, h)
        if self.doc.rng.random() < self.doc.mutate:
            self.A.do('transparency_group_properties_set_K', h, 1 - (t.get('K') or 0))
        self.doc.drop('transparency_group_properties_destroy', h)
        self.group = t

    def set_props(self, boxes, group):
        h = self.doc.page_props(boxes, group)
        self.A.do('dc_set_custom_page_properties', self.h, h)
        if self.doc.rng.random() < self.doc.mutate:
            self.A.do('page_properties_set_pagebox', h, self.A.E('BOX_CROP'), 1, 2, 3, 4)
        self.doc.drop('page_properties_destroy', h)
        self.boxes, self.group = dict(boxes), group

    def set_transition(self, t):
        h = self.doc.transition(t)
        self.A.do('dc_set_page_transition', self.h, h)
        self.doc.after_transition(h)
        self.trans = t

    def set_nav(self, ocgs, t):
        from capi import IdStruct
        arr = (IdStruct * len(ocgs))(*[IdStruct(o.id) for o in ocgs])
        h = self.doc.transition(t) if t is not None else None
        self.A.do('dc_add_simple_navigation', self.h, arr, len(ocgs), h)
        if h is not None:
            self.doc.after_transition(h)
        self.nav = (list(ocgs), t)

    def viewport(self, box, measure=None):
        """measure: {'X': [(name, C)...], 'Y':..., 'D':..., 'A':...}"""
        A, d = self.A, self.doc
        h = A.ptr('viewport_new', *box)
        if measure is not None:
            m = A.ptr('measure_new')
            for k in 'XYDA':
                for (nm, cv) in measure.get(k, ()):
                    f = A.ptr('number_format_new', *A.s(nm), cv)
                    A.do('measure_append_' + k, m, f)
                    d.drop('number_format_destroy', f)
            A.do('viewport_set_measure', h, m)
            d.drop('measure_destroy', m)
        A.do('dc_append_viewport', self.h, h)
        d.drop('viewport_destroy', h)
        self.viewports.append((box, measure))


STRUCT_NAMES = ['Document', 'DocumentFragment', 'Part', 'Sect', 'Div', 'Aside', 'NonStruct', 'P', 'H', 'H1', 'H2', 'H3', 'H4', 'H5',
                'H6', 'H7', 'Title', 'FENote', 'Sub', 'Lbl', 'Span', 'Em', 'Strong', 'Link', 'Annot', 'Form', 'Ruby', 'RB', 'RT', 'RP',
                'Warichu', 'WT', 'WP', 'L', 'LI', 'LBody', 'Table', 'TR', 'TH', 'TD', 'THead', 'TBody', 'TFoot', 'Caption', 'Figure',
                'Formula', 'Artifact']


def stype_name(s):
    return s.stype.name if isinstance(s.stype, Obj) else STRUCT_NAMES[s.stype]


TC = frozenset(['P04', 'P16'])


def color_ops(spec, stroke):
    k = spec[0]
    u = (lambda s: s.upper()) if stroke else (lambda s: s)
    if k in ('rgb', 'gray', 'cmyk'):
        return [(u({'rgb': 'rg', 'gray': 'g', 'cmyk': 'k'}[k]), [('n', CLAMP(v)) for v in spec[1]], TC)]
    if k == 'pat':
        return [(u('cs'), [('N', 'Pattern')], TC), (u('scn'), [('X', 'Pattern', spec[2])], frozenset(['P04', 'P16', 'P25']))]
    vals = [CLAMP(v) for v in spec[1]] if k == 'sep' else list(spec[1])
    return [(u('cs'), [('X', 'ColorSpace', spec[2])], TC), (u('scn'), [('n', v) for v in vals], TC)]


class Text:
    """A text object; its operations count when it is rendered."""

    def __init__(self, ctx):
        self.ctx, self.A, self.doc = ctx, ctx.A, ctx.doc
        self.h = self.A.ptr('dc_text_new', ctx.h)
        self.A.textmap[self.h] = self
        self.ops = []
        self.structs = []
        self.font = None
        self.mc = False

    def op(self, op, ms=(), tags=T4):
        self.ops.append((op, list(ms), tags))

    def num(self, op, fn, *v):
        self.A.do('text_cmd_' + fn, self.h, *v)
        self.op(op, [('n', x) for x in v])

    def enum(self, op, fn, v):
        self.A.do('text_cmd_' + fn, self.h, v)
        self.op(op, [('i', v)])

    def Tf(self, font, size):
        self.A.do('text_cmd_Tf', self.h, ID(font), size)
        self.font = font
        self.op('Tf', [('X', 'Font', font), ('n', size)])

    def Tj(self, text):
        self.A.do('text_cmd_Tj', self.h, *self.A.s(text))
        if self.font is not None:
            self.font.asked.update(('u', ord(c)) for c in text)
        self.op('SHOW', [('u', ord(c)) for c in text])

    def TJ(self, items):
        """items: ('u',cp) ('s',text) ('k',n) ('g',gid,cp) ('l',gid,text) ('as',text) ('ae',)"""
        A = self.A
        h = A.ptr('text_sequence_new')
        for it in items:
            k = it[0]
            if k == 'u':
                A.do('text_sequence_append_codepoint', h, it[1])
            elif k == 's':
                A.do('text_sequence_append_string', h, *A.s(it[1]))
            elif k == 'k':
                A.do('text_sequence_append_kerning', h, it[1])
            elif k == 'g':
                A.do('text_sequence_append_raw_glyph', h, it[1], it[2])
            elif k == 'l':
                A.do('text_sequence_append_ligature_glyph', h, it[1], *A.s(it[2]))
            elif k == 'as':
                A.do('text_sequence_append_actualtext_start', h, *A.s(it[1]))
            elif k == 'ae':
                A.do('text_sequence_append_actualtext_end', h)
        A.do('text_cmd_TJ', self.h, h)
        if self.doc.rng.random() < self.doc.mutate:
            A.do('text_sequence_append_kerning', h, 4321)
        self.doc.drop('text_sequence_destroy', h)
        run = []
        for it in items:
            if it[0] == 's':
                run += [('u', ord(c)) for c in it[1]]
            elif it[0] in ('as', 'ae'):
                self.op('SHOW', run)
                run = []
                if it[0] == 'as':
                    self.op('BDC', [('N', 'Span'), ('D', {'ActualText': ('t', it[1])})], frozenset(['P04', 'P08', 'P12']))
                else:
                    self.op('EMC')
            else:
                run.append(it)
        if self.font is not None:
            for it in items:
                self.font.asked.update([('u', ord(c)) for c in it[1]] if it[0] == 's' else [it] if it[0] in 'ugl' else [])
        self.op('SHOW', run)

    def dash(self, arr, phase):
        self.A.do('text_cmd_d', self.h, dbl(arr), len(arr), phase)
        self.op('d', [('A', [('n', x) for x in arr]), ('n', phase)])

    def color(self, spec, stroke):
        h = self.doc.color(spec)
        self.A.do('text_set_stroke' if stroke else 'text_set_nonstroke', self.h, h)
        self.doc.after_color(h)
        for o in color_ops(spec, stroke):
            self.op(*o)

    def gs(self, g):
        self.A.do('text_cmd_gs', self.h, ID(g))
        self.op('gs', [('X', 'ExtGState', g)], frozenset(['P04', 'P28']))

    def bdc(self, s):
        self.A.do('text_cmd_BDC_builtin', self.h, ID(s))
        self.mc = True
        self.structs.append(s)
        s.claimed = True
        self.op('BDC', [('N', stype_name(s)), ('D', {'MCID': ('mcid', s)})], frozenset(['P04', 'P18', 'P09']))

    def EMC(self):
        self.A.do('text_cmd_EMC', self.h)
        self.mc = False
        self.op('EMC')

    def render(self):
        self.A.do('dc_render_text_obj', self.ctx.h, self.h)
        c = self.ctx
        c.op('BT')
        c.ops += self.ops
        c.op('ET')
        c.structs += self.structs

    def destroy(self):
        self.A.textmap.pop(self.h, None)
        self.doc.drop('text_destroy', self.h)
