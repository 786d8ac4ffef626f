"""Injects calls the API has to refuse into a running program.

Every injection is made on live objects of the program, immediately before one of its valid calls: the same call with
one argument spoilt, another call on the same handle with a spoilt argument, a call that is wrong in the present
state (nesting, kind of context, order), or an object built from an id that was never handed out."""
import collections, ctypes as C, os
import capi
from capi import IdStruct
from model import ID, dbl

BADUTF = [b'\x80', b'ab\xc3', b'\xc0\xaf', b'\xe0\x80\x80', b'\xed\xa0\x80x', b'\xf5\x80\x80\x80', b'a\xff\xfe', b'\xf0\x9f\x98', b'\xe2\x82', b'\xf8\x88\x80\x80\x80',
          b'\xc3(', b'ok\xe4\xb8']
SIZE = ('strsize', 'strlen', 'namelen', 'namesize', 'keylen', 'valuelen', 'bufsize', 'code_size', 'axis_size', 'datasize')
# (function, argument index or None, kind): what the API is free to accept, or has other meaning
FREE = {
    ('annotation_set_flags', None, 'enum'),                      # a set of flag bits
}
BOOL = {'document_properties_set_tagged': (1,), 'transition_set_B': (1,), 'graphics_state_set_op': (1,), 'graphics_state_set_OP': (1,),
        'graphics_state_set_OPM': (1,), 'graphics_state_set_AIS': (1,), 'graphics_state_set_TK': (1,), 'transparency_group_properties_set_I': (1,),
        'transparency_group_properties_set_K': (1,), 'shading_set_extend': (1, 2), 'image_pdf_properties_set_mask': (1,),
        'collection_field_set_V': (1,), 'collection_field_set_E': (1,)}
RANGE = {('dc_cmd_w', 1): (-0.5, -1e-9, -1e300), ('text_cmd_w', 1): (-0.5, -1e9), ('dc_cmd_i', 1): (-0.01, 100.5, -1e9, 1e9),
         ('graphics_state_set_FL', 1): (-0.5, -100.0), ('graphics_state_set_SM', 1): (-0.1, 1.01, 5.0),
         ('color_set_separation', 2): (-0.01, 1.001, 1e9), ('font_properties_set_subfont', 1): (-1, -2**31),
         ('destination_set_page_fit', 1): (-1, -2**31), ('destination_set_page_xyz', 1): (-1, -77),
         ('text_sequence_append_codepoint', 1): None, ('type4_shading_extend', 1): None, ('type6_shading_extend', 1): None}
ASCII = {('document_properties_set_language', 1), ('generator_add_separation', 1), ('annotation_set_uri', 1), ('struct_item_extra_data_set_lang', 1),
         ('bdc_tags_add_tag', 1), ('bdc_tags_add_tag', 3), ('dc_cmd_BDC_testing', 1), ('embedded_file_set_subtype', 1), ('collection_schema_add_entry', 1)}
NOTUTF = {('font_properties_set_variation', 1), ('type4_function_new', 4), ('generator_add_rolemap_entry', 1), ('collection_set_D', 1), ('embedded_file_set_contents', 1),
          ('form_field_set_V', 1)}
ARRAYS = {'dc_cmd_d': (1, 2), 'text_cmd_d': (1, 2)}
FILES = {'generator_load_font': 1, 'generator_load_image': 1, 'generator_load_icc_profile': 1, 'embedded_file_load_file': 1}
PAGE_ONLY = {'dc_annotate', 'dc_set_page_transition', 'dc_add_simple_navigation', 'dc_set_custom_page_properties', 'dc_append_viewport'}


def b2c(b, n=None):
    buf = (C.c_char * max(1, len(b)))()
    C.memmove(buf, b, len(b))
    return C.cast(buf, C.c_char_p), buf


class Injector:

    def __init__(self, A, rng, rate=0.25, learn=None):
        self.A, self.r, self.rate, self.learn = A, rng, rate, learn
        self.h = A.h.funcs
        self.maxid = {}
        self.templates = {}
        self.log = []               # (fn, what, rc)
        self.issues = []
        self.kinds = collections.Counter()
        self.other = None
        self.stop = False
        self.keep = []
        self.doomed = []
        self.busy = False
        self.max_per_call = 2
        A.before, A.after = self.before, self.after

    # -- making one refused call
    def refuse(self, what, fn, *args):
        """-> True when the call was refused as it has to be"""
        rc = getattr(self.A.dll, 'capy_' + fn)(*args)
        self.kinds[what] += 1
        self.log.append((fn, what, rc))
        if self.learn is not None:
            self.learn[(fn, what)][1 if rc == 0 else 0] += 1
        if rc == 0:
            self.issues.append({'key': 'accepted.%s.%s' % (fn, what.split('@')[0]), 'msg': 'a call that has to be refused was accepted: capy_%s with %s' % (fn, what)})
            self.stop = True
            return False
        m = self.A.dll.capy_error_message(rc)
        if not m or b'nvalid error' in m or m == b'No error':
            self.issues.append({'key': 'message.%s' % rc, 'msg': 'capy_%s with %s returned %d whose message is %r' % (fn, what, rc, m)})
        return True

    def after(self, fn, args, i):
        t = self.h['capy_' + fn][1][-1][0]
        self.maxid[t] = max(self.maxid.get(t, -1), i)

    def before(self, fn, args):
        if self.stop or self.busy or 'capy_' + fn not in self.h:
            return
        self.busy = True
        try:
            r = self.r
            self.pending()
            if fn == 'generator_add_page' and r.random() < max(0.2, self.rate):
                self.twin(args)
            if fn == 'generator_write' and args[0] == getattr(self.A.doc, 'h', None):
                for _ in range(3):
                    if not self.stop:
                        self.in_gen(self.A.doc)
            if r.random() < self.rate:
                for _ in range(r.randint(1, self.max_per_call)):
                    if self.stop:
                        break
                    k = r.random()
                    if k < 0.45:
                        self.spoil(fn, args)
                    elif k < 0.6:
                        self.other_call(fn, args)
                    elif k < 0.85:
                        self.context(fn, args)
                    else:
                        self.built(fn, args)
            if all(not (s and t not in ('char', 'double')) for (t, s, n, c) in self.h['capy_' + fn][1][1:]):
                params = self.h['capy_' + fn][1]
                self.templates[fn] = [self.own(params, args, i) for i in range(len(args))]
        finally:
            self.busy = False

    def own(self, params, args, i):
        a = args[i]
        if isinstance(a, C.c_char_p):
            n = args[i + 1] if i + 1 < len(args) and isinstance(args[i + 1], int) else -1
            return C.string_at(a, n)
        return a

    # -- one argument spoilt
    def spoils(self, fn, args):
        params = self.h['capy_' + fn][1]
        out = []
        for i, (t, stars, name, const) in enumerate(params):
            if name == 'out_ptr' or i >= len(args):
                continue
            if stars == 0 and t in self.A.h.ids:
                if params[0][0] in ('CapyPDF_Generator', 'CapyPDF_DrawContext'):
                    out.append((i, 'id'))       # (other objects know no document: see built())
            elif stars == 0 and t in self.A.h.enumtypes:
                if (fn, None, 'enum') not in FREE:
                    out.append((i, 'enum'))
            elif t == 'char' and stars == 1:
                nxt = params[i + 1][2] if i + 1 < len(params) else ''
                sized = nxt in SIZE and params[i + 1][1] == 0
                if fn == 'generator_add_page_labeling' and args[i] is None:
                    continue
                if sized and params[i + 1][0] == 'int32_t':
                    out.append((i, 'size'))
                    if fn != 'embedded_file_set_contents':
                        out.append((i, 'nul'))
                if (sized and params[i + 1][0] == 'int32_t' and (fn, i) not in NOTUTF and fn != 'annotation_set_widget_button_appearance') or fn == 'optional_content_group_new':
                    out.append((i, 'utf8'))
                if (fn, i) in ASCII:
                    out.append((i, 'ascii'))
                if fn in FILES and FILES[fn] == i:
                    out.append((i, 'file'))
            elif (fn, i) in RANGE and RANGE[(fn, i)]:
                out.append((i, 'range'))
            if fn in BOOL and i in BOOL[fn]:
                out.append((i, 'bool'))
            if fn in ARRAYS and i == ARRAYS[fn][0]:
                out.append((i, 'array'))
                out.append((i, 'empty'))
        return out

    def spoil(self, fn, args, choice=None):
        c = self.spoils(fn, args)
        if not c:
            return
        i, kind = choice or self.r.choice(c)
        self.apply(fn, args, i, kind)

    def badid(self, t):
        r = self.r
        c = [-1, 2**31 - 1, -2**31, 10**6, self.maxid.get(t, -1) + 100000]
        if t in self.TIGHT:
            c += [self.maxid.get(t, -1) + 1] * 4 + [self.maxid.get(t, -1) + r.randint(2, 40)]
        return r.choice(c)

    # ids that are positions in a list of objects of that kind only
    TIGHT = {'CapyPDF_FormXObjectId', 'CapyPDF_TransparencyGroupId', 'CapyPDF_EmbeddedFileId', 'CapyPDF_OptionalContentGroupId', 'CapyPDF_FormFieldId',
             'CapyPDF_AnnotationId', 'CapyPDF_StructureItemId', 'CapyPDF_OutlineId', 'CapyPDF_FunctionId', 'CapyPDF_ShadingId', 'CapyPDF_SeparationId',
             'CapyPDF_RoleId', 'CapyPDF_SoftMaskId', 'CapyPDF_GraphicsStateId', 'CapyPDF_PatternId', 'CapyPDF_LabColorSpaceId', 'CapyPDF_3DStreamId',
             'CapyPDF_ImageId'}

    def apply(self, fn, args, i, kind):
        r, A = self.r, self.A
        params = self.h['capy_' + fn][1]
        t = params[i][0]
        a = list(args)
        hold = None
        if kind == 'id':
            v = self.badid(t)
            a[i] = IdStruct(v)
        elif kind == 'enum':
            vals = [x for _, x in A.h.enumtypes[t]]
            a[i] = r.choice([-1, max(vals) + 1, max(vals) + 1, 1000, -2**31, 2**31 - 1])
        elif kind == 'size':
            a[i + 1] = r.choice([-2, -2**31, -100])
        elif kind == 'nul':
            s = r.choice([b'\0', b'a\0', b'\0b', b'long text with a \0 inside'])
            if (fn, i) in NOTUTF and fn not in ('generator_add_rolemap_entry', 'type4_function_new', 'font_properties_set_variation', 'collection_set_D'):
                return
            a[i], hold = b2c(s)
            a[i + 1] = len(s)
        elif kind == 'utf8':
            s = r.choice([b'', b'text ', 'ä'.encode()]) + r.choice(BADUTF) + r.choice([b'', b' more', 'ö'.encode()])
            if fn == 'optional_content_group_new' or r.random() < 0.4:
                a[i] = s
                if fn != 'optional_content_group_new':
                    a[i + 1] = -1
            else:
                a[i], hold = b2c(s)
                a[i + 1] = len(s)
        elif kind == 'ascii':
            s = r.choice(['é', 'aé', 'naïve', '\u4e2d'] ).encode()
            a[i], hold = b2c(s)
            a[i + 1] = len(s)
        elif kind == 'file':
            base = os.environ.get('CAPY_SCRATCH', '/tmp')
            k = r.randrange(3)
            p = os.path.join(base, 'no-such-file') if k == 0 else os.path.join(base, 'no-dir', 'x.png')
            if k == 2:
                p = os.path.join(base, 'garbage.bin')
                with open(p, 'wb') as f:
                    f.write(b'' if r.random() < 0.3 else b'this is not what you are looking for' * 9)
                if fn == 'embedded_file_load_file':
                    return
            a[i] = p.encode()
        elif kind == 'range':
            a[i] = r.choice(RANGE[(fn, i)])
        elif kind == 'bool':
            a[i] = r.choice([-1, 2, 77, 2**31 - 1, -2**31])
        elif kind == 'array':
            n = ARRAYS[fn]
            k = r.randint(1, 5)
            v = [1.0] * k
            v[r.randrange(k)] = r.choice([-1.0, -1e-9, -1e300])
            hold = dbl(v)
            a[n[0]], a[n[1]] = hold, k
        elif kind == 'empty':
            n = ARRAYS[fn]
            a[n[1]] = 0 if fn.startswith('dc') or fn.startswith('text') else -1
        out = None
        if len(a) < len(params):
            pass
        self.hold = hold
        self.refuse('%s@%d' % (kind, i), fn, *self.with_out(fn, a))

    def with_out(self, fn, a):
        """fresh output parameter instead of the one of the program"""
        params = self.h['capy_' + fn][1]
        for i, (t, stars, name, c) in enumerate(params):
            if name == 'out_ptr':
                self.outv = C.c_void_p() if stars == 2 else IdStruct(-1) if t in self.A.h.ids else C.c_double()
                a[i] = C.byref(self.outv)
        return a

    # -- another call on the same handle
    def other_call(self, fn, args):
        p0 = self.h['capy_' + fn][1][0] if self.h['capy_' + fn][1] else None
        if p0 is None or p0[1] != 1 or not args:
            return
        c = [f for f in self.templates if self.h['capy_' + f][1] and self.h['capy_' + f][1][0][:2] == p0[:2]]
        if not c:
            return
        f = self.r.choice(c)
        a = list(self.templates[f])
        a[0] = args[0]
        self.spoil(f, a)

    # -- two pages want the same annotation or structure item; the second one has to be refused
    def twin(self, args):
        A, r = self.A, self.r
        c = A.ctxmap.get(args[1])
        if c is None or c.kind != 'page' or c.stack or c.doc is not A.doc:
            return
        h = C.c_void_p()
        if A.raw('page_draw_context_new', c.doc.h, C.byref(h)):
            return
        k = r.random()
        ok = False
        A.raw('dc_cmd_g', h, 0.25)
        if c.annots and k < 0.6:
            ok = A.raw('dc_annotate', h, ID(r.choice(c.annots))) == 0
            what = 'page with the annotation of another page'
        elif c.structs:
            ok = A.raw('dc_cmd_BDC_builtin', h, ID(r.choice(c.structs)), None) == 0 and A.raw('dc_cmd_EMC', h) == 0
            what = 'page with the structure item of another page'
        if ok:
            self.doomed.append((what, h.value, c.doc))
        else:
            A.raw('dc_destroy', h)

    def pending(self):
        if self.doomed and self.r.random() < 0.7:
            what, h, d = self.doomed.pop()
            if d.h is not None:
                for _ in range(self.r.randint(1, 2)):
                    self.refuse(what, 'generator_add_page', d.h, h)
            self.A.raw('dc_destroy', h)

    # -- wrong in the present state
    def context(self, fn, args):
        A, r = self.A, self.r
        p = self.h['capy_' + fn][1]
        if not p or not args:
            return
        t = p[0][0]
        if t == 'CapyPDF_DrawContext' and args[0] in A.ctxmap:
            self.in_ctx(A.ctxmap[args[0]])
        elif t == 'CapyPDF_Text' and args[0] in A.textmap:
            self.in_text(A.textmap[args[0]])
        elif t == 'CapyPDF_Generator' and args[0] == getattr(A.doc, 'h', None):
            self.in_gen(A.doc)

    def second(self):
        """a second document with contexts of its own"""
        if self.other is None:
            A = self.A
            d = C.c_void_p()
            A.raw('document_properties_new', C.byref(d))
            g = C.c_void_p()
            path = os.path.join(os.environ.get('CAPY_SCRATCH', '/tmp'), 'second.pdf')
            A.raw('generator_new', path.encode(), d, C.byref(g))
            A.raw('document_properties_destroy', d)
            o = {}
            for k, f, a in (('page', 'page_draw_context_new', ()), ('form', 'form_xobject_new', (0.0, 0.0, 9.0, 9.0)),
                            ('trgroup', 'transparency_group_new', (0.0, 0.0, 9.0, 9.0))):
                x = C.c_void_p()
                A.raw(f, g, *a, C.byref(x))
                A.raw('dc_cmd_g', x, 0.5)
                o[k] = x.value
            x = C.c_void_p()
            A.raw('tiling_pattern_context_new', g, C.byref(x), 0.0, 0.0, 5.0, 5.0)
            o['tiling'] = x.value
            x = C.c_void_p()
            A.raw('dc_text_new', o['page'], C.byref(x))
            self.other = (g.value, o, x.value)
        return self.other

    def finish(self):
        for _, h, d in self.doomed:
            self.A.raw('dc_destroy', h)
        self.doomed = []
        if self.other is not None:
            g, o, t = self.other
            self.A.raw('text_destroy', t)
            for c in o.values():
                self.A.raw('dc_destroy', c)
            self.A.raw('generator_destroy', g)
            self.other = None
        self.A.before = self.A.after = None

    ADDERS = {'page': ('generator_add_page', None), 'form': ('generator_add_form_xobject', IdStruct), 'tiling': ('generator_add_tiling_pattern', IdStruct),
              'trgroup': ('generator_add_transparency_group', IdStruct)}

    def add(self, what, g, kind, h):
        fn, o = self.ADDERS[kind]
        x = IdStruct(-1)
        self.refuse(what, fn, g, h, *([C.byref(x)] if o else []))

    def in_ctx(self, c):
        A, r = self.A, self.r
        top = c.stack[-1] if c.stack else None
        doc = c.doc
        jobs = []
        if top != 'q':
            jobs.append(lambda: self.refuse('unbalanced Q', 'dc_cmd_Q', c.h))
        if top != 'MC':
            jobs.append(lambda: self.refuse('unbalanced EMC', 'dc_cmd_EMC', c.h))
        if 'MC' in c.stack:
            jobs.append(lambda: self.refuse('nested BMC', 'dc_cmd_BMC', c.h, b'Tag'))
            ss = [s for s in doc.all('struct') if not getattr(s, 'claimed', False)]
            if ss:
                jobs.append(lambda: self.refuse('nested BDC', 'dc_cmd_BDC_builtin', c.h, ID(r.choice(ss)), None))
            oc = [x for x in doc.all('ocg') if x not in c.used_ocgs] or doc.all('ocg')
            if oc:
                jobs.append(lambda: self.refuse('nested BDC of a layer', 'dc_cmd_BDC_ocg', c.h, ID(r.choice(oc))))
            jobs.append(lambda: self.handle('bdc_tags_new', 'bdc_tags_destroy', lambda h: (
                A.raw('bdc_tags_add_tag', h, b'K', -1, b'v', -1), self.refuse('nested BDC with attributes', 'dc_cmd_BDC_testing', c.h, b'Tag', -1, h))))
        else:
            jobs.append(lambda: self.refuse('BMC tag', 'dc_cmd_BMC', c.h, r.choice([b'', b'/Tag', b'/'])))
        if c.stack:
            jobs.append(lambda: self.add('unclosed state', doc.h, c.kind, c.h))
        jobs.append(lambda: self.add('wrong context', doc.h, r.choice([k for k in self.ADDERS if k != c.kind]), c.h))
        jobs.append(lambda: self.add('other document', self.second()[0], c.kind, c.h))
        jobs.append(lambda: self.refuse('text of another context', 'dc_render_text_obj', c.h, self.second()[2]))
        jobs.append(lambda: self.handle('dc_text_new', 'text_destroy', lambda h: self.bad_text(c, h), c.h))
        if c.annots:
            jobs.append(lambda: self.refuse('annotation reuse', 'dc_annotate', c.h, ID(r.choice(c.annots))))
        if c.structs and 'MC' not in c.stack:
            jobs.append(lambda: self.refuse('structure reuse', 'dc_cmd_BDC_builtin', c.h, ID(r.choice(c.structs)), None))
        if c.kind != 'page':
            x = [a for a in doc.all('annot') if not getattr(a, 'claimed', False)]
            if x:
                jobs.append(lambda: self.refuse('annotation in a non-page', 'dc_annotate', c.h, ID(r.choice(x))))
            jobs.append(lambda: self.handle('transition_new', 'transition_destroy', lambda h: self.refuse('transition in a non-page', 'dc_set_page_transition', c.h, h)))
            jobs.append(lambda: self.handle('page_properties_new', 'page_properties_destroy',
                                            lambda h: self.refuse('page properties in a non-page', 'dc_set_custom_page_properties', c.h, h)))
        if c.kind != 'trgroup' and c.kind != 'page':
            jobs.append(lambda: self.handle('transparency_group_properties_new', 'transparency_group_properties_destroy',
                                            lambda h: self.refuse('group properties', 'dc_set_transparency_group_properties', c.h, h)))
        if c.kind != 'page':
            jobs.append(lambda: self.handle('viewport_new', 'viewport_destroy', lambda h: self.refuse('viewport in a non-page', 'dc_append_viewport', c.h, h), 0.0, 0.0, 9.0, 9.0))
            if c.used_ocgs:
                jobs.append(lambda: self.refuse('navigation in a non-page', 'dc_add_simple_navigation', c.h, (IdStruct * 1)(IdStruct(r.choice(list(c.used_ocgs)).id)), 1, None))
        if doc.all('icc'):
            jobs.append(lambda: self.icc_color(doc, lambda h: self.refuse('ICC color with a wrong number of components', r.choice(['dc_set_stroke', 'dc_set_nonstroke']), c.h, h)))
        fs = [(f, self.missing(f)) for f in doc.all('font')]
        fs = [(f, m) for f, m in fs if m]
        if fs:
            f, m = r.choice(fs)
            t = ''.join([chr(self.present(f)), m, chr(self.present(f))]).encode()
            jobs.append(lambda: self.refuse('text with a character the font lacks', 'dc_render_text', c.h, t, -1, ID(f), 10.0, 0.0, 0.0))
        if 'MC' not in c.stack:
            jobs.append(lambda: self.refuse('BDC without attributes', 'dc_cmd_BDC_testing', c.h, b'Tag', -1, None))
            jobs.append(lambda: self.handle('bdc_tags_new', 'bdc_tags_destroy', lambda h: (
                A.raw('bdc_tags_add_tag', h, b'K', -1, b'v', -1), self.refuse('BDC name', 'dc_cmd_BDC_testing', c.h, b'', -1, h))))
        if c.kind == 'page':
            jobs.append(lambda: self.refuse('matrix of a page', 'dc_set_group_matrix', c.h, 1.0, 0.0, 0.0, 1.0, 0.0, 0.0))
            if c.nav is not None:
                o = [x for x in doc.all('ocg')]
                if o:
                    jobs.append(lambda: self.refuse('second navigation', 'dc_add_simple_navigation', c.h, (IdStruct * 1)(IdStruct(r.choice(o).id)), 1, None))
            unused = [x for x in doc.all('ocg') if x not in c.used_ocgs]
            if unused:
                jobs.append(lambda: self.refuse('navigation to unused groups', 'dc_add_simple_navigation', c.h,
                                                (IdStruct * 1)(IdStruct(r.choice(unused).id)), 1, None))
                us = [x for x in doc.all('ocg') if x in c.used_ocgs]
                if us:
                    jobs.append(lambda: self.refuse('navigation to groups of which one is unused', 'dc_add_simple_navigation', c.h,
                                                    (IdStruct * 3)(IdStruct(r.choice(us).id), IdStruct(r.choice(us).id), IdStruct(r.choice(unused).id)), 3, None))
        r.choice(jobs)()

    def in_text(self, t):
        A, r = self.A, self.r
        jobs = []
        jobs.append(lambda: self.text_seq_open(t))
        r.choice(jobs)()

    def missing(self, f):
        import fonts
        x = fonts.face(f.path, f.props)
        for _ in range(6):
            ch = self.r.choice('\u4e2d\u0e01\uac00\u05d0\u0627\u13a0\U0001f600\U0010fffd\ue123')
            if x.gid(ord(ch)) == 0:
                return ch
        return None

    def present(self, f):
        """a character of the font that is preferably not in use yet"""
        import fonts
        return self.r.choice(fonts.face(f.path, f.props).chars())

    def icc_color(self, d, use):
        A, r = self.A, self.r
        o = r.choice([x for x in d.all('icc')])
        if o.id is None:
            return
        n = r.choice([x for x in (1, 2, 3, 4, 5) if x != o.n])

        def f(h):
            if A.raw('color_set_icc', h, IdStruct(o.id), dbl([0.5] * n), n) == 0:
                use(h)
        self.handle('color_new', 'color_destroy', f)

    def bad_text(self, c, h):
        """a text object that holds something wrong, after things that are right and new to the document"""
        A, r, d = self.A, self.r, c.doc
        ss = [s for s in d.all('struct') if not getattr(s, 'claimed', False)]
        fonts = d.all('font')
        A.raw('text_cmd_Td', h, 1.0, 2.0)
        if ss and r.random() < 0.3 and 'MC' not in c.stack:
            A.raw('text_cmd_BDC_builtin', h, ID(r.choice(ss)))
            A.raw('text_cmd_EMC', h)
        if fonts and r.random() < 0.6:
            f = r.choice(fonts)
            A.raw('text_cmd_Tf', h, ID(f), 12.0)
            A.raw('text_cmd_Tj', h, ''.join(chr(self.present(f)) for _ in range(3)).encode(), -1)
        else:
            f = None

        def seq(fill):
            def g(q):
                if fill(q) != 0:
                    return False
                return A.raw('text_cmd_TJ', h, q) == 0
            q = C.c_void_p()
            A.raw('text_sequence_new', C.byref(q))
            ok = g(q)
            A.raw('text_sequence_destroy', q)
            return ok

        k = r.randrange(14)
        bad, what = False, None
        if k == 0:
            bad, what = A.raw('text_cmd_EMC', h) == 0, 'text with an unbalanced EMC'
        elif k == 1:
            bad, what = bool(ss) and A.raw('text_cmd_BDC_builtin', h, ID(r.choice(ss))) == 0, 'text with open marked content'
        elif k == 2 and f is None:
            bad, what = A.raw('text_cmd_Tj', h, b'abc', -1) == 0, 'text without a font'
        elif k == 3:
            bad, what = A.raw('text_cmd_Tf', h, IdStruct(self.badid('CapyPDF_FontId')), 12.0) == 0, 'text with a bad font id'
        elif k == 4:
            bad, what = A.raw('text_cmd_gs', h, IdStruct(self.badid('CapyPDF_GraphicsStateId'))) == 0, 'text with a bad graphics state id'
        elif k == 5:
            bad = A.raw('text_cmd_BDC_builtin', h, IdStruct(self.badid('CapyPDF_StructureItemId'))) == 0
            A.raw('text_cmd_EMC', h)
            what = 'text with a bad structure id'
        elif k == 6 and f is None:
            bad, what = seq(lambda q: A.raw('text_sequence_append_string', q, b'ab', -1)), 'text sequence without a font'
        elif k in (7, 8) and f is not None:
            m = self.missing(f)
            if m:
                what = 'text with a character the font lacks'
                if k == 7:
                    bad = A.raw('text_cmd_Tj', h, m.encode(), -1) == 0
                else:
                    bad = seq(lambda q: r.choice([lambda: A.raw('text_sequence_append_codepoint', q, ord(m)), lambda: A.raw('text_sequence_append_string', q, m.encode(), -1)])())
        elif k in (9, 10) and f is not None:
            import fonts as F
            n = F.face(f.path, f.props).nglyphs
            g = r.choice([n, n, n + 1, 0xffff if n < 0xffff else 2**31, 2**31, 2**32 - 1] + ([0] * 3 if k == 9 else []))
            what = 'text with glyph 0' if g == 0 else 'text with a glyph past the last one'
            bad = seq(lambda q: A.raw('text_sequence_append_raw_glyph', q, g, 65) if k == 9 else A.raw('text_sequence_append_ligature_glyph', q, g, b'ffi', -1))
        elif k == 11 and ss:
            s1, what = r.choice(ss), 'text with a structure item twice'
            bad = A.raw('text_cmd_BDC_builtin', h, ID(s1)) == 0 and A.raw('text_cmd_EMC', h) == 0 and A.raw('text_cmd_BDC_builtin', h, ID(s1)) == 0
            A.raw('text_cmd_EMC', h)
        elif k == 12 and len(ss) > 1:
            s1, s2 = r.sample(ss, 2)
            what = 'text with nested marked content'
            bad = A.raw('text_cmd_BDC_builtin', h, ID(s1)) == 0 and A.raw('text_cmd_BDC_builtin', h, ID(s2)) == 0
            A.raw('text_cmd_EMC', h)
            if r.random() < 0.5:
                A.raw('text_cmd_EMC', h)
        elif k == 13 and d.all('icc'):
            got = []
            self.icc_color(d, lambda q: got.append(A.raw(r.choice(['text_set_stroke', 'text_set_nonstroke']), h, q)))
            bad, what = got == [0], 'text with an ICC color with a wrong number of components'
        if bad:
            A.raw('text_cmd_Tc', h, 1.5)
            self.refuse(what, 'dc_render_text_obj', c.h, h)

    def text_seq_open(self, t):
        A = self.A
        s = C.c_void_p()
        A.raw('text_sequence_new', C.byref(s))
        k = self.r.randrange(4)
        if k == 3:
            self.refuse('glyph for a codepoint that is no character', 'text_sequence_append_raw_glyph', s, self.r.choice([1, 3, 40]),
                        self.r.choice([0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x10ffff + 0x10000, 2**31, 2**32 - 1]))
        elif k == 0:
            self.refuse('ActualText end without start', 'text_sequence_append_actualtext_end', s)
        elif k == 1:
            A.raw('text_sequence_append_actualtext_start', s, b'x', -1)
            self.refuse('nested ActualText', 'text_sequence_append_actualtext_start', s, b'y', -1)
        else:
            A.raw('text_sequence_append_actualtext_start', s, b'x', -1)
            A.raw('text_sequence_append_string', s, b'ab', -1)
            self.refuse('TJ with open ActualText', 'text_cmd_TJ', t.h, s)
        A.raw('text_sequence_destroy', s)

    def handle(self, new, destroy, f, *args):
        h = C.c_void_p()
        rc = self.A.raw(new, *args, C.byref(h))
        if rc == 0:
            f(h)
            self.A.raw(destroy, h)

    def in_gen(self, d):
        A, r = self.A, self.r
        jobs = []
        if not d.pages:
            jobs.append(lambda: self.refuse('write without pages', 'generator_write', d.h))
        if d.written:
            jobs.append(lambda: self.refuse('second write', 'generator_write', d.h))
        if d.labels:
            n = C.c_uint32(1)
            jobs.append(lambda: self.refuse('page labels out of order', 'generator_add_page_labeling', d.h, r.randint(0, max(0, d.labels[-1][0])), None, None, 0, C.byref(n)))
        st = C.c_int(r.choice([-1, 5, 6, 99]))
        jobs.append(lambda: self.refuse('page label style', 'generator_add_page_labeling', d.h, (d.labels[-1][0] if d.labels else 0) + 1, C.byref(st), None, 0, None))
        jobs.append(lambda: self.handle('outline_new', 'outline_destroy', lambda h: self.addid('outline without title', 'generator_add_outline', d.h, h)))
        jobs.append(lambda: self.handle('link_annotation_new', 'annotation_destroy', lambda h: self.addid('annotation without rectangle', 'generator_add_annotation', d.h, h)))
        if d.collection is not None:
            jobs.append(lambda: self.handle('collection_new', 'collection_destroy', lambda h: self.refuse('second collection', 'generator_set_collection', d.h, h)))
        if d.all('role'):
            ro = r.choice(d.all('role'))
            jobs.append(lambda: self.addid('duplicate role', 'generator_add_rolemap_entry', d.h, ro.name.encode('utf-8', 'surrogateescape'), -1, 3))
        jobs.append(lambda: self.addid('role name', 'generator_add_rolemap_entry', d.h, r.choice([b'', b'/Role']), -1, 3))
        if d.all('embedded'):
            em = r.choice(d.all('embedded'))

            def dup(h):
                A.raw('embedded_file_set_contents', h, b'x', 1)
                A.raw('embedded_file_set_pdf_name', h, em.name.encode(), -1)
                self.addid('duplicate name', 'generator_embed_file', d.h, h)
            jobs.append(lambda: self.handle('embedded_file_new', 'embedded_file_destroy', dup))
        jobs += [lambda: self.bad_box(d), lambda: self.bad_font(d), lambda: self.bad_image(d), lambda: self.bad_image(d), lambda: self.bad_new(),
                 lambda: self.bad_field(d), lambda: self.bad_button(d), lambda: self.bad_function(d), lambda: self.bad_convert(d)]
        o = self.second()[1]
        k = r.choice(list(o))
        jobs.append(lambda: self.add('context of another document', d.h, k, o[k]))
        bad = [b'', b'\0' * 128, b'icc profile that is not' * 20]
        b = r.choice(bad)
        known = [kn for kn in d.all('icc') if kn.id is not None]
        if known and r.random() < 0.5:
            kn = r.choice(known)
            b2, n2 = kn.data, r.choice([n for n in (1, 3, 4) if n != kn.n])
        else:
            b2, n2 = open(os.path.join(os.environ.get('CAPY_REPO', '/repo'), 'testdata', 'icc', 'FOGRA29L.icc'), 'rb').read(), r.choice([1, 3, 0, -1, 5])
        jobs.append(lambda: self.addid('ICC profile with another number of channels', 'generator_add_icc_profile', d.h, b2, len(b2), C.c_uint32(n2)))
        jobs.append(lambda: self.addid('bad ICC data', 'generator_add_icc_profile', d.h, b, len(b), 3))
        r.choice(jobs)()

    def addid(self, what, fn, *args):
        x = IdStruct(-1)
        self.refuse(what, fn, *args, C.byref(x))

    # -- objects that refer to ids that were never handed out
    def built(self, fn, args):
        A, r = self.A, self.r
        d = A.doc
        if d.h is None:
            return
        bad = lambda t: IdStruct(self.badid('CapyPDF_%sId' % t))

        def color(f, *a):
            h = C.c_void_p()
            A.raw('color_new', C.byref(h))
            if A.raw(f, h, *a) == 0:
                cs = list(A.ctxmap.values())
                if cs:
                    c = r.choice(cs)
                    if c.doc is d:
                        self.refuse('color with a bad id', r.choice(['dc_set_stroke', 'dc_set_nonstroke']), c.h, h)
                elif A.textmap:
                    self.refuse('color with a bad id', 'text_set_stroke', r.choice(list(A.textmap)), h)
            A.raw('color_destroy', h)

        def setadd(new, destroy, setter, adder, what, pre=()):
            def f(h):
                for fn2, *a in pre:
                    A.raw(fn2, h, *a)
                if A.raw(*[x if x != 'H' else h for x in setter]) == 0:
                    self.addid(what, adder, d.h, h)
            self.handle(new, destroy, f)
        one = dbl([0.5] * 8)
        jobs = [
            lambda: color('color_set_pattern', bad('Pattern')),
            lambda: color('color_set_separation', bad('Separation'), 0.5),
            lambda: color('color_set_icc', bad('IccColorSpace'), one, 3),
            lambda: color('color_set_lab', bad('LabColorSpace'), 50.0, 0.0, 0.0),
            lambda: setadd('graphics_state_new', 'graphics_state_destroy', ('graphics_state_set_SMask', 'H', bad('SoftMask')), 'generator_add_graphics_state', 'soft mask id'),
            lambda: setadd('outline_new', 'outline_destroy', ('outline_set_parent', 'H', bad('Outline')), 'generator_add_outline', 'outline parent id',
                           [('outline_set_title', b'x', -1)]),
            lambda: setadd('3d_annotation_new', 'annotation_destroy', ('annotation_set_3d_stream', 'H', bad('3DStream')), 'generator_add_annotation', '3D stream id',
                           [('annotation_set_rectangle', 0.0, 0.0, 1.0, 1.0)]),
            lambda: setadd('widget_annotation_new', 'annotation_destroy', ('annotation_set_parent_field', 'H', bad('FormField')), 'generator_add_annotation', 'field id',
                           [('annotation_set_rectangle', 0.0, 0.0, 1.0, 1.0)]),
            lambda: setadd('widget_annotation_new', 'annotation_destroy', ('annotation_set_widget_button_appearance', 'H', bad('FormXObject'), bad('FormXObject'), b'ab', -1),
                           'generator_add_annotation', 'form id', [('annotation_set_rectangle', 0.0, 0.0, 1.0, 1.0)]),
            lambda: self.handle('file_attachment_annotation_new', 'annotation_destroy', lambda h: (
                A.raw('annotation_set_rectangle', h, 0.0, 0.0, 1.0, 1.0), self.addid('embedded file id', 'generator_add_annotation', d.h, h)), bad('EmbeddedFile')),
            lambda: self.handle('printers_mark_annotation_new', 'annotation_destroy', lambda h: (
                A.raw('annotation_set_rectangle', h, 0.0, 0.0, 1.0, 1.0), self.addid('form id', 'generator_add_annotation', d.h, h)), bad('FormXObject')),
            lambda: self.handle('shading_pattern_new', 'shading_pattern_destroy', lambda h: self.addid('shading id', 'generator_add_shading_pattern', d.h, h), bad('Shading')),
            lambda: self.handle('soft_mask_new', 'soft_mask_destroy', lambda h: self.addid('group id', 'generator_add_soft_mask', d.h, h), 0, bad('TransparencyGroup')),
            lambda: self.handle('type2_shading_new', 'shading_destroy', lambda h: self.addid('function id', 'generator_add_shading', d.h, h),
                                0, 0.0, 0.0, 1.0, 1.0, bad('Function')),
            lambda: self.handle('type3_shading_new', 'shading_destroy', lambda h: self.addid('function id', 'generator_add_shading', d.h, h),
                                0, dbl([0.0, 0.0, 1.0, 5.0, 5.0, 2.0]), bad('Function')),
            lambda: setadd('form_field_new2', 'form_field_destroy', ('form_field_set_parent', 'H', bad('FormField')), 'generator_add_form_field', 'field parent id')
            if False else self.handle('form_field_new', 'form_field_destroy', lambda h: (
                A.raw('form_field_set_T', h, b'x', -1), A.raw('form_field_set_parent', h, bad('FormField')),
                self.addid('field parent id', 'generator_add_form_field', d.h, h)), r.randrange(4)),
            lambda: self.addid('structure parent id', 'generator_add_structure_item', d.h, 3, C.byref(bad('StructureItem')), None),
            lambda: self.addid('structure parent id', 'generator_add_custom_structure_item', d.h, IdStruct(max(0, self.maxid.get('CapyPDF_RoleId', 0))), C.byref(bad('StructureItem')), None),
            lambda: self.fn3(d, bad('Function')),
            lambda: self.mesh(d),
        ]
        r.choice(jobs)()

    def fn3(self, d, bad):
        A = self.A
        fs = [f.id for f in d.all('function') if len(getattr(f, 'domain', [])) == 2][:1]
        ids = [IdStruct(i) for i in fs] + [bad]
        arr = (IdStruct * len(ids))(*ids)
        n = len(ids)
        self.handle('type3_function_new', 'function_destroy', lambda h: self.addid('function id in a list', 'generator_add_function', d.h, h),
                    dbl([0.0, 1.0]), 2, arr, n, dbl([0.5] * max(1, n - 1)), n - 1, dbl([0.0, 1.0] * n), 2 * n)

    def bad_box(self, d):
        A, r = self.A, self.r
        x = sorted(r.sample([0.0, 1.0, 2.5, 100.0, -7.0], 2))
        y = sorted(r.sample([0.0, 1.0, 2.5, 100.0, -7.0], 2))
        q = r.randrange(4)
        l, b, rr, t = [(x[1], y[0], x[0], y[1]), (x[0], y[1], x[1], y[0]), (x[0], y[0], x[0], y[1]), (x[0], y[0], x[1], y[0])][q]
        o = C.c_void_p()
        k = r.randrange(3)
        if k == 0:
            self.refuse('empty bounding box', 'form_xobject_new', d.h, l, b, rr, t, C.byref(o))
        elif k == 1:
            self.refuse('empty bounding box', 'tiling_pattern_context_new', d.h, C.byref(o), l, b, rr, t)
        else:
            self.refuse('empty bounding box', 'transparency_group_new', d.h, l, b, rr, t, C.byref(o))

    def bad_font(self, d):
        A, r = self.A, self.r
        fs = d.all('font')
        if not fs:
            return
        f = r.choice(fs)
        var = bool(f.props and (f.props.get('axes') or 'instance' in f.props)) or 'Amstel' in f.path

        def go(h):
            k = r.randrange(3)
            if k == 0:
                ok, what = A.raw('font_properties_set_variation', h, b'zzzz' if var else b'wght', -1, 400) == 0, 'unknown font axis'
            elif k == 1:
                ok, what = A.raw('font_properties_set_named_instance', h, 0 if not var else r.choice([1000, 65535, 2**31, 2**32 - 1])) == 0, 'unknown font instance'
            else:
                ok, what = A.raw('font_properties_set_subfont', h, r.choice([7, 1000, 65535])) == 0, 'unknown font of a collection'
            if ok:
                self.addid(what, 'generator_load_font', d.h, f.path.encode(), h)
        self.handle('font_properties_new', 'font_properties_destroy', go)

    def raw_image(self, w, h, depth, cs, px, alpha=None, adepth=8, comp=None):
        A = self.A
        b, im = C.c_void_p(), C.c_void_p()
        A.raw('raster_image_builder_new', C.byref(b))
        ok = A.raw('raster_image_builder_set_size', b, w, h) == 0 and A.raw('raster_image_builder_set_pixel_depth', b, depth) == 0 and \
            A.raw('raster_image_builder_set_colorspace', b, cs) == 0
        if ok and px is not None:
            ok = A.raw('raster_image_builder_set_pixel_data', b, px, len(px)) == 0
        if ok and alpha is not None:
            ok = A.raw('raster_image_builder_set_alpha_depth', b, adepth) == 0 and A.raw('raster_image_builder_set_alpha_data', b, alpha, len(alpha)) == 0
        if ok and comp:
            ok = A.raw('raster_image_builder_set_input_data_compression_format', b, comp) == 0
        ok = ok and A.raw('raster_image_builder_build', b, C.byref(im)) == 0
        A.raw('raster_image_builder_destroy', b)
        return im if ok else None

    def bad_image(self, d):
        import zlib
        A, r = self.A, self.r
        E = A.lib.E
        gray, rgb, cmyk = E['CAPY_IMAGE_CS_GRAY'], E['CAPY_IMAGE_CS_RGB'], E['CAPY_IMAGE_CS_CMYK']
        w, h = r.randint(1, 9), r.randint(1, 9)
        n = w * h
        flate = E['CAPY_COMPRESSION_DEFLATE']
        k = r.randrange(13)
        mask = False
        if k == 0:
            what, im = 'image of no size', self.raw_image(*r.choice([(0, h), (w, 0), (0, 0)]), 8, gray, b'x' * n)
        elif k == 1:
            what, im = 'image without pixels', self.raw_image(w, h, 8, gray, r.choice([None, b'']))
        elif k == 2:
            cs, ch = r.choice([(gray, 1), (rgb, 3), (cmyk, 4)])
            m = n * ch + r.choice([-1, 1, n * ch])
            what, im = 'image with a wrong amount of pixels', self.raw_image(w, h, 8, cs, b'x' * m) if m > 0 else None
        elif k == 3:
            what, im = 'image with a wrong amount of alpha', self.raw_image(w, h, 8, gray, b'x' * n, b'y' * (n + r.choice([1, n])))
        elif k == 4:
            what, im = 'image depth', self.raw_image(w, h, r.choice([0, 3, 5, 7, 9, 12, 24, 32, 2**31]), gray, b'x' * n)
        elif k == 5:
            what, im = 'alpha depth', self.raw_image(w, h, 8, gray, b'x' * n, b'y' * n, r.choice([0, 3, 7, 32]))
        elif k == 6:
            z = zlib.compress(b'x' * n)
            what, im = 'damaged compressed pixels', self.raw_image(w, h, 8, gray, r.choice([z[:-5], b'garbage' * 3, zlib.compress(b'x' * (n + 1)), zlib.compress(b'x' * n * 3000), z[:2]]), comp=flate)
        elif k == 7:
            mask, what = True, 'mask of more than one bit'
            im = self.raw_image(w, h, *r.choice([(8, gray, b'x' * n), (8, rgb, b'x' * 3 * n), (1, rgb, b'x' * ((3 * w + 7) // 8 * h)), (2, gray, b'x' * ((2 * w + 7) // 8 * h))]))
        elif k == 8:
            mask, what = True, 'mask with alpha'
            im = self.raw_image(w, h, 1, gray, b'x' * ((w + 7) // 8 * h), b'y' * n)
        elif k in (9, 10):
            from PIL import Image
            import io
            b = io.BytesIO()
            Image.new('RGB', (w, h), (9, 99, 200)).save(b, 'JPEG' if k == 9 else 'PNG')
            x = b.getvalue()
            im = C.c_void_p()
            if A.raw('generator_load_image_from_memory', d.h, x, len(x), C.byref(im)):
                return
            mask, what = True, 'JPEG mask' if k == 9 else 'mask of more than one bit'
        elif k == 11:
            x = r.choice([b'', b'\x89PNG\r\n\x1a\n', b'\xff\xd8\xff', b'II*\0\x08\0\0\0\0\0', b'MM\0*', b'GIF89a' + bytes(30), bytes(64)])
            im = C.c_void_p()
            self.refuse('damaged image data', 'generator_load_image_from_memory', d.h, x, len(x), C.byref(im))
            return
        else:
            what, im = 'image of enormous size', self.raw_image(2**32 - 1, r.choice([2**32 - 1, h]), r.choice([1, 8, 16]), r.choice([gray, cmyk]), b'x' * n)
        if im is None:
            return

        def go(p):
            if mask:
                A.raw('image_pdf_properties_set_mask', p, 1)
            self.addid(what, 'generator_add_image', d.h, im, p)
        self.handle('image_pdf_properties_new', 'image_pdf_properties_destroy', go)
        A.raw('raster_image_destroy', im)

    def bad_convert(self, d):
        """conversions of images are for 8 bit pixels that are at hand"""
        import zlib
        A, r = self.A, self.r
        E = A.lib.E
        gray, rgb, cmyk = E['CAPY_IMAGE_CS_GRAY'], E['CAPY_IMAGE_CS_RGB'], E['CAPY_IMAGE_CS_CMYK']
        w, h = r.randint(1, 9), r.randint(1, 9)
        k = r.randrange(3)
        if k == 0:
            dep = r.choice([1, 2, 4, 16])
            im = self.raw_image(w, h, dep, rgb, b'x' * ((3 * dep * w + 7) // 8 * h))
            what = 'conversion of an image of another depth'
        elif k == 1:
            im = self.raw_image(w, h, 8, rgb, zlib.compress(b'x' * (3 * w * h)), comp=E['CAPY_COMPRESSION_DEFLATE'])
            what = 'conversion of compressed pixels'
        else:
            im = self.raw_image(w, h, 8, rgb, b'x' * (3 * w * h + r.choice([-1, 1])))
            what = 'conversion of an image with a wrong amount of pixels'
        if im is None:
            return
        o = C.c_void_p()
        self.refuse(what, 'generator_convert_image', d.h, im, E['CAPY_DEVICE_CS_GRAY'], r.randrange(4), C.byref(o))
        A.raw('raster_image_destroy', im)

    def bad_new(self):
        """documents that can not be started"""
        A, r = self.A, self.r
        E = A.lib.E
        td = os.path.join(os.environ.get('CAPY_REPO', '/repo'), 'testdata', 'icc')

        def go(p):
            k = r.randrange(4)
            prof = os.path.join(td, 'FOGRA29L.icc').encode()
            if k == 0:
                A.raw('document_properties_set_output_colorspace' if 'capy_document_properties_set_output_colorspace' in self.h else 'document_properties_set_colorspace', p, E['CAPY_DEVICE_CS_CMYK'])
                what = 'CMYK document without a profile'
            elif k == 1:
                A.raw('document_properties_set_pdfx', p, r.choice(A.h.enumtypes['CapyPDF_PDFX_Type'])[1])
                A.raw('document_properties_set_output_intent', p, b'Intent', -1)
                what = 'PDF/X document without a profile'
            elif k == 2:
                A.raw('document_properties_set_pdfa', p, r.choice(A.h.enumtypes['CapyPDF_PDFA_Type'])[1])
                A.raw('document_properties_set_output_intent', p, b'Intent', -1)
                what = 'PDF/A document without a profile'
            else:
                if A.raw('document_properties_set_device_profile', p, r.choice([E['CAPY_DEVICE_CS_RGB'], E['CAPY_DEVICE_CS_GRAY']]), prof):
                    return
                what = 'document with a profile of another kind'
            path = os.path.join(os.environ.get('CAPY_SCRATCH', '/tmp'), 'never.pdf')
            o = C.c_void_p()
            self.refuse(what, 'generator_new', path.encode(), p, C.byref(o))
            if os.path.exists(path):
                self.issues.append({'key': 'created', 'msg': 'a refused capy_generator_new (%s) made a file' % what})
        self.handle('document_properties_new', 'document_properties_destroy', go)

    def bad_field(self, d):
        A, r = self.A, self.r
        types = [v for _, v in A.h.enumtypes['CapyPDF_Form_Field_Type']]
        names = {n: v for n, v in A.h.enumtypes['CapyPDF_Form_Field_Type']}
        t = r.choice(types)

        def go(h):
            A.raw('form_field_set_T', h, b'name', -1)
            v = r.choice([b'bad \xff text', b'\xc3', b'\xed\xa0\x80']) if t != names['CAPY_FORM_FIELD_TYPE_BTN'] else r.choice([b'x', b'a\0b', b'\0'])
            hold = b2c(v)
            if A.raw('form_field_set_V', h, hold[0], len(v)) == 0:
                self.addid('value of a field of type %d' % t, 'generator_add_form_field', d.h, h)
        self.handle('form_field_new', 'form_field_destroy', go, t)

    def bad_button(self, d):
        """the second of two form ids is wrong"""
        A, r = self.A, self.r
        fs = d.all('form')
        if not fs:
            return
        bad = IdStruct(self.badid('CapyPDF_FormXObjectId'))
        good = ID(r.choice(fs))

        def go(h):
            A.raw('annotation_set_rectangle', h, 0.0, 0.0, 1.0, 1.0)
            if A.raw('annotation_set_widget_button_appearance', h, *((good, bad) if r.random() < 0.7 else (bad, good)), b'On', -1) == 0:
                self.addid('form id', 'generator_add_annotation', d.h, h)
        self.handle('widget_annotation_new', 'annotation_destroy', go)

    def bad_function(self, d):
        A, r = self.A, self.r
        k = r.randrange(4)
        cs = []
        for f, a in (('gray', (0.5,)), ('rgb', (0.1, 0.2, 0.3)), ('cmyk', (0.1, 0.2, 0.3, 0.4))):
            h = C.c_void_p()
            A.raw('color_new', C.byref(h))
            A.raw('color_set_' + f, h, *a)
            cs.append(h)
        if k == 0:
            a, b = r.sample(cs, 2)
            self.handle('type2_function_new', 'function_destroy', lambda h: self.addid('function between color spaces', 'generator_add_function', d.h, h),
                        dbl([0.0, 1.0]), 2, a, b, 1.0)
        elif k == 1:
            self.handle('type3_function_new', 'function_destroy', lambda h: self.addid('empty function list', 'generator_add_function', d.h, h),
                        dbl([0.0, 1.0]), 2, (IdStruct * 1)(), 0, dbl([0.0]), 0, dbl([0.0]), 0)
        elif k == 2:
            f = [f for f in d.all('function') if f.ft != 4]
            if f:
                self.addid('separation without a type 4 function', 'generator_add_separation', d.h, b'Gold', -1, r.randrange(3), ID(r.choice(f)))
        else:
            sp = [x for x in d.all('sep')] or None
            for mk in (lambda h: sp and A.raw('color_set_separation', h, ID(r.choice(sp)), 0.5) == 0,
                       lambda h: d.all('lab') and A.raw('color_set_lab', h, ID(r.choice(d.all('lab'))), 50.0, 0.0, 0.0) == 0):
                def go(h):
                    if mk(h):
                        a = [h, h] if r.random() < 0.5 else r.sample([h, cs[0]], 2)
                        self.handle('type2_function_new', 'function_destroy', lambda q: self.addid('function between unsuitable colors', 'generator_add_function', d.h, q),
                                    dbl([0.0, 1.0]), 2, *a, 1.0)
                self.handle('color_new', 'color_destroy', go)
        for h in cs:
            A.raw('color_destroy', h)

    def mesh(self, d):
        A, r = self.A, self.r
        t = r.choice([4, 6])
        E = A.lib.E
        kinds = {E['CAPY_DEVICE_CS_RGB']: ('color_set_rgb', 0.1, 0.2, 0.3), E['CAPY_DEVICE_CS_GRAY']: ('color_set_gray', 0.5),
                 E['CAPY_DEVICE_CS_CMYK']: ('color_set_cmyk', 0.1, 0.2, 0.3, 0.4)}
        cs = r.choice(list(kinds))
        other = [v for k, v in kinds.items() if k != cs]
        for kind, fn in (('sep', lambda o: ('color_set_separation', ID(o), 0.5)), ('lab', lambda o: ('color_set_lab', ID(o), 50.0, 0.0, 0.0)),
                         ('icc', lambda o: ('color_set_icc', IdStruct(o.id), dbl([0.5] * o.n), o.n)), ('pattern', lambda o: ('color_set_pattern', ID(o)))):
            c = [o for o in d.all(kind) if o.id is not None]
            if c:
                other.append(fn(r.choice(c)))
        cols = []
        wrong = r.randrange(3 if t == 4 else 4)
        for k in range(4):
            h = C.c_void_p()
            A.raw('color_new', C.byref(h))
            fn, *a = r.choice(other) if k == wrong else kinds[cs]
            A.raw(fn, h, *a)
            cols.append(h.value)

        def f(h):
            if t == 4:
                if r.random() < 0.3:
                    self.refuse('mesh continued before it starts', 'type4_shading_extend', h, r.choice([1, 2]), dbl([1.0, 2.0]), cols[0])
                    return
                rc = A.raw('type4_shading_add_triangle', h, dbl([0.0, 0.0, 1.0, 0.0, 0.0, 1.0]), (C.c_void_p * 3)(*cols[:3]))
                if rc == 0 and r.random() < 0.4:
                    self.refuse('mesh edge flag', 'type4_shading_extend', h, r.choice([-1, 3, 4, 100]), dbl([1.0, 2.0]), cols[0])
                    return
            else:
                if r.random() < 0.3:
                    self.refuse('mesh continued before it starts', 'type6_shading_extend', h, r.choice([1, 2, 3]), dbl([1.0] * 16), (C.c_void_p * 2)(*cols[:2]))
                    return
                rc = A.raw('type6_shading_add_patch', h, dbl([float(k) for k in range(24)]), (C.c_void_p * 4)(*cols))
                if rc == 0 and r.random() < 0.4:
                    self.refuse('mesh edge flag', 'type6_shading_extend', h, r.choice([-1, 0, 4, 100]), dbl([1.0] * 16), (C.c_void_p * 2)(*cols[:2]))
                    return
            if rc == 0:
                self.addid('mesh colors of another colour space', 'generator_add_shading', d.h, h)
        self.handle('type%d_shading_new' % t, 'shading_destroy', f, cs, -10.0, -10.0, 10.0, 10.0)
        for c in cols:
            A.raw('color_destroy', c)


class Strings(Injector):
    """Only strings that are no valid text (kinds utf8, nul) or hold what their place can not represent (ascii, nul)."""

    def __init__(self, A, rng, kinds, functions=None, rate=0.5):
        super().__init__(A, rng, rate)
        self.want, self.only = set(kinds), functions

    def before(self, fn, args):
        if self.stop or self.busy or 'capy_' + fn not in self.h or self.r.random() >= self.rate:
            return
        c = [(i, k) for i, k in self.spoils(fn, args) if k in self.want and (self.only is None or self.only(fn, i))]
        if not c:
            return
        self.busy = True
        try:
            for i, k in self.r.sample(c, min(len(c), 2)):
                if not self.stop:
                    self.apply(fn, args, i, k)
        finally:
            self.busy = False
