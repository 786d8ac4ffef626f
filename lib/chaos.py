"""Calls any function of the API at any time with valid pointers and arbitrary values.  No model: sanitizers watch."""
import collections, ctypes as C, os, struct
from capi import IdStruct
import gen

D_HOSTILE = [0.0, -0.0, 1.0, -1.0, 0.5, 1e-9, -1e-9, 1e9, -1e9, 1e300, -1e300, 1e-310, float('inf'), float('-inf'), float('nan'), 2147483648.0, -2147483649.0, 4294967296.0,
             9007199254740993.0, 255.5, 65536.0]
I_HOSTILE = [0, 1, 2, 3, 7, 8, 15, 16, 255, 256, 65535, 65536, 2**31 - 1, -1, -2, -2**31, 1000]
U_HOSTILE = [0, 1, 2, 3, 4, 8, 16, 17, 255, 256, 65535, 65536, 0x10ffff, 0x110000, 0xd800, 2**31, 2**32 - 1]
STR = [b'', b'a', b'abc', b'/', b'/Name', b'Name with space', b'(', b')', b'\\', b'())((', b'<<', b'\xc3\xa4', b'\xe4\xb8\xad\xe6\x96\x87', b'\xf0\x9f\x98\x80', b'\xff', b'\xc3', b'a\xc3',
       b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'%comment', b'#23', b'x' * 127, b'y' * 128, b'z' * 300, b'\n\r\t', b'\x01\x7f', b'\xef\xbb\xbf', b'\xfe\xff', b'fi', b'AVAVAV To',
       b'{ dup mul }', b'{ 0.5 }', b'wght', b'wdth', b'en-GB', b'text/xml', b'q w e r t y', '\u0623\u0644'.encode(), 'e\u0301'.encode(), b'Q', b'http://x.y/z?a=(b)']
SIZES = {'capy_type4_shading_add_triangle': {'coords': 6, 'colors': 3}, 'capy_type4_shading_extend': {'coords': 2, 'color': 1},
         'capy_type6_shading_add_patch': {'coords': 24, 'colors': 4}, 'capy_type6_shading_extend': {'coords': 16, 'colors': 2},
         'capy_type3_shading_new': {'coords': 6}, 'capy_destination_set_page_xyz': {'x': 1, 'y': 1, 'z': 1}}
# calls that draw a lot of the interesting paths are made more often
WEIGHT = {'capy_generator_load_font': 2.0, 'capy_generator_load_image': 2.0, 'capy_generator_add_page': 6.0, 'capy_generator_add_form_xobject': 4.0,
          'capy_generator_add_tiling_pattern': 4.0, 'capy_generator_add_transparency_group': 4.0, 'capy_dc_render_text': 4.0, 'capy_dc_render_text_obj': 4.0,
          'capy_text_cmd_Tj': 4.0, 'capy_text_cmd_TJ': 4.0, 'capy_text_cmd_Tf': 6.0, 'capy_dc_cmd_Q': 3.0, 'capy_dc_cmd_EMC': 3.0, 'capy_generator_write': 0.4,
          'capy_generator_new': 0.5, 'capy_generator_destroy': 0.15, 'capy_dc_cmd_q': 1.0, 'capy_error_message': 0.3, 'capy_generator_convert_image': 3.0,
          'capy_raster_image_builder_build': 4.0, 'capy_generator_add_image': 6.0, 'capy_raster_image_builder_set_pixel_data': 3.0, 'capy_raster_image_builder_set_size': 3.0,
          'capy_dc_annotate': 5.0, 'capy_generator_add_annotation': 4.0}
ERRORS = 160


class Chaos:
    def __init__(self, lib, rng, scratch, polite=0.7):
        self.lib, self.r, self.dir, self.polite = lib, rng, scratch, polite
        self.h = lib.h
        self.live = collections.defaultdict(list)     # type -> handles
        self.owner = {}                               # context/text -> generator/context
        self.dead = set()                             # may only be destroyed
        self.ids = collections.defaultdict(list)
        self.calls = collections.Counter()
        self.ok = collections.Counter()
        self.n = 0
        self.files = sorted(v for k, v in gen.FILES.items() if k.endswith(('.png', '.jpg', '.tif', '.tiff', '.ttf', '.otf', '.icc', '.ttc')))
        self.bytype = {'font': [f for f in self.files if f.endswith(('.ttf', '.otf', '.ttc')) and os.path.getsize(f) < 3000000],
                       'image': [f for f in self.files if f.endswith(('.png', '.jpg', '.tif', '.tiff')) and os.path.getsize(f) < 300000],
                       'icc': [f for f in self.files if f.endswith('.icc')]}
        fns = [f for f in self.h.funcs if f not in lib.missing and f != 'capy_error_message']
        self.makers, self.users = [], []
        self.w = {}
        for f in fns:
            self.w[f] = 0.3 if f.endswith('_destroy') else 2.0 if f.endswith('_new') or self.h.funcs[f][1][-1][2] == 'out_ptr' else 1.0
            self.w[f] = WEIGHT.get(f, self.w[f])
        self.fns = fns
        self.weights = [self.w[f] for f in fns]
        self.maker = collections.defaultdict(list)
        for f in fns:
            p = self.h.funcs[f][1]
            for t, s, n, c in p:
                if n == 'out_ptr' and s == 2:
                    self.maker[t].append(f)

    def is_handle(self, t, s):
        return s == 1 and t.startswith('CapyPDF_') and t not in self.h.ids and t not in self.h.enumtypes

    def dbl(self):
        r = self.r
        k = r.random()
        if k < self.polite:
            return r.choice([r.random(), r.uniform(-100, 600), float(r.randint(-5, 50))])
        return r.choice(D_HOSTILE)

    def string(self):
        r = self.r
        k = r.random()
        if k < 0.7:
            return r.choice(STR)
        if k < 0.9:
            return ''.join(chr(r.choice([r.randint(32, 126), r.randint(0xa0, 0x17f), r.randint(0x370, 0x3ff), r.randint(0x4e00, 0x4e40)])) for _ in range(r.randint(1, 12))).encode()
        return bytes(r.randrange(256) for _ in range(r.randint(1, 20)))

    def buf(self, b):
        """exactly len(b) bytes on the heap"""
        x = (C.c_char * max(1, len(b)))()
        C.memmove(x, b, len(b))
        self.keep.append(x)
        return C.cast(x, C.c_char_p)

    def handle(self, t, depth=0):
        c = [h for h in self.live[t] if h not in self.dead]
        if (not c or self.r.random() < 0.05) and depth < 3 and len(c) < 12:
            mk = self.maker.get(t)
            if mk and t != 'CapyPDF_Generator':
                self.call(self.r.choice(mk), depth + 1)
                c = [h for h in self.live[t] if h not in self.dead]
        return self.r.choice(c) if c else None

    def step(self):
        self.call(self.r.choices(self.fns, self.weights)[0])

    def call(self, fn, depth=0):
        r, h = self.r, self.h
        ret, params = h.funcs[fn]
        keep0 = getattr(self, 'keep', None)
        self.keep = []
        args = []
        out = None
        owner = None
        destroy = fn.endswith('_destroy')
        if fn == 'capy_generator_new' and len(self.live['CapyPDF_Generator']) >= 3:
            return
        i = 0
        while i < len(params):
            t, s, n, c = params[i]
            nxt = params[i + 1] if i + 1 < len(params) else ('', 0, '', False)
            nsz = SIZES.get(fn, {}).get(n)
            i += 1
            if i - 1 in h.optional[fn] and r.random() < 0.35:
                args.append(None)
            elif n == 'out_ptr':
                out = (t, s)
                o = IdStruct(-1) if t in h.ids and s == 1 else C.c_void_p() if s == 2 else (C.c_double * 4)()
                self.keep.append(o)
                self.outv = o
                args.append(C.byref(o))
                outi = o
            elif self.is_handle(t, s) and n != 'colors':
                if destroy:
                    c_ = self.live[t]
                    if not c_:
                        return
                    x = r.choice(c_)
                else:
                    x = self.handle(t, depth)
                    if x is None:
                        return
                if owner is None:
                    owner = (t, x)
                args.append(x)
            elif s == 2 and nsz:
                hs = [self.handle(t, depth) for _ in range(nsz)]
                if None in hs:
                    return
                a = (C.c_void_p * nsz)(*hs)
                self.keep.append(a)
                args.append(C.cast(a, C.c_void_p))
            elif s == 1 and nsz:
                a = (C.c_double * nsz)(*[self.dbl() for _ in range(nsz)])
                self.keep.append(a)
                args.append(C.cast(a, C.c_void_p))
            elif s == 1 and t == 'double' or s == 1 and t in h.ids and nxt[0] == 'int32_t':
                k = r.choice([0, 1, 2, 2, 3, 4, 4, 6, 8])
                if t == 'double':
                    a = (C.c_double * max(1, k))(*[self.dbl() for _ in range(k)])
                else:
                    a = (IdStruct * max(1, k))(*[IdStruct(self.id(t)) for _ in range(k)])
                self.keep.append(a)
                args.append(C.cast(a, C.c_void_p))
                args.append(k)
                i += 1
            elif s == 1 and t == 'char':
                if nxt[0] in ('int32_t', 'uint64_t', 'int64_t') and nxt[1] == 0 and nxt[2] in ('strsize', 'bufsize', 'datasize', 'namelen', 'keylen', 'valuelen', 'axis_size', 'code_size',
                                                                                         'strlen', 'namesize'):
                    b = self.blob(fn)
                    if nxt[0] == 'int32_t' and r.random() < 0.4 and b'\0' not in b:
                        args += [self.buf(b + b'\0'), -1]
                    else:
                        args += [self.buf(b), len(b)]
                    i += 1
                else:
                    args.append(self.buf(self.path(fn) + b'\0'))
            elif s == 1 and t in ('uint32_t', 'int32_t', 'uint64_t'):
                a = (C.c_uint64 * 1)(r.choice(U_HOSTILE))
                self.keep.append(a)
                args.append(C.cast(a, C.c_void_p))
            elif s == 1 and t in h.ids:
                a = IdStruct(self.id(t))
                self.keep.append(a)
                args.append(C.addressof(a))
            elif s >= 1 and t in h.enumtypes:
                a = C.c_int32(r.choice(h.enumtypes[t])[1])
                self.keep.append(a)
                args.append(C.addressof(a))
            elif s >= 1:
                a = (C.c_double * 8)()
                self.keep.append(a)
                args.append(C.cast(a, C.c_void_p))
            elif t in h.ids:
                args.append(IdStruct(self.id(t)))
            elif t in h.enumtypes:
                args.append(r.choice(h.enumtypes[t])[1] if r.random() < 0.9 else r.choice(I_HOSTILE))
            elif t == 'double':
                args.append(self.dbl())
            elif fn == 'capy_raster_image_builder_set_size' or n in ('depth', 'num_channels'):
                args.append(r.choice([1, 1, 2, 3, 4, 5, 8, 8, 9, 16, 33] if r.random() < 0.97 else U_HOSTILE))
            elif t in ('uint32_t', 'uint64_t'):
                args.append(r.randint(0, 300) if r.random() < self.polite else r.choice(U_HOSTILE))
            else:
                args.append(r.choice([0, 1, 0, 1, 2, 3]) if r.random() < self.polite else r.choice(I_HOSTILE))
        rc = getattr(self.lib.dll, fn)(*args)
        self.n += 1
        self.calls[fn] += 1
        if ret == 'CapyPDF_EC':
            if rc == 0:
                self.ok[fn] += 1
            else:
                self.lib.dll.capy_error_message(rc)
        if destroy:
            t, x = owner
            self.forget(t, x)
        elif out and rc == 0 and ret == 'CapyPDF_EC':
            t, s = out
            if t in h.ids and s == 1:
                self.ids[t].append(outi.id)
            elif s == 2 and outi.value:
                self.live[t].append(outi.value)
                if t in ('CapyPDF_DrawContext', 'CapyPDF_Text'):
                    self.owner[outi.value] = owner[1]
        self.held = (self.keep + (getattr(self, 'held', []) or []))[:40]
        self.keep = keep0 if keep0 is not None else []

    def forget(self, t, x):
        self.live[t].remove(x)
        self.dead.discard(x)
        self.owner.pop(x, None)
        if t in ('CapyPDF_Generator', 'CapyPDF_DrawContext'):
            todo = [x]
            while todo:
                y = todo.pop()
                for k, v in self.owner.items():
                    if v == y and k not in self.dead:
                        self.dead.add(k)
                        todo.append(k)

    def id(self, t):
        c = self.ids[t]
        if c and self.r.random() < 0.9:
            return self.r.choice(c)
        return self.r.choice(I_HOSTILE + [0, 1, 2, 5, 10, 20, 30])

    def blob(self, fn):
        r = self.r
        if fn == 'capy_generator_add_icc_profile':
            return open(r.choice(self.bytype['icc']), 'rb').read() if r.random() < 0.6 else self.string()
        if fn == 'capy_generator_load_image_from_memory':
            return open(r.choice(self.bytype['image']), 'rb').read() if r.random() < 0.8 else self.string()
        if fn.startswith('capy_raster_image_builder'):
            return bytes(r.choice([1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 18, 24, 27, 32, 64, 72, 100, 256]))
        if fn == 'capy_document_properties_set_metadata_xml' and r.random() < 0.6:
            return b'<?xpacket?><x>CapyPDF 0.19.0</x>'
        return self.string()

    def path(self, fn):
        r = self.r
        if fn == 'capy_generator_new':
            return os.path.join(self.dir, r.choice(['a.pdf', 'b.pdf', 'c.pdf', 'nodir/d.pdf'])).encode()
        if fn in ('capy_dc_cmd_BMC', 'capy_optional_content_group_new'):
            return self.string().replace(b'\0', b'')
        k = {'capy_generator_load_font': 'font', 'capy_generator_load_image': 'image'}.get(fn)
        if 'icc' in fn or 'device_profile' in fn:
            k = 'icc'
        if fn.endswith('3d_stream_new') or fn.endswith('load_file'):
            k = 'image'
        if k and r.random() < 0.92:
            return os.fsencode(r.choice(self.bytype[k]))
        return os.fsencode(r.choice(self.files[:] + [self.dir, os.path.join(self.dir, 'missing'), '/dev/null', '']))

    def run(self, steps):
        for _ in range(2):
            self.call('capy_document_properties_new')
        self.call('capy_generator_new')
        for _ in range(steps):
            self.step()

    def finish(self):
        """Destroys everything in a random order (contexts also after their document)."""
        r = self.r
        for g in list(self.live['CapyPDF_Generator']):
            if r.random() < 0.8:
                self.lib.dll.capy_generator_write(g)
        todo = [(t, x) for t, l in self.live.items() for x in l]
        r.shuffle(todo)
        des = {}
        for f, (ret, p) in self.h.funcs.items():
            if f.endswith('_destroy') and len(p) == 1:
                des[p[0][0]] = f
        for t, x in todo:
            getattr(self.lib.dll, des[t])(x)
            self.n += 1
        self.live.clear()
