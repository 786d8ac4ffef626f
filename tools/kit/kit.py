"""Small driver for demonstrations: C API through ctypes, plus reading the file back."""
import ctypes as C, os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import capi, pdf
TD = '/repo/testdata'


class CapyError(Exception):
    pass


class Kit:
    def __init__(self, path=None):
        os.environ.setdefault('SOURCE_DATE_EPOCH', '1700000000')
        self.lib = capi.Lib(path or '/repo/_build/src/libcapypdf.so')
        self.E = self.lib.E
        self.tmp = tempfile.mkdtemp(prefix='capydemo-')
        self.out = os.path.join(self.tmp, 'out.pdf')

    def __call__(self, name, *args):
        rc, v = self.rc(name, *args)
        if rc:
            raise CapyError('%s: %s' % (name, self.lib.dll.capy_error_message(rc)))
        return v

    def rc(self, name, *args):
        f = getattr(self.lib.dll, 'capy_' + name)
        spec = self.lib.h.funcs['capy_' + name][1]
        args = [a.encode() if isinstance(a, str) else a for a in args]
        args = [self.E[a.decode()] if isinstance(a, bytes) and t[1] == 0 and a.decode() in self.E else a for a, t in zip(args, spec)]
        out = None
        if len(args) == len(spec) - 1 and spec[-1][1] >= 1:
            t, stars = spec[-1][0], spec[-1][1]
            if t in self.lib.h.ids:
                out = capi.IdStruct()
            elif stars == 2:
                out = C.c_void_p()
            else:
                out = capi._PRIM.get(t, C.c_int)()
            args.append(C.byref(out))
        conv = []
        for a, t in zip(args, spec):
            if isinstance(a, (list, tuple)):
                et = capi.IdStruct if t[0] in self.lib.h.ids else capi._PRIM.get(t[0], C.c_int)
                a = C.cast((et * max(1, len(a)))(*a), C.c_void_p)
                conv.append(a)
            elif isinstance(a, bytes) and t[0] in ('uint8_t', 'void', 'char') and t[1]:
                b = C.create_string_buffer(a, len(a) + 1)
                self.__dict__.setdefault('_keep', []).append(b)
                conv.append(C.cast(b, C.c_char_p if t[0] == 'char' else C.c_void_p))
            else:
                conv.append(a)
        rc = f(*conv)
        if out is None:
            return rc, None
        return rc, out.value if hasattr(out, 'value') else out

    def gen(self, setup=None, box=(0, 0, 200, 200), path=None):
        dp = self('document_properties_new')
        pp = self('page_properties_new')
        self('page_properties_set_pagebox', pp, 'CAPY_BOX_MEDIA', *[float(x) for x in box])
        self('document_properties_set_default_page_properties', dp, pp)
        if setup:
            setup(dp)
        g = self('generator_new', (path or self.out), dp)
        return g

    def page(self, g, fn=None):
        dc = self('page_draw_context_new', g)
        if fn:
            fn(dc)
        pid = self('generator_add_page', g, dc)
        self('dc_destroy', dc)
        return pid

    def write(self, g, path=None):
        self('generator_write', g)
        self('generator_destroy', g)
        return self.read(path)

    def read(self, path=None):
        return pdf.Pdf(open(path or self.out, 'rb').read())

    def contents(self, P, n=0):
        pg = P.pages()[n]
        d = pg[1] if isinstance(pg, tuple) and len(pg) == 2 and isinstance(pg[1], dict) else P.get(pg)
        return P.decoded(P.get(d['Contents']))


def check(cond, msg):
    if not cond:
        print('FAILED:', msg)
        sys.exit(1)


def done(k):
    shutil.rmtree(k.tmp)
    print('ok')
