"""Records the API calls a Python program makes in a form replay.cpp can repeat natively (in threads, under sanitizers)."""
import ctypes as C, os, struct
from capi import IdStruct

NULL, INT, DBL, HANDLE, OUTHANDLE, BUF, HARRAY, IDV, STR, OUTFILE = range(10)


def is_handle(h, t):
    return t.startswith('CapyPDF_') and t not in h.ids and t not in h.enumtypes and t != 'CapyPDF_EC'


def functions(h, missing=()):
    return [f for f in sorted(h.funcs) if f not in missing]


class Recorder:
    """Takes the place of the ctypes library object of a model.Api."""

    def __init__(self, lib):
        self._lib, self._h = lib, lib.h
        self._fns = {f: i for i, f in enumerate(functions(lib.h))}
        self._out = []
        self._slots, self._nslot = {}, 1
        self.ncalls = 0

    def __getattr__(self, fn):
        f = getattr(self._lib.dll, fn)
        if fn not in self._fns:
            return f
        w = lambda *a: self._call(fn, f, a)
        setattr(self, fn, w)
        return w

    def _bytes(self, v, size):
        if isinstance(v, bytes):
            return v + b'\0' if size is None or size < 0 else v[:size]
        if size is not None and size < -1:
            return b'\0'       # (refused without reading)
        p = C.cast(v, C.c_void_p).value
        if size is None or size < 0:
            return C.string_at(p) + b'\0'
        return C.string_at(p, size)

    def _call(self, fn, f, args):
        h = self._h
        ret, params = h.funcs[fn]
        rec, after, outs = [], [], []
        for i, ((t, s, n, const), v) in enumerate(zip(params, args)):
            if s and v is None:
                rec.append((NULL,))
            elif s == 0:
                if t in h.ids:
                    rec.append((IDV, v.id))
                elif t == 'double':
                    rec.append((DBL, float(v)))
                else:
                    rec.append((INT, int(getattr(v, 'value', v))))
            elif s == 2 and n == 'out_ptr':
                obj = v._obj
                self._nslot += 1
                outs.append((obj, self._nslot))
                rec.append((OUTHANDLE, self._nslot))
            elif s == 2 and is_handle(h, t):
                rec.append((HARRAY, [self._slots[x] for x in v]))
            elif s == 1 and is_handle(h, t):
                x = getattr(v, 'value', v)
                if isinstance(x, int):
                    rec.append((HANDLE, self._slots[x]) if x else (NULL,))
                else:
                    rec.append((HARRAY, [self._slots[y] for y in v]))       # an array of handles
            elif t == 'char' and s == 1:
                if fn == 'capy_generator_new' and n == 'filename':
                    rec.append((OUTFILE,))
                    continue
                nt = params[i + 1] if i + 1 < len(params) else ('', 0, '', 0)
                size = None
                if nt[1] == 0 and nt[0].endswith('_t') and any(k in nt[2] for k in ('size', 'bytes', 'len')):
                    size = int(args[i + 1])
                rec.append((STR, self._bytes(v, size)))
            else:
                obj = getattr(v, '_obj', v)
                if isinstance(obj, bytes):
                    b = obj
                    rec.append((BUF, b))
                    after.append((len(rec) - 1, None))
                else:
                    rec.append((BUF, bytes(obj)))
                    after.append((len(rec) - 1, obj))
        r = f(*args)
        self.ncalls += 1
        for obj, slot in outs:
            if obj.value:
                self._slots[obj.value] = slot
        aft = {k: (bytes(o) if o is not None else rec[k][1]) for k, o in after}
        b = [struct.pack('<Hib', self._fns[fn], r if isinstance(r, int) else 0, len(rec))]
        for k, x in enumerate(rec):
            b.append(bytes([x[0]]))
            if x[0] == INT:
                b.append(struct.pack('<q', x[1]))
            elif x[0] == DBL:
                b.append(struct.pack('<d', x[1]))
            elif x[0] in (HANDLE, OUTHANDLE):
                b.append(struct.pack('<I', x[1]))
            elif x[0] == IDV:
                b.append(struct.pack('<i', x[1]))
            elif x[0] == STR:
                b.append(struct.pack('<I', len(x[1])) + x[1])
            elif x[0] == BUF:
                b.append(struct.pack('<I', len(x[1])) + x[1] + aft[k])
            elif x[0] == HARRAY:
                b.append(struct.pack('<I', len(x[1])) + b''.join(struct.pack('<I', y) for y in x[1]))
        self._out.append(b''.join(b))
        return r

    def save(self, path):
        with open(path, 'wb') as f:
            f.write(struct.pack('<II', len(self._out), self._nslot + 1))
            f.write(b''.join(self._out))


def write_dispatch(h, missing, dst):
    """C++ source of a function that calls API function number n"""
    L = ['static CapyPDF_EC dispatch(int n, Arg *a) {\n switch(n) {\n']
    names = []
    for i, f in enumerate(functions(h)):
        names.append('"%s"' % f)
        ret, params = h.funcs[f]
        if f in missing:
            continue
        a = []
        for k, (t, s, n, const) in enumerate(params):
            if s:
                a.append('(%s%s%s)a[%d].p' % ('const ' if const else '', t, '*' * s, k))
            elif t == 'double':
                a.append('a[%d].d' % k)
            elif t in h.ids:
                a.append('%s{(int32_t)a[%d].i}' % (t, k))
            else:
                a.append('(%s)a[%d].i' % (t, k))
        call = '%s(%s)' % (f, ', '.join(a))
        L.append('  case %d: %s\n' % (i, ('return %s;' % call) if '*' not in ret else '%s; return 0;' % call))
    L.append('  default: return -1;\n }\n}\nstatic const char *const fnames[] = {%s};\n' % ', '.join(names))
    t = ''.join(L)
    if not os.path.exists(dst) or open(dst).read() != t:
        open(dst, 'w').write(t)
