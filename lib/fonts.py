"""FreeType based oracle for font contents."""
import ctypes as C, os, subprocess, hashlib
import build as B

_dll = None


def dll():
    global _dll
    if _dll is None:
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ftprobe.c')
        os.makedirs(B.BUILD, exist_ok=True)
        k = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
        so = os.path.join(B.BUILD, 'ftprobe-%s.so' % k)
        if not os.path.exists(so):
            fl = subprocess.run(['pkg-config', '--cflags', '--libs', 'freetype2'], capture_output=True, text=True).stdout.split()
            tmp = so + '.%d' % os.getpid()
            env = {k2: v for k2, v in os.environ.items() if k2 != 'LD_PRELOAD'}
            subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, src] + fl, check=True, env=env)
            os.rename(tmp, so)
        d = C.CDLL(so)
        d.ftp_open.restype = C.c_void_p
        d.ftp_open_mem.restype = C.c_void_p
        d.ftp_open.argtypes = [C.c_char_p, C.c_int]
        d.ftp_open_mem.argtypes = [C.c_char_p, C.c_long]
        for f in ('close', 'upem', 'num_glyphs', 'is_sfnt', 'is_cid'):
            getattr(d, 'ftp_' + f).argtypes = [C.c_void_p]
        d.ftp_gid.argtypes = [C.c_void_p, C.c_uint]
        d.ftp_metric.argtypes = d.ftp_advance.argtypes = [C.c_void_p, C.c_int]
        d.ftp_chars.argtypes = [C.c_void_p, C.c_void_p, C.c_int]
        d.ftp_outline.argtypes = [C.c_void_p, C.c_int, C.c_void_p, C.c_int]
        d.ftp_set_var.argtypes = [C.c_void_p, C.c_int, C.c_int, C.c_void_p, C.c_void_p]
        d.ftp_kern.argtypes = [C.c_void_p, C.c_int, C.c_int]
        _dll = d
    return _dll


class Face:
    def __init__(self, path=None, data=None, index=0, props=None):
        d = dll()
        self.f = d.ftp_open(os.fsencode(path), index) if path else d.ftp_open_mem(data, len(data))
        self.seen_by_lsan = C.c_void_p(self.f)
        self.ok = bool(self.f)
        self._chars = None
        self._ol = {}
        if self.ok and props:
            ax = props.get('axes', {})
            tags = (C.c_uint * max(1, len(ax)))(*[int.from_bytes(k.encode(), 'big') for k in ax])
            vals = (C.c_int * max(1, len(ax)))(*ax.values())
            self.var_rc = d.ftp_set_var(self.f, props.get('instance', -1), len(ax), tags, vals)

    def chars(self):
        if self._chars is None:
            a = (C.c_uint * 200000)()
            n = dll().ftp_chars(self.f, a, 200000)
            self._chars = list(a[:n])
        return self._chars

    def gid(self, cp):
        return dll().ftp_gid(self.f, cp)

    upem = property(lambda s: dll().ftp_upem(s.f))
    nglyphs = property(lambda s: dll().ftp_num_glyphs(s.f))
    is_cid = property(lambda s: dll().ftp_is_cid(s.f))

    def advance(self, gid):
        return dll().ftp_advance(self.f, gid)

    def width(self, text):
        """of a line of text in units, with kerning -> (width, kerned pairs)"""
        g = [self.gid(ord(c)) for c in text]
        k = [dll().ftp_kern(self.f, a, b) for a, b in zip(g, g[1:])]
        return sum(self.advance(x) for x in g) + sum(k), sum(x != 0 for x in k)

    def metric(self, k):
        return dll().ftp_metric(self.f, k)

    def outline(self, gid):
        """list of (op, coords...) or None"""
        if gid not in self._ol:
            a = (C.c_double * 20000)()
            n = dll().ftp_outline(self.f, gid, a, 20000)
            if n < 0:
                self._ol[gid] = None
            else:
                out, i = [], 0
                ln = {1: 2, 2: 2, 3: 4, 4: 6}
                while i < min(n, 20000):
                    k = int(a[i])
                    out.append((k,) + tuple(a[i + 1:i + 1 + ln[k]]))
                    i += 1 + ln[k]
                self._ol[gid] = out
        return self._ol[gid]

    def close(self):
        dll().ftp_close(self.f)


_faces = {}


def face(path, props=None):
    key = (path, repr(props))
    if key not in _faces:
        p = dict(props or {})
        f = Face(path, index=p.get('subfont', 0))
        if 'Amstel' in path or p.get('axes') or 'instance' in p:
            f = Face(path, index=p.get('subfont', 0), props=p or {'axes': {}})
        _faces[key] = f
    return _faces[key]


def forget(path):
    for k in [k for k in _faces if k[0] == path]:
        _faces.pop(k).close()
