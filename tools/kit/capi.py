"""ctypes binding of the CapyPDF C API, generated from the public header at run time."""
import ctypes as C, os, re

REPO = os.environ.get('CAPY_REPO', '/repo')

_PRIM = {
    'double': C.c_double, 'int32_t': C.c_int32, 'uint32_t': C.c_uint32,
    'int64_t': C.c_int64, 'uint64_t': C.c_uint64, 'uint16_t': C.c_uint16, 'uint8_t': C.c_uint8,
    'CapyPDF_EC': C.c_int32, 'char': C.c_char, 'void': None, 'int': C.c_int,
}


class IdStruct(C.Structure):
    """Every CapyPDF_*Id is a struct with one int32_t."""
    _fields_ = [('id', C.c_int32)]


class Header:
    def __init__(self, path=None):
        path = path or os.path.join(REPO, 'include', 'capypdf.h.in')
        src = open(path, encoding='utf-8').read()
        src = re.sub(r'/\*.*?\*/', ' ', src, flags=re.S)
        src = re.sub(r'//[^\n]*', '', src)
        src = '\n'.join(l for l in src.split('\n')
                        if not l.lstrip().startswith('#') and not l.rstrip().endswith('\\'))
        self.enums, self.enumtypes, self.ids = {}, {}, set()
        for m in re.finditer(r'typedef\s+enum\s*\{(.*?)\}\s*(\w+)\s*;', src, re.S):
            vals, cur = [], 0
            for item in m.group(1).split(','):
                item = item.strip()
                if not item:
                    continue
                if '=' in item:
                    n, v = item.split('=', 1)
                    cur = eval(v, {}, dict(self.enums))
                else:
                    n = item
                n = n.strip()
                self.enums[n] = cur
                vals.append((n, cur))
                cur += 1
            self.enumtypes[m.group(2)] = vals
        for m in re.finditer(r'typedef\s+struct\s*\{\s*int32_t\s+id\s*;\s*\}\s*(\w+)\s*;', src):
            self.ids.add(m.group(1))
        self.funcs = {}
        for m in re.finditer(r'CAPYPDF_PUBLIC\s+([\w\s\*]+?)\s*\b(capy_\w+)\s*\(([^()]*)\)', src):
            ret, name, args = m.group(1).strip(), m.group(2), m.group(3)
            al = []
            for a in args.split(','):
                a = ' '.join(a.split())
                if not a or a == 'void':
                    continue
                const = 'const ' in a
                a = a.replace('const ', '')
                stars = a.count('*')
                a2 = a.replace('*', ' ').split()
                al.append((a2[0], stars, a2[1] if len(a2) > 1 else '', const))
            self.funcs[name] = (ret, al)


class Lib:
    def __init__(self, path, header=None):
        self.h = header or Header()
        self.dll = C.CDLL(path)
        self.E = self.h.enums
        self.missing = []
        for name, (ret, args) in self.h.funcs.items():
            try:
                f = getattr(self.dll, name)
            except AttributeError:
                self.missing.append(name)
                continue
            if '*' in ret:
                f.restype = C.c_char_p
            else:
                f.restype = _PRIM.get(ret.split()[-1], C.c_int)
            at = []
            for t, stars, _n, _c in args:
                if stars == 0:
                    if t in self.h.ids:
                        at.append(IdStruct)
                    elif t in _PRIM:
                        at.append(_PRIM[t])
                    else:
                        at.append(C.c_int)
                elif t == 'char' and stars == 1:
                    at.append(C.c_char_p)
                else:
                    at.append(C.c_void_p)
            f.argtypes = at


if __name__ == '__main__':
    h = Header()
    for n, (r, a) in h.funcs.items():
        print(n[5:], ', '.join('%s%s %s' % (t.replace('CapyPDF_', ''), '*' * s, nm) for t, s, nm, c in a), '' if r == 'CapyPDF_EC' else '-> ' + r)
