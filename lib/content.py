"""Monitor for the content stream grammar: operators, operands, nesting, resources (ISO 32000-2, 8 and 9)."""
from pdf import Name, Ref, Stream, Op, content_ops
from schema import isnum, isint

N = 'n'
OPS = {
    'w': 'n', 'J': 'i', 'j': 'i', 'M': 'n', 'd': 'An', 'ri': 'N', 'i': 'n', 'gs': 'N',
    'q': '', 'Q': '', 'cm': 'nnnnnn',
    'm': 'nn', 'l': 'nn', 'c': 'nnnnnn', 'v': 'nnnn', 'y': 'nnnn', 'h': '', 're': 'nnnn',
    'S': '', 's': '', 'f': '', 'F': '', 'f*': '', 'B': '', 'B*': '', 'b': '', 'b*': '', 'n': '', 'W': '', 'W*': '',
    'BT': '', 'ET': '', 'Tc': 'n', 'Tw': 'n', 'Tz': 'n', 'TL': 'n', 'Tf': 'Nn', 'Tr': 'i', 'Ts': 'n',
    'Td': 'nn', 'TD': 'nn', 'Tm': 'nnnnnn', 'T*': '', 'Tj': 's', 'TJ': 'T', "'": 's', '"': 'nns',
    'CS': 'N', 'cs': 'N', 'SC': '*', 'sc': '*', 'SCN': '*', 'scn': '*', 'G': 'n', 'g': 'n', 'RG': 'nnn', 'rg': 'nnn', 'K': 'nnnn', 'k': 'nnnn',
    'sh': 'N', 'Do': 'N', 'MP': 'N', 'DP': 'NP', 'BMC': 'N', 'BDC': 'NP', 'EMC': '',
}
TEXT_ONLY = {'Td', 'TD', 'Tm', 'T*', 'Tj', 'TJ', "'", '"'}
NOT_IN_TEXT = {'q', 'Q', 'cm', 'm', 'l', 'c', 'v', 'y', 'h', 're', 'S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*', 'n', 'W', 'W*', 'sh', 'Do', 'BT'}
RANGE = {'J': 2, 'j': 2, 'Tr': 7}
INTENTS = ('RelativeColorimetric', 'AbsoluteColorimetric', 'Saturation', 'Perceptual')
DEV = {'DeviceRGB': 3, 'DeviceGray': 1, 'DeviceCMYK': 4}


def typ(c, v):
    if c == 'n':
        return isnum(v)
    if c == 'i':
        return isint(v)
    if c == 'N':
        return isinstance(v, Name)
    if c == 's':
        return isinstance(v, bytes)
    if c == 'A':
        return isinstance(v, list) and all(isnum(x) for x in v)
    if c == 'T':
        return isinstance(v, list) and all(isnum(x) or isinstance(x, bytes) for x in v)
    if c == 'P':
        return isinstance(v, (Name, dict))
    return False


class Checker:
    def __init__(self, P):
        self.P = P
        self.issues = []
        self.nops = 0
        self.seen_ops = set()

    def bad(self, where, m):
        self.issues.append('%s: %s' % (where, m))

    def res(self, R, cat, name):
        d = self.P.get(R.get(cat)) if isinstance(R, dict) else None
        if not isinstance(d, dict) or name not in d:
            return None
        return self.P.get(d[name])

    def ncs(self, v):
        P = self.P
        v = P.get(v)
        if isinstance(v, Name):
            return DEV.get(v)
        if isinstance(v, list) and v:
            k = P.get(v[0])
            if k == 'ICCBased' and len(v) > 1:
                s = P.get(v[1])
                return s.d.get('N') if isinstance(s, Stream) else None
            return {'Lab': 3, 'Separation': 1}.get(k)
        return None

    def check(self, data, R, where):
        R = self.P.get(R)
        syn = []
        ops = content_ops(data, syn, where)
        for s in syn:
            self.bad(where, s)
        stack = []
        intext = False
        cs = {'s': 'DeviceGray', 'f': 'DeviceGray'}
        ncomp = {'s': 1, 'f': 1}
        font = False
        for op, a in ops:
            self.nops += 1
            self.seen_ops.add(op)
            if op not in OPS:
                self.bad(where, 'unknown operator %r' % op)
                continue
            sig = OPS[op]
            if sig != '*' and (len(sig) != len(a) or not all(typ(c, v) for c, v in zip(sig, a))):
                self.bad(where, 'operator %s with operands %r' % (op, a))
                continue
            if op in NOT_IN_TEXT and intext:
                self.bad(where, 'operator %s inside a text object' % op)
            if op in TEXT_ONLY and not intext:
                self.bad(where, 'operator %s outside a text object' % op)
            if op in RANGE and not 0 <= a[0] <= RANGE[op]:
                self.bad(where, 'operator %s with value %r' % (op, a[0]))
            if op == 'ri' and a[0] not in INTENTS:
                self.bad(where, 'ri with %r' % a[0])
            if op == 'd' and (any(x < 0 for x in a[0]) or (a[0] and not any(a[0]) and False)):
                self.bad(where, 'negative dash length')
            if op == 'w' and a[0] < 0:
                self.bad(where, 'negative line width')
            if op == 'q':
                stack.append(('q', dict(cs), dict(ncomp), font))
            elif op == 'Q':
                if not stack or stack[-1][0] != 'q':
                    self.bad(where, 'Q without matching q')
                else:
                    _k, cs, ncomp, font = stack.pop()
            elif op == 'BT':
                if intext:
                    self.bad(where, 'nested BT')
                intext = True
                stack.append(('BT',))
            elif op == 'ET':
                if not stack or stack[-1][0] != 'BT':
                    self.bad(where, 'ET without matching BT')
                else:
                    stack.pop()
                intext = False
            elif op in ('BMC', 'BDC'):
                stack.append(('MC',))
                if op == 'BDC':
                    if isinstance(a[1], Name):
                        if self.res(R, 'Properties', a[1]) is None:
                            self.bad(where, 'property list %s is not in the resources' % a[1])
                    elif 'MCID' in a[1] and not (isint(a[1]['MCID']) and a[1]['MCID'] >= 0):
                        self.bad(where, 'MCID is %r' % a[1]['MCID'])
            elif op == 'EMC':
                if not stack or stack[-1][0] != 'MC':
                    self.bad(where, 'EMC without matching BMC or BDC')
                else:
                    stack.pop()
            elif op == 'gs':
                if not isinstance(self.res(R, 'ExtGState', a[0]), dict):
                    self.bad(where, 'graphics state %s is not in the resources' % a[0])
            elif op == 'sh':
                if self.res(R, 'Shading', a[0]) is None:
                    self.bad(where, 'shading %s is not in the resources' % a[0])
            elif op == 'Do':
                x = self.res(R, 'XObject', a[0])
                if not isinstance(x, Stream):
                    self.bad(where, 'XObject %s is not in the resources' % a[0])
            elif op == 'Tf':
                if not isinstance(self.res(R, 'Font', a[0]), dict):
                    self.bad(where, 'font %s is not in the resources' % a[0])
                font = True
            elif op in ('Tj', 'TJ', "'", '"'):
                if not font:
                    self.bad(where, 'text shown without a font')
            elif op in ('cs', 'CS'):
                k = 's' if op == 'CS' else 'f'
                if a[0] == 'Pattern':
                    cs[k], ncomp[k] = 'Pattern', None
                elif a[0] in DEV:
                    cs[k], ncomp[k] = a[0], DEV[a[0]]
                else:
                    v = self.res(R, 'ColorSpace', a[0])
                    if v is None:
                        self.bad(where, 'colour space %s is not in the resources' % a[0])
                        ncomp[k] = -1
                    else:
                        ncomp[k] = self.ncs(v)
                    cs[k] = a[0]
            elif op in ('g', 'rg', 'k', 'G', 'RG', 'K'):
                k = 's' if op.isupper() else 'f'
                cs[k] = {'g': 'DeviceGray', 'rg': 'DeviceRGB', 'k': 'DeviceCMYK'}[op.lower()]
                ncomp[k] = len(a)
            elif op in ('scn', 'SCN', 'sc', 'SC'):
                k = 's' if op.isupper() else 'f'
                if cs[k] == 'Pattern':
                    if len(a) != 1 or not isinstance(a[0], Name):
                        self.bad(where, '%s with operands %r in a pattern colour space' % (op, a))
                    elif self.res(R, 'Pattern', a[0]) is None:
                        self.bad(where, 'pattern %s is not in the resources' % a[0])
                elif not all(isnum(x) for x in a) or (ncomp[k] != -1 and len(a) != ncomp[k]):
                    self.bad(where, '%s with %r in a colour space of %s components' % (op, a, ncomp[k]))
        if stack:
            self.bad(where, 'stream ends inside %s' % ', '.join(s[0] for s in stack))
        return ops

    def run(self):
        """Checks every content stream of the file."""
        P = self.P
        n = 0
        for ref, d in P.pages():
            c = P.get(d.get('Contents'))
            if isinstance(c, Stream):
                self.check(P.decoded(c), d.get('Resources'), 'page %d' % ref[0])
                n += 1
            elif c is not None:
                self.bad('page %d' % ref[0], 'Contents is no stream')
        for num, o in sorted(P.objects.items()):
            if isinstance(o, Stream) and (o.d.get('Subtype') == 'Form' and o.d.get('BBox') is not None or o.d.get('PatternType') == 1):
                self.check(P.decoded(o), o.d.get('Resources'), 'stream %d' % num)
                n += 1
        self.nstreams = n
        return self.issues
