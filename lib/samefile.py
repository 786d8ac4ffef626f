"""Are two written files the same document?  Objects are compared number by number; dictionaries are unordered."""
import re
from pdf import Stream


NEGZERO = re.compile(rb'-(0+\.0+)(?![0-9])')


def diff(P1, P2, layout=True, negzero=False):
    """-> list of differences.  negzero: -0.0 is 0.0.  layout False: ignore the stream encoding and the objects that hold objects (compression)."""
    out = []

    def note(path, a, b):
        if len(out) < 8:
            out.append('%s: %.200r / %.200r' % (path, a, b))

    def eq(path, a, b, top=False):
        if isinstance(a, Stream) and isinstance(b, Stream):
            skip = () if layout else ('Length', 'Filter', 'DecodeParms')
            da, db = {k: v for k, v in a.d.items() if k not in skip + ('Length',)}, {k: v for k, v in b.d.items() if k not in skip + ('Length',)}
            eqd(path, da, db)
            try:
                x, y = P1.decoded(a), P2.decoded(b)
            except Exception as e:
                note(path, 'stream', e)
                return
            if x != y and negzero:
                x, y = NEGZERO.sub(rb'\1', x), NEGZERO.sub(rb'\1', y)
            if x != y:
                i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                note('%s data at %d' % (path, i), x[max(0, i - 40):i + 60], y[max(0, i - 40):i + 60])
            return
        if type(a) is not type(b):
            note(path, a, b)
            return
        if isinstance(a, dict):
            eqd(path, a, b)
        elif isinstance(a, list):
            if len(a) != len(b):
                note(path + ' length', a, b)
                return
            for i, (x, y) in enumerate(zip(a, b)):
                eq('%s[%d]' % (path, i), x, y)
        elif a != b:
            note(path, a, b)

    def eqd(path, a, b):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                note('%s/%s' % (path, k), a.get(k), b.get(k))
            else:
                eq('%s/%s' % (path, k), a[k], b[k])

    for P, w in ((P1, 'first'), (P2, 'second')):
        if P.fatal:
            return ['the %s file is not readable: %s' % (w, P.fatal)]
    n1, n2 = set(P1.objects), set(P2.objects)

    def holder(P, n):
        o = P.objects[n]
        return isinstance(o, Stream) and o.d.get('Type') in ('ObjStm', 'XRef')
    for n in sorted(n1 | n2):
        if n not in n1 or n not in n2:
            P = P1 if n in n1 else P2
            if not holder(P, n):
                note('object %d' % n, n in n1, n in n2)
            continue
        if holder(P1, n) and holder(P2, n):
            continue
        eq('object %d' % n, P1.objects[n], P2.objects[n], True)
    t1, t2 = dict(P1.trailer), dict(P2.trailer)
    for k in ('Root', 'Info', 'Size') if layout else ('Root', 'Info'):
        eq('trailer/' + k, t1.get(k), t2.get(k))
    if P1.version != P2.version:
        note('version', P1.version, P2.version)
    return out
