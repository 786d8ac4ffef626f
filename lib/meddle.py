"""Keeps the caller's objects alive after the program is done with them and keeps changing them.

Every call the program makes is remembered as a template; a released object (one the program destroys) goes into a pool
instead, and from then on random templates for its type are run on it until it is really destroyed at a random moment."""
import collections, ctypes as C
from model import ID
from capi import IdStruct

SKIP_FIRST = {'CapyPDF_Generator'}
# text drawn anywhere makes its glyphs part of the font's subset, also when the context is thrown away afterwards
SKIP_CALLS = {'dc_render_text', 'dc_render_text_obj', 'dc_text_new'}


class Meddler:
    def __init__(self, A, rng, rate=0.3):
        self.A, self.r, self.rate = A, rng, rate
        self.f = A.h.funcs
        self.templates = {}          # type -> {fn: [args, ...]}
        self.pool = {}               # handle -> (type, destroy function)
        self.bytype = collections.defaultdict(list)
        self.busy = self.done = False
        self.kinds = collections.Counter()
        A.before, A.meddler = self.before, self

    def release(self, fn, h):
        """-> True when the object was taken over"""
        t = self.f['capy_' + fn][1][0][0]
        if t in SKIP_FIRST or self.done:
            return False
        h = h.value if isinstance(h, C.c_void_p) else h
        self.pool[h] = (t, fn)
        self.bytype[t].append(h)
        self.A.ctxmap.pop(h, None)
        self.A.textmap.pop(h, None)
        if self.r.random() < 0.6:
            self.meddle(h)
        return True

    def kill(self, h):
        t, fn = self.pool.pop(h)
        self.bytype[t].remove(h)
        self.A.raw(fn, h)

    def before(self, fn, args):
        if self.busy or self.done:
            return
        self.busy = True
        try:
            sig = self.f.get('capy_' + fn)
            if fn == 'generator_destroy' or (fn == 'generator_write' and self.r.random() < 0.3):
                self.end()
                return
            r = self.r
            while self.pool and r.random() < self.rate:
                h = r.choice(list(self.pool))
                if r.random() < 0.12:
                    self.kill(h)
                else:
                    self.meddle(h)
            if sig and sig[1] and not any(n == 'out_ptr' for _, _, n, _ in sig[1]) and not fn.endswith('_destroy') and len(args) == len(sig[1]):
                t = sig[1][0][0]
                if sig[1][0][1] == 1 and t not in SKIP_FIRST and t not in self.A.h.ids and isinstance(args[0], int) and fn not in SKIP_CALLS:
                    l = self.templates.setdefault(t, {}).setdefault(fn, [])
                    a = []
                    for (pt, stars, n, c), x in zip(sig[1], args):
                        if isinstance(x, C.c_char_p):
                            i = len(a) + 1
                            ln = args[i] if i < len(args) and isinstance(args[i], int) else -1
                            x = C.string_at(x, ln)
                        a.append(x)
                    if len(l) < 4:
                        l.append(a)
                    else:
                        l[r.randrange(4)] = a
        finally:
            self.busy = False

    def meddle(self, h):
        t, _ = self.pool[h]
        ts = self.templates.get(t)
        r = self.r
        if not ts:
            return
        for _ in range(r.randint(1, 3)):
            fn = r.choice(list(ts))
            a = list(r.choice(ts[fn]))
            for i, (pt, stars, n, c) in enumerate(self.f['capy_' + fn][1]):
                if stars == 1 and pt.startswith('CapyPDF_') and pt not in self.A.h.ids and pt not in self.A.h.enumtypes:
                    if i == 0:
                        a[0] = h
                    elif a[i] is not None:
                        c = [x for x in self.bytype[pt] if x != h]
                        if not c:
                            break
                        a[i] = r.choice(c)
                elif stars == 2:
                    c = self.bytype[pt]
                    if not c:
                        break
                    a[i] = (C.c_void_p * 4)(*[r.choice(c) for _ in range(4)])
            else:
                rc = self.A.raw(fn, *a)
                self.kinds[(fn, rc != 0)] += 1

    def end(self):
        """Destroys what is left, in any order."""
        hs = list(self.pool)
        self.r.shuffle(hs)
        for h in hs:
            if self.pool[h][0] in ('CapyPDF_DrawContext', 'CapyPDF_Text'):
                self.kill(h)
        for h in hs:
            if h in self.pool:
                self.kill(h)

    def finish(self):
        self.busy = self.done = True
        self.end()
        self.A.before = self.A.meddler = None
