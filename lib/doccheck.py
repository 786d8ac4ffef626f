"""Checks that drive random API programs and read the written file back."""
import hashlib, os, random, traceback
import build, capi, locales, model, gen, pdf, verify


class State:
    def __init__(self):
        self.lib = capi.Lib(os.environ['CAPY_LIB'])
        self.dir = os.environ['CAPY_SCRATCH']


def result(doc, A, v, prop, extra=None):
    iss = (v.of(prop) if v else []) + [{'key': k, 'msg': m[:900]} for t, k, m in doc.found if prop in t]
    st = dict(v.stats) if v else {}
    for k, n in doc.stats.items():
        st[k] = st.get(k, 0) + n
    st['documents'] = 1
    st['api_calls'] = A.ncalls
    sig = hashlib.sha1(repr((sorted(st.items()), os.path.getsize(doc.path) if os.path.exists(doc.path) else 0)).encode()).hexdigest()[:12]
    return {'issues': iss, 'stats': st, 'distinct': [sig] if A.ncalls > 10 else [], 'evals': 1,
            'sample': {'calls': A.ncalls, 'pages': len(doc.pages), 'seen': {k: n for k, n in st.items() if n}}}


def run_doc(state, prop, seed, i, prof, hook=None, tweak=None):
    rng = random.Random('%s/%d/%d' % (prop, seed, i))
    if callable(prof):
        prof = prof(rng, i)
    prof = dict(prof)
    env = prof.pop('env', {})
    loc = prof.pop('locale', False)
    inject = prof.pop('inject', None)
    path = os.path.join(state.dir, 'doc%d.pdf' % (i % 50))
    A = model.Api(state.lib, rng)
    A.fns = set()
    saved = {k: os.environ.get(k) for k in env}
    os.environ.update(env)
    if loc:
        lc = locales.ensure()
        os.environ['LOCPATH'] = lc or ''
        loc = bool(lc) and locales.activate()
    g = gen.Gen(A, rng, path, **prof)
    v = None
    inj = None
    if inject:
        import invalid
        inj = invalid.Strings(A, random.Random('inject/%s/%d/%d' % (prop, seed, i)), *inject)
    try:
        try:
            if hook:
                hook(g)
            g.run()
        except model.Refused as e:
            r = result(g.doc, A, None, prop)
            r['issues'] = [{'key': 'refused.' + e.fn, 'msg': 'a valid call was refused: %s' % e}]
            if inj:
                r['issues'] += inj.issues
            return r
        P = pdf.Pdf(open(path, 'rb').read())
        try:
            v = verify.V(P, g.doc).run()
        except Exception:
            v = verify.V(P, g.doc)
            v.bad('*', 'unreadable', 'the written file can not be interpreted: ' + traceback.format_exc()[-1500:])
        r = result(g.doc, A, v, prop)
        r['stats']['with_locale'] = int(loc)
        if inj:
            r['issues'] += inj.issues
            r['stats']['refused_strings'] = len(inj.log)
            r['distinct'] = r['distinct'] + sorted({'%s:%s' % (f, w) for f, w, _ in inj.log})
        if tweak:
            tweak(g, P, v, r)
        return r
    finally:
        if inj:
            inj.finish()
        if loc:
            locales.activate(False)
        try:
            g.cleanup()
        except Exception:
            pass
        for k, o in saved.items():
            if o is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = o
        if os.path.exists(path):
            os.unlink(path)


def with_bulk(profile, menu, every=15):
    """every so often a document has very many, very deep or very large things of one kind"""
    def prof(r, i):
        big = i % every == every - 1
        p = profile(r, i + (r.randrange(24) if big else 0)) if callable(profile) else dict(profile)
        if big:
            p = dict(p, steps=(5, 30), pages=r.choice([1, 2]), use_all=0.0, max_open=2)
            if r.random() < 0.7:
                p.pop('env', None)
            items = menu[(i // every) % len(menu)]
            for x in items:
                if isinstance(x, dict):
                    p.update(x)
            p['bulk'] = [(x[0], r.choice(x[1]) if isinstance(x[1], list) else x[1]) for x in items if not isinstance(x, dict)]
            if any(w.endswith(':struct') or ':tag' in w for w, _ in p['bulk']):
                p['tagged'] = 1
        return p
    return prof


def define(ns, prop, rule, profile, n=(300, 5000), level='exploration', hook=None, tweak=None, bulk=None, **kw):
    if bulk:
        profile = with_bulk(profile, bulk)
    def setup(seed, tier):
        return State()
    def run_case(state, seed, i):
        return run_doc(state, prop, seed, i, profile, hook, tweak)
    d = dict(PROP=prop, LEVEL=level, RULE=rule, CONFIG='plain', CASE_LIMIT=60, setup=setup, run_case=run_case,
             num_cases=lambda tier: n[1] if tier == 'thorough' else n[0], MIN_EVALS=n[0] // 2, MIN_DISTINCT=n[0] // 4,
             ASSUMPTIONS=['FreeType, zlib, Pillow and the PDF reader in lib/pdf.py interpret data as the specifications say'])
    d.update(kw)
    for k, x in d.items():
        ns.setdefault(k, x)
