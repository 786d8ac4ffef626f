"""P07: committed objects are snapshots.  Every program runs twice: once with fresh contexts and objects that are destroyed after
use, once with reused contexts, objects that stay alive and keep being changed, and destruction in any order."""
import os, random
import capi, doccheck, gen, meddle, model, pdf, samefile, verify

PROFILES = [
    dict(),
    dict(pages=(2, 5), steps=(40, 140), reuse_ctx=0.8, max_open=6, ops=dict(text=10, rtext=4, props=4, group=4, trans=4, nav=4, viewport=5, mc=6, ocg=5, annot=6)),
    dict(steps=(20, 80), res=dict(shading=8, shpat=6, fn=6, sep=5, icc=3, lab=3, image=8, gstate=12, softmask=5), ops=dict(color=14, sh=5, gs=10)),
    dict(tagged=1, steps=(30, 100), res=dict(struct=12, role=3, annot=10, field=5, embed=5, outline=8, ocg=5, label=5, stream3d=2),
         ops=dict(mc=8, annot=8, tag=8, nav=4, trans=4, viewport=3, ocg=5)),
    dict(pages=(2, 4), steps=(30, 120), reuse_ctx=0.9, new=dict(page=4, form=4, tiling=5, trgroup=5, res=4), ops=dict(q=10, mc=10, group=6, matrix=8, props=4)),
]


def one(state, seed, i, prof, med, gens):
    rng = random.Random('%s/%d/%d' % (PROP, seed, i))
    path = os.path.join(state.dir, 'snap.pdf')
    A = model.Api(state.lib, rng)
    g = gen.Gen(A, rng, path, **prof)
    gens.append(g)
    m = meddle.Meddler(A, random.Random('med/%d/%d' % (seed, i)), random.Random('rate/%d/%d' % (seed, i)).choice([0.1, 0.35, 0.7])) if med else None
    try:
        g.run()
        data = open(path, 'rb').read()
        ids = {k: [o.id for o in v] for k, v in g.doc.obj.items()}
        return g, m, data, ids, None
    except model.Refused as e:
        return g, m, None, None, e
    finally:
        if m:
            m.finish()
        if os.path.exists(path):
            os.unlink(path)


def run_case(state, seed, i):
    gens = []
    try:
        return compare(state, seed, i, gens)
    finally:
        for g in gens:
            g.cleanup()


def compare(state, seed, i, gens):
    prof = PROFILES[i % len(PROFILES)]
    g1, _, d1, ids1, e1 = one(state, seed, i, dict(prof, mutate=0, fresh=True), False, gens)
    g2, m, d2, ids2, e2 = one(state, seed, i, dict(prof, mutate=0.3), True, gens)
    issues, stats = [], {'documents': 2, 'api_calls': g2.A.ncalls, 'meddling_calls': sum(m.kinds.values()), 'reused_contexts': g2.reused}
    if e1 is not None:
        issues.append({'key': 'refused.' + e1.fn, 'msg': 'a valid call was refused: %s' % e1})
    elif e2 is not None:
        issues.append({'key': 'meddled.refused.' + e2.fn, 'msg': 'a valid call was refused after unrelated changes: %s' % e2})
    else:
        if ids1 != ids2:
            issues.append({'key': 'ids', 'msg': 'ids differ: %.800r / %.800r' % (ids1, ids2)})
        P2 = pdf.Pdf(d2)
        dd = samefile.diff(pdf.Pdf(d1), P2)
        if dd:
            issues.append({'key': 'file', 'msg': 'reuse and changes after use altered the file: %s' % '; '.join(dd[:4])})
        v = verify.V(P2, g2.doc)
        try:
            v.run()
        except Exception as e:
            v.bad('*', 'unreadable', 'the written file can not be interpreted: %r' % e)
        issues += v.of(PROP)
        stats.update({k: n for k, n in v.stats.items() if k in ('v_page', 'v_form', 'v_trgroup', 'v_pattern', 'v_annot', 'v_gstate', 'ops')})
    return {'issues': issues, 'stats': stats, 'evals': sum(m.kinds.values()), 'distinct': sorted('%s:%s' % (f, 'refused' if r else 'ok') for f, r in m.kinds),
            'sample': {'calls': g2.A.ncalls, 'meddled': [f for f, _ in list(m.kinds)[:10]], 'reused': g2.reused}}


PROP, LEVEL, CONFIG, CASE_LIMIT = 'P07', 'exploration', 'plain', 40
RULE = ('one evaluation is one change made to an object of the caller after it was added or used; each program runs with and without them (and with reused '
        'instead of fresh contexts) and the two files are compared object by object; distinct are the (function, outcome) pairs of those changes')
ASSUMPTIONS = ['the PDF reader in lib/pdf.py interprets data as the specification says']
MIN_EVALS, MIN_DISTINCT, MIN_STATS = 5000, 80, {'reused_contexts': 100}


def setup(seed, tier):
    return doccheck.State()


def num_cases(tier):
    return 6000 if tier == 'thorough' else 900
