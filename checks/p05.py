"""P05: invalid calls are refused and leave no trace.  Every program runs twice, once with refused calls injected."""
import os, random
import capi, doccheck, gen, invalid, model, pdf, samefile, verify

PROFILES = [
    dict(),
    dict(pages=(1, 3), steps=(40, 140), ops=dict(text=14, rtext=6), res=dict(font=6)),
    dict(steps=(20, 80), res=dict(shading=8, fn=8, sep=5, icc=4, lab=4, image=8), ops=dict(color=14, sh=5)),
    dict(tagged=1, steps=(30, 100), res=dict(struct=12, role=3, annot=8, field=4, embed=4, outline=5, ocg=5, label=4, stream3d=2),
         ops=dict(mc=8, annot=8, tag=8, nav=4, trans=4, viewport=3, ocg=5)),
    dict(pages=(1, 3), steps=(10, 60), new=dict(page=3, form=4, tiling=4, trgroup=4, res=4), ops=dict(q=14, mc=12, group=4, matrix=4)),
]


def one(state, prop, seed, i, prof, inject, learn=None, rate=0.25):
    rng = random.Random('%s/%d/%d' % (prop, seed, i))
    path = os.path.join(state.dir, 'inv.pdf')
    A = model.Api(state.lib, rng)
    g = gen.Gen(A, rng, path, **prof)
    inj = None
    if inject:
        inj = invalid.Injector(A, random.Random('inv/%d/%d' % (seed, i)), rate, learn)
    try:
        g.run()
        if inj and not inj.stop and g.doc.h:
            inj.refuse('second write', 'generator_write', g.doc.h)
        data = open(path, 'rb').read()
        ids = {k: [o.id for o in v] for k, v in g.doc.obj.items()}
        return g, inj, data, ids, None
    except model.Refused as e:
        return g, inj, None, None, e
    finally:
        if inj:
            inj.finish()
        g.cleanup()
        if os.path.exists(path):
            os.unlink(path)


def run_case(state, seed, i, learn=None):
    prof = dict(PROFILES[i % len(PROFILES)], mutate=0.1)
    r = random.Random('p05rate/%d/%d' % (seed, i))
    g1, _, d1, ids1, e1 = one(state, PROP, seed, i, prof, False)
    rate = r.choice([0.05, 0.3, 0.8])
    g2, inj, d2, ids2, e2 = one(state, PROP, seed, i, prof, True, learn, rate)
    issues = list(inj.issues)
    if e1 is not None:
        issues.append({'key': 'refused.' + e1.fn, 'msg': 'a valid call was refused: %s' % e1})
    elif e2 is not None:
        issues.append({'key': 'trace.refused.' + e2.fn, 'msg': 'a valid call was refused after invalid ones: %s; last invalid calls %r' % (e2, inj.log[-4:])})
    elif not inj.stop:
        if ids1 != ids2:
            issues.append({'key': 'trace.ids', 'msg': 'ids differ: %.800r / %.800r' % (ids1, ids2)})
        dd = samefile.diff(pdf.Pdf(d1), pdf.Pdf(d2))
        if dd:
            kinds = sorted({(f, w.split('@')[0]) for f, w, _ in inj.log})
            issues.append({'key': 'trace.file', 'msg': 'refused calls changed the file: %s\nrefused: %r' % ('; '.join(dd[:4]), kinds)})
    st = {'refused_calls': len(inj.log), 'documents': 2, 'api_calls': g2.A.ncalls}
    return {'issues': issues, 'stats': st, 'evals': len(inj.log), 'distinct': sorted({'%s:%s:%d' % (f, w, rc) for f, w, rc in inj.log}),
            'sample': {'calls': g2.A.ncalls, 'refused': ['%s: %s -> %d' % x for x in inj.log[:8]]}}


PROP, LEVEL, CONFIG, CASE_LIMIT = 'P05', 'exploration', 'plain', 40
RULE = ('one evaluation is one call that must be refused, injected into a random program on live objects (spoilt id, enumerator, string, size, array, '
        'number, nesting, context, document); distinct are the (function, kind of error, error code) combinations; the file is compared object by object '
        'with that of the same program without the refused calls')
ASSUMPTIONS = ['the PDF reader in lib/pdf.py interprets data as the specification says']
MIN_EVALS, MIN_DISTINCT = 3000, 120


def setup(seed, tier):
    return doccheck.State()


def num_cases(tier):
    return 12000 if tier == 'thorough' else 1000
