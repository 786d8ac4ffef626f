"""P06: AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer watch arbitrary histories of API calls."""
import os, random
import chaos, doccheck, gen, invalid, meddle, model
from leaks import Leaks, leak_key

PROP, LEVEL, CONFIG, CASE_LIMIT = 'P06', 'exploration', 'asan', 60
RULE = ('one evaluation is one API call observed under AddressSanitizer and UndefinedBehaviorSanitizer; after each history all objects are destroyed in a random order '
        'and LeakSanitizer looks for what is left; distinct are (function, outcome) pairs')
ASSUMPTIONS = ['sanitizers see what the compiler instruments: the library, not the third-party libraries it calls (their heap calls are intercepted)']
MIN_EVALS, MIN_DISTINCT = 30000, 400
LEAKS = True
# allocations too big for the sanitizer's allocator; without it they throw and are reported as errors
INCONCLUSIVE = r'asan-(out|allocation-size|requested)'
MIN_STATS = {'leak_checks': 90, 'documents_written': 30}

def setup(seed, tier):
    s = doccheck.State()
    s.leaks = Leaks()
    s.leaks.check()
    s.seen = set()
    return s


def run_case(state, seed, i):
    rng = random.Random('P06/%d/%d' % (seed, i))
    kind = i % 4
    stats, issues = {}, []
    path = os.path.join(state.dir, 'doc.pdf')
    if kind < 2:
        c = chaos.Chaos(state.lib, rng, state.dir, polite=rng.choice([0.3, 0.7, 0.95]))
        c.run(rng.randint(100, 500))
        c.finish()
        n, distinct = c.n, ['%s:%s' % (f, o) for f in c.calls for o in ((['ok'] if c.ok[f] else []) + (['refused'] if c.ok[f] < c.calls[f] else []))]
        stats['chaos_calls'] = n
        stats['documents_written'] = c.ok['capy_generator_write']
        what = 'chaos'
        del c
    else:
        A = model.Api(state.lib, rng)
        A.fns = set()
        prof = doccheck_profile(rng)
        g = gen.Gen(A, rng, path, **prof)
        x = invalid.Injector(A, random.Random('i%d/%d' % (seed, i)), rng.choice([0.05, 0.3, 0.8])) if kind == 2 else \
            meddle.Meddler(A, random.Random('m%d/%d' % (seed, i)), rng.choice([0.1, 0.4]))
        try:
            if rng.random() < 0.2:
                g.run(write=False)
                if rng.random() < 0.5:
                    A.raw('generator_write', g.doc.h)
            else:
                g.run()
                stats['documents_written'] = 1
        except model.Refused:
            stats['refused'] = 1           # (judged by P05)
        x.finish()
        g.cleanup()
        n = A.ncalls + (len(x.log) if kind == 2 else sum(x.kinds.values()))
        stats['program_calls'] = n
        distinct = ['%s:ok' % f for f in A.fns]
        if kind == 2:
            distinct += ['%s:%s' % (f, w) for f, w, _ in x.log]
        what = 'program'
        A.keep = []
        del g, x, A
    for f in os.listdir(state.dir):
        p = os.path.join(state.dir, f)
        if os.path.isfile(p) and not f.startswith('stderr'):
            os.unlink(p)
    t = state.leaks.check() if LEAKS else None
    if t is not None:
        stats['leak_checks'] = 1
        if t:
            issues.append({'key': leak_key(t), 'msg': 'memory is left after everything was destroyed (%s):\n%s' % (what, t[:3000])})
    return {'issues': issues, 'stats': stats, 'evals': n, 'distinct': distinct, 'sample': {'history': what, 'calls': n, 'functions': sorted(distinct)[:12]}}


def doccheck_profile(r):
    return r.choice([
        dict(steps=(20, 80)),
        dict(steps=(20, 60), reuse_ctx=0.8, mutate=0.5, use_all=1.0),
        dict(steps=(20, 60), nums='hard', strs='hard', names='hard', nasty_text=0.8),
        dict(steps=(20, 60), pdfx=0.5, pdfa=0.5, img_rgb=False, metadata=0.4),
        dict(tagged=1, steps=(20, 60), res=dict(struct=12, role=3, annot=8, field=4, embed=4, outline=5, ocg=4, label=4, stream3d=2), collection=0.5)])


def num_cases(tier):
    return 4000 if tier == 'thorough' else 600
