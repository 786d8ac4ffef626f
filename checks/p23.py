"""P23: the same calls give the same file.  Every program runs in this process (which has built other documents before) and in
fresh processes with another environment, locale, time zone, memory layout, compiler optimisation, directory and file name."""
import json, os, random, re, shutil, subprocess, sys, tempfile
import build, capi, doccheck, gen, locales, model, pdf, samefile

HERE = os.path.dirname(os.path.abspath(gen.__file__))
PROFILES = [
    dict(),
    dict(pages=(1, 4), steps=(40, 140), ops=dict(text=12, rtext=6, gs=8, image=6, color=10, sh=5), use_all=1.0),
    dict(steps=(20, 80), res=dict(shading=8, shpat=5, fn=6, sep=5, icc=3, lab=3, image=8, gstate=8), use_all=1.0),
    dict(tagged=1, steps=(30, 100), res=dict(struct=10, role=4, annot=10, field=5, embed=5, outline=8, ocg=8, label=5, stream3d=2), collection=0.8,
         ops=dict(mc=8, annot=8, tag=8, nav=4, trans=4, viewport=3, ocg=8), use_all=0.8),
    dict(pdfa=0.5, pdfx=0.5, metadata=0.3, img_rgb=False, steps=(10, 60), titles=1.0),
]


def program(lib, seed, i, path, interleave=None):
    rng = random.Random('%s/%d/%d' % (PROP, seed, i))
    A = model.Api(lib, rng)
    g = gen.Gen(A, rng, path, **dict(PROFILES[i % len(PROFILES)], mutate=0.1, aux=os.path.join(os.environ['CAPY_SCRATCH'], 'aux')))
    other = None
    if interleave:
        r2 = random.Random('other/%s/%d' % (interleave, i))
        A2 = model.Api(lib, r2)
        other = gen.Gen(A2, r2, path + '.other', steps=(10 ** 6, 10 ** 6))
        other.start()
        other.n_pages_target = 3
        n = [0]

        def before(fn, args):
            if r2.random() < 0.1:
                other.step()
                n[0] += 1
        A.before = before
    try:
        g.run()
        return A.ncalls, (n[0] if other else 0)
    finally:
        A.before = None
        g.cleanup()
        if other:
            other.cleanup()


def masked(data):
    """without the random file identifier"""
    return re.sub(rb'/ID\s*\[[^\]]*\]', lambda m: b'/ID[' + b'-' * (len(m.group(0)) - 5) + b']', data)


def variants(rng, lc, scratch):
    base = {k: v for k, v in os.environ.items() if k in ('PATH', 'CAPY_LIB', 'CAPY_LIB2', 'CAPY_SCRATCH', 'CAPY_REPO', 'CAPY_BUILD', 'PYTHONHASHSEED', 'SOURCE_DATE_EPOCH',
                                                         'VERIF_SEED', 'VERIF_TIER')}
    out = []
    for _ in range(2):
        env, opt = dict(base), {}
        if rng.random() < 0.6:
            env['TZ'] = rng.choice(['America/New_York', 'Asia/Kolkata', 'XYZ-13:45', 'UTC+11', ''])
        if rng.random() < 0.7:
            env['MALLOC_PERTURB_'] = str(rng.randint(1, 255))
        if rng.random() < 0.3:
            env['MALLOC_ARENA_MAX'] = '1'
            env['MALLOC_TOP_PAD_'] = str(rng.randint(0, 1 << 20))
        if rng.random() < 0.5:
            env['CAPY_LIB'] = base['CAPY_LIB2']
        if lc and rng.random() < 0.6:
            env['LOCPATH'], opt['locale'] = lc, 1
            env['LC_ALL'] = env['LANG'] = locales.NAME
        elif rng.random() < 0.5:
            env['LC_ALL'] = rng.choice(['C', 'POSIX', 'C.UTF-8', 'tr_TR.UTF-8'])
        if rng.random() < 0.5:
            env['XPAD'] = 'x' * rng.randint(1, 9000)
            opt['waste'] = rng.randint(1, 300)
        if rng.random() < 0.4:
            opt['history'] = rng.randint(1, 2)
        if rng.random() < 0.4:
            opt['interleave'] = rng.randint(1, 10 ** 6)
        env['HOME'] = rng.choice(['/nonexistent', '/'])
        d = os.path.join(scratch, rng.choice(['a', 'some directory', 'ö/ü', 'x' * 90 + '/y']))
        name = rng.choice(['o.pdf', 'ünïcode name.pdf', 'no-extension', '(paren).pdf', 'z' * 200])
        rel = rng.random() < 0.4
        out.append((env, opt, d, name, rel))
    return out


def differ(a, b):
    """-> description of the first difference or None"""
    x, y = masked(a), masked(b)
    if x == y:
        return None
    dd = samefile.diff(pdf.Pdf(a), pdf.Pdf(b))
    if dd:
        return '; '.join(dd[:3])
    i = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
    return 'byte %d of %d/%d: %r / %r' % (i, len(x), len(y), x[max(0, i - 40):i + 40], y[max(0, i - 40):i + 40])


def run_case(state, seed, i):
    rng = random.Random('var/%d/%d' % (seed, i))
    scratch = tempfile.mkdtemp(dir=state.dir)
    issues, stats, distinct = [], {'documents': 1}, set()
    try:
        p0 = os.path.join(scratch, 'base.pdf')
        try:
            calls, _ = program(state.lib, seed, i, p0)
        except model.Refused as e:
            return {'issues': [{'key': 'refused.' + e.fn, 'msg': 'a valid call was refused: %s' % e}], 'evals': 0}
        a = open(p0, 'rb').read()
        stats['api_calls'] = calls
        # again here and now
        p1 = os.path.join(scratch, 'again.pdf')
        try:
            program(state.lib, seed, i, p1, rng.randint(1, 10 ** 6))
            d = differ(a, open(p1, 'rb').read())
        except model.Refused as e:
            d = 'a call was refused this time: %s' % e
        if d:
            issues.append({'key': 'again', 'msg': 'the same calls in the same process, with another document in between: %s' % d})
        stats['repeated'] = 1
        # without compression
        p2 = os.path.join(scratch, 'debug.pdf')
        os.environ['CAPY_DEBUG_PDF'] = '1'
        try:
            program(state.lib, seed, i, p2)
        except model.Refused as e:
            issues.append({'key': 'debug', 'msg': 'a call was refused without compression: %s' % e})
        finally:
            del os.environ['CAPY_DEBUG_PDF']
        if os.path.exists(p2):
            P1, P2 = pdf.Pdf(a), pdf.Pdf(open(p2, 'rb').read())
            dd = samefile.diff(P1, P2, layout=False)
            if dd:
                issues.append({'key': 'debug', 'msg': 'without compression: %s' % '; '.join(dd[:3])})
            stats['uncompressed'] = 1
            st = [o for o in P2.objects.values() if isinstance(o, pdf.Stream)]
            stats['plain_streams'] = sum('Filter' not in o.d for o in st)
        for env, opt, d, name, rel in variants(rng, state.locale, scratch):
            os.makedirs(d, exist_ok=True)
            path = name if rel else os.path.join(d, name)
            r = subprocess.run([sys.executable, os.path.join(HERE, 'p23child.py'), str(seed), str(i), path, json.dumps(opt)], env=env, cwd=d,
                               capture_output=True)
            what = '%s %s %s' % ({k: v for k, v in env.items() if k in ('TZ', 'LC_ALL', 'MALLOC_PERTURB_') or (k == 'CAPY_LIB' and v != os.environ['CAPY_LIB'])}, opt, name[:20])
            full = os.path.join(d, name)
            if r.returncode != 0 or not os.path.exists(full):
                if r.returncode == 7:
                    continue        # no such locale here
                issues.append({'key': 'variant.failed', 'msg': 'in %s: exit %d %s' % (what, r.returncode, r.stderr[-800:].decode('utf-8', 'replace'))})
                continue
            diff = differ(a, open(full, 'rb').read())
            if diff:
                issues.append({'key': 'variant', 'msg': 'in %s: %s' % (what, diff)})
            stats['variants'] = stats.get('variants', 0) + 1
            for k in opt:
                stats['with_' + k] = stats.get('with_' + k, 0) + 1
            distinct.add(json.dumps([sorted(opt), env.get('TZ'), env.get('LC_ALL'), 'MALLOC_PERTURB_' in env, env['CAPY_LIB'] != os.environ['CAPY_LIB'], name[:8], i % len(PROFILES)]))
            shutil.rmtree(d, ignore_errors=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return {'issues': issues, 'stats': stats, 'evals': 2 + stats.get('variants', 0), 'distinct': sorted(distinct),
            'sample': {'calls': stats['api_calls'], 'bytes': len(a), 'variants': sorted(distinct)}}


PROP, LEVEL, CONFIG, CASE_LIMIT = 'P23', 'exploration', 'plain', 60
RULE = ('one evaluation is one repetition of a random program under another condition (process history, interleaved document, compression off, environment, locale '
        'with decimal commas, time zone, heap fill, optimisation level with patterned stack, directory, name), compared byte by byte except for the file identifier '
        '(object by object without compression); distinct are the combinations of conditions')
ASSUMPTIONS = ['the PDF reader in lib/pdf.py interprets data as the specification says']
MIN_EVALS, MIN_DISTINCT, MIN_STATS = 400, 60, {'uncompressed': 100, 'variants': 150, 'plain_streams': 500}


def prepare(tier):
    os.environ['CAPY_LIB2'] = build.build('pattern')
    locales.helper()
    locales.ensure()


def setup(seed, tier):
    s = doccheck.State()
    s.locale = locales.ensure()
    return s


def num_cases(tier):
    return 4000 if tier == 'thorough' else 300
