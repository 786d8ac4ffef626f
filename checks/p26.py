"""P26: the same program through the C API, the C++ wrapper and the Python module: results, refusals and files are compared; the wrappers
run under AddressSanitizer and LeakSanitizer."""
import gc, importlib.util, math, os, random, re, shutil, subprocess, sys
import build, doccheck, gen, invalid, model, pdf, record, samefile, wrapcpp, wrappy
from capi import Header

PROP, LEVEL, CONFIG, CASE_LIMIT = 'P26', 'exploration', 'asan', 120
RULE = ('one evaluation is one recorded C API call performed through a C++ or Python wrapper whose result or refusal was compared with the C call; after each program the '
        'three files are compared object by object; distinct are (interface, function) pairs that went through a wrapper')
ASSUMPTIONS = ['calls the wrappers can not express are made directly, through the C API']
MIN_EVALS, MIN_DISTINCT = 8000, 280
MIN_STATS = {'files_compared': 60, 'cpp_thrown': 100, 'py_thrown': 100, 'leak_checks': 60}
PROFILES = [
    dict(steps=(20, 70)),
    dict(steps=(20, 70), res=dict(font=8, image=8, icc=4), use_all=1.0, ops=dict(text=14, rtext=8, image=6)),
    dict(steps=(10, 40), pdfx=0.5, pdfa=0.5, img_rgb=False, metadata=0.3),
    dict(tagged=1, steps=(20, 60), res=dict(struct=8, role=4, annot=10, field=6, embed=5, outline=6, ocg=5, label=4, stream3d=3), collection=0.6),
    dict(steps=(20, 60), res=dict(shading=8, shpat=5, fn=6, sep=5, lab=3, gstate=8, softmask=4), use_all=1.0, mutate=0.2),
    dict(steps=(20, 60), nums='hard', strs='hard', names='hard', nasty_text=0.5),
    dict(pages=(2, 4), steps=(20, 80), ops=dict(trans=8, nav=6, viewport=4, mc=8, q=10, matrix=12)),
]


class Recorder(record.Recorder):
    """also makes the transformations the wrappers have shorthands for"""
    rng = None

    def _call(self, fn, f, args):
        if fn == 'capy_dc_cmd_cm' and self.rng.random() < 0.6:
            r, k = self.rng, self.rng.randrange(3)
            a = [float(x) for x in args[1:]]
            if k == 0:
                a = [1.0, 0.0, 0.0, 1.0, a[4], a[5]]
            elif k == 1:
                a = [a[0], 0.0, 0.0, a[3], 0.0, 0.0]
            else:
                w = r.randint(-45, 45) / 16
                a = [math.cos(w), math.sin(w), -math.sin(w), math.cos(w), 0.0, 0.0]
            args = (args[0],) + tuple(a)
        return super()._call(fn, f, args)


def prepare(tier):
    h = Header(os.path.join(build.REPO, 'include', 'capypdf.h.in'))
    so = build.build('asan')
    syms = subprocess.run(['nm', '-D', '--defined-only', so], capture_output=True, text=True).stdout.split()
    inc = os.path.join(build.BUILD, 'include')
    gen_ = os.path.join(inc, 'wrap_dispatch.inc')
    wrapcpp.write(h, {f for f in h.funcs if f not in syms}, gen_)
    here = os.path.dirname(os.path.abspath(build.__file__))
    try:
        os.environ['CAPY_WRAP'] = build.build_prog('asan', [os.path.join(here, 'wrap.cpp')], 'wrap', defines=['-DDISPATCH=0x' + build._hash_files([gen_])[:8]])
    except SystemExit:
        # a wrapper that does not compile with arguments it accepts by its signature
        os.environ['CAPY_WRAP'] = ''
    d = os.path.join(build.BUILD, 'pylib')
    os.makedirs(d, exist_ok=True)
    l = os.path.join(d, 'libcapypdf.so')
    if os.path.realpath(l) != os.path.realpath(so):
        if os.path.lexists(l):
            os.unlink(l)
        os.symlink(so, l)
    os.environ['CAPYPDF_SO_OVERRIDE'] = d


def setup(seed, tier):
    from leaks import Leaks, leak_key
    s = doccheck.State()
    s.leaks, s.leak_key = Leaks(), leak_key
    s.leaks.check()
    spec = importlib.util.spec_from_file_location('capypdf', os.path.join(build.REPO, 'python', 'capypdf.py'))
    s.pym = importlib.util.module_from_spec(spec)
    sys.dont_write_bytecode = True
    spec.loader.exec_module(s.pym)
    s.unraisable = []
    sys.unraisablehook = lambda u: s.unraisable.append('%r in %r' % (u.exc_value, u.object))
    return s


def num_cases(tier):
    return 3000 if tier == 'thorough' else 280


def enums(state, issues):
    _, bad = wrappy.enum_names(state.lib.h, state.pym)
    for b in bad:
        issues.append({'key': 'py.enum.' + b.split(' ')[0], 'msg': b})
    for f in state.lib.missing:
        issues.append({'key': 'undefined.' + f, 'msg': '%s is declared (and called by a wrapper) but not part of the library' % f})


def run_case(state, seed, i):
    rng = random.Random('P26/%d/%d' % (seed, i))
    issues, stats, distinct = [], {}, []
    if i == 0:
        enums(state, issues)
    path, trace, aux = (os.path.join(state.dir, x) for x in ('c.pdf', 'prog', 'aux'))
    shutil.rmtree(aux, ignore_errors=True)
    os.makedirs(aux)
    A = model.Api(state.lib, rng)
    A.dll = rec = Recorder(state.lib)
    rec.rng = random.Random('cm%d/%d' % (seed, i))
    g = gen.Gen(A, rng, path, **dict(PROFILES[i % len(PROFILES)], aux=aux))
    x = invalid.Injector(A, rng, rng.choice([0.05, 0.2])) if rng.random() < 0.6 else None
    try:
        g.run()
    except model.Refused as e:
        return {'issues': [], 'stats': {'refused': 1}, 'evals': 0}       # (judged by P05)
    if x:
        x.finish()
    g.cleanup()
    A.keep = []
    rec.save(trace)
    ref = open(path, 'rb').read() if os.path.exists(path) else None
    P0 = pdf.Pdf(ref) if ref else None
    if rec.ncalls:
        stats['recorded_calls'] = rec.ncalls
    del g, x, A, rec

    def compare(who, f):
        d = open(f, 'rb').read() if os.path.exists(f) else None
        if (d is None) != (ref is None):
            issues.append({'key': who + '.nofile', 'msg': 'the %s program wrote %s file' % (who, 'no' if d is None else 'a')})
        elif d is not None:
            dd = samefile.diff(P0, pdf.Pdf(d), negzero=True)
            stats['files_compared'] = stats.get('files_compared', 0) + 1
            if dd:
                issues.append({'key': who + '.file', 'msg': 'the C and the %s program wrote different files: %s' % (who, '; '.join(dd[:4]))})
            os.unlink(f)
    # C++
    if os.environ['CAPY_WRAP']:
        out = os.path.join(state.dir, 'cpp.pdf')
        env = {k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'}
        env['LSAN_OPTIONS'] = 'exitcode=0:print_suppressions=0'
        r = subprocess.run([os.environ['CAPY_WRAP'], trace, out, str(rng.randint(1, 10 ** 9))], capture_output=True, text=True, errors='replace', env=env, timeout=100)
        m = re.search(r'DONE calls=(\d+) wrapped=(\d+) thrown=(\d+)(.*)', r.stdout)
        prob = False
        for l in r.stdout.splitlines():
            if l.startswith('PROBLEM '):
                prob = True
                w = l.split()
                issues.append({'key': 'cpp.%s.%s' % (w[1], w[2]), 'msg': l})
        if not m or re.search(r'ERROR: AddressSanitizer|runtime error', r.stderr):
            if not re.search(r'AddressSanitizer: (out-of-memory|allocation-size|requested)', r.stderr):
                from run import crash_key
                issues.append({'key': 'cpp.' + crash_key('exit status %d\n%s' % (r.returncode, r.stderr)), 'msg': 'the C++ program died: ' + r.stderr[-3000:]})
        else:
            stats['cpp_calls'], stats['cpp_wrapped'], stats['cpp_thrown'] = int(m[1]), int(m[2]), int(m[3])
            distinct += ['cpp:' + e.split(':')[0] for e in m[4].split()]
            if 'detected memory leaks' in r.stderr:
                if not prob:
                    issues.append({'key': 'cpp.' + state.leak_key(r.stderr), 'msg': 'the C++ program leaks: ' + r.stderr[-3000:]})
            if not prob:
                compare('cpp', out)
    else:
        issues.append({'key': 'cpp.compile', 'msg': 'a C++ wrapper template does not compile for arguments its signature accepts (see the build output above)'})
    # Python
    out = os.path.join(state.dir, 'py.pdf')
    del state.unraisable[:]
    pl = wrappy.Player(state.lib.h, state.pym, rng)
    probs, n = pl.run(trace, out)
    for k, msg in probs:
        issues.append({'key': 'py.' + k.replace(' ', '.'), 'msg': msg})
    stats['py_wrapped'], stats['py_thrown'] = sum(pl.used.values()), pl.thrown
    distinct += ['py:' + f for f in pl.used]
    if not probs:
        for u in state.unraisable:
            if 'CapyPDFException' in u:
                issues.append({'key': 'py.del', 'msg': 'destroying an object raised: ' + u})
        compare('py', out)
    elif os.path.exists(out):
        os.unlink(out)
    del pl
    gc.collect()
    if os.path.exists(path):
        os.unlink(path)
    t = state.leaks.check()
    if t is not None and not probs:
        stats['leak_checks'] = 1
        if t:
            issues.append({'key': 'py.' + state.leak_key(t), 'msg': 'memory is left after the Python program: ' + t[:3000]})
    return {'issues': issues, 'stats': stats, 'evals': stats.get('cpp_wrapped', 0) + stats['py_wrapped'], 'distinct': distinct,
            'sample': {'calls': n, 'seen': stats}}
