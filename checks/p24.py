"""P24: recorded API programs are replayed in several threads at once, under ThreadSanitizer and at full speed; results and files are
compared with the program running alone."""
import os, random, re, shutil, subprocess
import build, doccheck, gen, invalid, locales, model, record
from capi import Header

PROP, LEVEL, CONFIG, CASE_LIMIT = 'P24', 'exploration', 'plain', 240
RULE = ('one evaluation is one document built by a thread while other threads built theirs, whose return codes, results and file were compared with the program alone '
        '(half of them under ThreadSanitizer); distinct are interleavings of the calls of the threads')
ASSUMPTIONS = ['ThreadSanitizer sees the library, not the third-party libraries it calls']
MIN_EVALS, MIN_DISTINCT = 300, 20
MIN_STATS = {'overlapped_calls': 1000, 'tsan_documents': 100}
PROFILES = [
    dict(steps=(20, 80)),
    dict(steps=(20, 80), res=dict(font=8, image=8, icc=4), use_all=1.0, ops=dict(text=12, rtext=8, image=6)),
    dict(steps=(10, 50), pdfx=0.5, pdfa=0.5, img_rgb=False, metadata=0.3),
    dict(tagged=1, steps=(20, 70), res=dict(struct=8, annot=8, field=4, embed=5, outline=6, ocg=5, label=4), collection=0.4),
    dict(steps=(20, 80), res=dict(shading=8, shpat=5, fn=6, sep=5, lab=3, gstate=8), use_all=1.0, mutate=0.2),
]


def tool(config):
    h = Header(os.path.join(build.REPO, 'include', 'capypdf.h.in'))
    so = build.build(config)
    syms = subprocess.run(['nm', '-D', '--defined-only', so], capture_output=True, text=True).stdout.split()
    inc = os.path.join(build.BUILD, 'include')
    missing = {f for f in h.funcs if f not in syms}
    record.write_dispatch(h, missing, os.path.join(inc, 'replay_dispatch.inc'))
    here = os.path.dirname(os.path.abspath(build.__file__))
    return build.build_prog(config, [os.path.join(here, 'replay.cpp')], 'replay', extra=['-pthread'], defines=['-DDISPATCH=0x' + build._hash_files([os.path.join(inc, 'replay_dispatch.inc')])[:8]])


def prepare(tier):
    os.environ['CAPY_REPLAY'] = tool('plain')
    os.environ['CAPY_REPLAY_TSAN'] = tool('tsan')


def num_cases(tier):
    return 40 if tier == 'quick' else 400


def setup(seed, tier):
    return doccheck.State()


def make(state, rng, i, j, path, aux):
    A = model.Api(state.lib, rng)
    A.dll = rec = record.Recorder(state.lib)
    g = gen.Gen(A, rng, os.path.join(state.dir, 'x.pdf'), **dict(PROFILES[(i + j) % len(PROFILES)], aux=aux))
    x = None
    if rng.random() < 0.3:
        x = invalid.Injector(A, rng, 0.1)
    g.run()
    if x:
        x.finish()
    g.cleanup()
    rec.save(path)
    return rec.ncalls


RACE = re.compile(r'WARNING: ThreadSanitizer: ([^\n(]+)')


def run_case(state, seed, i):
    rng = random.Random('P24/%d/%d' % (seed, i))
    issues, stats, distinct = [], {}, []
    out, aux = os.path.join(state.dir, 'out'), os.path.join(state.dir, 'aux')
    for d in (out, aux):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    progs = []
    for j in range(rng.randint(3, 5)):
        p = os.path.join(state.dir, 'prog%d' % j)
        stats['recorded_calls'] = stats.get('recorded_calls', 0) + make(state, rng, i, j, p, os.path.join(aux, str(j)))
        progs.append(p)
    evals = 0
    for conf in ('tsan', 'plain'):
        env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD',)}
        opts = ['watch'] if conf == 'plain' else []
        if rng.random() < 0.5:
            opts.append('cold')
        lc = locales.ensure() if rng.random() < 0.4 else None
        if lc:
            env['LOCPATH'], env['LC_ALL'] = lc, locales.NAME
            opts.append('locale')
        env['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1'
        exe = os.environ['CAPY_REPLAY' if conf == 'plain' else 'CAPY_REPLAY_TSAN']
        T = rng.randint(2, 8)
        cmd = [exe, out, str(T), str((2 if conf == 'tsan' else 5) if state_quick() else 8), str(rng.randint(1, 10 ** 6)), ','.join(opts) or '-'] + progs
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=env, timeout=220)
        if r.returncode == 7:
            continue
        for t in re.split(r'(?===================\nWARNING)', r.stderr):
            m = RACE.search(t)
            if not m:
                continue
            fr = re.findall(r'#\d+ (.+?) (?:<null>|/\S*?/(?:src|include)/(\S+?):\d+)', t)
            ours = [re.sub(r'\(.*', '', f).split('::')[-1] for f, s in fr if s]
            if not re.search(r'libcapypdf', t):
                continue
            issues.append({'key': 'tsan-%s@%s' % (m.group(1).strip().replace(' ', '-'), '/'.join(ours[:1])), 'msg': t[:3000]})
        for l in r.stdout.splitlines():
            if l.startswith('PROBLEM '):
                issues.append({'key': 'interference.%s' % l.split()[1].rstrip(':'), 'msg': '%s (%d threads, %s): %s' % (conf, T, ','.join(opts), l)})
        m = re.search(r'DONE calls=(\d+) overlapped=(\d+) files=(\d+) alone=(\d+)(.*)', r.stdout)
        if not m:
            issues.append({'key': 'died.' + conf, 'msg': 'the threads did not finish (status %d): %s' % (r.returncode, r.stderr[-2500:])})
            continue
        evals += int(m[3])
        stats[conf + '_documents'] = stats.get(conf + '_documents', 0) + int(m[3])
        stats['calls_in_threads'] = stats.get('calls_in_threads', 0) + int(m[1])
        stats['overlapped_calls'] = stats.get('overlapped_calls', 0) + int(m[2])
        distinct += m[5].split()
    shutil.rmtree(out, ignore_errors=True)
    return {'issues': issues, 'stats': stats, 'evals': evals, 'distinct': distinct, 'sample': {'programs': len(progs), 'seen': stats}}


def state_quick():
    return os.environ.get('VERIF_TIER', 'quick') == 'quick'
