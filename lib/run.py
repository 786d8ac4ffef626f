#!/usr/bin/env python3
"""Check runner: spreads the cases of one check over worker processes, contains crashes and hangs,
filters known findings, writes evidence and prints VIOLATION lines."""
import collections, hashlib, importlib.util, json, os, re, select, signal, subprocess, sys, tempfile, time, threading, queue, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
for _f in (sys.stdout, sys.stderr):
    _f.reconfigure(encoding='ascii', errors='backslashreplace')
import build as B


def load_check(name):
    path = os.path.join(VERIF, 'checks', name + '.py')
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop]


class Worker:
    def __init__(self, name, seed, tier, config, lib, scratch, wid):
        self.errf = os.path.join(scratch, 'stderr-%d' % wid)
        self.args = (name, seed, tier, config, lib, scratch, wid)
        self.start()

    def start(self):
        name, seed, tier, config, lib, scratch, wid = self.args
        env = dict(os.environ)
        env.update({'VERIF_SEED': str(seed), 'VERIF_TIER': tier, 'CAPY_LIB': lib, 'CAPY_SCRATCH': os.path.join(scratch, 'w%d' % wid),
                    'PYTHONHASHSEED': '0', 'SOURCE_DATE_EPOCH': '1700000000', 'TZ': 'UTC', 'LC_ALL': 'C.UTF-8'})
        env.pop('CAPY_DEBUG_PDF', None)
        env.pop('CAPY_SCRAPE_PROTECT', None)
        if config == 'asan':
            env.update(B.asan_env(leak=True))
        os.makedirs(env['CAPY_SCRATCH'], exist_ok=True)
        self.err = open(self.errf, 'wb')
        self.p = subprocess.Popen([sys.executable, '-u', os.path.join(HERE, 'worker.py'), name], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=env['CAPY_SCRATCH'], start_new_session=True)
        self.buf = b''

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.err.close()

    def run(self, idx, limit):
        """-> ('ok', result) | ('crash', text) | ('hang', text)"""
        try:
            self.p.stdin.write(b'%d\n' % idx)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        end = time.time() + limit
        fd = self.p.stdout.fileno()
        while True:
            nl = self.buf.find(b'\n')
            if nl >= 0:
                line, self.buf = self.buf[:nl], self.buf[nl + 1:]
                return 'ok', json.loads(line)
            left = end - time.time()
            if left <= 0:
                self.kill()
                return 'hang', self.tail()
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if r:
                d = os.read(fd, 1 << 16)
                if not d:
                    self.p.wait()
                    self.err.close()
                    return 'crash', 'exit status %s\n%s' % (self.p.returncode, self.tail())
                self.buf += d

    def tail(self):
        try:
            d = open(self.errf, 'rb').read()[-20000:]
            return d.decode('utf-8', 'replace')
        except OSError:
            return ''

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=20)
        except Exception:
            self.kill()


def crash_key(text):
    """A stable name for a crash: the kind plus the innermost library function."""
    kind = 'crash'
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', text)
    if m:
        kind = 'asan-' + m.group(1)
    m = re.search(r'runtime error: ([^\n]+)', text)
    if m:
        kind = 'ubsan-' + re.sub(r'[^a-z]+', '-', re.sub(r"[-+]?\b(0x)?[0-9][0-9a-f.e+]*\b|nan|inf|'[^']*'", '', m.group(1)))[:50]
    m = re.search(r'Assertion `([^\n]*?)\' failed', text)
    if m:
        kind = 'assert-' + m.group(1)[:60].replace(' ', '')
    m = re.search(r'Assertion \'([^\n]*?)\' failed', text)
    if m:
        kind = 'glibcxx-' + m.group(1)[:60].replace(' ', '')
    fn = ''
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in ([^\n]+)', text):
        s = m.group(1)
        if '/src/' in s and ('capypdf' in s or 'capy_' in s):
            fn = re.sub(r'\(.*', '', s).strip().split(' ')[0]
            fn = re.sub(r'.*::', '', fn)
            break
    if not fn:
        m = re.search(r"capypdf::internal::([\w:]+)\(", text) or re.search(r'(capy_\w+)', text)
        fn = m.group(1).split('::')[-1] if m else ''
    m = re.search(r'exit status (-?\d+)', text)
    if kind == 'crash' and m:
        kind = 'crash%s' % m.group(1)
    return '%s@%s' % (kind, fn)


def execute(name, seed, tier, indices, only=None, workers=8):
    chk = load_check(name)
    config = getattr(chk, 'CONFIG', 'plain')
    lib = B.build(config) if config else ''
    if hasattr(chk, 'prepare'):
        chk.prepare(tier)
    scratch = tempfile.mkdtemp(prefix='capyv-%s-' % name)
    limit = getattr(chk, 'CASE_LIMIT', 60)
    issues, stats, samples = [], collections.Counter(), []
    distinct = set()
    evals = 0
    lock = threading.Lock()
    todo = queue.Queue()
    for i in indices:
        todo.put(i)
    crashes = [0]
    errors = []

    def loop(wid):
        nonlocal evals
        w = None
        while True:
            try:
                i = todo.get_nowait()
            except queue.Empty:
                break
            if crashes[0] > getattr(chk, 'MAX_CRASHES', 60):
                break
            if w is None:
                w = Worker(name, seed, tier, config, lib, scratch, wid)
            st, r = w.run(i, limit)
            if st == 'hang':
                w = Worker(name, seed, tier, config, lib, scratch, wid)
                st, r = w.run(i, limit * 3)      # re-run alone before believing it
                if st == 'hang':
                    with lock:
                        issues.append({'case': i, 'key': 'hang', 'msg': 'case did not finish: ' + r[-500:]})
                        crashes[0] += 5
                    w = None
                    continue
            if st == 'crash':
                k = crash_key(r)
                with lock:
                    crashes[0] += 1
                    if 'Traceback (most recent call last)' in r and 'Sanitizer' not in r and 'exit status 1' in r:
                        errors.append((i, r))
                    elif re.match(getattr(chk, 'INCONCLUSIVE', '$^'), k):
                        stats['inconclusive'] += 1
                        if os.environ.get('CAPY_SHOW'):
                            print('INCONCLUSIVE case', i, k, r[-3000:])
                    else:
                        issues.append({'case': i, 'key': k, 'msg': r[:200] + ' ... ' + r[-6000:]})
                w = None
                continue
            with lock:
                if r.get('error'):
                    errors.append((i, r['error']))
                    continue
                evals += r.get('evals', 1)
                for k, v in r.get('stats', {}).items():
                    stats[k] += v
                distinct.update(r.get('distinct', []))
                if r.get('sample') and len(samples) < 4:
                    samples.append(r['sample'])
                for it in r.get('issues', []):
                    it['case'] = i
                    issues.append(it)
        if w:
            w.close()
    ths = [threading.Thread(target=loop, args=(k,)) for k in range(min(workers, max(1, len(indices))))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if hasattr(chk, 'after') and only is None:
        r = chk.after(seed, tier)
        evals += r.get('evals', 0)
        stats.update(r.get('stats', {}))
        issues += [dict(i, case='after') for i in r.get('issues', [])]
    shutil.rmtree(scratch, ignore_errors=True)
    return chk, issues, stats, samples, distinct, evals, errors


def main():
    name = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    only = None
    if '--replay' in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        seed, tier, only = rp['seed'], rp['tier'], rp['case']
    if '--case' in sys.argv:
        only = int(sys.argv[sys.argv.index('--case') + 1])
    chk0 = load_check(name)
    n = chk0.num_cases(tier)
    if '--cases' in sys.argv:
        n = int(sys.argv[sys.argv.index('--cases') + 1])
    idx = list(range(n)) if only is None or only == 'after' else [only]
    if only == 'after':
        only = None
    chk, issues, stats, samples, distinct, evals, errors = execute(name, seed, tier, idx, only)
    prop = chk.PROP
    known = known_findings(prop)
    seen_known = {}
    viol = {}
    for it in issues:
        for k in known:
            if re.fullmatch(k['key'], it['key'], re.S) and (not k.get('msg') or re.search(k['msg'], it['msg'], re.S)):
                seen_known.setdefault(k['id'], [k, 0])[1] += 1
                break
        else:
            viol.setdefault(it['key'], []).append(it)
    for kid, (k, cnt) in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rdir = os.path.join(VERIF, 'replays')
    rc = 0
    for key, its in sorted(viol.items(), key=lambda kv: -len(kv[1]))[:12]:
        os.makedirs(rdir, exist_ok=True)
        it = its[0]
        rf = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha1((key + str(seed)).encode()).hexdigest()[:10]))
        json.dump({'check': name, 'seed': seed, 'tier': tier, 'case': it['case'], 'key': key, 'msg': it['msg'],
                   'count': len(its), 'replay_cmd': 'python3 lib/run.py %s --replay %s' % (name, rf)}, open(rf, 'w'), indent=1)
        print('  [%s] x%d case %s: %s' % (key, len(its), it['case'], it['msg'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, rf))
        rc = 1
    wall = time.time() - t0
    print('%s %s seed=%d: %d evaluations, %d distinct, %.1fs; %s' % (
        prop, tier, seed, evals, len(distinct), wall, dict(sorted(stats.items(), key=lambda kv: -kv[1])[:40])))
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': chk.RULE,
               'samples': samples[:4] or ['none'], 'observed': dict(stats)}
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': chk.LEVEL, 'coverage': cov,
                   'assumptions': getattr(chk, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(viol),
                   'known_findings_seen': sorted(seen_known)},
                  open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if errors:
        for i, e in errors[:3]:
            print('HARNESS ERROR in case %s:\n%s' % (i, e[-3000:]))
        if rc == 0 and len(errors) > 0:
            sys.exit(2)
    if rc == 0 and only is None:
        if evals < getattr(chk, 'MIN_EVALS', 1) or len(distinct) < getattr(chk, 'MIN_DISTINCT', 1):
            print('HARNESS ERROR: the run observed too little (%d evaluations, %d distinct)' % (evals, len(distinct)))
            sys.exit(2)
        for k, v in getattr(chk, 'MIN_STATS', {}).items():
            if stats.get(k, 0) < v:
                print('HARNESS ERROR: the run observed only %d of %s' % (stats.get(k, 0), k))
                sys.exit(2)
    sys.exit(rc)


if __name__ == '__main__':
    main()
