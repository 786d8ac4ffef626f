#!/usr/bin/env python3
"""plant.py ID [check...]: try a planted bug in a private copy of /repo: builds, stable tests, demo, checks.
Everything runs in a mount namespace in which /repo is the scratch copy."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = os.environ.get('PLANT_DIR', '/tmp/plant')


def ns(cmd, log):
    r = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s/repo /repo && cd /repo && %s' % (SC, cmd)],
                       stdout=open(log, 'w'), stderr=subprocess.STDOUT)
    return r.returncode


def sync():
    os.makedirs(SC, exist_ok=True)
    if not os.path.exists(SC + '/repo'):
        subprocess.run(['cp', '-a', '/repo', SC + '/repo'], check=True)
    head = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    subprocess.run(['git', '-C', SC + '/repo', 'fetch', '-q', '/repo', 'HEAD'], check=True)
    subprocess.run(['git', '-C', SC + '/repo', 'reset', '-q', '--hard', head], check=True)


def main():
    id = sys.argv[1]
    checks = sys.argv[2:]
    d = os.path.join(V, 'seeded', id)
    meta = json.load(open(d + '/meta.json'))
    quick = 'noverify' in checks
    checks = [c for c in checks if c != 'noverify'] or [meta['property'].lower()]
    sync()
    ok = True
    if not quick:
        if ns('bash /opt/vp/build.sh', SC + '/build0.log'):
            print('clean tree does not build'); return 1
        if ns('bash %s/demo.sh' % d, SC + '/demo0.log'):
            print('demo fails on the clean tree:', open(SC + '/demo0.log').read()[-1500:]); return 1
    r = subprocess.run(['git', '-C', SC + '/repo', 'apply', d + '/patch.diff'], capture_output=True, text=True)
    if r.returncode:
        print('patch does not apply', r.stderr); return 1
    try:
        if not quick:
            if ns('bash /opt/vp/build.sh', SC + '/build1.log'):
                print('patched tree does not build', open(SC + '/build1.log').read()[-3000:]); return 1
            rc = ns('bash %s/demo.sh' % d, SC + '/demo1.log')
            print('demo with bug: rc', rc, open(SC + '/demo1.log').read()[-300:].strip())
            ok &= rc != 0
            ns('bash /opt/vp/test.sh %s/t.json' % SC, SC + '/test1.log')
            t = json.load(open(SC + '/t.json'))
            miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(t['passed'])
            print('stable tests broken:', sorted(miss) or 'none')
            ok &= not miss
        for c in checks:
            rc = ns('cd %s && python3 lib/run.py %s' % (V, c), SC + '/check-%s.log' % c)
            txt = open(SC + '/check-%s.log' % c, errors='replace').read()
            print('%s check %s: rc %d  %s' % (id, c, rc, ' | '.join(l[:160] for l in txt.splitlines() if l.startswith('  [') or 'HARNESS' in l)[:700]))
    finally:
        subprocess.run(['git', '-C', SC + '/repo', 'checkout', '-q', '--', '.'])
    print(id, 'VALID' if ok else 'INVALID')
    return 0 if ok else 1


sys.exit(main())
