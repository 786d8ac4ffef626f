"""Runs the picture and font probe under valgrind: what the uninstrumented decoders do with the library's buffers, and whether
anything uninitialised reaches the file."""
import os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build

HERE = os.path.dirname(os.path.abspath(__file__))


def prepare():
    return build.build_prog('plain', [os.path.join(HERE, 'mediaprobe.c')], 'mediaprobe')


def run(files, workers=8, valgrind=True):
    """files: [(what, ext, bytes)] -> (issues, stats); without valgrind the probe gets little memory, so that allocations fail"""
    prog = prepare()
    d = tempfile.mkdtemp(prefix='capyv-mem-')
    try:
        names = []
        for k, (what, ext, data) in enumerate(files):
            p = os.path.join(d, 'f%d%s' % (k, ext))
            open(p, 'wb').write(data)
            names.append(p)

        def batch(idx):
            """-> [(file index, text)] of trouble, accepted"""
            bad, ok = [], 0
            todo = list(idx)
            while todo:
                wd = tempfile.mkdtemp(dir=d)
                cmd = ['valgrind', '-q', '--error-exitcode=99', '--leak-check=no', '--num-callers=14', '--max-stackframe=8000000', prog] if valgrind else ['prlimit', '--as=1500000000', prog]
                cmd += [os.path.join(wd, 'o.pdf')] + [names[k] for k in todo]
                env = dict(os.environ, SOURCE_DATE_EPOCH='1700000000')
                env.pop('CAPY_DEBUG_PDF', None)
                try:
                    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=wd, env=env, timeout=800)
                except subprocess.TimeoutExpired:
                    return bad, ok, len(todo)
                done = p.stdout.decode('latin-1').splitlines()
                for l in done:
                    v = [int(x) for x in l.split()[1:]]
                    ok += v[0] == 0
                    if v[11]:
                        bad.append((int(re.search(r'f(\d+)\.\w+$', l.split()[0]).group(1)), 'writing ends with %d' % v[11]))
                err = p.stderr.decode('latin-1')
                if p.returncode == 0:
                    return bad, ok, 0
                cur = None
                for part in re.split(r'^(?=FILE )', err, flags=re.M):
                    m = re.match(r'FILE \S*f(\d+)\.\w+\n', part)
                    if m:
                        t = '\n'.join(re.sub(r'^==\d+== ?', '', l) for l in part.splitlines() if l.startswith('=='))
                        if t.strip():
                            bad.append((int(m.group(1)), t))
                        cur = int(m.group(1))
                if p.returncode == 99 and len(done) == len(todo):
                    return bad, ok, 0
                if p.returncode != 99 and cur is not None and 'Valgrind cannot throw' not in err:
                    bad.append((cur, 'the program ends with %d: %s' % (p.returncode, err[-800:])))
                todo = todo[len(done) + 1:]
            return bad, ok, 0
        n = max(1, min(25, len(files) // workers))
        chunks = [list(range(k, min(k + n, len(files)))) for k in range(0, len(files), n)]
        with ThreadPoolExecutor(max_workers=workers) as ex:
            res = list(ex.map(batch, chunks))
        issues, acc, skipped = [], 0, 0
        for bad, ok, sk in res:
            acc += ok
            skipped += sk
            for k, t in bad:
                f = re.search(r'(Invalid (?:read|write|free)|[Uu]ninitialised|writing ends|program ends|Argument)', t)
                fn = [x for x in re.findall(r': ([\w:~]+)[ (]', t)]
                own = [x.split('::')[-1] for x in fn if 'capy' in x]
                issues.append({'key': 'mem.%s@%s' % ((f.group(1) if f else 'other').replace(' ', '-'), own[0] if own else fn[0] if fn else ''), 'msg': 'file %d (%s, %d bytes): %s' % (k, files[k][0], len(files[k][2]), t[:3000])})
        t = 'memcheck' if valgrind else 'lowmem'
        return issues, {t + '_files': len(files) - skipped, t + '_loaded': acc}
    finally:
        shutil.rmtree(d, ignore_errors=True)
