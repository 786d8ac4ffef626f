"""P17: a tracer watches, fails, shortens and kills at every system call of the writing path; the oracle looks at the directory."""
import ctypes as C, errno, json, os, random, re, resource, shutil, signal, subprocess
import build, doccheck, gen, model

PROP, LEVEL, CONFIG, CASE_LIMIT = 'P17', 'fault_enumeration', 'plain', 120
RULE = ('one evaluation is one execution of capy_generator_write with one fault (a failed, shortened or full-disk write, failed open, sync, close or rename, a kill before or after '
        'a system call, or a hostile target) whose return code and directory contents were judged; distinct are (system call kind, position, fault, outcome)')
ASSUMPTIONS = ['the file system keeps what fsync confirmed', 'faults outside the output directory and of memory are not injected']
MIN_EVALS, MIN_DISTINCT = 500, 40
MIN_STATS = {'failed_calls': 200, 'kills': 60, 'states_looked_at': 300, 'full_disks': 60, 'hostile_targets': 60}

KINDS = ['other', 'open', 'write', 'sync', 'close', 'rename', 'unlink', 'trunc', 'link', 'map']
NONE, FAIL, FAIL_ALWAYS, SHORT, SHORT_FAIL, KILL_BEFORE, KILL_AFTER, DO_AND_FAIL = range(8)
ACTION = ['nothing', 'fails', 'fails from then on', 'is cut short', 'is cut short and the disk is full', 'process killed before', 'process killed after', 'is done but reports failure']
ERRORS = {'open': ['EACCES', 'ENOSPC', 'EMFILE', 'EINTR', 'EROFS'], 'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EINTR', 'EFBIG', 'EAGAIN'], 'sync': ['EIO', 'ENOSPC', 'EDQUOT'],
          'close': ['EIO', 'ENOSPC', 'EDQUOT'], 'rename': ['EACCES', 'EIO', 'ENOSPC', 'EXDEV', 'EBUSY', 'EDQUOT'], 'trunc': ['EIO', 'ENOSPC'], 'link': ['EIO', 'EEXIST'],
          'unlink': ['EIO', 'EACCES']}
OLD = b'%PDF-1.4\nthe file that was there before' + b' and its contents' * 300


class Event(C.Structure):
    _fields_ = [('kind', C.c_int32), ('nr', C.c_int32), ('fd', C.c_int32), ('flags', C.c_int32), ('ret', C.c_int64), ('size', C.c_int64),
                ('path', C.c_char * 512), ('path2', C.c_char * 512)]


CB = C.CFUNCTYPE(None, C.c_int, C.POINTER(Event), C.c_int)


def tracer():
    src = os.path.join(os.path.dirname(os.path.abspath(build.__file__)), 'faultrun.c')
    os.makedirs(build.BUILD, exist_ok=True)
    so = os.path.join(build.BUILD, 'faultrun-%s.so' % build._hash_files([src]))
    if not os.path.exists(so):
        tmp = '%s.%d' % (so, os.getpid())
        subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', tmp, src], check=True)
        os.rename(tmp, so)
    return so


def prepare(tier):
    tracer()


def num_cases(tier):
    return 64 if tier == 'quick' else 1200


def setup(seed, tier):
    s = doccheck.State()
    s.fr = C.CDLL(tracer())
    s.tier = tier
    s.hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    return s


def masked(d):
    return re.sub(rb'/ID\s*\[[^\]]*\]', b'/ID[]', d)


PROFILES = [
    dict(steps=(0, 3), pages=1, use_all=0.0),
    dict(steps=(10, 40)),
    dict(steps=(10, 40), pdfx=1.0, img_rgb=False),
    dict(steps=(10, 40), pdfa=1.0, img_rgb=False, metadata=0.3),
    dict(tagged=1, steps=(20, 60), res=dict(struct=8, annot=8, embed=8, outline=6), collection=0.5),
    dict(steps=(20, 60), res=dict(font=6, image=8), use_all=1.0),
    dict(pages=(5, 20), steps=(150, 300), plain=True),
    dict(pages=(2, 6), steps=(30, 60), res=dict(embed=12, image=8), use_all=1.0, plain=True, pdfx=0.3, img_rgb=False),
]


def read(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
        return None


class Case:
    def __init__(self, s, g, h, outdir, rng):
        self.s, self.g, self.h, self.rng = s, g, h, rng
        self.dir = outdir
        self.final = g.doc.path
        self.issues, self.stats, self.distinct, self.evals = [], {}, set(), 0
        self.ref = None

    def bad(self, key, msg):
        self.issues.append({'key': key, 'msg': msg})

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # ---- the directory
    def reset(self):
        """-> content under the final name before writing"""
        for f in os.listdir(self.dir):
            p = os.path.join(self.dir, f)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        k = self.rng.random()
        old = None
        if k < 0.7:
            old = OLD if k < 0.5 else b''
            with open(self.final, 'wb') as f:
                f.write(old)
        if self.rng.random() < 0.3:     # left over by an earlier crash, longer than the new file
            with open(self.final + '~', 'wb') as f:
                f.write(b'stale' * (200000 if self.ref is None else len(self.ref) // 5 + 3000))
        return old

    def state(self, old):
        d = read(self.final)
        if d == old:
            return 'old'
        if d is not None and self.ref is not None and masked(d) == self.ref:
            return 'new'
        return 'missing' if d is None else 'partial'

    # ---- one execution
    def child(self, traced, fsize, wfd):
        try:
            dll = self.g.A.dll
            if traced:
                self.s.fr.fr_traceme()
            if fsize is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, self.s.hard))
            self.s.fr.fr_mark()
            rc = dll.capy_generator_write(self.h)
            self.s.fr.fr_mark()
            dll.capy_error_message.restype = C.c_char_p
            m = dll.capy_error_message(rc)
            if fsize is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (self.s.hard, self.s.hard))
            def look():
                try:
                    st = os.stat(self.final)
                    return [st.st_ino, st.st_size, st.st_mtime_ns]
                except FileNotFoundError:
                    return None
            a = look()
            rc2 = dll.capy_generator_write(self.h)
            b = look()
            os.write(wfd, json.dumps({'rc': rc, 'msg': (m or b'').decode('utf-8', 'replace'), 'rc2': rc2, 'same': a == b}).encode())
        finally:
            os._exit(0)

    def go(self, kinds=0, index=-1, action=NONE, param=0, traced=True, fsize=None, cb=None):
        """-> (wait status, report or None, number of events, disturbed)"""
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            self.child(traced, fsize, wfd)
        os.close(wfd)
        ne, nd, marks = C.c_int(), C.c_int(), C.c_int()
        if traced:
            f = CB(cb) if cb else C.cast(None, CB)
            st = self.s.fr.fr_trace(pid, os.fsencode(self.dir), C.c_uint32(kinds), index, action, C.c_int64(param), f, C.byref(ne), C.byref(nd), C.byref(marks))
            if st == -1000:
                raise RuntimeError('the tracer failed')
        else:
            _, st = os.waitpid(pid, 0)
        d = b''
        while True:
            x = os.read(rfd, 65536)
            if not x:
                break
            d += x
        os.close(rfd)
        return st, (json.loads(d) if d else None), ne.value, nd.value

    def judge(self, what, old, st, rep, killed, must_fail=False, pos=''):
        self.evals += 1
        if not killed and (not os.WIFEXITED(st) or rep is None):
            self.bad('died', '%s: the process died (status %d) instead of reporting an error' % (what, st))
            return 'died'
        s = self.state(old)
        if s in ('partial', 'missing'):
            self.bad('exposed.' + s, '%s: the final name holds %s (%s)' % (
                what, 'nothing although a file was there' if s == 'missing' else 'a damaged file of %d bytes' % os.path.getsize(self.final), rep))
        elif not killed:
            if rep['rc'] == 0 and s != 'new':
                self.bad('unreported', '%s: success was reported but the final name holds %s' % (what, s))
            if rep['rc'] == 0 and must_fail:
                self.bad('ignored', '%s: the failure was not reported' % what)
            if rep['rc'] != 0 and s != 'old':
                self.bad('replaced', '%s: an error was reported but the final name holds the new file' % what)
            if rep['rc'] != 0 and not rep['msg']:
                self.bad('no-message', '%s: no message' % what)
        if not killed and rep and (not rep['same'] or (rep['rc'] == 0 and rep['rc2'] == 0)):
            if rep['rc2'] != 0 or rep['rc'] == 0:
                self.bad('written-twice', '%s: a second write returned %d and %s the file' % (what, rep['rc2'], 'kept' if rep['same'] else 'changed'))
        self.count('errors_reported' if rep and rep['rc'] else 'killed' if killed else 'successes')
        self.distinct.add('%s>%s' % (pos or what, s if killed else '%s/%s' % (bool(rep['rc']), s)))
        return s

    def all(self, quick):
        r = self.rng
        # 1. undisturbed, watched: every point between two system calls is a possible crash
        old = self.reset()
        evs, seen, dirty, when = [], [], {}, []

        def cb(i, evp, phase):
            e = evp.contents
            if phase == 0:
                if KINDS[e.kind] in ('rename', 'link') and e.path2 == os.fsencode(self.final) and dirty.get(e.path):
                    when.append('%s of %s before its %d bytes were synced' % (KINDS[e.kind], e.path.decode('utf-8', 'replace'), dirty[e.path]))
                return
            k = KINDS[e.kind]
            evs.append((k, e.path, e.path2, e.size, e.ret, e.flags))
            if k == 'write' and e.ret > 0:
                dirty[e.path] = dirty.get(e.path, 0) + e.ret
            if k == 'trunc' and e.ret == 0:
                dirty[e.path] = dirty.get(e.path, 0) + 1
            if k == 'sync' and e.ret == 0:
                dirty[e.path] = 0
            if k == 'rename' and e.ret == 0:
                dirty[e.path2] = dirty.pop(e.path, 0)
            d = read(self.final)
            if not seen or seen[-1][1] != d:
                seen.append((i, d))
            self.count('states_looked_at')
        st, rep, n, _ = self.go(cb=cb)
        if not os.WIFEXITED(st) or not rep or rep['rc'] != 0:
            self.bad('undisturbed', 'writing an ordinary document failed: %s %s' % (st, rep))
            return
        self.ref = masked(read(self.final) or b'')
        if not self.ref.startswith(b'%PDF-') or not self.ref.rstrip().endswith(b'%%EOF'):
            self.bad('incomplete', 'the written file is not complete (%d bytes)' % len(self.ref))
            return
        for i, d in seen:
            if d != old and (d is None or masked(d) != self.ref):
                self.bad('crash-point', 'a crash after system call %d (%s) leaves %s under the final name' % (i, evs[i][0], 'nothing' if d is None else '%d of %d bytes' % (len(d), len(self.ref))))
                break
        for w in when:
            self.bad('unsynced', w + ': after a power failure the final name may hold a partial file')
        if any(e[0] == 'write' and e[1] == os.fsencode(self.final) for e in evs):
            self.bad('in-place', 'data is written directly to the final name')
        self.judge('undisturbed', old, st, rep, False)
        self.count('system_calls_watched', len(evs))
        # 2. each system call in turn
        idx = {k: [j for j, e in enumerate(evs) if e[0] == k] for k in ERRORS}
        plans = []
        for k, js in idx.items():
            m = len(js)
            if not m:
                continue
            cap = 14 if quick else 60
            which = list(range(m)) if m <= cap else sorted({0, 1, m - 1, m - 2, *r.sample(range(m), cap - 4)})
            for j in which:
                pos = 'first' if j == 0 else 'last' if j == m - 1 else 'middle'
                for e in (r.sample(ERRORS[k], 1) if k == 'write' else ERRORS[k] if not quick else r.sample(ERRORS[k], 2)):
                    plans.append((k, j, FAIL, getattr(errno, e), pos, e))
                if k == 'write':
                    plans.append((k, j, r.choice([FAIL_ALWAYS, SHORT, SHORT_FAIL]), r.choice([errno.ENOSPC, errno.EIO]) if r.random() < 0.5 else r.randint(0, 1 << 20), pos, ''))
                elif k in ('sync', 'rename') and r.random() < 0.3:
                    plans.append((k, j, FAIL_ALWAYS, errno.EIO, pos, 'EIO'))
        for k, j, act, param, pos, e in plans:
            if act == FAIL_ALWAYS and param > 200:
                param = errno.ENOSPC
            old = self.reset()
            st, rep, n, nd = self.go(1 << KINDS.index(k), j, act, param)
            if not nd:
                continue
            what = '%s call %d of %d %s %s' % (k, j + 1, len(idx[k]), ACTION[act], e)
            self.count({SHORT: 'short_writes', SHORT_FAIL: 'short_writes'}.get(act, 'failed_calls'))
            self.judge(what, old, st, rep, False, must_fail=k in ('sync', 'close') and act == FAIL, pos='%s/%s/%s/%s' % (k, pos, ACTION[act], e))
        # 3. kills
        total = len(evs)
        cap = 8 if quick else 40
        for j in (range(total) if total <= cap else sorted({0, total - 1, total - 2, total - 3, *r.sample(range(total), cap - 4)})):
            old = self.reset()
            act = r.choice([KILL_BEFORE, KILL_AFTER])
            st, rep, n, nd = self.go(0xffffffff, j, act)
            if nd:
                self.count('kills')
                self.judge('%s call %d of %d (%s)' % (ACTION[act], j + 1, total, evs[j][0]), old, st, rep, True,
                           pos='%s/%s/%s' % (evs[j][0], 'first' if j == 0 else 'last' if j == total - 1 else 'middle', ACTION[act]))
        # 4. the disk is full after so many bytes (no tracer)
        size = len(read(self.final) or b'') or len(self.ref)
        size = self.size = max(len(self.ref), 1)
        lens = {0, 1, 4095, 4096, 4097, size - 1, size // 2}
        lens |= {r.randrange(size + 60) for _ in range(6 if quick else 30)}
        for x in sorted(v for v in lens if v >= 0):
            old = self.reset()
            try:
                os.unlink(self.final + '~')
            except FileNotFoundError:
                pass
            st, rep, _, _ = self.go(traced=False, fsize=x)
            self.count('full_disks')
            self.judge('disk full after %d of about %d bytes' % (x, size), old, st, rep, False,
                       pos='full/' + ('0' if x == 0 else 'block' if x % 4096 in (0, 1, 4095) else 'end' if x >= size - 1 else 'middle'))


def small(A, path, pages=1):
    d = A.dll
    p = C.c_void_p()
    fn = lambda n, *a: A.raw(n, *a)
    dp, gn, ctx = C.c_void_p(), C.c_void_p(), C.c_void_p()
    assert A.raw('document_properties_new', C.byref(dp)) == 0
    b = os.fsencode(path)
    rc = A.raw('generator_new', b, dp, C.byref(gn))
    assert rc == 0, rc
    for _ in range(pages):
        assert A.raw('page_draw_context_new', gn, C.byref(ctx)) == 0
        assert A.raw('dc_cmd_re', ctx, 1.0, 2.0, 3.0, 4.0) == 0
        assert A.raw('dc_cmd_f', ctx) == 0
        assert A.raw('generator_add_page', gn, ctx) == 0
        A.raw('dc_destroy', ctx)
    return dp, gn


def hostile(s, A, rng, base, c):
    """targets that can not be written, and documents that can not be written"""
    def listing():
        return sorted((os.path.join(d, f)[len(base):], read(os.path.join(d, f)) if not os.path.islink(os.path.join(d, f)) else os.readlink(os.path.join(d, f)))
                      for d, ds, fs in os.walk(base) for f in fs) + sorted(os.path.join(d, x)[len(base):] for d, ds, fs in os.walk(base) for x in ds)

    def one(name, path, setup, pages=1, must_fail=True, spoil=None):
        for f in os.listdir(base):
            p = os.path.join(base, f)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        dp, gn = small(A, path, pages)
        if setup:
            setup()
        if spoil:
            spoil(gn)
        before = listing()
        rc = A.raw('generator_write', gn)
        after = listing()
        A.dll.capy_error_message.restype = C.c_char_p
        msg = A.dll.capy_error_message(rc)
        c.evals += 1
        c.count('hostile_targets')
        c.distinct.add('hostile/%s/%d' % (name, rc != 0))
        if rc == 0 and must_fail:
            c.bad('hostile.' + name, 'writing succeeded although it can not have (%s)' % name)
        # temporary files next to the target may be left behind by a failure
        tmp = os.path.join(path[len(base):])
        strip = lambda L: [x for x in L if not (isinstance(x, tuple) and x[0].startswith(tmp) and x[0] != tmp) and not (isinstance(x, str) and x == tmp + '~')]
        if rc != 0 and strip(after) != strip(before):
            c.bad('hostile.changed.' + name, 'a failed write (%s, %s) changed the directory: %r -> %r' % (name, msg, str(strip(before))[:400], str(strip(after))[:400]))
        if rc != 0 and not msg:
            c.bad('no-message', 'no message for %s' % name)
        if rc == 0:
            d = read(path) or b''
            if not d.startswith(b'%PDF-') or not d.rstrip().endswith(b'%%EOF'):
                c.bad('hostile.partial.' + name, 'success was reported but the file (%d bytes) is not complete' % len(d))
            rc2 = A.raw('generator_write', gn)
            if rc2 == 0 or listing() != after:
                c.bad('written-twice', 'a second write returned %d%s' % (rc2, '' if listing() == after else ' and changed the directory'))
        A.raw('generator_destroy', gn)
        A.raw('document_properties_destroy', dp)
    P = lambda *a: os.path.join(base, *a)

    def mk(p, data=b'old contents'):
        open(p, 'wb').write(data)

    def dirwith(p):
        os.mkdir(p)
        mk(os.path.join(p, 'inside'))

    def bad_dest(gn):
        pass
    jobs = [
        lambda: one('empty document', P('o.pdf'), (lambda: mk(P('o.pdf'))) if rng.random() < 0.6 else None, pages=0),
        lambda: one('target is a directory', P('d'), lambda: dirwith(P('d'))),
        lambda: one('target is an empty directory', P('d'), lambda: os.mkdir(P('d'))),
        lambda: one('missing directory', P('no', 'o.pdf'), None),
        lambda: one('parent is a file', P('f', 'o.pdf'), lambda: mk(P('f'))),
        lambda: one('parent vanished', P('gone', 'o.pdf'), None),
        lambda: one('name too long', P('n' * rng.choice([256, 300])), lambda: mk(P('other'))),
        lambda: one('name almost too long', P('n' * 255), lambda: mk(P('other')), must_fail=False),
        lambda: one('temporary name is a directory', P('o.pdf'), lambda: (mk(P('o.pdf')), dirwith(P('o.pdf~'))), must_fail=False),
        lambda: one('dangling link', P('o.pdf'), lambda: os.symlink(P('nowhere'), P('o.pdf')), must_fail=False),
        lambda: one('link loop', P('o.pdf'), lambda: os.symlink('o.pdf', P('o.pdf')), must_fail=False),
        lambda: one('read-only file', P('o.pdf'), lambda: (mk(P('o.pdf')), os.chmod(P('o.pdf'), 0o400)), must_fail=False),
        lambda: one('fine', P('o.pdf'), (lambda: mk(P('o.pdf'))) if rng.random() < 0.6 else None, must_fail=False, pages=rng.randint(1, 4)),
    ]
    rng.shuffle(jobs)
    for j in jobs[:6]:
        j()


def unfinishable(s, A, rng, base, c):
    """documents whose serialisation fails part way: a destination outside the page range is only found while writing"""
    path = os.path.join(base, 'o.pdf')
    for f in os.listdir(base):
        p = os.path.join(base, f)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    old = None
    if rng.random() < 0.7:
        old = OLD
        open(path, 'wb').write(old)
    dp, gn = small(A, path, rng.randint(1, 3))
    dest, ol, oid = C.c_void_p(), C.c_void_p(), C.c_int()
    A.raw('destination_new', C.byref(dest))
    A.raw('destination_set_page_fit', dest, rng.choice([50, 7]))
    A.raw('outline_new', C.byref(ol))
    A.raw('outline_set_title', ol, b'x', 1)
    A.raw('outline_set_destination', ol, dest)
    rc0 = A.raw('generator_add_outline', gn, ol, C.byref(oid))
    rc = A.raw('generator_write', gn)
    d = read(path)
    c.evals += 1
    c.count('unfinishable_documents')
    if rc == 0 and rc0 == 0:
        c.bad('unfinishable', 'a document with a destination on a page that does not exist was written')
    if rc != 0 and d != old:
        c.bad('exposed.partial', 'a document that can not be serialised replaced the file that was there')
    c.distinct.add('unfinishable/%d/%s' % (rc != 0, old is None))
    A.raw('outline_destroy', ol)
    A.raw('destination_destroy', dest)
    A.raw('generator_destroy', gn)
    A.raw('document_properties_destroy', dp)


def run_case(s, seed, i):
    rng = random.Random('P17/%d/%d' % (seed, i))
    base = os.path.join(s.dir, 'base')
    out = os.path.join(s.dir, 'out')
    aux = os.path.join(s.dir, 'aux')
    for d in (base, out, aux):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    A = model.Api(s.lib, rng)
    prof = dict(PROFILES[i % len(PROFILES)], aux=aux)
    if prof.pop('plain', False):        # no compression: many writes
        os.environ['CAPY_DEBUG_PDF'] = '1'
    else:
        os.environ.pop('CAPY_DEBUG_PDF', None)
    g = gen.Gen(A, rng, os.path.join(out, rng.choice(['doc.pdf', 'no extension', 'ä ö.pdf'])), **prof)
    try:
        g.run(write=False)
        c = Case(s, g, g.doc.h, out, rng)
        c.all(s.tier == 'quick')
        hostile(s, A, rng, base, c)
        unfinishable(s, A, rng, base, c)
    finally:
        g.cleanup()
    # a document that is never written leaves nothing
    return {'issues': c.issues, 'stats': c.stats, 'evals': c.evals, 'distinct': sorted(c.distinct),
            'sample': {'bytes': len(c.ref or b''), 'executions': c.evals, 'seen': c.stats}}
