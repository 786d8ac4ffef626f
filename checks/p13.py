"""P13: damaged and crafted font files end in success or an error code.  A sanitized build reads each one, measures and shows text
with it and writes a document; a CPU budget per font catches endless loops, and what gets written has to be sound."""
import ctypes as C, os, random, re, signal, struct
import build, capi, fontcheck, hostilefonts as H, leaks, pdf

PROP, LEVEL, CONFIG, CASE_LIMIT = 'P13', 'exploration', 'asan', 900
PER = 24
RULE = 'Each case feeds 24 damaged or crafted font files to the library.  distinct = (kind of damage, how far the font got).'
ASSUMPTIONS = ['An out-of-memory report is not believed to be an error of the library.', 'FreeType itself is not instrumented.',
               'Glyph descriptions are copied as they are: damage inside one glyph may reach the embedded font.']
INCONCLUSIVE = 'asan-(out|allocation-size|requested)'
MIN_STATS = {'loaded': 300, 'refused': 300, 'written': 300}
CPU = 40.0
MAX_CRASHES = 12
REPO = os.environ.get('CAPY_REPO', '/repo')


def prepare(tier):
    import memcheck
    build.build('asan')
    memcheck.prepare()


def num_cases(tier):
    return 400 if tier == 'quick' else 5000


class State:
    def __init__(self):
        self.lib = capi.Lib(os.environ['CAPY_LIB'])
        self.dll = self.lib.dll
        self.dir = os.environ['CAPY_SCRATCH']
        self.leaks = leaks.Leaks()
        p = os.path.join(REPO, 'testdata', 'fonts', 'NotoSans-Regular.ttf')
        self.healthy = os.fsencode(p)


def setup(seed, tier):
    return State()


class Run:
    """one document; every result counts, none is demanded"""

    def __init__(self, st):
        self.st, self.d = st, st.dll
        self.calls = 0

    def __call__(self, fn, *a):
        self.calls += 1
        return getattr(self.d, 'capy_' + fn)(*a)

    def new(self, fn, *a):
        p = C.c_void_p()
        rc = self(fn, *(list(a) + [C.byref(p)]))
        return p.value if rc == 0 else None


TEXT = [b'A', b'A B', 'Hello \u00e4\u0391\u4e00'.encode(), ' '.encode(), bytes(range(0x21, 0x7f)), ''.join(map(chr, range(0xa1, 0x180))).encode(),
        '\U0001f600\u2600'.encode(), ''.join(map(chr, range(0x391, 0x3ca))).encode()]


def use(R, r, g, ctx, fid, stats):
    """show text in all ways -> how many calls succeeded"""
    ok = 0
    w = C.c_double(-1)
    for _ in range(r.choice([1, 3])):
        t = r.choice(TEXT)
        if R('generator_text_width', g, t, len(t), fid, 12.0, C.byref(w)) == 0:
            stats['measured'] = stats.get('measured', 0) + 1
        ok += R('dc_render_text', ctx, t, len(t), fid, r.choice([1.0, 12.5]), 3.0, 4.0) == 0
        # one character at a time: a text with a missing one is refused as a whole
        for c in t.decode()[:r.choice([3, 100])]:
            c = c.encode()
            ok += R('dc_render_text', ctx, c, len(c), fid, 10.0, 5.0, 6.0) == 0
    tx = R.new('dc_text_new', ctx)
    if tx:
        R('text_cmd_Tf', tx, fid, 11.0)
        for _ in range(r.choice([0, 1, 2])):
            ts = R.new('text_sequence_new')
            gids = [r.choice([0, 1, 2, 3, r.randrange(70), r.randrange(70), r.randrange(1000), 65534, 65535, 65536, 0xffffffff]) if r.random() < 0.3 else r.randrange(1, 60) for _ in range(r.choice([1, 5, 80]))]
            for gid in gids:
                if r.random() < 0.8:
                    R('text_sequence_append_raw_glyph', ts, gid, r.choice([0x41, 0x4e00, 0x1f600]))
                else:
                    R('text_sequence_append_ligature_glyph', ts, gid, b'ffi', 3)
            ok += R('text_cmd_TJ', tx, ts) == 0
            R('text_sequence_destroy', ts)
        for gid in range(1, r.choice([1, 4, 40])):       # and one by one
            ts = R.new('text_sequence_new')
            R('text_sequence_append_raw_glyph', ts, gid, 0x100 + gid)
            ok += R('text_cmd_TJ', tx, ts) == 0
            R('text_sequence_destroy', ts)
        R('dc_render_text_obj', ctx, tx)
        R('text_destroy', tx)
    return ok


def sfnt_problems(data):
    """what the library itself is answerable for in the embedded program"""
    if data[:1] == b'\1':
        return cff_problems(data)
    iss, tabs = fontcheck.sfnt_issues(data)
    return [i for i in iss if not re.match(r'glyph \d+ (has|is cut)|glyph \d+: |composite glyph|a composite glyph|no (glyf)|magic', i)]


def cff_problems(b):
    out = []
    try:
        name, p, _ = H.cff_index(b, 4)
        top, p, _ = H.cff_index(b, p)
        st, p, _ = H.cff_index(b, p)
        gs, p, _ = H.cff_index(b, p)
        if not top or p > len(b):
            return ['the indexes leave the file']
        d = {}
        for o, v, *_ in H.cff_dict(b, *top[0]):
            d.setdefault(o, v)
        for o in (15, 17, 0xc24, 0xc25):
            if len(d.get(o, [])) != 1 or not p <= d[o][0] < len(b):
                return ['operator %x is %r in %d bytes' % (o, d.get(o), len(b))]
        cs, e, _ = H.cff_index(b, d[17][0])
        fda, e2, _ = H.cff_index(b, d[0xc24][0])
        if e > len(b) or e2 > len(b):
            return ['an INDEX leaves the file']
        if d[15][0] + 1 + 2 * (len(cs) - 1) > len(b):
            out.append('the charset leaves the file')
        if not 1 <= len(fda) <= 256:
            out.append('%d font dictionaries' % len(fda))
        for a, x in fda:
            dd = {o: v for o, v, *_ in H.cff_dict(b, a, x)}
            if 18 in dd:
                n, o = dd[18]
                if not 0 <= o <= o + n <= len(b):
                    out.append('private dictionary %d+%d of %d' % (o, n, len(b)))
        q = d[0xc25][0]
        if b[q] != 3:
            out.append('FDSelect format %d' % b[q])
        else:
            n = H.u(b, q + 1, 2)
            rg = [(H.u(b, q + 3 + 3 * k, 2), b[q + 5 + 3 * k]) for k in range(n)]
            if not rg or rg[0][0] != 0 or any(x[0] >= y[0] for x, y in zip(rg, rg[1:])) or rg[-1][0] >= len(cs) or H.u(b, q + 3 + 3 * n, 2) != len(cs) or any(x[1] >= len(fda) for x in rg):
                out.append('FDSelect %r.. for %d glyphs, %d dictionaries' % (rg[:4], len(cs), len(fda)))
    except (IndexError, struct.error, ValueError) as x:
        out.append('CFF does not parse: %r' % x)
    return out


def check_file(path, what, add):
    data = open(path, 'rb').read()
    try:
        P = pdf.Pdf(data)
        for i in P.issues[:3]:
            add('pdf.' + re.sub(r'[\d\W]+', '-', str(i))[:40], '%s: %s' % (what, i))
        n = 0
        for v in list(P.objects.values()) if hasattr(P, 'objects') else []:
            v = P.get(v)
            if isinstance(v, dict) and ('FontFile3' in v or 'FontFile2' in v):
                st = P.get(v.get('FontFile3') or v.get('FontFile2'))
                for i in sfnt_problems(P.decoded(st))[:3]:
                    add('font.' + re.sub(r'[\d\W]+', '-', i)[:40], '%s: %s' % (what, i))
                n += 1
            if isinstance(v, dict) and v.get('Type') == 'Font' and 'W' in v:
                fontcheck.parse_w(P, v['W'])
        return n
    except pdf.PDFError as x:
        add('pdf', '%s: the file does not parse: %s' % (what, x))
        return 0


def one(st, r, i, k, stats, issues, kinds):
    what, data, face = H.hostile(r, REPO)
    fpath = os.path.join(st.dir, 'font')
    out = os.path.join(st.dir, 'h.pdf')
    with open(fpath, 'wb') as f:
        f.write(data)
    os.write(2, ('FONT %d %s %d bytes\n' % (k, what, len(data))).encode())
    R = Run(st)
    def add(key, msg):
        if len(issues) < 30:
            issues.append({'key': key, 'msg': 'font %d (%s): %s' % (k, what, msg)})
    dp = R.new('document_properties_new')
    for f in (out, out + '~'):
        if os.path.exists(f):
            os.unlink(f)
    g = R.new('generator_new', os.fsencode(out), dp)
    ctx = R.new('page_draw_context_new', g)
    fp = None
    props = face or (r.random() < 0.1)
    if props:
        fp = R.new('font_properties_new')
        if face:
            R('font_properties_set_subfont', fp, face)
        if 'amstel' in what:
            if r.random() < 0.5:
                R('font_properties_set_variation', fp, b'wght', -1, r.choice([100, 400, 900]))
            else:
                R('font_properties_set_named_instance', fp, r.choice([0, 1, 3]))
    hid, good = capi.IdStruct(-1), capi.IdStruct(-1)
    with_good = r.random() < 0.25
    if with_good and R('generator_load_font', g, st.healthy, None, C.byref(good)):
        add('healthy', 'the healthy font is refused')
    rc = R('generator_load_font', g, os.fsencode(fpath), fp, C.byref(hid))
    stats['fonts'] = stats.get('fonts', 0) + 1
    stage = 'refused'
    if rc == 0:
        n = use(R, r, g, ctx, hid, stats)
        stage = 'shown' if n else 'loaded'
    stats['loaded' if rc == 0 else 'refused'] = stats.get('loaded' if rc == 0 else 'refused', 0) + 1
    if with_good and R('dc_render_text', ctx, b'AWx', -1, good, 12.0, 1.0, 1.0):
        add('healthy', 'text in the healthy font is refused beside the damaged one')
    prc = R('generator_add_page', g, ctx)
    if prc:
        add('page', 'the page is refused with %d' % prc)
    R('dc_destroy', ctx)
    wrc = R('generator_write', g)
    if wrc == 0:
        stage += '+written'
        stats['written'] = stats.get('written', 0) + 1
        stats['embedded'] = stats.get('embedded', 0) + check_file(out, what, add)
    else:
        stage += '+failed'
        stats['write_failed'] = stats.get('write_failed', 0) + 1
        if rc != 0:
            add('refused-font-stays', 'a document cannot be written (%d) after a font was refused (%d)' % (wrc, rc))
        if os.path.exists(out):
            add('file-left', 'writing failed with %d but the file exists' % wrc)
    R('generator_destroy', g)
    R('document_properties_destroy', dp)
    if fp:
        R('font_properties_destroy', fp)
    stats['api_calls'] = stats.get('api_calls', 0) + R.calls
    kinds.add('%s>%s' % (re.sub(r'^field\.cff\.(top|fd|private)\.(op|opnd|int)\w+$', r'field.cff.\1.\2', what.split(':')[-1]), stage))
    return what, stage


def run_case(st, seed, i):
    r0 = random.Random('%s/%d/%d' % (PROP, seed, i))
    issues, stats, kinds = [], {}, set()
    sample = None
    for k in range(PER):
        r = random.Random(r0.getrandbits(64))
        signal.setitimer(signal.ITIMER_PROF, CPU)       # SIGPROF ends the process: more CPU than any font needs
        sample = one(st, r, i, k, stats, issues, kinds)
        signal.setitimer(signal.ITIMER_PROF, 0)
    t = st.leaks.check()
    if t:
        issues.append({'key': leaks.leak_key(t), 'msg': t[:3000]})
    if t is not None:
        stats['leak_checks'] = 1
    return {'issues': issues, 'stats': stats, 'evals': PER, 'distinct': sorted(kinds), 'sample': {'last': sample, 'kinds': sorted(kinds)[:6]}}


def after(seed, tier):
    import memcheck
    r = random.Random('%s/mem/%d' % (PROP, seed))
    files = []
    for _ in range(240 if tier == 'quick' else 3000):
        what, data, face = H.hostile(r, REPO)
        if len(data) > 300000 and r.random() < 0.8:
            continue
        files.append((what, '.font', data))
    issues, stats = memcheck.run(files)
    issues = [i for i in issues if 'writing ends' not in i['msg']]
    return {'evals': stats['memcheck_files'], 'stats': stats, 'issues': issues}
