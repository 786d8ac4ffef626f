"""P14: any bytes as a picture or colour profile, and any raw picture settings, end in success or an error code.  A sanitized build
loads, converts and embeds each one; what gets written has to be sound: data of the size the dictionary promises, profiles with the
channels their use needs."""
import ctypes as C, os, random, re, signal, struct, zlib
import build, capi, hostileimages as H, leaks, pdf

PROP, LEVEL, CONFIG, CASE_LIMIT = 'P14', 'exploration', 'asan', 900
PER = 30
RULE = 'Each case feeds 30 damaged or crafted pictures, colour profiles and raw picture settings to the library.  distinct = (kind of damage, how far it got).'
ASSUMPTIONS = ['An out-of-memory report is not believed to be an error of the library.', 'libpng, libjpeg, libtiff and lcms are not instrumented.',
               'The entropy coded part of a JPEG file is embedded as it is.']
INCONCLUSIVE = 'asan-(out|allocation-size|requested)'
MIN_STATS = {'loaded': 500, 'refused': 500, 'embedded': 500, 'written': 1000, 'profiles_kept': 100, 'converted': 50}
CPU = 40.0
MAX_CRASHES = 16
REPO = os.environ.get('CAPY_REPO', '/repo')
NCH = {0: 3, 1: 1, 2: 4}
CHAN = dict(H.CHANNELS)
CHAN.update({b'HSV ': 3, b'HLS ': 3, b'Luv ': 3, b'YCbr': 3, b'Yxy ': 3, b'CMY ': 3, b'LuvK': 4})
for _k in range(1, 16):
    CHAN[b'%XCLR' % _k] = _k
    CHAN[b'MCH%X' % _k] = _k


def prepare(tier):
    import memcheck
    build.build('asan')
    memcheck.prepare()


def num_cases(tier):
    return 400 if tier == 'quick' else 5000


class State:
    def __init__(self):
        self.lib = capi.Lib(os.environ['CAPY_LIB'])
        self.dll = self.lib.dll
        self.dir = os.environ['CAPY_SCRATCH']
        self.leaks = leaks.Leaks()


def setup(seed, tier):
    return State()


class Run:
    """one document; results count, none is demanded"""

    def __init__(self, st):
        self.d, self.calls = st.dll, 0

    def __call__(self, fn, *a):
        self.calls += 1
        return getattr(self.d, 'capy_' + fn)(*a)

    def new(self, fn, *a):
        p = C.c_void_p()
        rc = self(fn, *(list(a) + [C.byref(p)]))
        return p.value if rc == 0 else None


def jpeg_frame(b):
    """-> (w, h, components, bits) of the first frame header"""
    p = 2
    while p + 4 <= len(b):
        if b[p] != 0xff:
            p += 1
            continue
        m = b[p + 1]
        if m in (0xff,):
            p += 1
            continue
        if m in (0, 1, 0xd8) or 0xd0 <= m <= 0xd7:
            p += 2
            continue
        n = int.from_bytes(b[p + 2:p + 4], 'big')
        if 0xc0 <= m <= 0xcf and m not in (0xc4, 0xc8, 0xcc):
            h, w = struct.unpack_from('>HH', b, p + 5)
            return w, h, b[p + 9], b[p + 4]
        p += 2 + n
    return None


def check_file(path, add, sizes):
    """-> (pictures, profiles) found in the written file"""
    data = open(path, 'rb').read()
    try:
        P = pdf.Pdf(data)
        for i in P.issues[:3]:
            add('pdf.' + re.sub(r'[\d\W]+', '-', str(i))[:40], str(i))
        pics = profs = 0
        masks = {}
        for num in list(P.objects):
            v = P.get(pdf.Ref(num, 0))
            if not isinstance(v, pdf.Stream):
                continue
            d = v.d
            if d.get('Subtype') == 'Image':
                pics += 1
                w, h, bpc = P.get(d.get('Width')), P.get(d.get('Height')), P.get(d.get('BitsPerComponent'))
                if not all(isinstance(x, int) for x in (w, h, bpc)) or w < 1 or h < 1 or bpc not in (1, 2, 4, 8, 16):
                    add('image.dict', 'object %d: Width %r Height %r BitsPerComponent %r' % (num, w, h, bpc))
                    continue
                sizes.setdefault((w, h), []).append(num)
                cs = P.get(d.get('ColorSpace'))
                if d.get('ImageMask'):
                    n = 1
                    if cs is not None or bpc != 1:
                        add('image.mask', 'object %d: a mask with %r, %d bits' % (num, cs, bpc))
                elif isinstance(cs, list) and cs[0] == 'ICCBased':
                    n = P.get(cs[1]).d.get('N')
                else:
                    n = {'DeviceRGB': 3, 'DeviceGray': 1, 'DeviceCMYK': 4}.get(cs)
                if n is None:
                    add('image.cs', 'object %d: colour space %r' % (num, cs))
                    continue
                dec = P.get(d.get('Decode'))
                if dec is not None and len(dec) != 2 * n:
                    add('image.decode', 'object %d: Decode of %d numbers for %d components' % (num, len(dec), n))
                f = P.get(d.get('Filter'))
                if f == 'DCTDecode':
                    fr = jpeg_frame(v.raw)
                    if fr is None or fr[:2] != (w, h) or fr[3] != bpc or fr[2] != n:
                        add('image.jpeg', 'object %d: the dictionary says %dx%d, %d components of %d bits, the data %r' % (num, w, h, n, bpc, fr))
                else:
                    want = (w * n * bpc + 7) // 8 * h
                    o = zlib.decompressobj()
                    got = len(o.decompress(v.raw, want + 10))
                    if got != want or not (o.eof or not o.decompress(o.unconsumed_tail, 1) and o.eof):
                        add('image.data', 'object %d: %dx%d with %d components of %d bits needs %d bytes, the stream has %d' % (num, w, h, n, bpc, want, got))
                sm = d.get('SMask')
                if sm is not None:
                    m = P.get(sm)
                    if not isinstance(m, pdf.Stream) or m.d.get('Subtype') != 'Image' or P.get(m.d.get('ColorSpace')) != 'DeviceGray' or (m.d.get('Width'), m.d.get('Height')) != (w, h):
                        add('image.smask', 'object %d: its soft mask is %r' % (num, m))
            elif 'N' in d and 'Type' not in d:
                profs += 1
                b = P.decoded(v)
                c = CHAN.get(b[16:20])
                if len(b) < 128 or b[36:40] != b'acsp' or c is None or c != d['N']:
                    add('profile.channels', 'object %d: N is %r but the profile of %d bytes has colour space %r' % (num, d['N'], len(b), b[16:20]))
        return pics, profs
    except (pdf.PDFError, zlib.error, struct.error) as x:
        add('pdf', 'the file does not hold together: %r' % x)
        return 0, 0


def props(R, r):
    ip = R.new('image_pdf_properties_new')
    mask = r.random() < 0.12
    if mask:
        R('image_pdf_properties_set_mask', ip, 1)
    if r.random() < 0.3:
        R('image_pdf_properties_set_interpolate', ip, r.randrange(3))
    return ip, mask


def convert_and_add(R, r, g, ctx, im, stats, add, exact):
    """look at, convert and add the picture -> (stage, what ended up in the document)"""
    w, h = C.c_uint32(), C.c_uint32()
    if R('raster_image_get_size', im, C.byref(w), C.byref(h)):
        add('size', 'a loaded picture has no size')
    cs, prof = C.c_int(-1), C.c_int32(-1)
    jpg = R('raster_image_get_colorspace', im, C.byref(cs)) != 0
    if not jpg and cs.value not in (0, 1, 2):
        add('colourspace', 'the colour space is %d' % cs.value)
    if not jpg and (R('raster_image_has_profile', im, C.byref(prof)) or prof.value not in (0, 1)):
        add('profile', 'has_profile gives %d' % prof.value)
    stage = ''
    while r.random() < 0.35:
        to = r.randrange(3)
        p = C.c_void_p()
        rc = R('generator_convert_image', g, im, to, r.randrange(4), C.byref(p))
        if rc:
            stage += '+noconv'
            break
        stats['converted'] = stats.get('converted', 0) + 1
        stage += '+conv'
        if R('raster_image_get_colorspace', p, C.byref(cs)) == 0 and cs.value != to:
            add('convert.cs', 'converted to %d, which then is %d' % (to, cs.value))
        R('raster_image_destroy', im)
        im = p.value
    ip, mask = props(R, r)
    iid = capi.IdStruct(-1)
    rc = R('generator_add_image', g, im, ip, C.byref(iid))
    R('raster_image_destroy', im)
    R('image_pdf_properties_destroy', ip)
    if rc == 0:
        stats['embedded'] = stats.get('embedded', 0) + 1
        if R('dc_cmd_Do_image', ctx, iid):
            add('do', 'an added picture can not be drawn')
        return stage + '+added', (w.value, h.value), mask
    return stage + '+notadded', None, mask


def raw(R, r, stats):
    """settings and data of a raw picture -> (builder result, what, consistent)"""
    b = R.new('raster_image_builder_new')
    w, h = r.choice([1, 2, 7, 8, 9, 17, 64]), r.choice([1, 2, 5, 9])
    cs = r.randrange(3)
    depth = r.choice([1, 2, 4, 8, 8, 8, 16])
    adepth = r.choice([1, 2, 4, 8, 8, 16])
    alpha = r.random() < 0.35
    comp = r.random() < 0.3
    size = lambda n, d: (w * n * d + 7) // 8 * h
    px, al = size(NCH[cs], depth), size(1, adepth) if alpha else 0
    what = 'good'
    sw, sh, sd, sa = w, h, depth, adepth
    if r.random() < 0.75:
        what = r.choice(['w', 'h', 'depth', 'adepth', 'px', 'al', 'stream', 'bomb', 'wrap'])
        if what == 'w':
            sw = r.choice([0, w + 1, w - 1, w * 2, 0x7fffffff, 0x80000000, 0xffffffff, 65536])
        elif what == 'h':
            sh = r.choice([0, h + 1, h - 1, h * 2, 0x7fffffff, 0x80000000, 0xffffffff, 65536])
        elif what == 'depth':
            sd = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 32, 0x10000008, 0x80000008, 0xffffffff])
        elif what == 'adepth':
            sa = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 32, 0x10000008, 0xffffffff])
        elif what == 'px':
            px = max(0, r.choice([0, 1, px - 1, px + 1, px * 2, px // 2]))
        elif what == 'al':
            al = max(0, r.choice([0, 1, al - 1, al + 1, al * 2, al // 2]))
        elif what == 'bomb':
            comp, px = True, px + 500000
        elif what == 'wrap':     # sizes whose product leaves 32 or 64 bits
            sw, sh = r.choice([(0x80000000, 2), (0x10000, 0x10000), (0xffffffff, 0xffffffff), (0x40000000, 4), (0x55555556, 1), (0x20000000, 8)])
            px = r.choice([0, 1, 8, 16])
    pd, ad = bytes(r.randrange(256) for _ in range(min(px, 4000))) + bytes(max(0, px - 4000)), bytes(r.randrange(256) for _ in range(al))
    zp, za = (zlib.compress(pd), zlib.compress(ad) if ad else b'') if comp else (pd, ad)
    ok = sw > 0 and sh > 0 and len(zp) > 0 and sd in (1, 2, 4, 8, 16) and len(pd) == (sw * NCH[cs] * sd + 7) // 8 * sh
    ok = ok and (not za or (sa in (1, 2, 4, 8, 16) and len(ad) == (sw * sa + 7) // 8 * sh))
    if what == 'stream' and comp:
        which = r.random() < 0.5 and za
        z = za if which else zp
        m = r.choice(['cut', 'flip', 'garbage', 'head', 'raw'])
        z = {'cut': z[:r.randrange(len(z))], 'flip': z[:-4] + bytes([z[-4] ^ 1]) + z[-3:], 'garbage': bytes(r.randrange(256) for _ in range(20)), 'head': b'\0' + z[1:], 'raw': z[2:]}[m]
        what = 'stream.' + m
        if which:
            za = z
            ok = ok and not z            # without data there is no mask
        else:
            zp = z
            ok = False
    steps = [('set_size', sw, sh), ('set_pixel_depth', sd), ('set_pixel_data', zp, len(zp)), ('set_colorspace', cs), ('set_input_data_compression_format', int(comp))]
    if alpha or what in ('al', 'adepth') or za:
        steps += [('set_alpha_depth', sa), ('set_alpha_data', za, len(za))]
    r.shuffle(steps)
    for s in steps:
        R('raster_image_builder_' + s[0], b, *s[1:])
    p = C.c_void_p()
    rc = R('raster_image_builder_build', b, C.byref(p))
    R('raster_image_builder_destroy', b)
    return (p.value if rc == 0 else None), 'raw:%s' % what, ok, dict(w=sw, h=sh, depth=sd, cs=cs, alpha=len(za), comp=comp, adepth=sa, px=len(pd))


EXT = ['.png', '.PNG', '.jpg', '.jpeg', '.tif', '.tiff', '', '.img', '.TIF', '.JPG']


def one(st, r, k, stats, issues, kinds):
    R = Run(st)
    out = os.path.join(st.dir, 'h.pdf')
    for f in (out, out + '~'):
        if os.path.exists(f):
            os.unlink(f)
    what = ['']
    note = [None]
    def add(key, msg):
        if len(issues) < 30:
            issues.append({'key': key, 'msg': 'item %d (%s): %s' % (k, note[0] or what[0], msg)})
    mode = r.choices(['picture', 'profile', 'raw', 'output'], [60, 14, 18, 8])[0]
    dp = R.new('document_properties_new')
    stage = ''
    files = []
    def put(name, data):
        p = os.path.join(st.dir, name)
        open(p, 'wb').write(data)
        files.append(p)
        return os.fsencode(p)
    healthy_cmyk = os.path.join(REPO, 'testdata', 'icc', 'FOGRA29L.icc')
    if mode == 'output':
        w_, b, n = H.icc(r, REPO)
        cs = {3: 0, 1: 1, 4: 2}.get(n, r.randrange(3)) if r.random() < 0.9 else r.randrange(3)
        what[0] = 'output:' + w_
        os.write(2, ('ITEM %d %s %d bytes\n' % (k, what[0], len(b))).encode())
        R('document_properties_set_device_profile', dp, cs, put('p.icc', b))
        if r.random() < 0.6:
            R('document_properties_set_colorspace', dp, cs)
        elif r.random() < 0.5:
            R('document_properties_set_colorspace', dp, r.randrange(3))
    elif r.random() < 0.15:
        R('document_properties_set_device_profile', dp, 2, os.fsencode(healthy_cmyk))
    g = R.new('generator_new', os.fsencode(out), dp)
    if mode == 'output':
        stage = 'gen' if g else 'nogen'
        stats['profiles_kept' if g else 'refused'] = stats.get('profiles_kept' if g else 'refused', 0) + 1
    if not g:
        if mode != 'output':
            add('generator', 'no generator without hostile input')
        R('document_properties_destroy', dp)
        kinds.add(what[0] + '>nogen')
        return what[0], 'nogen'
    ctx = R.new('page_draw_context_new', g)
    added, mask = None, False
    if mode == 'output':
        col = R.new('color_new')
        for fn, n in (('color_set_rgb', 3), ('color_set_gray', 1), ('color_set_cmyk', 4)):
            R(fn, col, *[r.random() for _ in range(n)])
            a = R('dc_set_nonstroke', ctx, col)
            stage += '.' if a == 0 else 'x'
        R('color_destroy', col)
        if r.random() < 0.7:
            im, w_, ok, _ = raw(R, random.Random(r.random()), stats)
            if im:
                s, added, mask = convert_and_add(R, r, g, ctx, im, stats, add, None)
                stage += s
    elif mode == 'profile':
        w_, b, n = H.icc(r, REPO)
        what[0] = w_
        os.write(2, ('ITEM %d %s %d bytes\n' % (k, what[0], len(b))).encode())
        cid = capi.IdStruct(-1)
        ok = 0
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < 0.6:
                rc = R('generator_add_icc_profile', g, b, len(b), n, C.byref(cid))
            else:
                rc = R('generator_load_icc_profile', g, put('p.icc', b), C.byref(cid))
            ok += rc == 0
        stats['profiles_kept' if ok else 'refused'] = stats.get('profiles_kept' if ok else 'refused', 0) + 1
        stage = 'kept' if ok else 'refused'
        if ok:
            col = R.new('color_new')
            m = n if n < 20 else 3
            vals = (C.c_double * 20)(*[r.random() for _ in range(20)])
            for q in {m, r.choice([0, 1, 3, 4])}:
                R('color_set_icc', col, cid, vals, q)
                a = R('dc_set_nonstroke', ctx, col)
                stage += '.' if a == 0 else 'x'
            R('color_destroy', col)
    else:
        if mode == 'raw':
            im, what[0], ok, note[0] = raw(R, r, stats)
            os.write(2, ('ITEM %d %s %r\n' % (k, what[0], note[0])).encode())
            if im is None:
                add('build', 'a raw picture is not built')
        else:
            what[0], b = H.picture(r, REPO)
            os.write(2, ('ITEM %d %s %d bytes\n' % (k, what[0], len(b))).encode())
            p = C.c_void_p()
            if r.random() < 0.5:
                rc = R('generator_load_image_from_memory', g, b, len(b), C.byref(p))
            else:
                e = {'p': '.png', 'j': '.jpg', 't': '.tif'}.get(what[0][0], '') if r.random() < 0.7 else r.choice(EXT)
                rc = R('generator_load_image', g, put('im' + e, b), C.byref(p))
            im = p.value if rc == 0 else None
            ok = None
        if im:
            stats['loaded'] = stats.get('loaded', 0) + 1
            s, added, mask = convert_and_add(R, r, g, ctx, im, stats, add, ok)
            stage = 'loaded' + s
            if ok is not None and 'conv' not in s:
                d = note[0]
                want = ok and (not mask or (not d['alpha'] and d['cs'] == 1 and d['depth'] == 1))
                if want != (added is not None):
                    add('raw.refused' if want else 'raw.accepted', 'the picture is %s' % ('refused' if want else 'accepted'))
        else:
            stage = 'refused'
            stats['refused'] = stats.get('refused', 0) + 1
    prc = R('generator_add_page', g, ctx)
    if prc:
        add('page', 'the page is refused with %d' % prc)
    R('dc_destroy', ctx)
    wrc = R('generator_write', g)
    if wrc:
        add('write', 'the document can not be written (%d)' % wrc)
    else:
        stats['written'] = stats.get('written', 0) + 1
        sizes = {}
        pics, profs = check_file(out, add, sizes)
        if (pics > 0) != (added is not None) or pics > 2:
            add('image.count', '%d pictures in the file, %s was added' % (pics, 'one' if added else 'none'))
        if added and added not in sizes:
            add('image.size', 'the picture has %r, the file %r' % (added, sizes))
    R('generator_destroy', g)
    R('document_properties_destroy', dp)
    for f in set(files):
        os.unlink(f)
    stats['api_calls'] = stats.get('api_calls', 0) + R.calls
    stats['items'] = stats.get('items', 0) + 1
    kinds.add('%s>%s' % (what[0], stage))
    return what[0], stage


def run_case(st, seed, i):
    r0 = random.Random('%s/%d/%d' % (PROP, seed, i))
    issues, stats, kinds = [], {}, set()
    sample = None
    for k in range(PER):
        r = random.Random(r0.getrandbits(64))
        signal.setitimer(signal.ITIMER_PROF, CPU)
        sample = one(st, r, k, stats, issues, kinds)
        signal.setitimer(signal.ITIMER_PROF, 0)
    t = st.leaks.check()
    if t:
        issues.append({'key': leaks.leak_key(t), 'msg': t[:3000]})
    if t is not None:
        stats['leak_checks'] = 1
    return {'issues': issues, 'stats': stats, 'evals': PER, 'distinct': sorted(kinds), 'sample': {'last': sample, 'kinds': sorted(kinds)[:6]}}


EXTS = {'p': '.png', 'j': '.jpg', 't': '.tif', 'm': '.img', 'i': '.icc'}


def huge(r):
    """a small file that declares a big picture"""
    big = r.choice([20000, 65500, 1 << 20, 1 << 30, 0x7fffffff, 0xffffffff])
    w, h = r.choice([(big, big), (1, big), (big, 1), (65535, 65535), (1000, big)])
    k = r.randrange(3)
    if k == 0:
        return 'png:huge', H.SIG + H.chunk(b'IHDR', H.BE('IIBBBBB', w & 0x7fffffff, h & 0x7fffffff, 8, r.choice([0, 2, 4, 6]), 0, 0, 0)) + H.chunk(b'IDAT', zlib.compress(bytes(1000))) + H.chunk(b'IEND', b'')
    if k == 1:
        n = r.choice([1, 3, 4])
        S = lambda t, ty, v: [t, ty, 1, struct.pack('<I' if ty == 4 else '<H', v)]
        E = [S(256, 4, w), S(257, 4, h), S(258, 3, 8), S(259, 3, r.choice([1, 5, 8, 32773])), S(262, 3, {1: 1, 3: 2, 4: 5}[n]), S(273, 4, 8), S(277, 3, n), S(278, 4, r.choice([1, h])), S(279, 4, r.choice([100, 0xffffffff])), S(284, 3, 1)]
        return 'tiff:huge', H.tiff_build('<', E, bytes(100))
    w_, b = 'jpeg:huge', None
    n = r.choice([1, 3, 4])
    b = b'\xff\xd8\xff\xc0' + H.BE('HBHHB', 8 + 3 * n, 8, min(h, 65500), min(w, 65500), n) + b''.join(bytes([q + 1, 0x11, 0]) for q in range(n))
    b += b'\xff\xdb' + H.BE('H', 67) + b'\0' + bytes([1] * 64) + b'\xff\xda' + H.BE('HB', 6 + 2 * n, n) + b''.join(bytes([q + 1, 0]) for q in range(n)) + b'\0\x3f\0' + bytes(20)
    return w_, b


def after(seed, tier):
    import memcheck
    r = random.Random('%s/mem/%d' % (PROP, seed))
    files = []
    for _ in range(500 if tier == 'quick' else 6000):
        if r.random() < 0.2:
            what, b, _n = H.icc(r, REPO)
        else:
            what, b = H.picture(r, REPO)
        files.append((what, EXTS[what[0]], b))
    issues, stats = memcheck.run(files)
    files = []
    for _ in range(200 if tier == 'quick' else 3000):
        what, b = huge(r)
        files.append((what, r.choice([EXTS[what[0]], '.img']), b))
    i2, s2 = memcheck.run(files, valgrind=False)
    stats.update(s2)
    return {'evals': stats['memcheck_files'] + stats['lowmem_files'], 'stats': stats, 'issues': issues + i2}
