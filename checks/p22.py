import ctypes as C, io, os, random
import cmm, doccheck, gen, images, invalid, model, profiles


def prof(r, i):
    p = dict(steps=(30, 100), use_all=0.6, titles=0.8, metadata=0.2, nasty_text=0.3, img_rgb=False, embed=0.5, strs='nasty' if i % 4 == 0 else 'normal')
    if i % 9 < 4:
        p.update(pdfx=1.0)
    elif i % 9 < 8:
        p.update(pdfa=1.0)
    return p


class Trial:
    """One sequence of calls in which one has to be refused, or the writing has to be and to leave no file."""

    def __init__(self, lib, rng, path):
        self.lib, self.r, self.path = lib, rng, path
        self.refused = None
        self.trash = []

    def call(self, fn, *args):
        if self.refused is None:
            rc = getattr(self.lib.dll, 'capy_' + fn)(*args)
            if rc:
                self.refused = (fn, rc)
            return rc == 0
        return False

    def must(self, fn, *args):
        rc = getattr(self.lib.dll, 'capy_' + fn)(*args)
        if rc:
            raise model.Refused(fn, rc, self.lib.dll.capy_error_message(rc).decode())

    def ptr(self, fn, destroy, *args, at=None, must=True):
        o = C.c_void_p()
        a = list(args)
        a.insert(len(a) if at is None else at, C.byref(o))
        (self.must if must else self.call)(fn, *a)
        if o.value:
            self.trash.append((destroy, o))
        return o

    def end(self):
        for fn, h in reversed(self.trash):
            getattr(self.lib.dll, 'capy_' + fn)(h)
        self.trash = []
        if os.path.exists(self.path):
            os.unlink(self.path)
            return True
        return False


def props(t, kind, sub, cs, have, intent):
    """document properties; have: {colour space: profile path}"""
    E = t.lib.E
    d = t.ptr('document_properties_new', 'document_properties_destroy')
    calls = [('document_properties_set_colorspace', (E['CAPY_DEVICE_CS_' + cs],))]
    for k, f in have.items():
        calls.append(('document_properties_set_device_profile', (E['CAPY_DEVICE_CS_' + k], f.encode())))
    if intent is not None:
        calls.append(('document_properties_set_output_intent', (intent.encode(), -1)))
    calls.append(('document_properties_set_' + kind, (sub,)))
    t.r.shuffle(calls)
    for fn, a in calls:
        if t.refused is None:
            t.call(fn, d, *a)
    return d


def finish(t, g):
    pg = t.ptr('page_draw_context_new', 'dc_destroy', g)
    t.call('dc_cmd_re', pg, 1.0, 2.0, 3.0, 4.0)
    t.call('dc_cmd_f', pg)
    if t.refused is None:
        t.call('generator_add_page', g, pg)
        t.call('generator_write', g)


def trial(state, rng, path):
    """-> (what, issue or None)"""
    lib = state.lib
    E = lib.E
    t = Trial(lib, rng, path)
    kind = rng.choice(['pdfx', 'pdfa'])
    name, sub = rng.choice(lib.h.enumtypes['CapyPDF_PDFX_Type' if kind == 'pdfx' else 'CapyPDF_PDFA_Type'])
    files = {cs: path + '.%s.icc' % cs for cs in ('RGB', 'GRAY', 'CMYK')}
    for cs, f in files.items():
        with open(f, 'wb') as fp:
            fp.write(open(gen.ICC[cs], 'rb').read() if cs in gen.ICC and rng.random() < 0.8 else profiles.MAKE[cs](rng))
    what = None
    try:
        cs = rng.choice(['RGB', 'GRAY', 'CMYK'])
        k = rng.randrange(4)
        if k == 0:
            others = [c for c in files if c != cs and rng.random() < 0.5]
            what = 'no %s output profile' % cs
            d = props(t, kind, sub, cs, {c: files[c] for c in others}, 'Intent')
            g = t.ptr('generator_new', 'generator_destroy', path.encode(), d, must=False)
            if t.refused is None:
                finish(t, g)
        elif k == 1:
            what = 'no condition identifier'
            d = props(t, kind, sub, cs, {c: files[c] for c in files if c == cs or rng.random() < 0.5}, rng.choice([None, '']))
            g = t.ptr('generator_new', 'generator_destroy', path.encode(), d, must=False)
            if t.refused is None:
                finish(t, g)
        elif k == 2:
            what = 'output profile of another colour space'
            have = dict(files)
            have[cs] = files[rng.choice([c for c in files if c != cs])]
            d = props(t, kind, sub, cs, have, 'Intent')
            g = t.ptr('generator_new', 'generator_destroy', path.encode(), d, must=False)
            if t.refused is None:
                finish(t, g)
        else:
            kind, (name, sub) = 'pdfx', rng.choice(lib.h.enumtypes['CapyPDF_PDFX_Type'])
            d = props(t, kind, sub, 'CMYK', files, 'Intent')
            g = t.ptr('generator_new', 'generator_destroy', path.encode(), d, must=False)
            if t.refused is not None:
                raise model.Refused(*t.refused, 'a valid PDF/X document')
            what = rgb_image(t, g, path, rng)
            if t.refused is None:
                finish(t, g)
        what = '%s %s: %s' % (kind, name[5:], what)
        refused = t.refused
        left = t.end()
        if refused is None:
            return what, {'key': 'accepted.%s' % what.split(': ')[1], 'msg': 'a document was written that its subtype forbids: ' + what}
        if left:
            return what, {'key': 'left.%s' % what.split(': ')[1], 'msg': 'a file was left behind although %s was refused: %s' % (refused, what)}
        return what, None
    finally:
        t.end()
        for f in files.values():
            os.unlink(f)


def rgb_image(t, g, path, rng):
    from PIL import Image
    lib = t.lib
    E = lib.E
    w, h = rng.randint(1, 9), rng.randint(1, 9)
    k = rng.choice(['raw', 'jpeg', 'png', 'png alpha', 'tiff', 'png palette', 'converted', 'png profile'])
    icc = profiles.rgb(rng)
    img = Image.frombytes('RGB', (w, h), rng.randbytes(3 * w * h))
    b = io.BytesIO()
    if k in ('raw', 'converted'):
        cs = 'RGB' if k == 'raw' else rng.choice(['GRAY', 'CMYK'])
        bld = t.ptr('raster_image_builder_new', 'raster_image_builder_destroy')
        px = rng.randbytes(w * h * cmm.CH[cs])
        t.must('raster_image_builder_set_size', bld, w, h)
        t.must('raster_image_builder_set_colorspace', bld, E['CAPY_IMAGE_CS_' + cs])
        t.must('raster_image_builder_set_pixel_depth', bld, 8)
        t.must('raster_image_builder_set_pixel_data', bld, px, len(px))
        im = t.ptr('raster_image_builder_build', 'raster_image_destroy', bld)
        if k == 'converted':
            im = t.ptr('generator_convert_image', 'raster_image_destroy', g, im, E['CAPY_DEVICE_CS_RGB'], rng.randrange(4))
    else:
        if k == 'png alpha':
            img.putalpha(Image.frombytes('L', (w, h), rng.randbytes(w * h)))
        if k == 'png palette':
            img = Image.frombytes('P', (w, h), bytes(rng.randrange(16) for _ in range(w * h)))
            img.putpalette(list(rng.randbytes(48)))
        kw = {'icc_profile': icc} if k == 'png profile' or rng.random() < 0.3 and k not in ('png palette',) else {}
        img.save(b, {'j': 'JPEG', 'p': 'PNG', 't': 'TIFF'}[k[0]], **kw)
        d = b.getvalue()
        if rng.random() < 0.5:
            im = t.ptr('generator_load_image_from_memory', 'raster_image_destroy', g, d, len(d), must=False)
        else:
            f = path + '.img'
            open(f, 'wb').write(d)
            im = t.ptr('generator_load_image', 'raster_image_destroy', g, f.encode(), must=False)
            os.unlink(f)
    p = t.ptr('image_pdf_properties_new', 'image_pdf_properties_destroy')
    if rng.random() < 0.3:
        t.must('image_pdf_properties_set_interpolate', p, rng.randrange(3))
    o = invalid.IdStruct(-1)
    if t.refused is None:
        t.call('generator_add_image', g, im, p, C.byref(o))
    return 'RGB picture (%s)' % k


def tweak(g, P, v, r):
    rng = random.Random('p22/%r' % g.rng.random())
    for _ in range(6):
        what, iss = trial(state_of(), rng, g.doc.path + '.trial')
        r['stats']['forbidden'] = r['stats'].get('forbidden', 0) + 1
        r['distinct'].append(what)
        if iss:
            r['issues'].append(iss)


_S = []


def state_of():
    return _S[0]


def setup(seed, tier):
    s = doccheck.State()
    _S.append(s)
    return s


doccheck.define(globals(), 'P22', 'One document for a PDF/X or PDF/A subtype (and some plain ones); version, identification, XMP packet, output intent, profile checked; '
                'then six documents that their subtype forbids (missing or wrong profile, no identifier, RGB pictures), each of which has to be refused.',
                prof, n=(750, 10000), tweak=tweak, setup=setup, MIN_STATS={'objects': 5000, 'xmp': 50, 'forbidden': 500})
