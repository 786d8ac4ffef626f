import random
import doccheck
def prof(r, i):
    p = dict(blob=(0, 3000), use_all=0.3, embed=0.7)
    k = i % 6
    if k == 0:
        p.update(pdfx=1.0, img_rgb=False)
    elif k == 1:
        p.update(pdfa=1.0)
    elif k == 2:
        p['env'] = {'CAPY_DEBUG_PDF': '1'}
    if k == 3:
        p.update(steps=(150, 300), pages=(1, 30))
    if r.random() < 0.3:
        p['strs'] = 'nasty'
    return p
doccheck.define(globals(), 'P01', 'One document from a random API program (all object kinds, PDF 1.3 to 2.0 layouts, compressed and not); distinct by size and contents.',
                prof, n=(800, 12000), MIN_STATS={'objects': 5000}, CASE_LIMIT=180,
                bulk=[[('image:random', 17 << 20), dict(pdfx=1.0, pdfx_type='PDFX_3_2003', pdfa=0.0, img_rgb=False)], [('embed:random', [1 << 20, (1 << 20) - 1, (1 << 20) + 1, 3 << 20])], [('embed:zero', [1 << 20, 1 << 21, (1 << 22) + 1]), ('embed:rep', [1 << 20, 2500000])], [('image:random', [1 << 20, 3 << 20])], [('res:gstate', 66500)],
              [('pages', [300, 1100])], [('op:path', [10000, 60000])], [('glyphs', 300)], [('res:annot', 1000)], [('res:embed', [256, 300])], [('image:rep', [1 << 20, 5 << 20])], [('image:random', [9 << 20, 17 << 20])], [('deep:outline', 300)], [('deep:struct', 300), ('op:tag', 300)]])


def giant(state, seed, i):
    """files of more than 2 and 4 GiB: images are stored as they are, so a few of some 100 MB make them quickly"""
    import ctypes as C, mmap, os, re, shutil, zlib
    import model
    from PIL import Image
    rng = random.Random('P01/giant/%d/%d' % (seed, i))
    table, gib = [(False, 2.2), (True, 2.2), (True, 4.3), (False, 4.3)][i % 4]
    r = {'issues': [], 'stats': {'giant_documents': 1}, 'distinct': [], 'evals': 1, 'sample': {'giant': gib, 'table': table}}
    if shutil.disk_usage(state.dir).free < 20 << 30:
        r['stats'] = {'giant_skipped': 1}
        return r

    def bad(k, m):
        r['issues'].append({'key': 'giant.' + k, 'msg': '%s (%.1f GiB, %s)' % (m, gib, 'table' if table else 'stream')})
    A = model.Api(state.lib, rng)
    jpg, out = os.path.join(state.dir, 'giant.jpg'), os.path.join(state.dir, 'giant.pdf')
    dp, g, dc = C.c_void_p(), C.c_void_p(), C.c_void_p()
    try:
        Image.new('L', (3, 2), 77).save(jpg)
        A.do('document_properties_new', C.byref(dp))
        if table:
            E = state.lib.E
            A.do('document_properties_set_pdfa', dp, E['CAPY_PDFA_1b'])
            A.do('document_properties_set_output_intent', dp, b'Intent', -1)
            import profiles
            A.do('document_properties_set_device_profile', dp, E['CAPY_DEVICE_CS_RGB'], os.path.join(profiles.TD, 'compatibleWithAdobeRGB1998.icc').encode())
            A.do('document_properties_set_colorspace', dp, E['CAPY_DEVICE_CS_RGB'])
        A.do('generator_new', out.encode(), dp, C.byref(g))
        sizes, left = [], int(gib * (1 << 30))
        while left > 0:
            n = min(left, rng.randrange(200 << 20, 500 << 20))
            os.truncate(jpg, max(n, 2000))
            im, ip, iid = C.c_void_p(), C.c_void_p(), C.c_int()
            A.do('generator_load_image', g, jpg.encode(), C.byref(im))
            A.do('image_pdf_properties_new', C.byref(ip))
            A.do('generator_add_image', g, im, ip, C.byref(iid))
            A.raw('image_pdf_properties_destroy', ip)
            sizes.append(max(n, 2000))
            left -= n
        A.do('page_draw_context_new', g, C.byref(dc))
        A.do('generator_add_page', g, dc, None)
        A.raw('dc_destroy', dc)
        rc = A.raw('generator_write', g)
        A.raw('generator_destroy', g)
        A.raw('document_properties_destroy', dp)
        if not table and gib > 4:
            if rc == 0 or os.path.exists(out):
                bad('offset', 'offsets of more than 32 bits were written into 4 byte fields')
            return r
        if rc:
            bad('refused', 'a valid document was not written: %d' % rc)
            return r
        with open(out, 'rb') as f, mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ) as b:
            sx = int(re.search(rb'startxref\s+(\d+)\s+%%EOF\s*$', b[-100:]).group(1))
            offs = {}
            if table:
                L = b[sx:sx + 100000].split(b'\n')
                if L[0] != b'xref':
                    bad('startxref', 'no table at %d' % sx)
                    return r
                for k in range(1, int(L[1].split()[1])):
                    offs[k] = int(L[2 + k][:10])
            else:
                h = b[sx:sx + 4000]
                m = re.search(rb'/Length (\d+)', h)
                if b'/XRef' not in h or not m:
                    bad('startxref', 'no cross-reference stream at %d' % sx)
                    return r
                at = h.index(b'stream\n') + 7
                data = b[sx + at:sx + at + int(m.group(1))]
                if b'/FlateDecode' in h[:at]:
                    data = zlib.decompress(data)
                for k in range(len(data) // 9):
                    if data[9 * k] == 1:
                        offs[k] = int.from_bytes(data[9 * k + 1:9 * k + 5], 'big')
            found = []
            for k, o in offs.items():
                h = b[o:o + 600]
                if not h.startswith(b'%d 0 obj' % k):
                    bad('offset', 'object %d is not at %d, there is %r' % (k, o, h[:30]))
                elif b'/DCTDecode' in h and b'/Subtype /Image' in h:
                    n = int(re.search(rb'/Length (\d+)', h).group(1))
                    found.append(n)
                    e = o + h.index(b'stream\n') + 7 + n
                    if b[e:e + 10].lstrip(b'\r\n') [:9] != b'endstream':
                        bad('length', 'stream %d does not end after its /Length' % k)
            if sorted(found) != sorted(sizes):
                bad('images', 'image sizes are %r instead of %r' % (found, sizes))
            r['stats']['giant_objects'] = len(offs)
            r['distinct'] = ['giant/%d/%s' % (len(b), table)]
        return r
    finally:
        for p in (jpg, out, out + '~'):
            if os.path.exists(p):
                os.unlink(p)


_run_doc, _cases = run_case, num_cases


def num_cases(tier):
    return _cases(tier) + (4 if tier == 'thorough' else 0)


def run_case(state, seed, i):
    if i >= _cases('thorough'):
        return giant(state, seed, i - _cases('thorough'))
    return _run_doc(state, seed, i)
