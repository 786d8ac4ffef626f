"""Colour conversion of 8 bit pictures with Little CMS, the reference for generator_convert_image."""
import ctypes as C, functools

# enum order of CapyPDF_Rendering_Intent -> ICC intent numbers
INTENT = [1, 3, 2, 0]
CH = {'RGB': 3, 'GRAY': 1, 'CMYK': 4}
FMT = {'RGB': (4 << 16) | (3 << 3) | 1, 'GRAY': (3 << 16) | (1 << 3) | 1, 'CMYK': (6 << 16) | (4 << 3) | 1}


@functools.lru_cache(None)
def dll():
    d = C.CDLL('liblcms2.so.2')
    for f, res, args in (('cmsOpenProfileFromMem', C.c_void_p, [C.c_char_p, C.c_uint32]), ('cmsCreate_sRGBProfile', C.c_void_p, []),
                         ('cmsBuildGamma', C.c_void_p, [C.c_void_p, C.c_double]), ('cmsD50_xyY', C.c_void_p, []),
                         ('cmsCreateGrayProfile', C.c_void_p, [C.c_void_p, C.c_void_p]), ('cmsFreeToneCurve', None, [C.c_void_p]),
                         ('cmsCloseProfile', C.c_int, [C.c_void_p]), ('cmsDeleteTransform', None, [C.c_void_p]),
                         ('cmsCreateTransform', C.c_void_p, [C.c_void_p, C.c_uint32, C.c_void_p, C.c_uint32, C.c_uint32, C.c_uint32]),
                         ('cmsDoTransform', None, [C.c_void_p, C.c_char_p, C.c_char_p, C.c_uint32])):
        fn = getattr(d, f)
        fn.restype, fn.argtypes = res, args
    return d


def profile(cs, data):
    d = dll()
    if data:
        return d.cmsOpenProfileFromMem(data, len(data))
    if cs == 'RGB':
        return d.cmsCreate_sRGBProfile()
    if cs == 'GRAY':
        cv = d.cmsBuildGamma(None, 1.0)
        p = d.cmsCreateGrayProfile(d.cmsD50_xyY(), cv)
        d.cmsFreeToneCurve(cv)
        return p
    return None


def convertible(src_cs, dst_cs, icc, device):
    """device: {cs: profile data} of the document"""
    return (src_cs != 'CMYK' or bool(icc) or 'CMYK' in device) and (dst_cs != 'CMYK' or 'CMYK' in device)


@functools.lru_cache(256)
def _convert(pixels, src_cs, dst_cs, ri, src, dst):
    d = dll()
    a, b = profile(src_cs, src), profile(dst_cs, dst)
    n = len(pixels) // CH[src_cs]
    out = C.create_string_buffer(n * CH[dst_cs])
    t = d.cmsCreateTransform(a, FMT[src_cs], b, FMT[dst_cs], INTENT[ri], 0)
    if not t:
        raise RuntimeError('no transform')
    d.cmsDoTransform(t, pixels, out, n)
    d.cmsDeleteTransform(t)
    d.cmsCloseProfile(a)
    d.cmsCloseProfile(b)
    return out.raw


def convert(pixels, src_cs, dst_cs, ri, icc, device):
    return _convert(bytes(pixels), src_cs, dst_cs, ri, icc or device.get(src_cs), device.get(dst_cs))
