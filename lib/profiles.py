"""Synthesised ICC profiles whose rendering intents differ."""
import ctypes as C, functools, os, struct, sys
import cmm

TD = os.path.join(os.environ.get('CAPY_REPO', '/repo'), 'testdata', 'icc')


def cmyk(rng):
    """The test profile with other tables for the perceptual and the saturation intent, a new white point and sometimes no other text."""
    d = bytearray(open(os.path.join(TD, 'FOGRA29L.icc'), 'rb').read())
    n = struct.unpack('>I', d[128:132])[0]
    tags = [struct.unpack('>4sII', d[132 + 12 * i:144 + 12 * i]) for i in range(n)]
    drop = {b'targ', b'DevD', b'CIED', b'gamt'}
    out, head, pos = {}, [], 132 + 12 * sum(t[0] not in drop for t in tags)
    body = bytearray()
    for sig, off, ln in tags:
        if sig in drop:
            continue
        b = bytearray(d[off:off + ln])
        if sig in (b'A2B0', b'A2B2', b'B2A0', b'B2A2'):
            k = rng.choice((0x10, 0x20, 0x30)) if sig[3:] == b'0' else rng.choice((0x48, 0x58, 0x68))
            i, o, g = b[8:11]
            ni, no = struct.unpack('>HH', b[48:52])
            a = 52 + 2 * i * ni
            e = a + 2 * o * g ** i
            b[a:e:2] = bytes(x ^ k if x < 0xf0 else x for x in b[a:e:2])
        key = bytes(b)
        if key not in out:
            out[key] = pos + len(body)
            body += b + bytes(-len(b) % 4)
        head.append(struct.pack('>4sII', sig, out[key], len(b)))
    r = bytes(d[:128]) + struct.pack('>I', len(head)) + b''.join(head) + bytes(body)
    return struct.pack('>I', len(r)) + r[4:]


def saved(h):
    d = cmm.dll()
    d.cmsSaveProfileToMem.argtypes = [C.c_void_p, C.c_void_p, C.POINTER(C.c_uint32)]
    n = C.c_uint32()
    d.cmsSaveProfileToMem(h, None, C.byref(n))
    b = C.create_string_buffer(n.value)
    d.cmsSaveProfileToMem(h, b, C.byref(n))
    r = bytearray(b.raw[:n.value])
    r[24:36] = struct.pack('>6H', 2020, 1, 2, 3, 4, 5)      # creation date
    r[84:100] = bytes(16)                                   # profile id
    d.cmsCloseProfile(h)
    return bytes(r)


class XYY(C.Structure):
    _fields_ = [('x', C.c_double), ('y', C.c_double), ('Y', C.c_double)]


class PRIM(C.Structure):
    _fields_ = [('r', XYY), ('g', XYY), ('b', XYY)]


def curve(g):
    return cmm.dll().cmsBuildGamma(None, g)


def gray(rng):
    d = cmm.dll()
    cv = curve(rng.choice((1.8, 2.2, 2.4, 0.7)))
    w = XYY(0.3127, 0.3290, 1.0)
    d.cmsCreateGrayProfile.argtypes = [C.c_void_p, C.c_void_p]
    h = d.cmsCreateGrayProfile(C.cast(C.byref(w), C.c_void_p) if rng.random() < 0.5 else d.cmsD50_xyY(), cv)
    d.cmsFreeToneCurve(cv)
    return saved(h)


def rgb(rng):
    d = cmm.dll()
    d.cmsCreateRGBProfile.restype = C.c_void_p
    d.cmsCreateRGBProfile.argtypes = [C.c_void_p, C.c_void_p, C.c_void_p]
    cv = curve(rng.choice((1.0, 1.8, 2.2, 2.6)))
    w = XYY(*rng.choice(((0.3127, 0.3290, 1.0), (0.3457, 0.3585, 1.0), (0.28, 0.29, 1.0))))
    p = PRIM(XYY(0.64 + rng.uniform(-0.03, 0.05), 0.33, 1), XYY(0.25, 0.65 + rng.uniform(0, 0.1), 1), XYY(0.15, 0.06, 1))
    h = d.cmsCreateRGBProfile(C.byref(w), C.byref(p), (C.c_void_p * 3)(cv, cv, cv))
    d.cmsFreeToneCurve(cv)
    return saved(h)


MAKE = {'CMYK': cmyk, 'GRAY': gray, 'RGB': rgb}
