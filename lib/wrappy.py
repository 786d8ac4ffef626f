"""Performs a recorded API program (record.py) through python/capypdf.py wherever the module can express it."""
import ctypes as C, os, random, re, struct, sys
from record import functions, is_handle, NULL, INT, DBL, HANDLE, OUTHANDLE, BUF, HARRAY, IDV, STR, OUTFILE

ENUM_CLASS = {'Line_Cap': 'LineCapStyle', 'Line_Join': 'LineJoinStyle', 'Line_Annotation_End_Style': 'LineAnnotationEndStyle', 'Blend_Mode': 'BlendMode',
              'Device_Colorspace': 'DeviceColorspace', 'Image_Colorspace': 'ImageColorspace', 'Soft_Mask_Subtype': 'SoftMaskSubType', 'Transition_Type': 'TransitionType',
              'Transition_Dimension': 'TransitionDimension', 'Transition_Motion': 'TransitionMotion', 'Page_Box': 'PageBox', 'Rendering_Intent': 'RenderingIntent',
              'Text_Mode': 'TextMode', 'PDFX_Type': 'PdfXType', 'PDFA_Type': 'PdfAType', 'Image_Interpolation': 'ImageInterpolation', 'Compression': 'Compression',
              'Structure_Type': 'StructureType', 'Page_Layout': 'PageLayout', 'Page_Mode': 'PageMode', 'Halftone_Spot_Function': 'HalftoneSpotFunction',
              '3D_File_Format': 'ThreeDFileFormat', 'Black_Point_Compensation': 'BlackPointCompensation', 'Form_Field_Type': 'FormFieldType', 'Collection_View': 'CollectionView'}
FLAG_CLASS = {'Annotation_Flags': 'AnnotationFlag', 'Form_Field_Flags': 'FormFieldFlags'}
# constants whose Python name does not follow from the C name
ALIAS = {'CAPY_LINE_ANNOTATION_END_NONE': ['NoEnding'], 'CAPY_LINE_ANNOTATION_END_R_OPEN_ARROW': ['ROpenArrow', 'ROpenAreow'], 'CAPY_COMPRESSION_NONE': ['Not'],
         'CAPY_INTERPOLATION_AUTO': ['Automatic'], 'CAPY_HT_FUNC_DOUBLEDOT': ['DoubleDot', 'DoubleDpt'],
         'CAPY_HT_FUNC_INVERTED_DOUBLEDOT': ['Inverted_DoubleDot', 'Inverted_DoubldDot'], 'CAPY_FFIELD_NONE': ['Nothing'],
         'CAPY_FFIELD_COMMITONSELCHANGE': ['CommitOnSelChange', 'CommtOnSelChange'], 'CAPY_LC_PROJECTION': ['Projection_Square'],
         'CAPY_3D_UDF': ['UDF', 'U3D']}
SELF = [('capy_document_properties_', 'DocumentProperties'), ('capy_page_properties_', 'PageProperties'), ('capy_generator_', 'Generator'), ('capy_dc_', 'DrawContextBase'),
        ('capy_text_sequence_', 'TextSequence'), ('capy_text_', 'Text'), ('capy_color_', 'Color'), ('capy_transition_', 'Transition'), ('capy_graphics_state_', 'GraphicsState'),
        ('capy_transparency_group_properties_', 'TransparencyGroupProperties'), ('capy_raster_image_builder_', 'RasterImageBuilder'), ('capy_raster_image_', 'RasterImage'),
        ('capy_annotation_', 'Annotation'), ('capy_struct_item_extra_data_', 'StructItemExtraData'), ('capy_image_pdf_properties_', 'ImagePdfProperties'),
        ('capy_destination_', 'Destination'), ('capy_outline_', 'Outline'), ('capy_shading_pattern_', 'ShadingPattern'), ('capy_shading_', 'Shading'),
        ('capy_type4_shading_', 'Shading'), ('capy_type6_shading_', 'Shading'), ('capy_embedded_file_', 'EmbeddedFile'), ('capy_font_properties_', 'FontProperties'),
        ('capy_halftone_', 'Halftone'), ('capy_form_field_', 'FormField'), ('capy_collection_', 'Collection')]
RENAME = {'capy_dc_cmd_BDC_ocg': 'cmd_BDC', 'capy_dc_cmd_Do_trgroup': 'cmd_Do', 'capy_dc_cmd_Do_image': 'cmd_Do', 'capy_generator_add_custom_structure_item': 'add_structure_item'}
PLAIN_NEW = {'capy_document_properties_new': 'DocumentProperties', 'capy_page_properties_new': 'PageProperties', 'capy_text_sequence_new': 'TextSequence', 'capy_color_new': 'Color',
             'capy_transition_new': 'Transition', 'capy_graphics_state_new': 'GraphicsState', 'capy_transparency_group_properties_new': 'TransparencyGroupProperties',
             'capy_raster_image_builder_new': 'RasterImageBuilder', 'capy_struct_item_extra_data_new': 'StructItemExtraData', 'capy_image_pdf_properties_new': 'ImagePdfProperties',
             'capy_destination_new': 'Destination', 'capy_outline_new': 'Outline', 'capy_embedded_file_new': 'EmbeddedFile', 'capy_font_properties_new': 'FontProperties',
             'capy_halftone_new': 'Halftone', 'capy_collection_new': 'Collection', 'capy_soft_mask_new': 'SoftMask', 'capy_shading_pattern_new': 'ShadingPattern',
             'capy_3d_stream_new': 'ThreeDStream', 'capy_form_field_new': 'FormField', 'capy_generator_new': 'Generator', 'capy_type2_function_new': 'Type2Function',
             'capy_type3_function_new': 'Type3Function', 'capy_type4_function_new': 'Type4Function', 'capy_type2_shading_new': 'Type2Shading', 'capy_type3_shading_new': 'Type3Shading',
             'capy_type4_shading_new': 'Type4Shading', 'capy_type6_shading_new': 'Type6Shading', 'capy_optional_content_group_new': 'OptionalContentGroup',
             'capy_form_xobject_new': 'FormXObjectDrawContext'}
CLASS_NEW = {'capy_text_annotation_new': 'new_text_annotation', 'capy_link_annotation_new': 'new_link_annotation', 'capy_line_annotation_new': 'new_line_annotation',
             'capy_file_attachment_annotation_new': 'new_file_attachment_annotation', 'capy_printers_mark_annotation_new': 'new_printers_mark_annotation',
             'capy_3d_annotation_new': 'new_3d_annotation', 'capy_widget_annotation_new': 'new_widget_annotation'}
METHOD_NEW = {'capy_page_draw_context_new': 'page_draw_context', 'capy_transparency_group_new': 'transparency_group_context',
              'capy_tiling_pattern_context_new': 'create_tiling_pattern_context', 'capy_dc_text_new': 'text_new', 'capy_generator_load_image': 'load_image',
              'capy_generator_convert_image': 'convert_image', 'capy_raster_image_builder_build': 'build'}
BOOLS = {'is_tagged', 'I', 'K', 'as_mask', 'starting', 'ending', 'is_opaque'}
BOOL_FNS = {'capy_graphics_state_set_op', 'capy_graphics_state_set_OP', 'capy_graphics_state_set_TK'}
PATHS = {'filename', 'fname', 'profile_path', 'path'}
BYTES = {'capy_raster_image_builder_set_pixel_data', 'capy_embedded_file_set_contents'}
MAYBE_BYTES = {'capy_form_field_set_V', 'capy_collection_set_D'}
ID_CLASS = {'CapyPDF_3DStreamId': 'ThreeDStreamId'}
# the module has its own message for what C refuses too
OWN_MESSAGE = {'capy_type4_shading_extend', 'capy_type6_shading_extend'}
EXPECTED = (UnicodeError, C.ArgumentError, ValueError, OverflowError)


class CannotExpress(Exception):
    pass


def norm(s):
    return s.replace('_', '').lower()


def enum_names(h, pym):
    """(enum type, value) -> member of the Python class with the name of the C constant; and what is wrong with the classes"""
    res, bad = {}, []
    for ct, pc in list(ENUM_CLASS.items()) + list(FLAG_CLASS.items()):
        cls = getattr(pym, pc, None)
        consts = h.enumtypes.get('CapyPDF_' + ct)
        if cls is None or consts is None:
            continue
        if not hasattr(cls, '__members__'):
            bad.append('%s has no members' % pc)
            continue
        names = {norm(n): m for n, m in cls.__members__.items()}
        claimed = set()
        for cn, v in consts:
            cand = [norm(x) for x in ALIAS.get(cn, [])]
            parts = cn.split('_')
            cand += [norm(''.join(parts[k:])) for k in range(1, len(parts))] + [norm('X' + ''.join(parts[k:])) for k in range(2, len(parts))] + \
                    [norm('A' + ''.join(parts[k:])) for k in range(2, len(parts))]
            m = next((names[x] for x in cand if x in names), None)
            if m is None:
                continue
            res[ct, v] = m
            claimed.add(m)
            if m.value != v:
                bad.append('%s.%s is %r, %s is %r' % (pc, m.name, m.value, cn, v))
        for n, m in cls.__members__.items():
            if m not in claimed:
                bad.append('%s.%s (%r) is no constant of CapyPDF_%s' % (pc, n, m.value, ct))
    return res, bad


class Player:
    def __init__(self, h, pym, rng):
        self.h, self.m, self.rng = h, pym, rng
        self.fns = functions(h)
        self.members, self.bad_enums = enum_names(h, pym)
        self.members_by_value = {}
        self.dll = pym.libfile
        self.raw = {}
        self.unraisable = []
        self.used, self.thrown = {}, 0

    def rawfn(self, fn):
        """the C function with argument types from the header (the module's own are left alone)"""
        f = self.raw.get(fn)
        if f is None:
            from capi import _PRIM
            ret, params = self.h.funcs[fn]
            at = []
            for t, s, n, c in params:
                at.append(C.c_void_p if s else IdS if t in self.h.ids else _PRIM.get(t, C.c_int))
            addr = C.cast(getattr(self.dll, fn), C.c_void_p).value
            f = self.raw[fn] = C.CFUNCTYPE(C.c_int32, *at)(addr)
        return f

    def run(self, path, outfile):
        data = open(path, 'rb').read()
        ncalls, nslots = struct.unpack_from('<II', data)
        p = 8
        self.slots = {}
        self.rawslots = {}
        self.text_dc = {}
        self.pending = {}
        problems = []
        for c in range(ncalls):
            fn, rc, na = struct.unpack_from('<Hib', data, p)
            p += 7
            fn = self.fns[fn]
            args, after = [], {}
            for k in range(na):
                t = data[p]
                p += 1
                if t == NULL:
                    args.append((t, None))
                elif t == INT:
                    args.append((t, struct.unpack_from('<q', data, p)[0]))
                    p += 8
                elif t == DBL:
                    args.append((t, struct.unpack_from('<d', data, p)[0]))
                    p += 8
                elif t in (HANDLE, OUTHANDLE):
                    args.append((t, struct.unpack_from('<I', data, p)[0]))
                    p += 4
                elif t == IDV:
                    args.append((t, struct.unpack_from('<i', data, p)[0]))
                    p += 4
                elif t in (STR, BUF):
                    n, = struct.unpack_from('<I', data, p)
                    args.append((t, data[p + 4:p + 4 + n]))
                    p += 4 + n
                    if t == BUF:
                        after[k] = data[p:p + n]
                        p += n
                elif t == HARRAY:
                    n, = struct.unpack_from('<I', data, p)
                    args.append((t, list(struct.unpack_from('<%dI' % n, data, p + 4))))
                    p += 4 + 4 * n
                elif t == OUTFILE:
                    args.append((t, outfile.encode()))
            if not self.call(c, fn, rc, args, after, problems):
                break
        self.slots.clear()
        self.pending.clear()
        return problems, ncalls

    # one call
    def call(self, c, fn, rc, args, after, problems):
        ret, params = self.h.funcs[fn]
        try:
            thunk, outk = self.express(fn, args, params)
        except CannotExpress:
            return self.rawcall(c, fn, rc, args, after, params, problems)
        self.used[fn] = self.used.get(fn, 0) + 1
        try:
            r = thunk()
        except self.m.CapyPDFException as e:
            self.thrown += 1
            want = self.dll.capy_error_message(rc).decode('utf-8', 'ignore')
            if rc == 0 or str(e) != want and fn not in OWN_MESSAGE:
                problems.append(('outcome ' + fn, 'call %d %s: the C call returned %d (%s), the module raised %r' % (c, fn, rc, want, e)))
                return False
            return True
        except EXPECTED as e:
            if rc == 0:
                problems.append(('outcome ' + fn, 'call %d %s: the C call was accepted, the module raised %r' % (c, fn, e)))
                return False
            return True
        except Exception as e:
            problems.append(('broken ' + fn, 'call %d %s (C call: %d): the module raised %r' % (c, fn, rc, e)))
            return False
        if rc != 0:
            problems.append(('outcome ' + fn, 'call %d %s: the C call was refused (%d), the module did not raise' % (c, fn, rc)))
            return False
        want = [(k, after[k]) for k in outk if k in after]
        if want:
            got = r if isinstance(r, tuple) else (r,)
            for (k, b), v in zip(want, got):
                t = params[k][0]
                if t in self.h.ids:
                    ok = isinstance(v, C.Structure) and v.id == struct.unpack('<i', b)[0] and type(v).__name__ == ID_CLASS.get(t, t[8:])
                elif t == 'double':
                    ok = v == struct.unpack('<d', b)[0]
                else:
                    w = struct.unpack('<i', b)[0]
                    ok = getattr(v, 'value', v) == w
                if not ok:
                    problems.append(('result ' + fn, 'call %d %s: the module returned %r, the C call stored %s' % (c, fn, v, b.hex())))
        for k, (t, v) in enumerate(args):
            if t == OUTHANDLE:
                self.slots[v] = r
        return True

    def express(self, fn, args, params):
        m = self.m
        if fn.endswith('_destroy'):
            n = args[0][1]
            if n not in self.slots:
                raise CannotExpress
            return (lambda: self.drop(n)), []
        sizes = {}
        for i in range(len(params) - 1):
            nt = params[i + 1]
            if params[i][1] == 1 and not is_handle(self.h, params[i][0]) and nt[1] == 0 and nt[0].endswith('_t') and any(k in nt[2] for k in ('size', 'bytes', 'len', 'num')):
                sizes[i] = i + 1
        outk = [k for k, p in enumerate(params) if p[1] and p[2] == 'out_ptr' or fn == 'capy_raster_image_get_size' and k]
        L = []
        for k, (t, s, n, const) in enumerate(params):
            if k in outk or k - 1 in sizes:
                continue
            kind, v = args[k]
            L.append(self.value(fn, k, t, s, n, kind, v, args[sizes[k]][1] if k in sizes else None))
        if fn in PLAIN_NEW:
            cls = getattr(m, PLAIN_NEW[fn], None)
            if cls is None:
                raise CannotExpress
            if fn == 'capy_generator_new' and self.rng.random() < 0.5 and isinstance(L[0], bytes):
                L[0] = L[0].decode()
            return (lambda: cls(*L)), outk
        if fn in CLASS_NEW:
            f = getattr(m.Annotation, CLASS_NEW[fn], None)
            if f is None:
                raise CannotExpress
            return (lambda: f(*L)), outk
        if not L or isinstance(L[0], (bytes, str, int, float)) or not hasattr(L[0], '_as_parameter_'):
            raise CannotExpress
        o, L = L[0], L[1:]
        if fn in METHOD_NEW:
            name = METHOD_NEW[fn]
        else:
            pre = next((p for p, _ in SELF if fn.startswith(p)), None)
            if pre is None:
                raise CannotExpress
            name = RENAME.get(fn, fn[len(pre):])
        # the context managers do the same as the calls
        d = self.pending.setdefault(id(o), [])
        r = self.rng.random() < 0.3
        if fn == 'capy_dc_cmd_q' and r and hasattr(o, 'push_gstate'):
            def push():
                d.append(o.push_gstate())
            return push, []
        if fn == 'capy_dc_cmd_Q' and d and r:
            return (lambda: d.pop().__exit__(None, None, None) and None), []
        if fn == 'capy_generator_add_page' and r and type(L[0]).__name__ == 'DrawContext' and getattr(L[0], 'generator', None) is o:
            return (lambda: L[0].__exit__(None, None, None) and None), []
        if fn == 'capy_dc_render_text_obj' and r and getattr(L[0], 'dc', None) is o:
            return (lambda: L[0].__exit__(None, None, None) and None), []
        if fn == 'capy_generator_write' and r:
            return (lambda: o.__exit__(None, None, None) and None), []
        if fn == 'capy_dc_cmd_cm':
            a = L
            if a[:4] == [1, 0, 0, 1] and r:
                return (lambda: o.translate(a[4], a[5])), []
            if a[1] == a[2] == a[4] == a[5] == 0 and r:
                return (lambda: o.scale(a[0], a[3])), []
            if a[4] == a[5] == 0 and a[0] == a[3] and a[1] == -a[2]:
                import math
                ang = round(math.atan2(a[1], a[0]) * 16) / 16
                if math.cos(ang) == a[0] and math.sin(ang) == a[1]:
                    return (lambda: o.rotate(ang)), []
        if fn == 'capy_generator_load_font' and L[1] is None and self.rng.random() < 0.5:
            L = L[:1]
        if fn == 'capy_generator_add_structure_item' or fn == 'capy_generator_add_custom_structure_item':
            if L[1] is None and L[2] is None and r:
                L = L[:1]
        if fn in ('capy_dc_cmd_BDC_builtin', 'capy_text_cmd_BDC_builtin'):
            if len(L) > 1 and L[1] is not None:
                raise CannotExpress
            L = L[:1]
        f = getattr(o, name, None)
        if f is None:
            raise CannotExpress
        if fn in ('capy_dc_cmd_BMC', 'capy_dc_cmd_BDC_builtin', 'capy_text_cmd_BDC_builtin'):
            return (lambda: f(*L) and None), []
        return (lambda: f(*L)), outk

    def value(self, fn, k, t, s, n, kind, v, size):
        m, h = self.m, self.h
        if kind == NULL:
            if fn in ('capy_destination_set_page_xyz', 'capy_generator_load_font', 'capy_generator_add_structure_item', 'capy_generator_add_custom_structure_item',
                      'capy_dc_cmd_BDC_builtin', 'capy_dc_add_simple_navigation'):
                return None
            raise CannotExpress
        if kind == HANDLE:
            if v not in self.slots:
                raise CannotExpress
            return self.slots[v]
        if kind == HARRAY:
            if any(x not in self.slots for x in v):
                raise CannotExpress
            return self.seq([self.slots[x] for x in v])
        if kind == OUTFILE:
            return v
        if kind == DBL:
            return v
        if kind == IDV:
            return getattr(m, ID_CLASS.get(t, t[8:]))(v)
        if kind == INT:
            if t in h.enumtypes or t.startswith('CapyPDF_'):
                ct = t[8:]
                if ct in FLAG_CLASS:
                    try:
                        return getattr(m, FLAG_CLASS[ct])(v)
                    except (ValueError, AttributeError):
                        raise CannotExpress
                if ct not in ENUM_CLASS or not hasattr(m, ENUM_CLASS[ct]):
                    raise CannotExpress
                if (ct, v) in self.members:
                    return self.members[ct, v]
                raise CannotExpress
            if fn == 'capy_form_field_set_Ff':
                x = m.FormFieldFlags(v)
                if x.value != v:
                    raise CannotExpress
                return x
            if n in BOOLS or fn in BOOL_FNS:
                if v not in (0, 1):
                    raise CannotExpress
                return bool(v)
            return v
        if kind == STR:
            if size is not None and size < -1:
                raise CannotExpress
            b = v if size is not None and size >= 0 else v[:-1]
            if n in PATHS:
                if self.rng.random() < 0.5:
                    return b
                try:
                    return b.decode()
                except UnicodeDecodeError:
                    return b
            if fn in BYTES or fn in MAYBE_BYTES and self.rng.random() < 0.5:
                return b
            if size is None and b'\0' in b:
                raise CannotExpress
            try:
                x = b.decode('utf-8')
            except UnicodeDecodeError:
                raise CannotExpress
            return x
        if kind == BUF:
            if t == 'double':
                L = list(struct.unpack('<%dd' % (len(v) // 8), v))
                if fn == 'capy_destination_set_page_xyz':
                    return L[0]
                if size is not None and size != len(L):
                    raise CannotExpress
                return self.seq(L)
            if t in h.ids:
                cls = getattr(m, ID_CLASS.get(t, t[8:]))
                L = [cls(x) for x in struct.unpack('<%di' % (len(v) // 4), v)]
                if n == 'parent':
                    return L[0]
                if size is not None and size != len(L):
                    raise CannotExpress
                return self.seq(L)
        raise CannotExpress

    def seq(self, L):
        return tuple(L) if self.rng.random() < 0.5 else L

    def drop(self, n):
        o = self.slots.pop(n)
        self.pending.pop(id(o), None)

    def rawcall(self, c, fn, rc, args, after, params, problems):
        keep, L, outs = [], [], []
        for k, ((kind, v), (t, s, n, const)) in enumerate(zip(args, params)):
            if kind == NULL:
                L.append(None)
            elif kind in (INT, DBL):
                L.append(v)
            elif kind == IDV:
                L.append(IdS(v))
            elif kind == HANDLE:
                L.append(self.handle(v))
            elif kind == OUTHANDLE:
                x = C.c_void_p()
                outs.append((x, v))
                L.append(C.addressof(x))
            elif kind == HARRAY:
                a = (C.c_void_p * (len(v) + 1))(*[self.handle(x) for x in v])
                keep.append(a)
                L.append(C.addressof(a))
            else:
                b = C.create_string_buffer(v, max(1, len(v) + (kind == OUTFILE)))
                keep.append(b)
                L.append(C.addressof(b))
                if kind == BUF:
                    outs.append((b, k))
        r = self.rawfn(fn)(*L)
        if '*' in self.h.funcs[fn][0]:
            return True
        if r != rc:
            problems.append(('outcome ' + fn, 'call %d %s made directly returned %d, before %d' % (c, fn, r, rc)))
            return rc != 0
        for x, v in outs:
            if isinstance(x, C.c_void_p):
                if x.value:
                    self.rawslots[v] = x.value
                    self.slots.pop(v, None)
            elif rc == 0 and bytes(x)[:len(after[v])] != after[v]:
                problems.append(('result ' + fn, 'call %d %s made directly gave another result' % (c, fn)))
        return True

    def handle(self, n):
        o = self.slots.get(n)
        if o is None:
            return self.rawslots.get(n)
        return o._as_parameter_


class IdS(C.Structure):
    _fields_ = [('id', C.c_int32)]
