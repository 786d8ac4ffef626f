"""Writes the C++ dispatcher that performs recorded C API calls through the wrapper classes of capypdf.hpp wherever they can express them."""
import os
from record import functions, is_handle

# C handle type -> wrapper classes (several for functions and shadings)
CLASSES = {'DocumentProperties': ['DocumentProperties'], 'PageProperties': ['PageProperties'], 'Text': ['Text'], 'TextSequence': ['TextSequence'],
           'Annotation': ['Annotation'], 'Color': ['Color'], 'Destination': ['Destination'], 'GraphicsState': ['GraphicsState'], 'DrawContext': ['DrawContext'],
           'ImagePdfProperties': ['ImagePdfProperties'], 'OptionalContentGroup': ['OptionalContentGroup'], 'RasterImage': ['RasterImage'],
           'RasterImageBuilder': ['RasterImageBuilder'], 'TransparencyGroupProperties': ['TransparencyGroupProperties'],
           'Function': ['Type2Function', 'Type3Function', 'Type4Function'], 'Shading': ['Type2Shading', 'Type3Shading', 'Type4Shading', 'Type6Shading'],
           'ShadingPattern': ['ShadingPattern'], 'SoftMask': ['SoftMask'], 'Generator': ['Generator'], 'BDCTags': ['BDCTags'],
           'FontProperties': ['FontProperties'], 'Outline': ['Outline']}
ORDER = [c for cs in CLASSES.values() for c in cs]
PREFIX = [('capy_document_properties_', 'DocumentProperties'), ('capy_page_properties_', 'PageProperties'), ('capy_generator_', 'Generator'), ('capy_dc_', 'DrawContext'),
          ('capy_text_sequence_', 'TextSequence'), ('capy_text_annotation_', None), ('capy_text_', 'Text'), ('capy_color_', 'Color'), ('capy_graphics_state_', 'GraphicsState'),
          ('capy_transparency_group_properties_', 'TransparencyGroupProperties'), ('capy_raster_image_builder_', 'RasterImageBuilder'), ('capy_raster_image_', 'RasterImage'),
          ('capy_annotation_', 'Annotation'), ('capy_image_pdf_properties_', 'ImagePdfProperties'), ('capy_destination_', 'Destination'), ('capy_outline_', 'Outline'),
          ('capy_shading_pattern_', 'ShadingPattern'), ('capy_shading_', 'Shading'), ('capy_type4_shading_', 'Shading'), ('capy_type6_shading_', 'Shading'),
          ('capy_bdc_tags_', 'BDCTags'), ('capy_font_properties_', 'FontProperties')]
BOOLS = {'is_tagged', 'I', 'K', 'as_mask', 'starting', 'ending'}
RENAME = {'capy_dc_cmd_BDC_builtin': 'cmd_BDC', 'capy_dc_cmd_BDC_ocg': 'cmd_BDC', 'capy_dc_cmd_Do_trgroup': 'cmd_Do', 'capy_dc_cmd_Do_image': 'cmd_Do',
          'capy_text_cmd_BDC_builtin': 'cmd_BDC', 'capy_generator_new_page': 'new_page_context'}
# special argument lists ($n argument n converted as usual)
ARGS = {
    'capy_dc_cmd_BDC_builtin': ['$1, pw<capypdf::BDCTags>(a[2])'],
    'capy_dc_cmd_BDC_testing': ['$1, $2, pw<capypdf::BDCTags>(a[3])'],
    'capy_destination_set_page_xyz': ['$1, opt<double>(a[2]), opt<double>(a[3]), opt<double>(a[4])'],
    'capy_type4_shading_add_triangle': ['$1, 6, colors(a[2], 3), 3'],
    'capy_type4_shading_extend': ['$1, $2, 2, $3'],
    'capy_type6_shading_add_patch': ['$1, 24, colors(a[2], 4), 4'],
    'capy_type6_shading_extend': ['$1, $2, 16, colors(a[3], 2), 2'],
    'capy_generator_add_page_labeling': ['$1, opt<CapyPDF_Page_Label_Number_Style>(a[2]), $3, $4, opt<uint32_t>(a[5])', '$1, opt<CapyPDF_Page_Label_Number_Style>(a[2]), SEQ(3,4), opt<uint32_t>(a[5])'],
}
# functions that make objects: wrapper class, kind, arguments
CTORS = {
    'capy_link_annotation_new': ('Annotation', ['']),
    'capy_type2_function_new': ('Type2Function', ['$0, $1, $2, $3, $4']),
    'capy_type3_function_new': ('Type3Function', ['$0, $1, $2, $3, $4, $5, $6, $7']),
    'capy_type4_function_new': ('Type4Function', ['$0, $1, $2, $3, $4, $5', '$0, $1, $2, $3, SEQ(4,5)']),
    'capy_type2_shading_new': ('Type2Shading', ['$0, $1, $2, $3, $4, $5']),
    'capy_type3_shading_new': ('Type3Shading', ['$0, $1, 6, $2']),
    'capy_type4_shading_new': ('Type4Shading', ['$0, $1, $2, $3, $4']),
    'capy_type6_shading_new': ('Type6Shading', ['$0, $1, $2, $3, $4']),
    'capy_optional_content_group_new': ('OptionalContentGroup', ['$1']),
    'capy_soft_mask_new': ('SoftMask', ['$0, $1']),
    'capy_shading_pattern_new': ('ShadingPattern', ['$0']),
    'capy_generator_new': ('Generator', ['$0, $1']),
}
FACTORIES = {
    'capy_page_draw_context_new': ('DrawContext', 'new_page_context', ['']),
    'capy_transparency_group_new': ('DrawContext', 'new_transparency_group_context', ['$1, $2, $3, $4']),
    'capy_tiling_pattern_context_new': ('DrawContext', 'new_tiling_pattern_context', ['$2, $3, $4, $5']),
    'capy_dc_text_new': ('Text', 'text_new', ['']),
    'capy_generator_load_image': ('RasterImage', 'load_image', ['$1']),
    'capy_generator_load_image_from_memory': ('RasterImage', 'load_image_from_memory', ['$1, $2']),
    'capy_raster_image_builder_build': ('RasterImage', 'build', ['']),
}


def sizes(params):
    """index of a char* parameter -> index of its size"""
    r = {}
    for i, (t, s, n, c) in enumerate(params[:-1]):
        nt = params[i + 1]
        if t == 'char' and s == 1 and nt[1] == 0 and nt[0].endswith('_t') and any(k in nt[2] for k in ('size', 'bytes', 'len')):
            r[i] = i + 1
    return r


def write(h, missing, dst):
    L = []
    names = []
    L.append('enum Cls { RAW, %s };\n' % ', '.join('C_' + c for c in ORDER))
    for c in ORDER:
        L.append('template<> constexpr int cls_of<capypdf::%s> = C_%s;\n' % (c, c))
    L.append('static void destroy_wrapper(Slot &s) {\n switch(s.cls) {\n')
    for c in ORDER:
        L.append('  case C_%s: delete (capypdf::%s *)s.obj; break;\n' % (c, c))
    L.append('  default: break;\n }\n s.obj = nullptr; s.cls = RAW; s.raw = nullptr;\n}\n')
    L.append('static Outcome dispatch(int n, Arg *a) {\n Outcome R;\n switch(n) {\n')
    for i, f in enumerate(functions(h)):
        names.append('"%s"' % f)
        ret, params = h.funcs[f]
        if f in missing:
            continue
        handles = {k: t[8:] for k, (t, s, n, c) in enumerate(params) if s == 1 and is_handle(h, t)}
        known = {k: c for k, c in handles.items() if c in CLASSES}
        sz = sizes(params)

        def raw():
            al = []
            for k, (t, s, n, const) in enumerate(params):
                if s == 2 and n == 'out_ptr':
                    al.append('(%s **)outp(a[%d])' % (t, k))
                elif s == 2 and is_handle(h, t):
                    al.append('(%s%s **)rawarray(a[%d])' % ('const ' if const else '', t, k))
                elif s == 1 and is_handle(h, t):
                    al.append('(%s%s *)rawp(a[%d])' % ('const ' if const else '', t, k))
                elif s:
                    al.append('(%s%s%s)a[%d].p' % ('const ' if const else '', t, '*' * s, k))
                elif t == 'double':
                    al.append('a[%d].d' % k)
                elif t in h.ids:
                    al.append('%s{(int32_t)a[%d].i}' % (t, k))
                else:
                    al.append('(%s)a[%d].i' % (t, k))
            return '%s(%s)' % (f, ', '.join(al))

        def conv(k):
            t, s, n, const = params[k]
            if s == 1 and is_handle(h, t):
                c = t[8:]
                if c in CLASSES:
                    return 'w<W%d>(a[%d])' % (k, k)
                return '(%s *)rawp(a[%d])' % (t, k)
            if s:
                return '(%s%s%s)a[%d].p' % ('const ' if const else '', t, '*' * s, k)
            if t == 'double':
                return 'a[%d].d' % k
            if t in h.ids:
                return '%s{(int32_t)a[%d].i}' % (t, k)
            return '(%s)a[%d].i' % ('bool' if n in BOOLS else t, k)

        def alist(spec):
            out, j = '', 0
            while j < len(spec):
                if spec[j] == '$':
                    out += conv(int(spec[j + 1]))
                    j += 2
                elif spec.startswith('SEQ(', j):
                    e = spec.index(')', j)
                    x, y = spec[j + 4:e].split(',')
                    out += 'seq((const char *)a[%s].p, a[%s].i)' % (x, y)
                    j = e + 1
                else:
                    out += spec[j]
                    j += 1
            return out

        def default_specs(start):
            outs = {k for k, (t, s, n, c) in enumerate(params) if (s and n in ('out_ptr',) or f == 'capy_raster_image_get_size' and k)}
            ks = [k for k in range(start, len(params)) if k not in outs]
            a1 = ', '.join('$%d' % k for k in ks)
            specs = [a1]
            if any(k in sz for k in ks):
                b, skip = [], set()
                for k in ks:
                    if k in skip:
                        continue
                    if k in sz:
                        b.append('SEQ(%d,%d)' % (k, sz[k]))
                        skip.add(sz[k])
                    else:
                        b.append('$%d' % k)
                specs.append(', '.join(b))
            return specs

        body = []
        boolk = [k for k, p in enumerate(params) if p[2] in BOOLS and p[1] == 0]
        cond = ['(a[%d].i == 0 || a[%d].i == 1)' % (k, k) for k in boolk]
        # which wrapper classes the handle arguments have to be (all combinations of function and shading types)
        combos = [{}]
        optional_null = set()
        for k, c in known.items():
            if f in ('capy_dc_cmd_BDC_builtin', 'capy_dc_cmd_BDC_testing') and c == 'BDCTags':
                continue
            if f in FACTORIES and k != 0 and params[k][2] == 'out_ptr':
                continue
            combos = [{**d, k: x} for d in combos for x in CLASSES[c]]
        outk = [k for k, (t, s, n, c) in enumerate(params) if s and n == 'out_ptr']
        target = None
        if f.endswith('_destroy'):
            L.append('  case %d: { // %s\n' % (i, f))
            L.append('    if(a[0].slot && a[0].slot->cls != RAW) { destroy_wrapper(*a[0].slot); R.wrapped = true; return R; }\n')
            L.append('    R.rc = %s; if(a[0].slot) a[0].slot->raw = nullptr; return R; }\n' % raw())
            continue
        if '*' in ret:
            L.append('  case %d: %s; return R;\n' % (i, raw()))
            continue
        attempts = []       # (combo, code)
        for d in combos:
            guard = ['is<capypdf::%s>(a[%d])' % (c, k) for k, c in d.items()]
            sub = lambda s: __import__('re').sub(r'W(\d+)', lambda m: 'capypdf::' + d.get(int(m[1]), 'Generator'), s)
            if f in CTORS or (f.endswith('_new') and 'annotation' not in f and len(params) == 1 and params[0][0][8:] in CLASSES and f not in FACTORIES):
                if params[-1][2] != 'out_ptr' and f != 'capy_optional_content_group_new':
                    continue
                cls, specs = CTORS.get(f, (params[0][0][8:], ['']))
                ok = [k for k, p in enumerate(params) if p[2] == 'out_ptr'][0]
                for sp in specs:
                    attempts.append((guard, '{ auto f = [&](auto t) -> bool { using T = typename decltype(t)::type; if constexpr(requires { T(%s); }) { '
                                     'R.wrapped = true; guard(R, [&] { *a[%d].slot = Slot{new T(%s), cls_of<T>, nullptr}; }); return true; } return false; }; '
                                     'if(f(std::type_identity<capypdf::%s>{})) return R; }' % (sub(alist(sp)), ok, sub(alist(sp)), cls), len(sp)))
            elif f in FACTORIES:
                cls, m, specs = FACTORIES[f]
                ok = outk[0]
                for sp in specs:
                    attempts.append((guard, '{ auto f = [&](auto &o) -> bool { if constexpr(requires { o.%s(%s); }) { R.wrapped = true; '
                                     'guard(R, [&] { *a[%d].slot = Slot{new capypdf::%s(o.%s(%s)), C_%s, nullptr}; }); return true; } return false; }; '
                                     'if(f(%s)) return R; }' % (m, sub(alist(sp)), ok, cls, m, sub(alist(sp)), cls, sub('w<W0>(a[0])')), 0))
            else:
                pre = [(p, c) for p, c in PREFIX if f.startswith(p)]
                if not pre or pre[0][1] is None or 0 not in d:
                    continue
                m = RENAME.get(f, f[len(pre[0][0]):])
                specs = ARGS.get(f) or default_specs(1)
                o = sub('w<W0>(a[0])')
                for sp in specs:
                    call = 'o.%s(%s)' % (m, sub(alist(sp)))
                    if f == 'capy_raster_image_get_size':
                        use = 'auto r = %s; *(uint32_t *)a[1].p = r.w; *(uint32_t *)a[2].p = r.h;' % call
                    elif outk:
                        t = params[outk[0]][0]
                        use = '*(%s *)a[%d].p = %s;' % (t, outk[0], call)
                    else:
                        use = call + ';'
                    extra = ''
                    if f == 'capy_dc_cmd_cm':
                        extra = ('if constexpr(requires { o.translate(1.0, 1.0); o.scale(1.0, 1.0); o.rotate(1.0); }) { double angle;'
                                 ' if(a[1].d == 1 && a[2].d == 0 && a[3].d == 0 && a[4].d == 1 && flip()) { R.wrapped = true; guard(R, [&] { o.translate(a[5].d, a[6].d); }); return true; }'
                                 ' if(a[2].d == 0 && a[3].d == 0 && a[5].d == 0 && a[6].d == 0 && flip()) { R.wrapped = true; guard(R, [&] { o.scale(a[1].d, a[4].d); }); return true; }'
                                 ' if(is_rotation(a, angle) && flip()) { R.wrapped = true; guard(R, [&] { o.rotate(angle); }); return true; } }')
                    if f == 'capy_generator_load_font':
                        # no properties: the overload without them
                        L2 = ('{ auto f = [&](auto &o) -> bool { if constexpr(requires { o.load_font("x"); }) { R.wrapped = true; guard(R, [&] { *(CapyPDF_FontId *)a[3].p = '
                              'o.load_font((const char *)a[1].p); }); return true; } return false; }; if(a[2].slot == nullptr && f(w<capypdf::Generator>(a[0]))) return R; }')
                        attempts.append((['is<capypdf::Generator>(a[0])'], L2, 0))
                    if f == 'capy_generator_add_structure_item':
                        pass
                    attempts.append((guard, '{ auto f = [&](auto &o) -> bool { %s if constexpr(requires { %s; }) { R.wrapped = true; guard(R, [&] { %s }); return true; } '
                                     'return false; }; if(f(%s)) return R; }' % (extra, call, use, o), 'SEQ' in sp))
        L.append('  case %d: { // %s\n' % (i, f))
        # the string overloads are used half of the time when there are any
        attempts.sort(key=lambda t: 0 if t[2] is True else 1)
        for g, code, isseq in attempts:
            g = list(g) + cond
            if 'seq(' in code:
                ks = __import__('re').findall(r'seq\(\(const char \*\)a\[(\d+)\]\.p, a\[(\d+)\]\.i\)', code)
                g += ['a[%s].p && a[%s].i >= 0' % (x, y) for x, y in sorted(set(ks))] + ['flip()']
            if 'colors(' in code:
                m = __import__('re').search(r'colors\(a\[(\d+)\], (\d)\)', code)
                g.append('can_colors(a[%s], %s)' % (m[1], m[2]))
            if 'pw<' in code:
                m = __import__('re').search(r'pw<([\w:]+)>\(a\[(\d+)\]\)', code)
                g.append('(!a[%s].slot || is<%s>(a[%s]))' % (m[2], m[1], m[2]))
            L.append('    if(%s) %s\n' % (' && '.join(g) or 'true', code))
        L.append('    R.rc = %s; return R; }\n' % raw())
    L.append('  default: R.rc = -1; return R;\n }\n}\nstatic const char *const fnames[] = {%s};\n' % ', '.join(names))
    t = ''.join(L)
    if not os.path.exists(dst) or open(dst).read() != t:
        open(dst, 'w').write(t)
