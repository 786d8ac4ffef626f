#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay editable)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        a['state'] = [{'name': s} for s in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


S = 'src/'
p('P01', 'Every written file is a structurally valid PDF',
  'Whenever writing a document succeeds, the file on disk is one complete PDF: correct header for the requested version, every object present exactly once at the offset its cross-reference entry states, exact stream lengths, decodable stream data, no dangling references and no repeated dictionary keys, and a trailer leading to the catalog and info dictionary. This holds for both the classic cross-reference table and the compressed object/cross-reference stream layouts.',
  ['programs', 'configurations'], 'every sequence of API calls ending in a successful write, for every document subtype (plain, PDF/X, PDF/A) and compression setting',
  'Tests render a few dozen fixed documents with a lenient viewer, which silently repairs offsets, lengths, duplicate keys and dangling references.',
  [S + 'pdfwriter.cpp', S + 'document.cpp', S + 'objectformatter.cpp'],
  [('PdfWriter::write_to_file_impl, write_objects, write_cross_reference_*', S + 'pdfwriter.cpp'), ('ObjectFormatter', S + 'objectformatter.cpp')],
  state=['document_objects', 'object offsets', 'compressed object positions'], observe=['the written file'])
p('P02', 'Every object has the keys and value types the PDF specification requires',
  'Every dictionary reachable in a written file follows the PDF data model: required keys are present, every key is spelled as the specification spells it, and every value has the type the specification gives it (names are names, references point at objects of the right kind, rectangles have four numbers, and so on).',
  ['programs', 'configurations'], 'every document that can be built from valid objects with any mix of features',
  'Tests look at rendered pixels only; misspelt keys or values of the wrong type are ignored by the viewer used and so pass.',
  [S + 'pdfwriter.cpp', S + 'document.cpp', S + 'drawcontext.cpp', S + 'pdfcommon.cpp'],
  [('catalog, page, annotation, font, field serialisation', S + 'pdfwriter.cpp'), ('create_catalog, add_* object serialisation', S + 'document.cpp')],
  observe=['the written file'])
p('P03', 'Content streams are well formed and self contained',
  'Every content stream in a written file (pages, form XObjects, transparency groups, tiling patterns) consists only of legal operators with operands of the right number and type, with q/Q, BT/ET and marked-content operators properly nested and closed. Every resource a stream names is in that stream\'s own resource dictionary and denotes an object of the right kind.',
  ['programs'], 'every sequence of successful and rejected drawing calls on any kind of drawing context, in any order',
  'Unit tests draw a fixed sequence of operations per page; mixes of nested state, rejected calls, and many resource kinds in one context are never sampled.',
  [S + 'drawcontext.cpp', S + 'commandstreamformatter.cpp', S + 'document.cpp'],
  [('CommandStreamFormatter indent/dedent stack', S + 'commandstreamformatter.cpp'), ('PdfDrawContext::build_resource_dict', S + 'drawcontext.cpp')],
  state=['used_images', 'used_gstates', 'used_colorspaces', 'used_patterns', 'nesting stack'], observe=['content streams of the written file'])
p('P04', 'Drawing calls appear in the file exactly as issued',
  'The content stream of every committed drawing context contains exactly the operations of the successful drawing and text-state calls made on it, in call order, with the operands given (numbers to output precision, resources resolving to the object the caller named) and nothing else that changes what is drawn.',
  ['programs'], 'every sequence of drawing, path, colour, text-state, dash, graphics-state, image and group calls with any finite operands',
  'Rendering comparison on fixed pages cannot see dropped, swapped, reordered or imprecise operands for operators and value ranges the pages do not use.',
  [S + 'drawcontext.cpp', S + 'commandstreamformatter.cpp', S + 'capi.cpp', S + 'pdftext.hpp'],
  [('cmd_* functions', S + 'drawcontext.cpp'), ('capy_dc_cmd_*, capy_text_cmd_*', S + 'capi.cpp')],
  observe=['content streams of the written file'])
p('P05', 'Invalid calls are rejected with an error and leave no trace',
  'A call the API must refuse (ids that were never handed out, objects of another document, wrong kind of drawing context, unbalanced nesting, out-of-range values or enumerators, invalid UTF-8, embedded NULs, wrong array sizes) returns a non-zero error code with a non-empty message and never terminates the process. The document and drawing context continue as if the call had not been made, so the final file is the same as without it.',
  ['programs', 'histories'], 'every history of valid calls with invalid calls inserted at any point',
  'Tests try a handful of invalid calls and stop after the error; they never continue the document and compare the outcome.',
  [S + 'capi.cpp', S + 'drawcontext.cpp', S + 'document.cpp', S + 'generator.cpp', S + 'errorhandling.cpp'],
  [('argument validation macros and RETERR paths', S + 'capi.cpp'), ('error_text', S + 'errorhandling.cpp')],
  observe=['return codes', 'the written file with and without the rejected calls'])
p('P06', 'Valid API use is free of memory errors, undefined behaviour and leaks',
  'No sequence of API calls with valid pointers reads or writes outside its memory, uses freed or uninitialised memory, has undefined behaviour, aborts, or hangs. Once every object handed out has been destroyed, in any order the API allows, no memory allocated by the library remains.',
  ['programs', 'histories'], 'every history of creation, use, failed use, reuse and destruction of API objects with any argument values',
  'The suite runs fixed call sequences without sanitizers, almost always on the success path.',
  [S + 'capi.cpp', S + 'cinterop.hpp', S + 'document.cpp', S + 'drawcontext.cpp', S + 'fontsubsetter.cpp'],
  [('object ownership in capy_*_new/_destroy', S + 'capi.cpp')], observe=['AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer reports', 'process exit'])
p('P07', 'Committed objects are snapshots and contexts start afresh',
  'Adding a page, XObject, pattern or any other object fixes its contents at that moment: later changes to, reuse of, or destruction of the caller\'s object never alter it. A drawing context that has been committed is empty again and its next use carries over nothing, and pages and ids handed out keep the order and the object they had when they were returned.',
  ['histories'], 'every interleaving of building, committing, reusing, mutating and destroying several contexts and objects of one document',
  'Tests build each object once and destroy it at the end.',
  [S + 'generator.cpp', S + 'document.cpp', S + 'drawcontext.cpp', S + 'capi.cpp'],
  [('add_page, add_form_xobject, add_tiling_pattern, add_transparency_group', S + 'generator.cpp, ' + S + 'document.cpp'), ('PdfDrawContext::clear', S + 'drawcontext.cpp')],
  state=['used_* sets', 'annotations', 'viewports', 'transition', 'custom page properties'], observe=['the written file'])
p('P08', 'Text given to the document reads back exactly',
  'Every valid UTF-8 text string handed to the API (title, author, creator, outline titles, annotation texts, field names and values, structure texts, page label prefixes, marked-content properties, file and collection names) reads back from the file as exactly that Unicode string, whatever characters it contains. Strings that are not valid UTF-8 or contain an embedded NUL are refused.',
  ['inputs'], 'every Unicode string (all planes, controls, delimiters, any length) in every text-valued parameter, given with explicit size or NUL terminated',
  'Tests use short, mostly ASCII strings and never read them back.',
  [S + 'utils.cpp', S + 'pdfcommon.cpp', S + 'objectformatter.cpp', S + 'pdfwriter.cpp', S + 'xmlformatter.cpp'],
  [('utf8_to_pdfutf16be, pdfstring_quote, u8string::from_cstr', S + 'utils.cpp, ' + S + 'pdfcommon.cpp')], observe=['strings decoded from the written file'])
p('P09', 'Names and byte strings survive whatever characters they contain',
  'Custom names (separation colour names, roles, optional content group names, button state names, marked-content tags, MIME types) and ASCII strings (URIs, language tags, output condition identifiers) read back from the file as the characters given, with every delimiter, white-space or non-regular character escaped as PDF syntax requires; values that cannot be represented are refused. No such value can change the structure of the file around it.',
  ['inputs'], 'every byte sequence accepted for a name or ASCII string parameter',
  'Tests use only simple identifiers, for which escaping is never needed.',
  [S + 'utils.cpp', S + 'pdfcommon.cpp', S + 'drawcontext.cpp', S + 'document.cpp', S + 'objectformatter.cpp'],
  [('bytes2pdfstringliteral, pdfname_quote, PdfName', S + 'utils.cpp, ' + S + 'pdfcommon.cpp')], observe=['names decoded from the written file'])
p('P10', 'Numbers are written in PDF syntax with bounded error',
  'Every finite number given to the API is written as a PDF number (no exponent, locale separator, NaN or infinity) whose value differs from the argument by no more than the output precision, whatever its magnitude and whatever the process locale. Non-finite numbers never appear in a file.',
  ['inputs', 'configurations'], 'every double or integer argument of drawing, text, page box, matrix, shading, function, annotation, destination and colour calls; every locale',
  'Tests use round numbers of ordinary magnitude in the C locale.',
  [S + 'commandstreamformatter.cpp', S + 'objectformatter.cpp', S + 'pdfcommon.cpp', S + 'drawcontext.cpp', S + 'document.cpp'],
  [('append_command, add_token(double)', S + 'commandstreamformatter.cpp, ' + S + 'objectformatter.cpp')], observe=['numeric tokens of the written file'])
p('P11', 'Embedded font subsets draw the source font\'s glyphs',
  'For every character or glyph shown with a loaded TrueType, OpenType/CFF or variable-font instance, the code in the content stream selects a glyph in the embedded font program with the same outline as the source font\'s glyph, and the width recorded for it equals the source advance. The width reported for a line of text is the sum of those advances plus the font\'s kerning, scaled to the point size. Embedded font programs are valid: consistent table directory, lengths, checksums, glyph locations, composite components and character sets.',
  ['inputs', 'programs'], 'every selection and order of characters, raw glyphs, ligatures and composites from the supported fonts, over any number of pages, fonts and instances',
  'Tests embed short texts from two fonts and compare rendered pixels on one page.',
  [S + 'fontsubsetter.cpp', S + 'ft_subsetter.cpp', S + 'cffsubsetter.cpp', S + 'document.cpp', S + 'pdfwriter.cpp'],
  [('FontSubsetter', S + 'fontsubsetter.cpp'), ('generate_truetype_font', S + 'ft_subsetter.cpp'), ('CFFWriter', S + 'cffsubsetter.cpp')],
  state=['subset glyph list', 'codepoint to glyph mapping'], observe=['embedded font programs, W arrays and shown codes in the written file'])
p('P12', 'Text can be extracted as the text that was shown',
  'For every text shown with a loaded font, extracting the text from the file (through the font\'s ToUnicode map and ActualText spans) yields the Unicode text the caller gave, including characters outside the Basic Multilingual Plane, ligature source text and raw glyphs with their text; where one glyph was shown for different texts, it yields one of them. The ToUnicode map obeys the CMap rules.',
  ['inputs', 'programs'], 'every text, text sequence, raw glyph, ligature and ActualText span over any fonts and pages',
  'No test extracts text; rendering does not use the ToUnicode map.',
  [S + 'fontsubsetter.cpp', S + 'pdfwriter.cpp', S + 'document.cpp', S + 'drawcontext.cpp'],
  [('create_cmap, serialize_charsequence', S + 'pdfwriter.cpp, ' + S + 'drawcontext.cpp')], observe=['text recovered from the written file'])
p('P13', 'Hostile font files are contained',
  'Loading any byte sequence as a font, and subsetting any font that loads, ends in success or an error code: it never crashes, aborts, reads outside the data, loops without end, or produces a damaged PDF.',
  ['inputs'], 'every mutated, truncated or crafted TrueType, OpenType/CFF, collection or variable font file',
  'Tests load only healthy fonts.',
  [S + 'ft_subsetter.cpp', S + 'cffsubsetter.cpp', S + 'document.cpp', S + 'fontsubsetter.cpp'],
  [('parse_font_file, load_* table readers', S + 'ft_subsetter.cpp'), ('parse_cff_data', S + 'cffsubsetter.cpp')], observe=['sanitizer reports, return codes, the written file'])
p('P14', 'Hostile images and colour profiles are contained',
  'Loading any byte sequence as an image or ICC profile, building an image from raw data of any declared size and depth, and using whatever loads, ends in success or an error code: it never crashes, aborts, reads or writes outside the data, or produces an image object whose data does not match its dictionary.',
  ['inputs'], 'every mutated, truncated or crafted PNG, JPEG, TIFF, ICC file, and every combination of raw image builder settings and buffer sizes',
  'Tests load only healthy images with consistent builder settings.',
  [S + 'imagefileops.cpp', S + 'colorconverter.cpp', S + 'document.cpp', S + 'capi.cpp'],
  [('load_image_from_memory, load_*_png, load_tif, load_jpg', S + 'imagefileops.cpp'), ('convert_image_to', S + 'colorconverter.cpp')], observe=['sanitizer reports, return codes, the written file'])
p('P15', 'Images keep their pixels',
  'An image added to the document has, in the file, the dimensions, colour space, bit depth, pixel values, alpha channel and embedded colour profile of its source (PNG, TIFF, JPEG or raw data), exactly when no colour conversion was requested; JPEG data is embedded unchanged. Image masks keep their polarity and interpolation setting.',
  ['inputs'], 'every size and pixel content of every supported pixel format (1-bit, gray, RGB, CMYK, palette, with and without alpha)',
  'Tests use about ten fixed pictures, compared at reduced precision after rendering.',
  [S + 'imagefileops.cpp', S + 'document.cpp', S + 'colorconverter.cpp', S + 'capi.cpp'],
  [('load_rgb_png, load_mono_png, load_tif, separate_tif_alpha', S + 'imagefileops.cpp'), ('PdfDocument::add_image, embed_jpg', S + 'document.cpp')], observe=['image XObjects of the written file'])
p('P16', 'Colours and colour conversions are what the caller asked for',
  'Every colour set for filling or stroking is written in the colour space the caller named (device gray, RGB or CMYK, ICC based, Lab, separation or pattern) with the component values given, device components being limited to 0 to 1 and out-of-range separation values refused; the space it names in the file is the one the caller created, with the same profile data, white point, ranges, alternate space and tint function. Converting an image to another colour space yields the pixels the configured or embedded profiles and rendering intent give, and refuses conversions it cannot do.',
  ['inputs', 'configurations'], 'every colour value in every colour space in drawing and text contexts, and every 8-bit image, output colour space, profile set and rendering intent',
  'Tests check one or two conversions visually.',
  [S + 'drawcontext.cpp', S + 'colorconverter.cpp', S + 'document.cpp', S + 'generator.cpp', S + 'capi.cpp'],
  [('set_color, set_nonstroke_color, add_*_colorspace', S + 'drawcontext.cpp, ' + S + 'document.cpp'), ('PdfColorConverter::convert_image_to, convert_image', S + 'colorconverter.cpp, ' + S + 'generator.cpp')], observe=['colour operators and resources of the written file', 'pixels of converted images'])
p('P17', 'Writing is atomic and reports every failure',
  'Writing a document either succeeds and leaves the complete file under its final name, or reports an error and leaves whatever was there before untouched: no failure or crash at any point during writing ever exposes a partial file under the final name. A document can be written only once, and an empty document cannot be written.',
  ['fault_sequences', 'crash_points'], 'every write, flush, sync, close, open and rename failure (including short writes and a full disk) and every crash point between system calls',
  'Tests never make a system call fail.',
  [S + 'pdfwriter.cpp', S + 'generator.cpp'],
  [('PdfWriter::write_to_file', S + 'pdfwriter.cpp')], observe=['directory contents and return code after every injected fault'])
p('P18', 'Tagged content and the structure tree agree',
  'In a tagged document every structure item appears once under the parent it was given, in creation order, with its type or role, texts and language; each marked-content sequence drawn for an item is listed by that item with the right page and marked-content id, the parent tree maps it back, and the role map names every custom role.',
  ['programs', 'histories'], 'every structure tree shape and every distribution of marked content for its items over pages',
  'One test builds one small tree and only checks that rendering works.',
  [S + 'document.cpp', S + 'pdfwriter.cpp', S + 'drawcontext.cpp'],
  [('create_structure_root_dict, create_structure_parent_tree', S + 'document.cpp'), ('add_bcd_structure', S + 'drawcontext.cpp')], state=['structure_items', 'structure_usage', 'structure_parent_tree_items'], observe=['the structure tree of the written file'])
p('P19', 'Outlines form exactly the tree the caller described',
  'The document outline in the file is the tree described by the calls: siblings in creation order, correct first, last, next, previous, parent and count links, and each item with its title, destination, colour and style.',
  ['programs'], 'every forest of outline items created in any order',
  'One test builds one three-level outline and does not read it back.',
  [S + 'document.cpp', S + 'pdfwriter.cpp', S + 'capi.cpp'],
  [('create_outlines, write_outline', S + 'document.cpp')], state=['outlines.items', 'outlines.children', 'outlines.parent'], observe=['the outline tree of the written file'])
p('P20', 'Annotations, form fields and optional content read back as given',
  'Every annotation is on exactly the page it was attached to, with its type, rectangle, flags, destination or URI, line data, attachment and appearances; every form field appears in the form with its type, name, flags, value, options and parent or widget links; every optional content group is listed and used where the caller used it.',
  ['programs'], 'every mix of annotation, field and optional content group types and settings over any pages',
  'Tests create one instance of each and compare only rendering.',
  [S + 'document.cpp', S + 'pdfwriter.cpp', S + 'capi.cpp', S + 'drawcontext.cpp'],
  [('write_annotation, write_form_field', S + 'pdfwriter.cpp'), ('add_annotation, add_form_field, create_AcroForm', S + 'document.cpp')], observe=['the written file'])
p('P21', 'Pages keep their order, boxes, labels, transitions and viewports',
  'The page tree lists exactly the committed pages in commit order, each with the effective page boxes (document defaults overridden by its own), group properties, transition, sub-page navigation and viewports the caller set; page labels, layout, mode, language and tagging in the catalog are those requested.',
  ['programs', 'configurations'], 'every number of pages and every combination of default and per-page settings',
  'Tests have a handful of pages with default settings.',
  [S + 'document.cpp', S + 'pdfwriter.cpp', S + 'drawcontext.cpp', S + 'capi.cpp'],
  [('write_pages_root, write_delayed_page', S + 'pdfwriter.cpp'), ('create_catalog, create_page_labels', S + 'document.cpp')], observe=['the written file'])
p('P22', 'PDF/X and PDF/A documents meet their subtype\'s rules',
  'A document declared as a PDF/X or PDF/A variant has the matching PDF version, the identification its standard asks for (info dictionary keys for PDF/X, well-formed XMP metadata for PDF/A) and an output intent with its profile and condition identifier; features the variant forbids (RGB images in PDF/X, fonts that are not embedded in either, a missing profile or condition identifier) are refused. User supplied metadata is embedded byte for byte.',
  ['configurations', 'programs'], 'every subtype, colour space, profile and metadata combination with every feature the subtype restricts',
  'Tests cover two or three of the 22 subtypes.',
  [S + 'document.cpp', S + 'pdfwriter.cpp', S + 'pdfcommon.cpp', S + 'xmlformatter.cpp'],
  [('DocumentProperties::version, create_output_intents, rdf metadata', S + 'document.cpp, ' + S + 'pdfcommon.cpp')], observe=['the written file', 'return codes'])
p('P23', 'Output is reproducible and independent of compression',
  'With a fixed source date, the same sequence of calls produces the same file every time except for the random file identifier, regardless of earlier activity in the process, memory layout, locale, time zone or output path. Turning stream compression off changes only the encoding of streams, not any object\'s contents.',
  ['histories', 'configurations'], 'every document, every history of other documents in the same process and every environment',
  'Tests never compare two outputs of the same document.',
  [S + 'pdfwriter.cpp', S + 'document.cpp', S + 'utils.cpp', S + 'drawcontext.cpp'],
  [('current_date_string, hash-ordered resource sets', S + 'utils.cpp, ' + S + 'drawcontext.cpp')], observe=['pairs of written files'])
p('P24', 'Documents in different threads do not interfere',
  'Any number of threads may each build and write their own documents at the same time without data races, and every file is the same as if its thread had run alone.',
  ['schedules'], 'every interleaving of independent documents in concurrent threads',
  'The test suite is single threaded.',
  [S + 'utils.cpp', S + 'document.cpp', S + 'colorconverter.cpp', S + 'errorhandling.cpp', S + 'pdfwriter.cpp'],
  [('process-wide state: environment, locale, date, random, lcms and FreeType handles', S + 'utils.cpp')], observe=['ThreadSanitizer reports', 'the written files'])
p('P25', 'Functions, shadings, patterns and separations mean what was requested',
  'Functions evaluated from the file give the values the caller\'s parameters define; shadings carry the geometry, colours, domain and extend flags given, with mesh data decoding to the points and colours added, to encoding precision; patterns and separation spaces use the matrix, bounding box, cell contents, name, alternate space and tint function given.',
  ['inputs', 'programs'], 'every domain, bound, encoding, colour, coordinate, matrix and nesting of functions, shadings, patterns and separations',
  'Tests draw one of each and compare rendered pixels.',
  [S + 'document.cpp', S + 'pdfcommon.cpp', S + 'capi.cpp', S + 'bitfiddling.cpp', S + 'utils.cpp'],
  [('add_function, serialize_shade*, add_shading_pattern, create_separation', S + 'document.cpp')], observe=['the written file'])
p('P26', 'The C++ and Python bindings do what the C API does',
  'The same program written against the C API, the C++ wrapper and the Python module yields the same document (apart from identifiers and dates), every failing call surfaces as an exception carrying the C error message, and no wrapper leaks or frees an object twice.',
  ['programs'], 'every program expressible in all three interfaces',
  'C++ and C tests cover a few calls each; nothing compares the interfaces with one another.',
  ['include/capypdf.hpp', 'python/capypdf.py', S + 'capi.cpp'],
  [('wrapper classes', 'include/capypdf.hpp, python/capypdf.py')], observe=['three written files compared', 'sanitizer reports'])
p('P27', 'Embedded files and collections round-trip',
  'Every embedded file is stored with exactly its bytes, name and MIME type, is reachable through the embedded-files name tree and from the annotations that attach it, and name tree keys are sorted; a collection has the view, default document and schema fields requested.',
  ['inputs', 'programs'], 'every file content (including empty and large), name, subtype and any number of files and schema fields',
  'One test embeds one short text file.',
  [S + 'document.cpp', S + 'pdfwriter.cpp', S + 'capi.cpp', S + 'utils.cpp'],
  [('PdfDocument::embed_file, create_catalog embedded files', S + 'document.cpp')], observe=['the written file'])
p('P28', 'Graphics states, soft masks and transparency groups read back as set',
  'Each graphics state contains exactly the parameters set on it with the values given (opacities, blend mode, overprint, soft mask, halftone, knockout and the rest); transparency groups, form XObjects and soft masks keep their bounding box, matrix, colour space, isolation and knockout flags and contents.',
  ['inputs', 'programs'], 'every subset of graphics state parameters with every value, and every nesting of groups, soft masks and forms',
  'Tests set a few parameters and compare rendered pixels.',
  [S + 'document.cpp', S + 'drawcontext.cpp', S + 'capi.cpp', S + 'pdfcommon.cpp'],
  [('add_graphics_state, add_soft_mask, add_transparency_group', S + 'document.cpp'), ('PdfDrawContext::serialize', S + 'drawcontext.cpp')], observe=['the written file'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        assert x['statement'].count('. ') <= 2, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P))
