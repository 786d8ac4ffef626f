"""Strict typing of the PDF object graph: every dictionary reachable from the trailer is checked against the
keys and value types ISO 32000-2 gives the role in which it is reached.  Unknown keys are errors."""
import re
from pdf import Name, Ref, Stream

BLEND = 'Normal Compatible Multiply Screen Overlay Darken Lighten ColorDodge ColorBurn HardLight SoftLight Difference Exclusion Hue ' \
        'Saturation Color Luminosity'.split()
SPOT = 'SimpleDot InvertedSimpleDot DoubleDot InvertedDoubleDot CosineDot Cosine Double InvertedDouble Line LineX LineY Round Ellipse ' \
       'EllipseA InvertedEllipseA EllipseB EllipseC InvertedEllipseC Square Cross Rhomboid Diamond'.split()
STD14 = 'Times-Roman Helvetica Courier Symbol Times-Bold Helvetica-Bold Courier-Bold ZapfDingbats Times-Italic Helvetica-Oblique ' \
        'Courier-Oblique Times-BoldItalic Helvetica-BoldOblique Courier-BoldOblique'.split()
TRANS = 'Split Blinds Box Wipe Dissolve Glitter R Fly Push Cover Uncover Fade'.split()
LE = 'Square Circle Diamond OpenArrow ClosedArrow None Butt ROpenArrow RClosedArrow Slash'.split()
LAYOUT = 'SinglePage OneColumn TwoColumnLeft TwoColumnRight TwoPageLeft TwoPageRight'.split()
MODE = 'UseNone UseOutlines UseThumbs FullScreen UseOC UseAttachments'.split()
STRUCT = set('Document DocumentFragment Part Sect Div Aside NonStruct P H H1 H2 H3 H4 H5 H6 H7 Title FENote Sub Lbl Span Em Strong Link '
             'Annot Form Ruby RB RT RP Warichu WT WP L LI LBody Table TR TH TD THead TBody TFoot Caption Figure Formula Artifact'.split())
DEVCS = ('DeviceRGB', 'DeviceGray', 'DeviceCMYK')
NCOMP = {'DeviceRGB': 3, 'DeviceGray': 1, 'DeviceCMYK': 4}


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def isname(v, opts=None):
    return isinstance(v, Name) and (opts is None or str(v) in opts)


DATE = re.compile(rb"D:\d{4}(0[1-9]|1[0-2])(0[1-9]|[12]\d|3[01])([01]\d|2[0-3])[0-5]\d[0-5]\d(Z|[-+]\d\d'\d\d'?)?$")

# role -> {key: (type, required)}
S = {}


def role(name, text, base=None):
    d = dict(S[base]) if base else {}
    for ln in text.strip().splitlines():
        ln = ln.strip()
        if not ln:
            continue
        k, t = ln.split(None, 1)
        req = k.endswith('!')
        d[k.rstrip('!')] = (t.strip(), req)
    S[name] = d


role('Trailer', '''
Root! ref Catalog
Info ref Info
Size! int
ID! list2 bytes
''')
role('XRefStream', '''
Type name XRef
W list3 int
Index list int
''', 'Trailer')
role('Info', '''
ModDate date
CreationDate date
Title text
Author text
Creator text
Producer text
Subject text
Keywords text
Trapped name True|False|Unknown
GTS_PDFXVersion bytes
GTS_PDFXConformance bytes
''')
role('Catalog', '''
Type! name Catalog
Pages! ref Pages
PageLabels numtree PageLabel
Names dict NameDict
OCProperties dict OCProperties
OutputIntents list OutputIntent
Metadata ref Metadata
MarkInfo dict MarkInfo
StructTreeRoot ref StructTreeRoot
Lang text
Outlines ref OutlineRoot
PageLayout name ''' + '|'.join(LAYOUT) + '''
PageMode name ''' + '|'.join(MODE) + '''
AcroForm dict AcroForm
AF list Filespec
Collection dict Collection
Extensions any
ViewerPreferences any
''')
role('MarkInfo', '''
Marked bool
''')
role('Pages', '''
Type! name Pages
Kids! list refPageNode
Count! int
Parent ref Pages
''')
role('Page', '''
Type! name Page
Parent! ref Pages
LastModified date
Resources! dict Resources
MediaBox! rect
CropBox rect
BleedBox rect
TrimBox rect
ArtBox rect
Contents contents
Group dict TrGroup
Annots list refAnnot
Trans dict Trans
VP list Viewport
PresSteps ref NavNode
StructParents int
UserUnit num
Tabs name R|C|S
''')
role('Resources', '''
XObject map XObject
ExtGState map ExtGState
ColorSpace map ColorSpace
Pattern map Pattern
Shading map Shading
Font map Font
Properties map Properties
ProcSet any
''')
role('ExtGState', '''
Type name ExtGState
LW num
LC int
LJ int
ML num
RI name RelativeColorimetric|AbsoluteColorimetric|Saturation|Perceptual
OP bool
op bool
OPM int01
FL num
SM unit
BM name ''' + '|'.join(BLEND) + '''
SMask smask
CA unit
ca unit
AIS bool
TK bool
HT halftone
UseBlackPtComp name ON|OFF|Default
''')
role('SMask', '''
Type name Mask
S! name Alpha|Luminosity
G! ref Form
''')
role('Halftone1', '''
Type name Halftone
HalftoneType! int
HalftoneName bytes
Frequency! num
Angle! num
SpotFunction! name ''' + '|'.join(SPOT) + '''
''')
role('TrGroup', '''
Type name Group
S! name Transparency
CS name DeviceRGB|DeviceGray|DeviceCMYK
I bool
K bool
''')
role('Form', '''
Type name XObject
Subtype! name Form
BBox! rect
Matrix matrix
Resources dict Resources
Group dict TrGroup
StructParents int
Length! int
Filter name FlateDecode
''')
role('Image', '''
Type name XObject
Subtype! name Image
Width! int+
Height! int+
ColorSpace ColorSpace
BitsPerComponent int
ImageMask bool
Interpolate bool
SMask ref Image
Intent name RelativeColorimetric|AbsoluteColorimetric|Saturation|Perceptual
Decode nums
Length! int
Filter filters
DecodeParms any
''')
role('Pattern1', '''
Type name Pattern
PatternType! int
PaintType! int
TilingType! int
BBox! rect
XStep! num
YStep! num
Resources! dict Resources
Matrix matrix
Length! int
Filter name FlateDecode
''')
role('Pattern2', '''
Type name Pattern
PatternType! int
Shading! Shading
Matrix matrix
ExtGState dict ExtGState
''')
role('ShadingBase', '''
ShadingType! int
ColorSpace! ColorSpace
BBox rect
Background nums
AntiAlias bool
''')
role('Shading2', '''
Coords! nums4
Domain nums2
Function! Function
Extend list2 bool
''', 'ShadingBase')
role('Shading3', '''
Coords! nums6
Domain nums2
Function! Function
Extend list2 bool
''', 'ShadingBase')
role('ShadingMesh', '''
BitsPerCoordinate! int
BitsPerComponent! int
BitsPerFlag! int
Decode! nums
Length! int
Filter name FlateDecode
''', 'ShadingBase')
role('Function2', '''
FunctionType! int
Domain! nums2
Range nums
C0 nums
C1 nums
N! num
''')
role('Function3', '''
FunctionType! int
Domain! nums2
Range nums
Functions! list Function
Bounds! nums
Encode! nums
''')
role('Function4', '''
FunctionType! int
Domain! nums
Range! nums
Length! int
Filter name FlateDecode
''')
role('Font1', '''
Type! name Font
Subtype! name Type1
BaseFont! name ''' + '|'.join(STD14) + '''
Encoding name WinAnsiEncoding|MacRomanEncoding
''')
role('Font0', '''
Type! name Font
Subtype! name Type0
BaseFont! name
Encoding! name Identity-H
DescendantFonts! list1 CIDFont
ToUnicode ref ToUnicode
''')
role('CIDFont', '''
Type! name Font
Subtype! name CIDFontType0|CIDFontType2
BaseFont! name
CIDSystemInfo! dict CIDSystemInfo
FontDescriptor! ref FontDescriptor
W widths
DW num
CIDToGIDMap name Identity
''')
role('CIDSystemInfo', '''
Registry! bytes
Ordering! bytes
Supplement! int
''')
role('FontDescriptor', '''
Type! name FontDescriptor
FontName! name
FontFamily bytes
FontWeight num
Flags! int
FontBBox! rect0
ItalicAngle! num
Ascent! num
Descent! num
CapHeight num
XHeight num
StemV! num
StemH num
FontFile2 ref FontFile2
FontFile3 ref FontFile3
''')
role('FontFile2', '''
Length! int
Length1! int
Filter name FlateDecode
''')
role('FontFile3', '''
Subtype! name OpenType|CIDFontType0C|Type1C
Length! int
Length1 int
Filter name FlateDecode
''')
role('ToUnicode', '''
Type name CMap
CMapName name
CIDSystemInfo dict CIDSystemInfo
Length! int
Filter name FlateDecode
''')
role('ICCStream', '''
N! int134
Alternate name DeviceRGB|DeviceGray|DeviceCMYK
Range nums
Length! int
Filter name FlateDecode
''')
role('LabDict', '''
WhitePoint! nums3
BlackPoint nums3
Range nums4
''')
role('OutlineRoot', '''
Type name Outlines
First! ref OutlineItem
Last! ref OutlineItem
Count int
''')
role('OutlineItem', '''
Title! text
Parent! ref OutlineAny
Prev ref OutlineItem
Next ref OutlineItem
First ref OutlineItem
Last ref OutlineItem
Count int
Dest dest
C nums3
F int
''')
role('AnnotBase', '''
Type name Annot
Subtype! name
Rect! rect
F int
P ref Page
Contents text
NM text
M any
AP dict AP
AS name
Border any
C nums
StructParent int
OC dict OCG
BS any
BE any
''')
role('AP', '''
N! apN
R apN
D apN
''')
role('AnnotText', '''
Open bool
Name name
''', 'AnnotBase')
role('AnnotLink', '''
A dict Action
Dest dest
H name
''', 'AnnotBase')
role('AnnotLine', '''
L! nums4
LE le
IC nums
LL num
LLE num
Cap bool
''', 'AnnotBase')
role('AnnotFileAttachment', '''
FS! dict Filespec
Name name
''', 'AnnotBase')
role('AnnotPrinterMark', '''
MN name
''', 'AnnotBase')
role('Annot3D', '''
3DD! ref 3DStream
3DV any
3DA any
3DI bool
3DB any
''', 'AnnotBase')
role('AnnotScreen', '''
T text
MK any
A dict Action
''', 'AnnotBase')
role('AnnotWidget', '''
Parent ref Field
H name
MK any
A dict Action
DA bytes
''', 'AnnotBase')
role('3DStream', '''
Type name 3D
Subtype! name U3D|PRC
Length! int
Filter name FlateDecode
''')
role('Action', '''
Type name Action
S! name URI
URI! ascii
''')
role('AcroForm', '''
Fields! list refField
NeedAppearances bool
SigFlags int
DA bytes
DR dict Resources
''')
role('Field', '''
FT name Btn|Tx|Ch|Sig
Parent ref Field
Kids list refFieldOrWidget
T text
TU text
Ff int
V fieldvalue
Opt list text
MaxLen int
DA bytes
''')
role('StructTreeRoot', '''
Type! name StructTreeRoot
K rootkids
ParentTree numtreeref ParentTreeEntry
ParentTreeNextKey int
RoleMap rolemap
''')
role('StructElem', '''
Type name StructElem
S! name
P! ref StructParent
ID bytes
Pg ref Page
K structkids
T text
Lang text
Alt text
ActualText text
''')
role('OCProperties', '''
OCGs! list refOCG
D! dict OCConfig
''')
role('OCConfig', '''
Name text
Creator text
BaseState name ON|OFF|Unchanged
ON list refOCG
OFF list refOCG
Order any
''')
role('OCG', '''
Type! name OCG
Name! text
Intent name View|Design
Usage any
''')
role('NameDict', '''
EmbeddedFiles nametree Filespec
''')
role('Filespec', '''
Type! name Filespec
F! bytes
UF! text
Desc text
AFRelationship name Source|Data|Alternative|Supplement|EncryptedPayload|FormData|Schema|Unspecified
EF! dict EF
''')
role('EF', '''
F! ref EmbeddedFile
UF ref EmbeddedFile
''')
role('EmbeddedFile', '''
Type name EmbeddedFile
Subtype name
Params dict EFParams
Length! int
Filter name FlateDecode
''')
role('EFParams', '''
Size int
CreationDate date
ModDate date
CheckSum bytes
''')
role('PageLabel', '''
Type name PageLabel
S name D|R|r|A|a
P text
St int+
''')
role('OutputIntent', '''
Type name OutputIntent
S! name GTS_PDFX|GTS_PDFA1
OutputConditionIdentifier! text
OutputCondition text
RegistryName text
Info text
DestOutputProfile ref ICCStream
''')
role('Metadata', '''
Type! name Metadata
Subtype! name XML
Length! int
''')
role('Collection', '''
Type name Collection
Schema dict CollSchema
D bytes
View name D|T|H|C
''')
role('CollField', '''
Type name CollectionField
Subtype! name S|D|N|F|Desc|ModDate|CreationDate|Size|CompressedSize
N! text
O int
V bool
E bool
''')
role('Trans', '''
Type name Trans
S name ''' + '|'.join(TRANS) + '''
D num
Dm name H|V
M name I|O
Di di
SS num
B bool
''')
role('NavNode', '''
Type! name NavNode
NA dict SetOCG
PA dict SetOCG
Next ref NavNode
Prev ref NavNode
Dur num
''')
role('SetOCG', '''
Type name Action
S! name SetOCGState|Trans
State ocgstate
Trans dict Trans
Next dict SetOCG
PreserveRB bool
''')
role('Viewport', '''
Type name Viewport
BBox! rect
Name text
Measure dict Measure
''')
role('Measure', '''
Type name Measure
Subtype name RL
R! text
X! list NumberFormat
Y list NumberFormat
D! list NumberFormat
A! list NumberFormat
''')
role('NumberFormat', '''
Type name NumberFormat
U! text
C! num
''')


class Schema:
    def __init__(self, P):
        self.P = P
        self.issues = []
        self.seen = set()
        self.roles = {}
        self.ndict = 0
        self.page_refs = {}
        self.hits = {}

    def bad(self, where, m):
        self.issues.append('%s: %s' % (where, m))

    def run(self):
        P = self.P
        role = 'Trailer'
        t = dict(P.trailer)
        if P.xref_kind == 'stream':
            role = 'XRefStream'
            for k in ('Length', 'Filter', 'DecodeParms'):
                t.pop(k, None)
        self.check_dict(role, t, 'trailer')
        return self.issues

    def text(self, v, where):
        from pdf import text_string
        if not isinstance(v, bytes):
            return self.bad(where, 'is %r, not a string' % (v,))
        if text_string(v) is None:
            self.bad(where, 'is not a decodable text string: %r' % v)

    def value(self, t, v, where):
        """checks v against the type expression t"""
        k, _, arg = t.partition(' ')
        P = self.P
        raw = v
        if k != 'any' and not k.startswith(('ref', 'numtreeref', 'list', 'contents')):
            pass
        v = P.get(raw)
        if v is None and k != 'any':
            return self.bad(where, 'is null or a dangling reference (%r)' % (raw,))
        if k == 'any':
            return
        if k == 'name':
            if not isname(v, arg.split('|') if arg else None):
                self.bad(where, 'is %r, expected a name%s' % (v, ' out of ' + arg if arg else ''))
        elif k == 'int':
            if not isint(v):
                self.bad(where, 'is %r, expected an integer' % (v,))
        elif k == 'int+':
            if not isint(v) or v < 1:
                self.bad(where, 'is %r, expected a positive integer' % (v,))
        elif k == 'int01':
            if v not in (0, 1) or not isint(v):
                self.bad(where, 'is %r, expected 0 or 1' % (v,))
        elif k == 'int134':
            if not isint(v) or v not in (1, 3, 4):
                self.bad(where, 'is %r, expected 1, 3 or 4' % (v,))
        elif k == 'num':
            if not isnum(v):
                self.bad(where, 'is %r, expected a number' % (v,))
        elif k == 'unit':
            if not isnum(v) or not 0 <= v <= 1:
                self.bad(where, 'is %r, expected a number from 0 to 1' % (v,))
        elif k == 'bool':
            if not isinstance(v, bool):
                self.bad(where, 'is %r, expected a boolean' % (v,))
        elif k == 'bytes':
            if not isinstance(v, bytes):
                self.bad(where, 'is %r, expected a string' % (v,))
        elif k == 'ascii':
            if not isinstance(v, bytes) or any(c > 127 for c in v):
                self.bad(where, 'is %r, expected an ASCII string' % (v,))
        elif k == 'text':
            self.text(v, where)
        elif k == 'date':
            if not isinstance(v, bytes) or not DATE.match(v):
                self.bad(where, 'is %r, expected a date' % (v,))
        elif k == 'rect' or k == 'rect0':
            if not isinstance(v, list) or len(v) != 4 or not all(isnum(P.get(x)) for x in v):
                self.bad(where, 'is %r, expected a rectangle' % (v,))
        elif k == 'matrix':
            if not isinstance(v, list) or len(v) != 6 or not all(isnum(x) for x in v):
                self.bad(where, 'is %r, expected a matrix' % (v,))
        elif k.startswith('nums'):
            n = int(k[4:]) if k[4:] else None
            if not isinstance(v, list) or (n is not None and len(v) != n) or not all(isnum(x) for x in v):
                self.bad(where, 'is %r, expected %s numbers' % (v, n or ''))
        elif k == 'ref':
            if not isinstance(raw, Ref):
                return self.bad(where, 'is %r, expected an indirect reference to a %s' % (raw, arg))
            self.obj(arg, raw, where)
        elif k == 'dict':
            self.obj(arg, raw, where)
        elif k.startswith('list'):
            n = int(k[4:]) if k[4:] else None
            if not isinstance(v, list) or (n is not None and len(v) != n):
                return self.bad(where, 'is %r, expected an array%s' % (v, ' of %d' % n if n else ''))
            for i, x in enumerate(v):
                w = '%s[%d]' % (where, i)
                if arg.startswith('ref'):
                    self.value('ref ' + arg[3:], x, w)
                elif arg in S or hasattr(self, 'r_' + arg):
                    self.obj(arg, x, w)
                else:
                    self.value(arg, x, w)
        elif k == 'map':
            if not isinstance(v, dict):
                return self.bad(where, 'is %r, expected a dictionary' % (v,))
            for n, x in v.items():
                self.obj(arg, x, where + '/' + n)
        elif k == 'contents':
            for x in v if isinstance(v, list) else [raw]:
                if not isinstance(x, Ref) or not isinstance(P.get(x), Stream):
                    self.bad(where, 'is %r, expected a reference to a stream' % (x,))
                else:
                    self.stream_keys(P.get(x), where)
        elif k == 'dest':
            if not isinstance(v, list) or len(v) < 2:
                return self.bad(where, 'is %r, expected an explicit destination' % (v,))
            if not isinstance(v[0], Ref):
                self.bad(where, 'destination page is %r, expected a page reference' % (v[0],))
            else:
                self.obj('Page', v[0], where)
            want = {'XYZ': 3, 'Fit': 0, 'FitH': 1, 'FitV': 1, 'FitR': 4, 'FitB': 0, 'FitBH': 1, 'FitBV': 1}
            if not isname(v[1], want) or len(v) != 2 + want[str(v[1])] or not all(x is None or isnum(x) for x in v[2:]):
                self.bad(where, 'malformed destination %r' % (v,))
        elif k == 'filters':
            l = v if isinstance(v, list) else [v]
            if not all(isname(x, ('FlateDecode', 'DCTDecode', 'RunLengthDecode', 'CCITTFaxDecode')) for x in l):
                self.bad(where, 'is %r, expected filter names' % (v,))
        elif k == 'di':
            if not (isname(v, ('None',)) or isint(v) and v in (0, 90, 180, 270, 315)):
                self.bad(where, 'is %r, expected a transition direction' % (v,))
        elif k == 'smask':
            if isname(v, ('None',)):
                return
            self.obj('SMask', raw, where)
        elif k == 'halftone':
            if isname(v, ('Default',)):
                return
            self.obj('Halftone1', raw, where)
        elif k == 'le':
            if not isinstance(v, list) or len(v) != 2 or not all(isname(x, LE) for x in v):
                self.bad(where, 'is %r, expected two line ending names' % (v,))
        elif k == 'apN':
            if isinstance(v, Stream):
                self.obj('Form', raw, where)
            elif isinstance(v, dict):
                for n, x in v.items():
                    self.value('ref Form', x, where + '/' + n)
            else:
                self.bad(where, 'is %r, expected an appearance' % (v,))
        elif k == 'fieldvalue':
            if isinstance(v, bytes):
                self.text(v, where)
            elif not isname(v):
                self.bad(where, 'is %r, expected a text string or name' % (v,))
        elif k == 'structkids':
            for x in v if isinstance(v, list) else [raw]:
                if isint(x):
                    if x < 0:
                        self.bad(where, 'negative marked-content id %d' % x)
                elif isinstance(x, Ref):
                    self.obj('StructElem', x, where)
                else:
                    self.bad(where, 'structure kid %r' % (x,))
        elif k == 'rootkids':
            for x in v if isinstance(v, list) else [raw]:
                self.value('ref StructElem', x, where)
        elif k == 'rolemap':
            if not isinstance(v, dict):
                return self.bad(where, 'is %r, expected a dictionary' % (v,))
            for n, x in v.items():
                if not isname(x):
                    self.bad(where + '/' + n, 'is %r, expected a name' % (x,))
        elif k == 'ocgstate':
            if not isinstance(v, list) or not v or not isname(v[0], ('ON', 'OFF', 'Toggle')):
                return self.bad(where, 'malformed state array %r' % (v,))
            for x in v:
                if not isname(x, ('ON', 'OFF', 'Toggle')):
                    self.value('ref OCG', x, where)
        elif k in ('numtree', 'numtreeref', 'nametree'):
            if k == 'numtreeref' and not isinstance(raw, Ref):
                self.bad(where, 'is %r, expected an indirect reference' % (raw,))
            self.tree(k, arg, raw, where)
        elif k == 'widths':
            self.widths(v, where)
        elif k in S or hasattr(self, 'r_' + k):
            self.obj(k, raw, where)
        else:
            raise AssertionError('unknown type expression ' + t)

    def widths(self, v, where):
        if not isinstance(v, list):
            return self.bad(where, 'is %r, expected an array' % (v,))
        i = 0
        while i < len(v):
            if not isint(v[i]):
                return self.bad(where, 'malformed width array')
            if i + 1 < len(v) and isinstance(v[i + 1], list):
                if not all(isnum(x) for x in v[i + 1]):
                    self.bad(where, 'malformed width array')
                i += 2
            elif i + 2 < len(v) and isint(v[i + 1]) and isnum(v[i + 2]):
                i += 3
            else:
                return self.bad(where, 'malformed width array')

    def tree(self, k, arg, raw, where):
        leafkey = 'Names' if k == 'nametree' else 'Nums'
        keys = []

        def node(r, w, root):
            d = self.P.get(r)
            if not isinstance(d, dict):
                return self.bad(w, 'tree node is %r' % (d,))
            for x in d:
                if x not in ('Kids', 'Limits', leafkey):
                    self.bad(w, 'unexpected key %s in tree node' % x)
            if 'Kids' in d:
                for c in d['Kids']:
                    node(c, w + '/Kids', False)
            l = self.P.get(d.get(leafkey))
            if root and not d:
                return                  # an empty tree
            if 'Kids' not in d and (not isinstance(l, list) or len(l) % 2):
                return self.bad(w, 'tree leaf without %s pairs: %r' % (leafkey, l))
            mine = []
            for i in range(0, len(l or ()), 2):
                key = l[i]
                if (leafkey == 'Names') != isinstance(key, bytes) or leafkey == 'Nums' and not isint(key):
                    self.bad(w, 'tree key %r' % (key,))
                    continue
                if keys and not keys[-1] < key:
                    self.bad(w, 'tree keys out of order: %r, %r' % (keys[-1], key))
                keys.append(key)
                mine.append(key)
                self.obj(arg, l[i + 1], '%s[%r]' % (w, key))
            lim = d.get('Limits')
            if lim is not None and mine and (lim[0] != mine[0] or lim[1] != mine[-1]):
                self.bad(w, 'Limits %r do not match the keys %r..%r' % (lim, mine[0], mine[-1]))
            if lim is None and not root:
                self.bad(w, 'tree node without Limits')
        node(raw, where, True)

    # -- objects
    def obj(self, role, raw, where):
        v = self.P.get(raw)
        if isinstance(raw, Ref):
            key = (role, raw[0])
            if key in self.seen:
                return
            self.seen.add(key)
            self.roles.setdefault(raw[0], set()).add(role)
            where = '%s(%d)' % (role, raw[0])
        h = getattr(self, 'r_' + role, None)
        if h:
            return h(raw, v, where)
        d = v
        if isinstance(v, Stream):
            d = v.d
            if 'Length' not in S[role]:
                self.bad(where, 'is a stream, expected a plain dictionary (%s)' % role)
        elif not isinstance(v, dict):
            return self.bad(where, 'is %r, expected a %s dictionary' % (v, role))
        elif 'Length' in S[role]:
            self.bad(where, 'is a plain dictionary, expected a stream (%s)' % role)
        self.check_dict(role, d, where)

    def check_dict(self, role, d, where):
        self.ndict += 1
        self.hits[role] = self.hits.get(role, 0) + 1
        sp = S[role]
        for k, (t, req) in sp.items():
            if req and k not in d:
                self.bad(where, 'required key %s is missing' % k)
        for k, v in d.items():
            if str(k) not in sp:
                self.bad(where, 'unexpected key %s = %r' % (k, str(v)[:60]))
            else:
                self.value(sp[str(k)][0], v, where + '/' + k)
        x = getattr(self, 'x_' + role, None)
        if x:
            x(d, where)

    def stream_keys(self, st, where):
        for k, v in st.d.items():
            if k not in ('Length', 'Filter', 'DecodeParms'):
                self.bad(where, 'unexpected key %s in content stream' % k)

    def r_PageNode(self, raw, v, where):
        if isinstance(v, dict) and v.get('Type') == 'Pages':
            return self.obj('Pages', raw, where)
        self.obj('Page', raw, where)

    def r_OutlineAny(self, raw, v, where):
        if isinstance(v, dict) and 'Title' in v:
            return self.obj('OutlineItem', raw, where)
        self.obj('OutlineRoot', raw, where)

    def r_StructParent(self, raw, v, where):
        if isinstance(v, dict) and v.get('Type') == 'StructTreeRoot':
            return self.obj('StructTreeRoot', raw, where)
        self.obj('StructElem', raw, where)

    def r_ParentTreeEntry(self, raw, v, where):
        if isinstance(v, list):
            for x in v:
                if x is not None:
                    self.value('ref StructElem', x, where)
        else:
            self.value('ref StructElem', raw, where)

    def r_XObject(self, raw, v, where):
        if not isinstance(raw, Ref) or not isinstance(v, Stream):
            return self.bad(where, 'XObject is %r, expected a reference to a stream' % (raw,))
        st = v.d.get('Subtype')
        if st not in ('Image', 'Form'):
            return self.bad(where, 'XObject with Subtype %r' % (st,))
        self.obj(str(st), raw, where)

    def r_Pattern(self, raw, v, where):
        d = v.d if isinstance(v, Stream) else v
        t = d.get('PatternType') if isinstance(d, dict) else None
        if t not in (1, 2):
            return self.bad(where, 'pattern with PatternType %r' % (t,))
        if (t == 1) != isinstance(v, Stream):
            return self.bad(where, 'pattern type %d is a %s' % (t, type(v).__name__))
        self.obj('Pattern%d' % t, raw, where)

    def r_Shading(self, raw, v, where):
        d = v.d if isinstance(v, Stream) else v
        t = d.get('ShadingType') if isinstance(d, dict) else None
        if t not in (2, 3, 4, 6):
            return self.bad(where, 'shading with ShadingType %r' % (t,))
        if (t in (4, 6)) != isinstance(v, Stream):
            return self.bad(where, 'shading type %d is a %s' % (t, type(v).__name__))
        self.obj('Shading%d' % t if t < 4 else 'ShadingMesh', raw, where)

    def x_ShadingMesh(self, d, where):
        if d.get('BitsPerCoordinate') not in (1, 2, 4, 8, 12, 16, 24, 32) or d.get('BitsPerComponent') not in (1, 2, 4, 8, 12, 16) \
                or d.get('BitsPerFlag') not in (2, 4, 8):
            self.bad(where, 'illegal bit sizes')
        n = self.ncomp(d.get('ColorSpace'))
        if n and isinstance(d.get('Decode'), list) and len(d['Decode']) != 4 + 2 * n:
            self.bad(where, 'Decode has %d entries for %d components' % (len(d['Decode']), n))

    def ncomp(self, cs):
        cs = self.P.get(cs)
        if isinstance(cs, Name):
            return NCOMP.get(str(cs))
        if isinstance(cs, list) and cs:
            if cs[0] == 'ICCBased':
                return self.P.dget(cs[1], 'N')
            return {'Lab': 3, 'Separation': 1}.get(str(cs[0]))

    def x_Shading2(self, d, where):
        n, m = self.ncomp(d.get('ColorSpace')), self.nout(d.get('Function'))
        if n and m and n != m:
            self.bad(where, 'function with %d outputs for %d components' % (m, n))
        dom = d.get('Domain')
        if isinstance(dom, list) and len(dom) == 2 and not dom[0] <= dom[1]:
            self.bad(where, 'Domain %r' % (dom,))

    def x_Shading3(self, d, where):
        self.x_Shading2(d, where)
        c = d.get('Coords')
        if isinstance(c, list) and len(c) == 6 and (c[2] < 0 or c[5] < 0):
            self.bad(where, 'negative radius')

    def nout(self, f):
        v = self.P.get(f)
        d = v.d if isinstance(v, Stream) else v
        if not isinstance(d, dict):
            return None
        t = d.get('FunctionType')
        if t == 2:
            return len(d.get('C0', [0]))
        if t == 4:
            return len(d.get('Range', [])) // 2
        if t == 3:
            fs = self.P.get(d.get('Functions')) or []
            return self.nout(fs[0]) if fs else None

    def r_Function(self, raw, v, where):
        d = v.d if isinstance(v, Stream) else v
        t = d.get('FunctionType') if isinstance(d, dict) else None
        if t not in (2, 3, 4):
            return self.bad(where, 'function with FunctionType %r' % (t,))
        if (t == 4) != isinstance(v, Stream):
            return self.bad(where, 'function type %d is a %s' % (t, type(v).__name__))
        self.obj('Function%d' % t, raw, where)

    def x_Function2(self, d, where):
        if len(d.get('C0', [0])) != len(d.get('C1', [0])):
            self.bad(where, 'C0 and C1 differ in length')

    def x_Function3(self, d, where):
        f, b, e, dom = (self.P.get(d.get(k)) for k in ('Functions', 'Bounds', 'Encode', 'Domain'))
        if not all(isinstance(x, list) for x in (f, b, e, dom)) or len(dom) != 2:
            return
        if len(b) != len(f) - 1 or len(e) != 2 * len(f):
            self.bad(where, 'stitching function with %d functions, %d bounds, %d encode values' % (len(f), len(b), len(e)))
        if len({self.nout(x) for x in f}) > 1:
            self.bad(where, 'stitched functions have different outputs')

    def x_Function4(self, d, where):
        for k in ('Domain', 'Range'):
            v = d.get(k)
            if isinstance(v, list) and (len(v) % 2 or not v):
                self.bad(where, '%s has %d values' % (k, len(v)))

    def r_Font(self, raw, v, where):
        st = v.get('Subtype') if isinstance(v, dict) else None
        if st not in ('Type0', 'Type1'):
            return self.bad(where, 'font with Subtype %r' % (st,))
        self.obj('Font0' if st == 'Type0' else 'Font1', raw, where)

    def x_CIDFont(self, d, where):
        fd = self.P.get(d.get('FontDescriptor')) or {}
        t2 = d.get('Subtype') == 'CIDFontType2'
        ff3 = self.P.dget(fd, 'FontFile3', 'Subtype')
        if 'FontFile2' not in fd and 'FontFile3' not in fd:
            self.bad(where, 'font without embedded program')
        if t2 and 'FontFile3' in fd and ff3 != 'OpenType' or not t2 and ff3 not in ('CIDFontType0C', 'OpenType'):
            self.bad(where, '%s with FontFile3 subtype %r' % (d.get('Subtype'), ff3))
        if t2 and 'CIDToGIDMap' not in d:
            self.bad(where, 'embedded CIDFontType2 without CIDToGIDMap')
        if not t2 and 'CIDToGIDMap' in d:
            self.bad(where, 'CIDToGIDMap in a CIDFontType0')
        if d.get('BaseFont') != fd.get('FontName'):
            self.bad(where, 'BaseFont %r differs from FontName %r' % (d.get('BaseFont'), fd.get('FontName')))
        if not re.match(r'[A-Z]{6}\+.', str(d.get('BaseFont'))):
            self.bad(where, 'subset font name %r without tag' % (d.get('BaseFont'),))

    def r_Properties(self, raw, v, where):
        if isinstance(v, dict) and v.get('Type') == 'OCG':
            if not isinstance(raw, Ref):
                self.bad(where, 'optional content group is not an indirect object')
            return self.obj('OCG', raw, where)
        self.bad(where, 'property list %r' % (v,))

    def r_ColorSpace(self, raw, v, where):
        if isinstance(v, Name):
            if str(v) not in DEVCS:
                self.bad(where, 'colour space %r' % (v,))
            return
        if not isinstance(v, list) or not v or not isinstance(v[0], Name):
            return self.bad(where, 'colour space is %r' % (v,))
        k = str(v[0])
        if k == 'ICCBased' and len(v) == 2:
            self.value('ref ICCStream', v[1], where)
        elif k == 'Lab' and len(v) == 2:
            self.value('dict LabDict', v[1], where)
        elif k == 'Separation' and len(v) == 4:
            if not isname(v[1]):
                self.bad(where, 'separation name is %r' % (v[1],))
            self.obj('ColorSpace', v[2], where + '/alternate')
            self.obj('Function', v[3], where + '/tint')
            n, m = self.ncomp(v[2]), self.nout(v[3])
            if n and m and n != m:
                self.bad(where, 'tint transform has %d outputs for %d components' % (m, n))
        else:
            self.bad(where, 'malformed colour space %r' % (v,))

    def x_ICCStream(self, d, where):
        pass

    def x_Image(self, d, where):
        m = d.get('ImageMask')
        bpc = d.get('BitsPerComponent')
        if m:
            if 'ColorSpace' in d or bpc not in (1, None) or 'SMask' in d:
                self.bad(where, 'image mask with ColorSpace, SMask or %r bits' % (bpc,))
        else:
            if 'ColorSpace' not in d:
                self.bad(where, 'image without ColorSpace')
            if bpc not in (1, 2, 4, 8, 16):
                self.bad(where, 'BitsPerComponent is %r' % (bpc,))
        sm = self.P.get(d.get('SMask'))
        if isinstance(sm, Stream) and (sm.d.get('ColorSpace') != 'DeviceGray' or 'SMask' in sm.d):
            self.bad(where, 'soft mask image with colour space %r' % (sm.d.get('ColorSpace'),))

    def x_SMask(self, d, where):
        g = self.P.get(d.get('G'))
        if isinstance(g, Stream) and self.P.dget(g, 'Group', 'S') != 'Transparency':
            self.bad(where, 'soft mask group is not a transparency group')

    def x_Pattern1(self, d, where):
        if d.get('PaintType') not in (1, 2) or d.get('TilingType') not in (1, 2, 3):
            self.bad(where, 'PaintType/TilingType %r/%r' % (d.get('PaintType'), d.get('TilingType')))
        if d.get('XStep') == 0 or d.get('YStep') == 0:
            self.bad(where, 'zero step')

    def r_Annot(self, raw, v, where):
        st = v.get('Subtype') if isinstance(v, dict) else None
        if not isinstance(st, Name) or 'Annot' + st not in S:
            return self.bad(where, 'annotation with Subtype %r' % (st,))
        self.obj('Annot' + st, raw, where)

    def x_AnnotBase(self, d, where):
        pass

    def x_AnnotWidget(self, d, where):
        n = self.P.dget(d, 'AP', 'N')
        if isinstance(n, dict) and 'AS' not in d:
            self.bad(where, 'appearance states without AS')

    def r_FieldOrWidget(self, raw, v, where):
        if isinstance(v, dict) and v.get('Subtype') == 'Widget':
            return self.obj('Annot', raw, where)
        self.obj('Field', raw, where)

    def x_Action(self, d, where):
        pass

    def x_SetOCG(self, d, where):
        s = d.get('S')
        if s == 'SetOCGState' and 'State' not in d or s == 'Trans' and 'Trans' not in d:
            self.bad(where, 'action %s lacks its State or Trans' % s)

    def r_CollSchema(self, raw, v, where):
        if not isinstance(v, dict):
            return self.bad(where, 'is %r, expected a dictionary' % (v,))
        for k, x in v.items():
            if k == 'Type':
                self.value('name CollectionSchema', x, where + '/Type')
            else:
                self.obj('CollField', x, where + '/' + k)

    def x_StructElem(self, d, where):
        s = d.get('S')
        if isname(s) and str(s) not in STRUCT:
            rm = self.P.dget(self.P.root, 'StructTreeRoot', 'RoleMap') or {}
            k, n = str(s), 0
            while k not in STRUCT and n < 50:
                k = str(rm.get(k)) if rm.get(k) is not None else None
                if k is None:
                    self.bad(where, 'structure type %r is neither standard nor in the role map' % (s,))
                    break
                n += 1

    def x_Metadata(self, d, where):
        pass
