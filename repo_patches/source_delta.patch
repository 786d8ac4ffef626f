From 211f8f5b99588414ce0dcd9b937130c030c44f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 001/115] fix: write continuation patches of type 6 shadings
 instead of aborting

---
 src/capi.cpp     |   1 +
 src/document.cpp | 100 ++++++++++++++++++++++++-----------------------
 2 files changed, 53 insertions(+), 48 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index cea91c4..3eb22e3 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -2512,6 +2512,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_extend(CapyPDF_Shading *shade,
             return conv_err(ErrorCode::BadStripStart);
         }
         ContinuationCoonsPatch ccp;
+        ccp.flag = flag;
         grab_coons_data(ccp, coords, colors);
         sh6->elements.emplace_back(std::move(ccp));
     } else {
diff --git a/src/document.cpp b/src/document.cpp
index d236ff2..514cb67 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -8,6 +8,7 @@
 #include <xmlformatter.hpp>
 
 #include <cassert>
+#include <span>
 #include <array>
 #include <bit>
 #include <algorithm>
@@ -215,57 +216,60 @@ rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
     return rvoe<std::string>{std::move(s)};
 }
 
-rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
-    std::string s;
-    for(const auto &eh : shade.elements) {
-        if(!std::holds_alternative<FullCoonsPatch>(eh)) {
-            fprintf(stderr, "Continuation patches not yet supported.\n");
-            std::abort();
-        }
-        const auto &e = std::get<FullCoonsPatch>(eh);
-        char flag = 0; //(char)e.flag;
-        assert(flag >= 0 && flag < 3);
-        const char *ptr;
-        ptr = (const char *)(&flag);
-        s.append(ptr, ptr + sizeof(char));
+rvoe<NoReturnValue> append_coons_patch(std::string &s,
+                                       const ShadingType6 &shade,
+                                       int flag,
+                                       std::span<const Point> points,
+                                       std::span<const Color> colors) {
+    assert(flag >= 0 && flag < 4);
+    s += (char)flag;
 
-        for(const auto &p : e.p) {
-            const double xratio =
-                std::clamp((p.x - shade.minx) / (shade.maxx - shade.minx), 0.0, 1.0);
-            const double yratio =
-                std::clamp((p.y - shade.miny) / (shade.maxy - shade.miny), 0.0, 1.0);
+    for(const auto &p : points) {
+        const double xratio = std::clamp((p.x - shade.minx) / (shade.maxx - shade.minx), 0.0, 1.0);
+        const double yratio = std::clamp((p.y - shade.miny) / (shade.maxy - shade.miny), 0.0, 1.0);
 
-            ERCV(append_floatvalue<uint32_t>(s, xratio));
-            ERCV(append_floatvalue<uint32_t>(s, yratio));
-        }
-        for(const auto &colorobj : e.c) {
-            if(shade.colorspace == CAPY_DEVICE_CS_RGB) {
-                if(!std::holds_alternative<DeviceRGBColor>(colorobj)) {
-                    RETERR(ColorspaceMismatch);
-                }
-                const auto &c = std::get<DeviceRGBColor>(colorobj);
-                ERCV(append_floatvalue<uint16_t>(s, c.r.v()));
-                ERCV(append_floatvalue<uint16_t>(s, c.g.v()));
-                ERCV(append_floatvalue<uint16_t>(s, c.b.v()));
-            } else if(shade.colorspace == CAPY_DEVICE_CS_GRAY) {
-                if(!std::holds_alternative<DeviceGrayColor>(colorobj)) {
-                    RETERR(ColorspaceMismatch);
-                }
-                const auto &c = std::get<DeviceGrayColor>(colorobj);
-                ERCV(append_floatvalue<uint16_t>(s, c.v.v()));
-            } else if(shade.colorspace == CAPY_DEVICE_CS_CMYK) {
-                if(!std::holds_alternative<DeviceCMYKColor>(colorobj)) {
-                    RETERR(ColorspaceMismatch);
-                }
-                const auto &c = std::get<DeviceCMYKColor>(colorobj);
-                ERCV(append_floatvalue<uint16_t>(s, c.c.v()));
-                ERCV(append_floatvalue<uint16_t>(s, c.m.v()));
-                ERCV(append_floatvalue<uint16_t>(s, c.y.v()));
-                ERCV(append_floatvalue<uint16_t>(s, c.k.v()));
-            } else {
-                fprintf(stderr, "Color space not yet supported.\n");
-                std::abort();
+        ERCV(append_floatvalue<uint32_t>(s, xratio));
+        ERCV(append_floatvalue<uint32_t>(s, yratio));
+    }
+    for(const auto &colorobj : colors) {
+        if(shade.colorspace == CAPY_DEVICE_CS_RGB) {
+            if(!std::holds_alternative<DeviceRGBColor>(colorobj)) {
+                RETERR(ColorspaceMismatch);
+            }
+            const auto &c = std::get<DeviceRGBColor>(colorobj);
+            ERCV(append_floatvalue<uint16_t>(s, c.r.v()));
+            ERCV(append_floatvalue<uint16_t>(s, c.g.v()));
+            ERCV(append_floatvalue<uint16_t>(s, c.b.v()));
+        } else if(shade.colorspace == CAPY_DEVICE_CS_GRAY) {
+            if(!std::holds_alternative<DeviceGrayColor>(colorobj)) {
+                RETERR(ColorspaceMismatch);
+            }
+            const auto &c = std::get<DeviceGrayColor>(colorobj);
+            ERCV(append_floatvalue<uint16_t>(s, c.v.v()));
+        } else if(shade.colorspace == CAPY_DEVICE_CS_CMYK) {
+            if(!std::holds_alternative<DeviceCMYKColor>(colorobj)) {
+                RETERR(ColorspaceMismatch);
             }
+            const auto &c = std::get<DeviceCMYKColor>(colorobj);
+            ERCV(append_floatvalue<uint16_t>(s, c.c.v()));
+            ERCV(append_floatvalue<uint16_t>(s, c.m.v()));
+            ERCV(append_floatvalue<uint16_t>(s, c.y.v()));
+            ERCV(append_floatvalue<uint16_t>(s, c.k.v()));
+        } else {
+            RETERR(ColorspaceMismatch);
+        }
+    }
+    RETOK;
+}
+
+rvoe<std::string> serialize_shade6(const ShadingType6 &shade) {
+    std::string s;
+    for(const auto &e : shade.elements) {
+        if(const auto *full = std::get_if<FullCoonsPatch>(&e)) {
+            ERCV(append_coons_patch(s, shade, 0, full->p, full->c));
+        } else {
+            const auto &cont = std::get<ContinuationCoonsPatch>(e);
+            ERCV(append_coons_patch(s, shade, cont.flag, cont.p, cont.c));
         }
     }
     return s;
-- 
2.43.0


From 395092248abe62660178c87dd3e90672c2a2562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 002/115] fix: report an error for mesh shadings and type 2
 functions with non-device colors instead of aborting

---
 src/document.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 514cb67..837b023 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -209,8 +209,7 @@ rvoe<std::string> serialize_shade4(const ShadingType4 &shade) {
             ERCV(append_floatvalue<uint16_t>(s, cmyk->y.v()));
             ERCV(append_floatvalue<uint16_t>(s, cmyk->k.v()));
         } else {
-            fprintf(stderr, "Color space not supported yet.");
-            std::abort();
+            RETERR(ColorspaceMismatch);
         }
     }
     return rvoe<std::string>{std::move(s)};
@@ -287,7 +286,7 @@ int32_t num_channels_for(const CapyPDF_Image_Colorspace cs) {
     std::abort();
 }
 
-void color2numbers(ObjectFormatter &fmt, const Color &c) {
+rvoe<NoReturnValue> color2numbers(ObjectFormatter &fmt, const Color &c) {
     if(auto *rgb = std::get_if<DeviceRGBColor>(&c)) {
         fmt.add_token(rgb->r.v());
         fmt.add_token(rgb->g.v());
@@ -300,9 +299,9 @@ void color2numbers(ObjectFormatter &fmt, const Color &c) {
         fmt.add_token(cmyk->y.v());
         fmt.add_token(cmyk->k.v());
     } else {
-        fprintf(stderr, "Colorspace not supported yet.\n");
-        std::abort();
+        RETERR(ColorspaceMismatch);
     }
+    RETOK;
 }
 
 template<typename T1, typename T2> static void append_value_or_null(T1 &fmt, const T2 &val) {
@@ -1768,11 +1767,11 @@ rvoe<int32_t> PdfDocument::serialize_function(const FunctionType2 &func) {
 
     fmt.add_token("/C0");
     fmt.begin_array();
-    color2numbers(fmt, func.C0);
+    ERCV(color2numbers(fmt, func.C0));
     fmt.end_array();
     fmt.add_token("/C1");
     fmt.begin_array();
-    color2numbers(fmt, func.C1);
+    ERCV(color2numbers(fmt, func.C1));
     fmt.end_array();
     fmt.end_dict();
 
-- 
2.43.0


From 0a13ed5137f24fe4dcb41dd5023d802756765d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 003/115] fix: give the output intent dictionary a name as its
 type

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 837b023..2578c44 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1157,7 +1157,7 @@ void PdfDocument::create_output_intent() {
     const char *gts =
         std::holds_alternative<CapyPDF_PDFX_Type>(docprops.subtype) ? "/GTS_PDFX" : "/GTS_PDFA1";
     fmt.begin_dict();
-    fmt.add_token_pair("/Type", "OutputIntent");
+    fmt.add_token_pair("/Type", "/OutputIntent");
     fmt.add_token_pair("/S", gts);
     fmt.add_token("/OutputConditionIdentifier");
     fmt.add_token(utf8_to_pdfutf16be(docprops.intent_condition_identifier));
-- 
2.43.0


From d68a682952586d69c83c06b2b2d2569747857f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 004/115] fix: write the structure parent tree as a reference

---
 src/document.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 2578c44..d394015 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1272,7 +1272,8 @@ void PdfDocument::create_structure_root_dict() {
     fmt.begin_array();
     fmt.add_object_ref(structure_items[rootobj->id].obj_id);
     fmt.end_array();
-    fmt.add_token_pair("/ParentTree", structure_parent_tree_object.value());
+    fmt.add_token("/ParentTree");
+    fmt.add_object_ref(structure_parent_tree_object.value());
     fmt.add_token_pair("/ParentTreeNextKey", structure_parent_tree_items.size());
     if(!rolemap.empty()) {
         fmt.add_token("/RoleMap");
-- 
2.43.0


From e0fee6dd0e6928171eda181471a82b847b410220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 005/115] fix: map roles to names

---
 src/document.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index d394015..95db2ab 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1279,7 +1279,8 @@ void PdfDocument::create_structure_root_dict() {
         fmt.add_token("/RoleMap");
         fmt.begin_dict();
         for(const auto &i : rolemap) {
-            fmt.add_token_pair(bytes2pdfstringliteral(i.name), structure_type_names.at(i.builtin));
+            fmt.add_token(bytes2pdfstringliteral(i.name));
+            fmt.add_token_with_slash(structure_type_names.at(i.builtin));
         }
         fmt.end_dict();
     }
-- 
2.43.0


From 066f09919a927a39567c80cbc96911e5d7e87a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 006/115] fix: put NeedAppearances in the interactive form
 dictionary

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 95db2ab..3b72b41 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1083,8 +1083,8 @@ rvoe<NoReturnValue> PdfDocument::create_catalog() {
             }
         }
         fmt.end_array();
-        fmt.end_dict();
         fmt.add_token_pair("/NeedAppearances", "true");
+        fmt.end_dict();
     }
     if(!ocg_items.empty()) {
         fmt.add_token("/OCProperties");
-- 
2.43.0


From 4dfbfa9b962fdde8d7c277000c6bdf5b857c78db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 007/115] fix: write the stream length of mesh shadings only
 once

---
 src/document.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 3b72b41..47b2d47 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1952,7 +1952,6 @@ rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType4 &shade) {
     fmt.add_token_pair("/BitsPerCoordinate", 32);
     fmt.add_token_pair("/BitsPerComponent", 16);
     fmt.add_token_pair("/BitsPerFlag", 8);
-    fmt.add_token_pair("/Length", serialized.length());
     fmt.add_token("/Decode");
     fmt.begin_array(2);
     fmt.add_token(shade.minx);
@@ -1988,7 +1987,6 @@ rvoe<int32_t> PdfDocument::serialize_shading(const ShadingType6 &shade) {
     fmt.add_token_pair("/BitsPerCoordinate", 32);
     fmt.add_token_pair("/BitsPerComponent", 16);
     fmt.add_token_pair("/BitsPerFlag", 8);
-    fmt.add_token_pair("/Length", serialized.length());
     fmt.add_token("/Decode");
     fmt.begin_array(2);
     fmt.add_token(shade.minx);
-- 
2.43.0


From 45dbc8bfac3685c7874456ea1ade9c6b9a189d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 008/115] fix: use the right keys for op and AIS in graphics
 state dictionaries

---
 src/document.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 47b2d47..515831e 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1694,7 +1694,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/OP", *state.OP ? "true" : "false");
     }
     if(state.op) {
-        fmt.add_token_pair("/op2", *state.op ? "true" : "false");
+        fmt.add_token_pair("/op", *state.op ? "true" : "false");
     }
     if(state.OPM) {
         fmt.add_token_pair("/OPM", *state.OPM);
@@ -1737,7 +1737,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
         fmt.add_token_pair("/ca", state.ca->v());
     }
     if(state.AIS) {
-        fmt.add_token_pair("/AIS {}", *state.AIS ? "true" : "false");
+        fmt.add_token_pair("/AIS", *state.AIS ? "true" : "false");
     }
     if(state.TK) {
         fmt.add_token_pair("/TK", *state.TK ? "true" : "false");
-- 
2.43.0


From a616baadb5451c97347ece4a512f390ff8ff2fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 009/115] fix: write page label styles as names

---
 src/document.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 515831e..031aab8 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -28,12 +28,12 @@ const std::array<const char *, 3> colorspace_names{
     "/DeviceCMYK",
 };
 
-const std::array<const char, 5> page_label_types{
-    'D', // Decimal
-    'R', // Roman Upper
-    'r', // Roman Lower
-    'A', // Letter Upper
-    'a', // Letter Lower
+const std::array<const char *, 5> page_label_types{
+    "/D", // Decimal
+    "/R", // Roman Upper
+    "/r", // Roman Lower
+    "/A", // Letter Upper
+    "/a", // Letter Lower
 };
 
 const std::array<const char *, 21> spot_function_names{
@@ -640,9 +640,12 @@ PdfDocument::add_page_labeling(uint32_t start_page,
                                std::optional<CapyPDF_Page_Label_Number_Style> style,
                                std::optional<u8string> prefix,
                                std::optional<uint32_t> start_num) {
-    if(!page_labels.empty() && page_labels.back().start_page > start_page) {
+    if(!page_labels.empty() && page_labels.back().start_page >= start_page) {
         RETERR(NonSequentialPageNumber);
     }
+    if(style) {
+        CHECK_ENUM(*style, CAPY_PAGE_LABEL_NUM_LETTER_LOWERCASE);
+    }
     page_labels.emplace_back(start_page, style, std::move(prefix), start_num);
     return NoReturnValue{};
 }
-- 
2.43.0


From 9a715c1236d9d326347309f2ab2cbeca6d590cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 010/115] fix: use the right key for the bounding box of
 viewports

---
 src/pdfwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index a384b57..159b5c9 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -189,7 +189,7 @@ void serialize_viewports(ObjectFormatter &fmt, const std::vector<Viewport> &vps)
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/Viewport");
         if(vp.bbox) {
-            fmt.write_rectangle("bbox", vp.bbox.value());
+            fmt.write_rectangle("BBox", vp.bbox.value());
         }
         if(!vp.name.empty()) {
             fmt.add_token("/Name");
-- 
2.43.0


From 919e9ed01577d9257dba0368e47301d1d83214f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 011/115] fix: identify PDF/A-4f and PDF/A-4e correctly in XMP
 metadata

---
 src/document.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 031aab8..f8077f3 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1325,17 +1325,16 @@ int32_t PdfDocument::add_document_metadata_object() {
         xfmt.add_content(pdfa_part.at(*aptr));
         xfmt.close_tag();
 
-        if(*aptr == CAPY_PDFA_4f) {
+        if(*aptr >= CAPY_PDFA_4f) {
             xfmt.start_tag("pdfaid:rev");
             xfmt.finish_tag();
             xfmt.add_content("2020");
             xfmt.close_tag();
-        } else {
-            xfmt.start_tag("pdfaid:conformance");
-            xfmt.finish_tag();
-            xfmt.add_content(pdfa_conformance.at(*aptr));
-            xfmt.close_tag();
         }
+        xfmt.start_tag("pdfaid:conformance");
+        xfmt.finish_tag();
+        xfmt.add_content(pdfa_conformance.at(*aptr));
+        xfmt.close_tag();
         xfmt.close_tag();
 
         xfmt.start_tag("rdf:Description");
-- 
2.43.0


From 1f3ebf00f7ab2d24a1866e46a8c2b0d85634a8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 012/115] fix: escape ampersands and quotes in XML correctly

---
 src/utils.cpp        | 2 +-
 src/xmlformatter.cpp | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 1c55548..8751b46 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -452,7 +452,7 @@ void quote_xml_element_data_unchecked_into(const std::string_view &content, std:
             result += "&gt;";
             break;
         case '&':
-            result += "&quot;";
+            result += "&amp;";
             break;
         default:
             result += c;
diff --git a/src/xmlformatter.cpp b/src/xmlformatter.cpp
index ca29af8..20a4577 100644
--- a/src/xmlformatter.cpp
+++ b/src/xmlformatter.cpp
@@ -67,7 +67,11 @@ void XMLFormatter::add_tag_attribute(const char *name, std::string_view value) {
     output += "=\"";
     for(const auto c : value) {
         if(c == '"') {
-            output += "\\\"";
+            output += "&quot;";
+        } else if(c == '&') {
+            output += "&amp;";
+        } else if(c == '<') {
+            output += "&lt;";
         } else {
             output += c;
         }
-- 
2.43.0


From 91d33053e89c4b1116b4bbbe292e0289cc50a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 013/115] fix: check the page label style against its own enum

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index f8077f3..853b2c9 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -644,7 +644,7 @@ PdfDocument::add_page_labeling(uint32_t start_page,
         RETERR(NonSequentialPageNumber);
     }
     if(style) {
-        CHECK_ENUM(*style, CAPY_PAGE_LABEL_NUM_LETTER_LOWERCASE);
+        CHECK_ENUM(*style, CAPY_PAGE_LABEL_NUMBER_STYLE_LETTER_LOWER);
     }
     page_labels.emplace_back(start_page, style, std::move(prefix), start_num);
     return NoReturnValue{};
-- 
2.43.0


From 9ac1d5c7653916065dc8e08b9346e3adf6bf33e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 014/115] fix: reject overlong sequences, surrogates and out of
 range values in UTF-8

---
 src/utils.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 8751b46..2128dc4 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -58,6 +58,15 @@ bool is_valid_uf8_character(std::string_view input, size_t cur, const UtfDecodeS
         unpacked |= subsequent & subsequent_data_mask;
     }
 
+    // Overlong encodings.
+    const uint32_t smallest_value[4] = {0, 0x80, 0x800, 0x10000};
+    if(unpacked < smallest_value[par.num_subsequent_bytes]) {
+        return false;
+    }
+    // Surrogates and values that are not in Unicode.
+    if((unpacked >= 0xD800 && unpacked <= 0xDFFF) || unpacked > 0x10FFFF) {
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From a1a9d1bcf15d9761a3d1bb51c47a994d6a48379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 015/115] fix: escape all special characters in strings and
 names

---
 src/commandstreamformatter.cpp |  7 +++---
 src/document.cpp               |  2 +-
 src/drawcontext.cpp            |  2 +-
 src/objectformatter.cpp        |  5 +---
 src/pdfcommon.cpp              |  8 +++---
 src/pdfwriter.cpp              |  3 +--
 src/utils.cpp                  | 46 ++++++++++++++++++++--------------
 7 files changed, 38 insertions(+), 35 deletions(-)

diff --git a/src/commandstreamformatter.cpp b/src/commandstreamformatter.cpp
index 86462b1..8dea2d9 100644
--- a/src/commandstreamformatter.cpp
+++ b/src/commandstreamformatter.cpp
@@ -2,6 +2,7 @@
 // Copyright 2025 Jussi Pakkanen
 
 #include <commandstreamformatter.hpp>
+#include <utils.hpp>
 #include <format>
 #include <cassert>
 
@@ -62,10 +63,10 @@ void CommandStreamFormatter::append_dict_entry(std::string_view key, int32_t val
 
 void CommandStreamFormatter::append_dict_entry_string(const char *key, const char *value) {
     if(key[0] == '/') {
-        std::format_to(appender, "{}{} ({})\n", lead, key, value);
-    } else {
-        std::format_to(appender, "{}/{} ({})\n", lead, key, value);
+        ++key;
     }
+    std::format_to(
+        appender, "{}{} {}\n", lead, bytes2pdfstringliteral(key), pdfstring_quote(value));
 }
 
 rvoe<NoReturnValue> CommandStreamFormatter::BT() {
diff --git a/src/document.cpp b/src/document.cpp
index 853b2c9..86d5843 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1126,7 +1126,7 @@ rvoe<NoReturnValue> PdfDocument::create_catalog() {
             fmt.begin_dict();
             const auto &schema = c.schema.value();
             for(const auto &[key, value] : schema.entries) {
-                fmt.add_token_with_slash(key.c_str());
+                fmt.add_token(bytes2pdfstringliteral(key.sv()));
                 fmt.begin_dict();
                 fmt.add_token("/Subtype");
                 fmt.add_token(collection_view_subtype_names.at(value.subtype));
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 1559156..c8e707a 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -333,7 +333,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BMC(std::string_view tag) {
         RETERR(SlashStart);
     }
     ERCV(cmds.indent(DrawStateType::MarkedContent));
-    auto cmd = std::format("/{} BMC\n", tag);
+    auto cmd = std::format("{} BMC\n", bytes2pdfstringliteral(tag));
     cmds.append(cmd);
     RETOK;
 }
diff --git a/src/objectformatter.cpp b/src/objectformatter.cpp
index 6443a75..3f9d785 100644
--- a/src/objectformatter.cpp
+++ b/src/objectformatter.cpp
@@ -163,10 +163,7 @@ void ObjectFormatter::check_indent() {
 }
 
 void ObjectFormatter::add_pdfstring(const asciistring &str) {
-    // FIXME: add quoting for special characters.
-    check_indent();
-    std::format_to(app, "({})", str.c_str());
-    added_item();
+    add_token(pdfstring_quote(str.sv()));
 }
 
 void ObjectFormatter::add_bytestring(const std::string_view str) {
diff --git a/src/pdfcommon.cpp b/src/pdfcommon.cpp
index f4d3360..dc04b99 100644
--- a/src/pdfcommon.cpp
+++ b/src/pdfcommon.cpp
@@ -128,12 +128,10 @@ rvoe<PdfName> PdfName::from_view(std::string_view sv) {
     if(sv.find('\0') != std::string_view::npos) {
         RETERR(EmbeddedNullInString);
     }
-    if(sv[0] != '/') {
-        std::string slashed = "/";
-        slashed += sv;
-        return PdfName(std::move(slashed));
+    if(sv[0] == '/') {
+        sv.remove_prefix(1);
     }
-    return PdfName(sv);
+    return PdfName(bytes2pdfstringliteral(sv));
 }
 
 rvoe<u8string> u8string::from_cstr(const char *cstr) {
diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 159b5c9..c2e4284 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -55,8 +55,7 @@ std::string fontname2pdfname(std::string_view original) {
         }
         out += c;
     }
-    // FIXME: might need to escape other special characters as well.
-    return out;
+    return bytes2pdfstringliteral(out, false);
 }
 
 std::string subsetfontname2pdfname(std::string_view original, const int32_t subset_number) {
diff --git a/src/utils.cpp b/src/utils.cpp
index 2128dc4..7dbd178 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -86,10 +86,22 @@ bool needs_quoting(const unsigned char c) {
     if(c < '!' || c > '~') {
         return true;
     }
-    if(c == '#' || c == '(' || c == ')' || c == ' ' || c == '/') {
+    switch(c) {
+    case '#':
+    case '(':
+    case ')':
+    case '<':
+    case '>':
+    case '[':
+    case ']':
+    case '{':
+    case '}':
+    case '/':
+    case '%':
         return true;
+    default:
+        return false;
     }
-    return false;
 }
 
 template<typename T> rvoe<T> do_file_load(FILE *f) {
@@ -285,6 +297,10 @@ std::string pdfstring_quote(std::string_view raw_string) {
         case '\\':
             result.push_back('\\');
             break;
+        case '\r':
+            // A bare CR would be read as LF.
+            result += "\\r";
+            continue;
         default:
             break;
         }
@@ -311,6 +327,9 @@ std::string u8str2u8textstring(std::string_view u8string) {
         case '\\':
             result.push_back('\\');
             break;
+        case '\r':
+            result += "\\r";
+            continue;
         default:
             break;
         }
@@ -322,7 +341,6 @@ std::string u8str2u8textstring(std::string_view u8string) {
 
 std::string u8str2filespec(const u8string &str) {
     std::string result;
-    const char escaped_slash[4] = {'\\', '\\', '/', 0};
     result.reserve(str.size() + 10);
     result.push_back('(');
     result.push_back(char(239));
@@ -336,8 +354,12 @@ std::string u8str2filespec(const u8string &str) {
             result.push_back('\\');
             break;
         case '/':
-            result += escaped_slash;
+            // The slash is escaped in the file specification, the backslash in the string.
+            result += "\\\\";
             break;
+        case '\r':
+            result += "\\r";
+            continue;
         default:
             break;
         }
@@ -348,21 +370,7 @@ std::string u8str2filespec(const u8string &str) {
 }
 
 std::string pdfname_quote(std::string_view raw_string) {
-    std::string result;
-    result.reserve(raw_string.size() + 10);
-    for(const char c : raw_string) {
-        switch(c) {
-        case '/':
-            result += "#2F";
-            break;
-        case '#':
-            result += "#23";
-            break;
-        default:
-            result += c;
-        }
-    }
-    return result;
+    return bytes2pdfstringliteral(raw_string, false);
 }
 
 bool is_ascii(std::string_view text) {
-- 
2.43.0


From 7189e89db8736d63f91075ef6c1141a12a808424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 016/115] fix: write valid ToUnicode maps for large subsets and
 characters outside the BMP

---
 src/pdfwriter.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index c2e4284..a597f55 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -75,7 +75,7 @@ std::string create_cidfont_subset_cmap(const std::vector<TTGlyphs> &glyphs) {
     // When you have to have a PDF that humans can read but AI bros
     // can't easily steal.
     const bool scrape_protection = getenv("CAPY_SCRAPE_PROTECT");
-    std::string buf = std::format(R"(/CIDInit /ProcSet findresource begin
+    std::string buf(R"(/CIDInit /ProcSet findresource begin
 12 dict begin
 begincmap
 /CIDSystemInfo
@@ -88,13 +88,20 @@ begincmap
 1 begincodespacerange
 <0000> <ffff>
 endcodespacerange
-{} beginbfchar
-)",
-                                  glyphs.size() - 1);
+)");
+    // At most 100 entries are permitted in a single block.
+    const size_t max_block_size = 100;
     // Glyph zero is not mapped.
     auto appender = std::back_inserter(buf);
     for(size_t i = 1; i < glyphs.size(); ++i) {
         const auto &g = glyphs[i];
+        if((i - 1) % max_block_size == 0) {
+            if(i > 1) {
+                buf += "endbfchar\n";
+            }
+            std::format_to(
+                appender, "{} beginbfchar\n", std::min(max_block_size, glyphs.size() - i));
+        }
         if(std::holds_alternative<LigatureGlyph>(g)) {
             const auto &lg = std::get<LigatureGlyph>(g);
             const auto u16repr = utf8_to_pdfutf16be(lg.text, false);
@@ -108,11 +115,22 @@ endcodespacerange
                     unicode_codepoint = std::get<RegularGlyph>(g).unicode_codepoint;
                 }
             }
-            std::format_to(appender, "<{:04X}> <{:04X}>\n", i, unicode_codepoint);
+            if(unicode_codepoint > 0xFFFF) {
+                const uint32_t reduced = unicode_codepoint - 0x10000;
+                std::format_to(appender,
+                               "<{:04X}> <{:04X}{:04X}>\n",
+                               i,
+                               0xD800 + (reduced >> 10),
+                               0xDC00 + (reduced & 0x3FF));
+            } else {
+                std::format_to(appender, "<{:04X}> <{:04X}>\n", i, unicode_codepoint);
+            }
         }
     }
-    buf += R"(endbfchar
-endcmap
+    if(glyphs.size() > 1) {
+        buf += "endbfchar\n";
+    }
+    buf += R"(endcmap
 CMapName currentdict /CMap defineresource pop
 end
 end
-- 
2.43.0


From d176a4ff7dbd78a72810041b51602ec6d3cb1506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 017/115] fix: do not reuse the subset entry of a different
 glyph

---
 src/fontsubsetter.cpp | 21 ++++++++++++---------
 src/fontsubsetter.hpp |  4 ++--
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 183aecc..9cb5d39 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -82,7 +82,7 @@ rvoe<FontSubsetInfo> FontSubsetter::get_glyph_subset(uint32_t codepoint,
             return *existing_gid;
         }
     } else {
-        auto trial = find_glyph_with_codepoint(codepoint);
+        auto trial = find_glyph_with_codepoint(codepoint, FT_Get_Char_Index(face, codepoint));
         if(trial) {
             return trial.value();
         }
@@ -111,7 +111,7 @@ rvoe<FontSubsetInfo> FontSubsetter::get_glyph_subset(const u8string &text,
         }
         return *existing_gid;
     }
-    auto trial = find_glyph(text);
+    auto trial = find_glyph(text, glyph_id);
     if(trial) {
         return trial.value();
     }
@@ -196,11 +196,13 @@ std::optional<FontSubsetInfo> FontSubsetter::find_existing_glyph(uint32_t gid) c
     return {};
 }
 
-std::optional<FontSubsetInfo> FontSubsetter::find_glyph_with_codepoint(uint32_t codepoint) const {
+std::optional<FontSubsetInfo> FontSubsetter::find_glyph_with_codepoint(uint32_t codepoint,
+                                                                       uint32_t gid) const {
     auto loc = std::find_if(
-        subset.glyphs.cbegin(), subset.glyphs.cend(), [&codepoint](const TTGlyphs &ttg) {
+        subset.glyphs.cbegin(), subset.glyphs.cend(), [&codepoint, &gid](const TTGlyphs &ttg) {
             if(std::holds_alternative<RegularGlyph>(ttg)) {
-                return std::get<RegularGlyph>(ttg).unicode_codepoint == codepoint;
+                const auto &regular = std::get<RegularGlyph>(ttg);
+                return regular.unicode_codepoint == codepoint && regular.glyph_index == gid;
             }
             return false;
         });
@@ -210,11 +212,12 @@ std::optional<FontSubsetInfo> FontSubsetter::find_glyph_with_codepoint(uint32_t
     return {};
 }
 
-std::optional<FontSubsetInfo> FontSubsetter::find_glyph(const u8string &text) const {
-    auto loc =
-        std::find_if(subset.glyphs.cbegin(), subset.glyphs.cend(), [&text](const TTGlyphs &ttg) {
+std::optional<FontSubsetInfo> FontSubsetter::find_glyph(const u8string &text, uint32_t gid) const {
+    auto loc = std::find_if(
+        subset.glyphs.cbegin(), subset.glyphs.cend(), [&text, &gid](const TTGlyphs &ttg) {
             if(std::holds_alternative<LigatureGlyph>(ttg)) {
-                return std::get<LigatureGlyph>(ttg).text == text;
+                const auto &ligature = std::get<LigatureGlyph>(ttg);
+                return ligature.text == text && ligature.glyph_index == gid;
             }
             return false;
         });
diff --git a/src/fontsubsetter.hpp b/src/fontsubsetter.hpp
index 10c5c03..ad096d0 100644
--- a/src/fontsubsetter.hpp
+++ b/src/fontsubsetter.hpp
@@ -59,8 +59,8 @@ private:
     FT_Face face;
     FontProperties props;
     std::optional<FontSubsetInfo> find_existing_glyph(uint32_t gid) const;
-    std::optional<FontSubsetInfo> find_glyph_with_codepoint(uint32_t codepoint) const;
-    std::optional<FontSubsetInfo> find_glyph(const u8string &text) const;
+    std::optional<FontSubsetInfo> find_glyph_with_codepoint(uint32_t codepoint, uint32_t gid) const;
+    std::optional<FontSubsetInfo> find_glyph(const u8string &text, uint32_t gid) const;
 
     FontSubsetData subset;
 };
-- 
2.43.0


From b9e8d9c99afd94b8cca1c8289da5ce2c05e8decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 018/115] fix: report an error instead of aborting when
 composite glyphs do not fit in a subset

---
 src/fontsubsetter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 9cb5d39..a09091d 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -154,8 +154,7 @@ rvoe<NoReturnValue> FontSubsetter::handle_subglyphs(uint32_t glyph_index) {
     if(iscomp) {
         ERC(subglyphs, get_all_subglyphs(glyph_index, ttfile));
         if(subglyphs.size() + subset.glyphs.size() >= max_glyphs) {
-            fprintf(stderr, "Composite glyph overflow not yet implemented.");
-            std::abort();
+            RETERR(TooManyGlyphsUsed);
         }
         for(const auto &new_glyph : subglyphs) {
             if(subset.font_index_mapping.find(new_glyph) != subset.font_index_mapping.end()) {
-- 
2.43.0


From cad27a17309a3f19874db180efd973374f4aae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 019/115] fix: support Lab and separation colors in text
 objects

---
 src/drawcontext.cpp | 65 ++-------------------------------------------
 1 file changed, 2 insertions(+), 63 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index c8e707a..021c4d9 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -983,72 +983,11 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         [&](const Emc_arg &) -> rvoe<NoReturnValue> { return cmds.EMC(); },
 
         [&](const Stroke_arg &sarg) -> rvoe<NoReturnValue> {
-            if(auto rgb = std::get_if<DeviceRGBColor>(&sarg.c)) {
-                ERCV(serialize_RG(rgb->r, rgb->g, rgb->b));
-            } else if(auto gray = std::get_if<DeviceGrayColor>(&sarg.c)) {
-                ERCV(serialize_G(gray->v));
-            } else if(auto cmyk = std::get_if<DeviceCMYKColor>(&sarg.c)) {
-                ERCV(serialize_K(cmyk->c, cmyk->m, cmyk->y, cmyk->k));
-            } else if(auto icc = std::get_if<ICCColor>(&sarg.c)) {
-                CHECK_INDEXNESS(icc->id.id, doc->icc_profiles);
-                const auto &icc_info = doc->get(icc->id);
-                if(icc_info.num_channels != (int32_t)icc->values.size()) {
-                    RETERR(IncorrectColorChannelCount);
-                }
-                used_colorspaces.insert(icc_info.object_num);
-                std::string cmd;
-                auto app = std::back_inserter<std::string>(cmd);
-                std::format_to(app, "/CSpace{} CS\n", icc_info.object_num);
-                cmds.append(cmd);
-                cmd.clear();
-
-                for(const auto &i : icc->values) {
-                    std::format_to(app, "{:f} ", i);
-                }
-                cmd += " SCN";
-                cmds.append(cmd);
-            } else if(auto id = std::get_if<CapyPDF_PatternId>(&sarg.c)) {
-                used_patterns.insert(id->id);
-                cmds.append("/Pattern CS\n");
-                auto cmd = std::format("/Pattern-{} SCN\n", id->id);
-                cmds.append(cmd);
-            } else {
-                printf("Given text stroke colorspace not supported yet.\n");
-                std::abort();
-            }
-            RETOK;
+            return set_color(sarg.c, true);
         },
 
         [&](const Nonstroke_arg &nsarg) -> rvoe<NoReturnValue> {
-            if(auto rgb = std::get_if<DeviceRGBColor>(&nsarg.c)) {
-                ERCV(serialize_rg(rgb->r, rgb->g, rgb->b));
-            } else if(auto gray = std::get_if<DeviceGrayColor>(&nsarg.c)) {
-                ERCV(serialize_g(gray->v));
-            } else if(auto cmyk = std::get_if<DeviceCMYKColor>(&nsarg.c)) {
-                ERCV(serialize_k(cmyk->c, cmyk->m, cmyk->y, cmyk->k));
-            } else if(auto icc = std::get_if<ICCColor>(&nsarg.c)) {
-                CHECK_INDEXNESS(icc->id.id, doc->icc_profiles);
-                const auto &icc_info = doc->get(icc->id);
-                if(icc_info.num_channels != (int32_t)icc->values.size()) {
-                    RETERR(IncorrectColorChannelCount);
-                }
-                used_colorspaces.insert(icc_info.object_num);
-                auto cmd = std::format("/CSpace{} cs\n", icc_info.object_num);
-                for(const auto &i : icc->values) {
-                    std::format_to(std::back_inserter(cmd), "{:f} ", i);
-                }
-                std::format_to(std::back_inserter(cmd), "{}\n", "scn");
-                cmds.append(cmd);
-            } else if(auto id = std::get_if<CapyPDF_PatternId>(&nsarg.c)) {
-                used_patterns.insert(id->id);
-                cmds.append("/Pattern cs\n");
-                auto cmd = std::format("/Pattern-{} scn\n", id->id);
-                cmds.append(cmd);
-            } else {
-                printf("Given text nonstroke colorspace not supported yet.\n");
-                std::abort();
-            }
-            RETOK;
+            return set_color(nsarg.c, false);
         },
 
         [&](const w_arg &w) -> rvoe<NoReturnValue> {
-- 
2.43.0


From 1ca00c5702e4f1bbd9c01eea3615dda379ce32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 020/115] fix: write all bits of glyph ids in render_glyphs

---
 src/drawcontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 021c4d9..da95084 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1104,7 +1104,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_glyphs(const std::vector<PdfGlyph> &g
         prev_y = g.y;
         cmd.clear();
         std::format_to(
-            std::back_inserter(cmd), "<{:04x}>", (unsigned char)current_subset_glyph.glyph_id);
+            std::back_inserter(cmd), "<{:04x}>", current_subset_glyph.glyph_id);
         cmds.append_command(cmd, "Tj");
     }
     ERCV(cmds.dedent(DrawStateType::Text));
-- 
2.43.0


From 6109322538d3d4d89982a24174b5a76d58809980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 021/115] fix: always open the array of a TJ operator

---
 src/drawcontext.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index da95084..b8de00c 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -794,23 +794,16 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
                                                            CommandStreamFormatter &serialisation,
                                                            CapyPDF_FontId &current_font) {
     CHECK_INDEXNESS(current_font.id, doc->font_objects);
-    bool is_first = true;
     auto glyph_appender_lambda =
-        [this, &serialisation, &is_first](const SubsetGlyph &current_subset_glyph) {
+        [this, &serialisation](const SubsetGlyph &current_subset_glyph) {
             used_external_fonts.insert(current_subset_glyph.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
             auto glyphid = std::format("<{:04x}> ", current_subset_glyph.glyph_id);
             serialisation.append_raw(glyphid);
         };
+    serialisation.append_indent();
+    serialisation.append_raw("[ ");
     for(const auto &e : charseq) {
         if(auto kval = std::get_if<KerningValue>(&e)) {
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
             auto v = std::format("{} ", kval->v);
             serialisation.append_raw(v);
         } else if(auto uglyph = std::get_if<UnicodeCharacter>(&e)) {
@@ -823,10 +816,6 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             }
             ERC(subset, doc->get_subset_glyph(current_font, *u8str->begin(), {}));
             used_external_fonts.insert(subset.ss);
-            if(is_first) {
-                serialisation.append_indent();
-                serialisation.append_raw("[ ");
-            }
             serialisation.append_raw("<");
             for(const auto codepoint : *u8str) {
                 ERC(current_subset_glyph, doc->get_subset_glyph(current_font, codepoint, {}));
@@ -857,7 +846,6 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_charsequence(const TextEvents &cha
             fprintf(stderr, "Not implemented yet.\n");
             std::abort();
         }
-        is_first = false;
     }
     serialisation.append_raw("] TJ\n");
     RETOK;
-- 
2.43.0


From 4b7dcbefe405f09e32a17ec2142357f4309c38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 022/115] fix: write dash phases in fixed notation

---
 src/drawcontext.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index b8de00c..fb2aed1 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -378,7 +378,7 @@ PdfDrawContext::cmd_d(const double *dash_array, size_t dash_array_length, double
     for(size_t i = 0; i < dash_array_length; ++i) {
         std::format_to(app, "{:f} ", dash_array[i]);
     }
-    std::format_to(app, "] {} d\n", phase);
+    std::format_to(app, "] {:f} d\n", phase);
     cmds.append(cmd);
     RETOK;
 }
@@ -1009,7 +1009,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             for(auto val : dash.array) {
                 std::format_to(std::back_inserter(cmd), "{:f} ", val);
             }
-            std::format_to(std::back_inserter(cmd), " ] {} d\n", dash.phase);
+            std::format_to(std::back_inserter(cmd), " ] {:f} d\n", dash.phase);
             cmds.append(cmd);
             RETOK;
         },
-- 
2.43.0


From 3dc01a1b3be3f1a5416a4024fa9a60a450867671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 023/115] fix: write point sizes of builtin fonts in fixed
 notation

---
 src/drawcontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index fb2aed1..5e206b8 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1114,7 +1114,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_pdfdoc_text_builtin(const char *pdfdo
     ERCV(cmds.indent(DrawStateType::Text));
     std::string cmd;
     auto app = std::back_inserter(cmd);
-    std::format_to(app, "/Font{} {} Tf", font_object, pointsize);
+    std::format_to(app, "/Font{} {:f} Tf", font_object, pointsize);
     cmds.append(cmd);
     cmd.clear();
     cmds.append_command(x, y, "Td");
-- 
2.43.0


From 106fc6540ea182c501b00cc269191a8f5f929de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 024/115] fix: validate text objects before writing any part of
 them

---
 src/document.cpp      |  7 ++++
 src/document.hpp      |  1 +
 src/drawcontext.cpp   | 97 ++++++++++++++++++++++++++++++++++++-------
 src/drawcontext.hpp   |  2 +
 src/errorhandling.hpp |  6 +++
 5 files changed, 97 insertions(+), 16 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 86d5843..d29ef2b 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1471,6 +1471,13 @@ bool PdfDocument::font_has_character(FT_Face face, uint32_t codepoint) {
     return glyphid != 0;
 }
 
+rvoe<NoReturnValue> PdfDocument::check_glyph_id(CapyPDF_FontId fid, uint32_t glyph_id) {
+    if((int64_t)glyph_id >= fonts.at(fid.id).fontdata.face->num_glyphs) {
+        RETERR(MissingGlyph);
+    }
+    RETOK;
+}
+
 rvoe<SubsetGlyph> PdfDocument::get_subset_glyph(CapyPDF_FontId fid,
                                                 uint32_t codepoint,
                                                 const std::optional<uint32_t> glyph_id) {
diff --git a/src/document.hpp b/src/document.hpp
index f0ea9db..e395108 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -481,6 +481,7 @@ public:
     // Fonts
     rvoe<CapyPDF_FontId> load_font(FT_Library ft, const char *fname, FontProperties props);
     bool font_has_character(CapyPDF_FontId fid, uint32_t codepoint);
+    rvoe<NoReturnValue> check_glyph_id(CapyPDF_FontId fid, uint32_t glyph_id);
     bool font_has_character(FT_Face face, uint32_t codepoint);
     rvoe<SubsetGlyph> get_subset_glyph(CapyPDF_FontId fid,
                                        uint32_t codepoint,
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 5e206b8..3b3b5d3 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -9,6 +9,7 @@
 #include FT_IMAGE_H
 #include <utils.hpp>
 #include <format>
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <cassert>
@@ -425,7 +426,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_G(LimitDouble gray) { return serialize_G
 rvoe<NoReturnValue> PdfDrawContext::cmd_g(LimitDouble gray) { return serialize_g(gray); }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_gs(CapyPDF_GraphicsStateId gid) {
-    CHECK_INDEXNESS(gid.id, doc->document_objects);
+    CHECK_OBJECT_ID(gid.id, doc->document_objects);
     used_gstates.insert(gid.id);
     auto cmd = std::format("/GS{} gs\n", gid.id);
     cmds.append(cmd);
@@ -538,7 +539,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_scn(double value) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_sh(CapyPDF_ShadingId shid) {
-    CHECK_INDEXNESS(shid.id, doc->document_objects);
+    CHECK_INDEXNESS(shid.id, doc->shadings);
     used_shadings.insert(shid.id);
     auto cmd = std::format("/SH{} sh\n", shid.id);
     cmds.append(cmd);
@@ -614,6 +615,7 @@ rvoe<NoReturnValue> PdfDrawContext::serialize_rg(LimitDouble r, LimitDouble g, L
 }
 
 rvoe<NoReturnValue> PdfDrawContext::set_color(const Color &c, bool stroke) {
+    ERCV(check_color(c));
     if(auto cv = std::get_if<DeviceRGBColor>(&c)) {
         return set_color(*cv, stroke);
     } else if(auto g = std::get_if<DeviceGrayColor>(&c)) {
@@ -1031,37 +1033,71 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
 
 rvoe<NoReturnValue> PdfDrawContext::validate_text_contents(const PdfText &text) {
     std::optional<CapyPDF_FontId> font;
+    std::vector<CapyPDF_StructureItemId> new_structures;
+    bool in_marked_content = false;
+    auto check_codepoint = [&](uint32_t codepoint) -> rvoe<NoReturnValue> {
+        if(!doc->font_has_character(font.value(), codepoint)) {
+            RETERR(MissingGlyph);
+        }
+        RETOK;
+    };
+    auto check_string = [&](const u8string &str) -> rvoe<NoReturnValue> {
+        for(const auto codepoint : str) {
+            ERCV(check_codepoint(codepoint));
+        }
+        RETOK;
+    };
     for(const auto &e : text.get_events()) {
         if(const auto *Tf = std::get_if<Tf_arg>(&e)) {
+            CHECK_INDEXNESS(Tf->font.id, doc->font_objects);
             font = Tf->font;
         } else if(const auto *text_arg = std::get_if<Tj_arg>(&e)) {
             if(!font) {
                 RETERR(FontNotSpecified);
-                for(const auto &codepoint : text_arg->text) {
-                    if(!doc->font_has_character(font.value(), codepoint)) {
-                        RETERR(MissingGlyph);
-                    }
-                }
             }
+            ERCV(check_string(text_arg->text));
         } else if(const auto *TJ = std::get_if<TJ_arg>(&e)) {
             if(!font) {
                 RETERR(FontNotSpecified);
             }
             for(const auto &te : TJ->elements) {
                 if(const auto *unicode = std::get_if<UnicodeCharacter>(&te)) {
-                    if(!doc->font_has_character(font.value(), unicode->codepoint)) {
-                        RETERR(MissingGlyph);
-                    } else if(const auto *u8str = std::get_if<u8string>(&te)) {
-                        for(const auto &codepoint : *u8str) {
-                            if(!doc->font_has_character(font.value(), codepoint)) {
-                                RETERR(MissingGlyph);
-                            }
-                        }
-                    }
+                    ERCV(check_codepoint(unicode->codepoint));
+                } else if(const auto *u8str = std::get_if<u8string>(&te)) {
+                    ERCV(check_string(*u8str));
+                } else if(const auto *glyph = std::get_if<GlyphItem>(&te)) {
+                    ERCV(doc->check_glyph_id(font.value(), glyph->glyph_id));
+                } else if(const auto *ligature = std::get_if<GlyphTextItem>(&te)) {
+                    ERCV(doc->check_glyph_id(font.value(), ligature->glyph_id));
                 }
             }
+        } else if(const auto *sitem = std::get_if<StructureItem>(&e)) {
+            ERCV(check_bdc_structure(sitem->sid));
+            if(std::find(new_structures.cbegin(), new_structures.cend(), sitem->sid) !=
+               new_structures.cend()) {
+                RETERR(StructureReuse);
+            }
+            if(in_marked_content) {
+                RETERR(NestedBMC);
+            }
+            new_structures.push_back(sitem->sid);
+            in_marked_content = true;
+        } else if(std::holds_alternative<Emc_arg>(e)) {
+            if(!in_marked_content) {
+                RETERR(DrawStateEndMismatch);
+            }
+            in_marked_content = false;
+        } else if(const auto *stroke = std::get_if<Stroke_arg>(&e)) {
+            ERCV(check_color(stroke->c));
+        } else if(const auto *nonstroke = std::get_if<Nonstroke_arg>(&e)) {
+            ERCV(check_color(nonstroke->c));
+        } else if(const auto *gs = std::get_if<gs_arg>(&e)) {
+            CHECK_OBJECT_ID(gs->gid.id, doc->document_objects);
         }
     }
+    if(in_marked_content) {
+        RETERR(DrawStateEndMismatch);
+    }
     RETOK;
 }
 
@@ -1193,6 +1229,35 @@ rvoe<NoReturnValue> PdfDrawContext::set_group_matrix(const PdfMatrix &mat) {
     RETOK;
 }
 
+rvoe<NoReturnValue> PdfDrawContext::check_bdc_structure(CapyPDF_StructureItemId sid) const {
+    CHECK_INDEXNESS(sid.id, doc->structure_items);
+    if(cmds.marked_content_depth() > 0) {
+        RETERR(NestedBMC);
+    }
+    for(const auto &id : used_structures) {
+        if(id == sid) {
+            RETERR(StructureReuse);
+        }
+    }
+    RETOK;
+}
+
+rvoe<NoReturnValue> PdfDrawContext::check_color(const Color &c) const {
+    if(const auto *icc = std::get_if<ICCColor>(&c)) {
+        CHECK_INDEXNESS(icc->id.id, doc->icc_profiles);
+        if(doc->get(icc->id).num_channels != (int32_t)icc->values.size()) {
+            RETERR(IncorrectColorChannelCount);
+        }
+    } else if(const auto *pattern = std::get_if<CapyPDF_PatternId>(&c)) {
+        CHECK_OBJECT_ID(pattern->id, doc->document_objects);
+    } else if(const auto *lab = std::get_if<LabColor>(&c)) {
+        CHECK_OBJECT_ID(lab->id.id, doc->document_objects);
+    } else if(const auto *sep = std::get_if<SeparationColor>(&c)) {
+        CHECK_INDEXNESS(sep->id.id, doc->separation_objects);
+    }
+    RETOK;
+}
+
 rvoe<int32_t> PdfDrawContext::add_bcd_structure(CapyPDF_StructureItemId sid) {
     for(const auto &id : used_structures) {
         if(id == sid) {
diff --git a/src/drawcontext.hpp b/src/drawcontext.hpp
index 247ed4e..8450f2b 100644
--- a/src/drawcontext.hpp
+++ b/src/drawcontext.hpp
@@ -214,6 +214,8 @@ private:
                                                CommandStreamFormatter &serialisation,
                                                CapyPDF_FontId &current_font);
 
+    rvoe<NoReturnValue> check_bdc_structure(CapyPDF_StructureItemId sid) const;
+    rvoe<NoReturnValue> check_color(const Color &c) const;
     rvoe<int32_t> add_bcd_structure(CapyPDF_StructureItemId sid);
 
     rvoe<NoReturnValue> validate_text_contents(const PdfText &text);
diff --git a/src/errorhandling.hpp b/src/errorhandling.hpp
index 0dfd646..a19093f 100644
--- a/src/errorhandling.hpp
+++ b/src/errorhandling.hpp
@@ -190,6 +190,12 @@ struct NoReturnValue {};
         RETERR(BadId);                                                                             \
     }
 
+// For ids that are object numbers. The first object is never handed out.
+#define CHECK_OBJECT_ID(ind, container)                                                            \
+    if((ind < 1) || ((size_t)ind >= container.size())) {                                           \
+        RETERR(BadId);                                                                             \
+    }
+
 #define CHECK_ENUM(v, max_enum_val)                                                                \
     if((int)v < 0 || ((int)v > (int)max_enum_val)) {                                               \
         RETERR(BadEnum);                                                                           \
-- 
2.43.0


From 3cbd197faba77d5bdfd5bc63afa84762b96ef848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 025/115] fix: do not write partial operators when marked
 content or glyphs are refused

---
 src/capi.cpp        |  6 +++++-
 src/drawcontext.cpp | 21 +++++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 3eb22e3..4eb852d 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1017,7 +1017,11 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_dc_cmd_BDC_testing(CapyPDF_DrawContext *ctx,
     if(!astr) {
         return conv_err(astr.error());
     }
-    return conv_err(dc->cmd_BDC(astr.value(), {}, tags ? &tags->tags : nullptr));
+    auto quoted = asciistring::from_cstr(bytes2pdfstringliteral(astr->sv(), false));
+    if(!quoted) {
+        return conv_err(quoted.error());
+    }
+    return conv_err(dc->cmd_BDC(quoted.value(), {}, tags ? &tags->tags : nullptr));
     API_BOUNDARY_END;
 }
 
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 3b3b5d3..8976973 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -283,7 +283,16 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(const asciistring &name,
                                             const BDCTags *attributes) {
     if(!sid && !attributes) {
         fprintf(stderr, "%s", "Must specify sid or attributes. Otherwise use BMC.\n");
-        std::abort();
+        RETERR(ArgIsNull);
+    }
+    if(name.empty()) {
+        RETERR(InvalidBufsize);
+    }
+    if(cmds.marked_content_depth() > 0) {
+        RETERR(NestedBMC);
+    }
+    if(sid) {
+        ERCV(check_bdc_structure(*sid));
     }
     cmds.append_indent();
     cmds.append_raw("/");
@@ -308,6 +317,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(const asciistring &name,
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
                                             const BDCTags *attributes) {
+    CHECK_INDEXNESS(sid.id, doc->structure_items);
     const auto &itemtype = doc->structure_items.at(sid.id).stype;
     if(auto builtin = std::get_if<CapyPDF_Structure_Type>(&itemtype)) {
         ERC(astr, asciistring::from_cstr(structure_type_names.at(*builtin)));
@@ -322,8 +332,9 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_StructureItemId sid,
 }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_BDC(CapyPDF_OptionalContentGroupId ocgid) {
-    used_ocgs.insert(ocgid);
+    CHECK_INDEXNESS(ocgid.id, doc->ocg_items);
     ERCV(cmds.indent(DrawStateType::MarkedContent));
+    used_ocgs.insert(ocgid);
     auto cmd = std::format("/OC /oc{} BDC\n", doc->ocg_object_number(ocgid));
     cmds.append(cmd);
     RETOK;
@@ -1110,6 +1121,11 @@ rvoe<NoReturnValue> PdfDrawContext::render_glyphs(const std::vector<PdfGlyph> &g
     if(glyphs.empty()) {
         RETOK;
     }
+    for(const auto &g : glyphs) {
+        if(!doc->font_has_character(fid, g.codepoint)) {
+            RETERR(MissingGlyph);
+        }
+    }
     auto &font_data = doc->get(fid);
     // FIXME, do per character.
     // const auto &bob =
@@ -1144,6 +1160,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_pdfdoc_text_builtin(const char *pdfdo
     if(!std::holds_alternative<std::monostate>(doc->docprops.subtype)) {
         RETERR(BadOperationForIntent);
     }
+    CHECK_ENUM(font_id, CAPY_FONT_ZAPF_DINGBATS);
     auto font_object = doc->font_object_number(doc->get_builtin_font_id(font_id));
     used_builtin_fonts.insert(font_object);
     cmds.append("BT");
-- 
2.43.0


From d63d0ddf13067e089f107227c45545126f7b3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 026/115] fix: validate line styles of text objects when they
 are set

---
 src/pdftext.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pdftext.hpp b/src/pdftext.hpp
index 908364f..201bd9d 100644
--- a/src/pdftext.hpp
+++ b/src/pdftext.hpp
@@ -284,6 +284,7 @@ public:
     }
 
     rvoe<NoReturnValue> cmd_Tr(CapyPDF_Text_Mode rmode) {
+        CHECK_ENUM(rmode, CAPY_TEXT_CLIP);
         events.emplace_back(Tr_arg{rmode});
         RETOK;
     }
@@ -309,6 +310,9 @@ public:
     }
 
     rvoe<NoReturnValue> cmd_w(double line_width) {
+        if(line_width < 0) {
+            RETERR(NegativeLineWidth);
+        }
         events.emplace_back(w_arg{line_width});
         RETOK;
     }
@@ -317,14 +321,24 @@ public:
         RETOK;
     }
     rvoe<NoReturnValue> cmd_j(CapyPDF_Line_Join join_style) {
+        CHECK_ENUM(join_style, CAPY_LJ_BEVEL);
         events.emplace_back(j_arg{join_style});
         RETOK;
     }
     rvoe<NoReturnValue> cmd_J(CapyPDF_Line_Cap cap_style) {
+        CHECK_ENUM(cap_style, CAPY_LC_PROJECTION);
         events.emplace_back(J_arg{cap_style});
         RETOK;
     }
     rvoe<NoReturnValue> cmd_d(const double *dash_array, int32_t array_size, double phase) {
+        if(array_size <= 0) {
+            RETERR(ZeroLengthArray);
+        }
+        for(int32_t i = 0; i < array_size; ++i) {
+            if(dash_array[i] < 0) {
+                RETERR(NegativeDash);
+            }
+        }
         std::vector<double> array;
         array.assign(dash_array, dash_array + array_size);
         events.emplace_back(d_arg{std::move(array), phase});
-- 
2.43.0


From 6716b755c7f0d63559c735e586fdd58e86336765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 027/115] fix: do not read past the end of sized strings

---
 src/capi.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index 4eb852d..b1100f2 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -59,14 +59,18 @@ template<typename T> [[nodiscard]] CapyPDF_EC conv_err(const rvoe<T> &rc) {
 }
 
 rvoe<std::string> validate_cstring(const char *buf, int32_t strsize) {
+    if(!buf) {
+        RETERR(ArgIsNull);
+    }
     if(strsize < -1) {
         RETERR(InvalidBufsize);
     }
-    std::string converted = buf;
-    if(strsize != -1) {
-        if(converted.size() != (size_t)strsize) {
-            RETERR(EmbeddedNullInString);
-        }
+    if(strsize == -1) {
+        return std::string(buf);
+    }
+    std::string converted(buf, strsize);
+    if(converted.find('\0') != std::string::npos) {
+        RETERR(EmbeddedNullInString);
     }
     return converted;
 }
-- 
2.43.0


From 9976ee0fb1871807c987de6b609f9c1d59aae47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 028/115] fix: write the subtype of embedded files as a name

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 7dbd178..5e892eb 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -370,7 +370,7 @@ std::string u8str2filespec(const u8string &str) {
 }
 
 std::string pdfname_quote(std::string_view raw_string) {
-    return bytes2pdfstringliteral(raw_string, false);
+    return bytes2pdfstringliteral(raw_string, true);
 }
 
 bool is_ascii(std::string_view text) {
-- 
2.43.0


From bdb572878b474a1cb12cf96f56647362b7bcce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 029/115] fix: reject enum values that do not exist

---
 src/capi.cpp        | 39 ++++++++++++++++++++++++++++++++++++++-
 src/drawcontext.cpp |  2 +-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index b1100f2..e91406a 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -17,6 +17,11 @@
         return conv_err(ErrorCode::BadBoolean);                                                    \
     }
 
+#define CHECK_API_ENUM(v, max_enum_val)                                                            \
+    if((int)(v) < 0 || (int)(v) > (int)(max_enum_val)) {                                           \
+        return conv_err(ErrorCode::BadEnum);                                                       \
+    }
+
 using namespace capypdf::internal;
 
 // These structs are not in the interop header because they are
@@ -272,6 +277,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_page_properties_set_pagebox(CapyPDF_PagePropertie
                                                            double x2,
                                                            double y2) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(boxtype, CAPY_BOX_ART);
     auto props = static_cast<PageProperties *>(pageprops);
     switch(boxtype) {
     case CAPY_BOX_MEDIA:
@@ -313,6 +319,7 @@ capy_document_properties_set_device_profile(CapyPDF_DocumentProperties *docprops
                                             CapyPDF_Device_Colorspace cs,
                                             const char *profile_path) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(cs, CAPY_DEVICE_CS_CMYK);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     switch(cs) {
     case CAPY_DEVICE_CS_RGB:
@@ -332,6 +339,7 @@ capy_document_properties_set_device_profile(CapyPDF_DocumentProperties *docprops
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_colorspace(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Device_Colorspace cs) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(cs, CAPY_DEVICE_CS_CMYK);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->output_colorspace = cs;
     RETNOERR;
@@ -356,6 +364,7 @@ capy_document_properties_set_output_intent(CapyPDF_DocumentProperties *docprops,
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfx(
     CapyPDF_DocumentProperties *docprops, CapyPDF_PDFX_Type xtype) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(xtype, CAPY_PDFX_6n);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->subtype = xtype;
     RETNOERR;
@@ -365,6 +374,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfx(
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_pdfa(
     CapyPDF_DocumentProperties *docprops, CapyPDF_PDFA_Type atype) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(atype, CAPY_PDFA_4e);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->subtype = atype;
     RETNOERR;
@@ -397,6 +407,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_tagged(CapyPDF_DocumentPr
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_layout(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Page_Layout layout) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(layout, CAPY_PAGE_LAYOUT_TWO_PAGE_RIGHT);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->page_layout = layout;
     RETNOERR;
@@ -406,6 +417,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_layout(
 CAPYPDF_PUBLIC CapyPDF_EC capy_document_properties_set_page_mode(
     CapyPDF_DocumentProperties *docprops, CapyPDF_Page_Mode mode) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(mode, CAPY_PAGE_MODE_ATTACHMENTS);
     auto *dp = static_cast<DocumentProperties *>(docprops);
     dp->page_mode = mode;
     RETNOERR;
@@ -624,6 +636,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_convert_image(CapyPDF_Generator *gen,
                                                        CapyPDF_RasterImage **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(output_cs, CAPY_DEVICE_CS_CMYK);
+    CHECK_API_ENUM(ri, CAPY_RI_PERCEPTUAL);
     auto *g = static_cast<PdfGen *>(gen);
     if(auto *raw = std::get_if<RawPixelImage>(&source->ri)) {
         auto rc = g->convert_image_to_cs(*raw, output_cs, ri);
@@ -700,6 +714,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_structure_item(CapyPDF_Generator *g
                                                             CapyPDF_StructureItemId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(stype, CAPY_STRUCTURE_TYPE_ARTIFACT);
     auto *g = static_cast<PdfGen *>(gen);
     std::optional<CapyPDF_StructureItemId> item_parent;
     if(parent) {
@@ -823,6 +838,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_separation(CapyPDF_Generator *gen,
                                                         CapyPDF_SeparationId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(cs, CAPY_DEVICE_CS_CMYK);
     auto *g = static_cast<PdfGen *>(gen);
     auto name = validate_ascii(separation_name, strsize);
     if(!name) {
@@ -896,6 +912,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_generator_add_rolemap_entry(CapyPDF_Generator *ge
                                                            CapyPDF_RoleId *out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(builtin, CAPY_STRUCTURE_TYPE_ARTIFACT);
     auto *g = static_cast<PdfGen *>(gen);
     auto nameobj = validate_cstring(name, namesize);
     if(!nameobj) {
@@ -1873,6 +1890,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_new(CapyPDF_Transition **out_ptr) CAPY
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_S(CapyPDF_Transition *tr,
                                                 CapyPDF_Transition_Type type) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(type, CAPY_TR_FADE);
     auto pt = static_cast<Transition *>(tr);
     pt->type = type;
     RETNOERR;
@@ -1891,6 +1909,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_D(CapyPDF_Transition *tr,
 CAPYPDF_PUBLIC CapyPDF_EC
 capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(dim, CAPY_TR_DIM_V);
     auto pt = static_cast<Transition *>(tr);
     pt->Di = dim;
     RETNOERR;
@@ -1900,6 +1919,7 @@ capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim)
 CAPYPDF_PUBLIC CapyPDF_EC capy_transition_set_M(CapyPDF_Transition *tr,
                                                 CapyPDF_Transition_Motion m) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(m, CAPY_TR_M_O);
     auto pt = static_cast<Transition *>(tr);
     pt->M = m;
     RETNOERR;
@@ -2002,6 +2022,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_ca(CapyPDF_GraphicsState *stat
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_BM(
     CapyPDF_GraphicsState *state, CapyPDF_Blend_Mode blendmode) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(blendmode, CAPY_BM_LUMINOSITY);
     auto *s = static_cast<GraphicsState *>(state);
     s->BM = blendmode;
     RETNOERR;
@@ -2086,6 +2107,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_TK(CapyPDF_GraphicsState *stat
 CAPYPDF_PUBLIC CapyPDF_EC capy_graphics_state_set_blackpoint_compensation(
     CapyPDF_GraphicsState *state, CapyPDF_Black_Point_Compensation use_comp) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(use_comp, CAPY_BLACK_POINT_COMPENSATION_DEFAULT);
     auto *s = static_cast<GraphicsState *>(state);
     s->UseBlackPtComp = use_comp;
     RETNOERR;
@@ -2122,6 +2144,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transparency_group_properties_new(
 CAPYPDF_PUBLIC CapyPDF_EC capy_transparency_group_properties_set_CS(
     CapyPDF_TransparencyGroupProperties *props, CapyPDF_Device_Colorspace cs) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(cs, CAPY_DEVICE_CS_CMYK);
     auto *p = static_cast<TransparencyGroupProperties *>(props);
     p->CS = cs;
     RETNOERR;
@@ -2218,6 +2241,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_alpha_data(
 CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_input_data_compression_format(
     CapyPDF_RasterImageBuilder *builder, CapyPDF_Compression compression) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(compression, CAPY_COMPRESSION_DEFLATE);
     auto *b = static_cast<RasterImageBuilder *>(builder);
     b->i.md.compression = compression;
     RETNOERR;
@@ -2227,6 +2251,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_input_data_compression_f
 CAPYPDF_PUBLIC CapyPDF_EC capy_raster_image_builder_set_colorspace(
     CapyPDF_RasterImageBuilder *builder, CapyPDF_Image_Colorspace colorspace) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(colorspace, CAPY_IMAGE_CS_CMYK);
     auto *b = static_cast<RasterImageBuilder *>(builder);
     b->i.md.cs = colorspace;
     RETNOERR;
@@ -2368,6 +2393,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type2_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(PdfShading{ShadingType2{cs, x0, y0, x1, y1, func}});
     RETNOERR;
     API_BOUNDARY_END;
@@ -2418,6 +2444,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type3_shading_new(CapyPDF_Device_Colorspace cs,
                                                  CapyPDF_FunctionId func,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(
         ShadingType3{cs, coords[0], coords[1], coords[2], coords[3], coords[4], coords[5], func});
     RETNOERR;
@@ -2431,6 +2458,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type4_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType4{{}, minx, miny, maxx, maxy, cs});
     RETNOERR;
     API_BOUNDARY_END;
@@ -2480,6 +2508,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_type6_shading_new(CapyPDF_Device_Colorspace cs,
                                                  double maxy,
                                                  CapyPDF_Shading **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(cs, CAPY_DEVICE_CS_CMYK);
     *out_ptr = new _capyPDF_Shading(ShadingType6{
         {},
         minx,
@@ -2685,6 +2714,8 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_annotation_set_line_endings(CapyPDF_Annotation *a
                                                            CapyPDF_Line_Annotation_End_Style end)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(start, CAPY_LINE_ANNOTATION_END_SLASH);
+    CHECK_API_ENUM(end, CAPY_LINE_ANNOTATION_END_SLASH);
     auto *a = static_cast<Annotation *>(annotation);
     if(auto *line = std::get_if<LineAnnotation>(&a->sub)) {
         line->end_styles = LineAnnotationEndStyles{start, end};
@@ -2826,6 +2857,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_image_pdf_properties_set_mask(CapyPDF_ImagePdfPro
 CAPYPDF_PUBLIC CapyPDF_EC capy_image_pdf_properties_set_interpolate(
     CapyPDF_ImagePdfProperties *par, CapyPDF_Image_Interpolation interp) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(interp, CAPY_INTERPOLATION_SMOOTH);
     auto p = static_cast<ImagePDFProperties *>(par);
     p->interp = interp;
     RETNOERR;
@@ -2995,6 +3027,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_soft_mask_new(CapyPDF_Soft_Mask_Subtype subtype,
                                              CapyPDF_TransparencyGroupId trid,
                                              CapyPDF_SoftMask **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(subtype, CAPY_SOFT_MASK_LUMINOSITY);
     *out_ptr = new SoftMask{{}, subtype, trid};
     RETNOERR;
     API_BOUNDARY_END;
@@ -3197,6 +3230,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_halftone_set_type1(CapyPDF_Halftone *ht,
                                                   CapyPDF_Halftone_Spot_Function htspot)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(htspot, CAPY_HT_FUNC_DIAMOND);
     ht->ht = HalftoneType1{frequency, angle, htspot};
     RETNOERR;
     API_BOUNDARY_END;
@@ -3215,6 +3249,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_3d_stream_new(const char *fname,
                                              CapyPDF_3D_File_Format format,
                                              CapyPDF_3DStream **out_ptr) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(format, CAPY_3D_PRC);
     auto rc = load_file_as_bytes(fname);
     if(!rc) {
         return conv_err(rc);
@@ -3246,7 +3281,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_form_field_new(CapyPDF_Form_Field_Type type,
         *out_ptr = new FormField{{}, {}, {}, {}, {}, TextField{}};
         break;
     default:
-        std::abort();
+        return conv_err(ErrorCode::BadEnum);
     }
     RETNOERR;
     API_BOUNDARY_END;
@@ -3463,6 +3498,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_set_schema(
 CAPYPDF_PUBLIC CapyPDF_EC capy_collection_set_view(CapyPDF_Collection *coll,
                                                    CapyPDF_Collection_View view) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(view, CAPY_COLLECTION_C);
     auto *c = static_cast<Collection *>(coll);
     c->View = view;
     RETNOERR;
@@ -3520,6 +3556,7 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_collection_field_new(CapyPDF_Collection_Subtype s
                                                     CapyPDF_CollectionField **out_ptr)
     CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
+    CHECK_API_ENUM(subtype, CAPY_COLLECTION_SUB_COMPRESSED_SIZE);
     auto rc = validate_utf8(name, namelen);
     if(!rc) {
         return conv_err(rc);
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 8976973..e2cf97b 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1160,7 +1160,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_pdfdoc_text_builtin(const char *pdfdo
     if(!std::holds_alternative<std::monostate>(doc->docprops.subtype)) {
         RETERR(BadOperationForIntent);
     }
-    CHECK_ENUM(font_id, CAPY_FONT_ZAPF_DINGBATS);
+    CHECK_ENUM(font_id, CAPY_FONT_COURIER_BOLDOBLIQUE);
     auto font_object = doc->font_object_number(doc->get_builtin_font_id(font_id));
     used_builtin_fonts.insert(font_object);
     cmds.append("BT");
-- 
2.43.0


From 75881a0138329d548abf70747adc5c9268af1a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 030/115] fix: use the standard name of the bold Times font

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index d29ef2b..299a3fd 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -96,7 +96,7 @@ const std::array<const char *, 14> font_names{
     "/Helvetica",
     "/Courier",
     "/Symbol",
-    "/Times-Roman-Bold",
+    "/Times-Bold",
     "/Helvetica-Bold",
     "/Courier-Bold",
     "/ZapfDingbats",
-- 
2.43.0


From 6abaad0691048d43b42c6713b8342da446c9265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 031/115] fix: keep builtin fonts apart from loaded fonts

---
 src/document.cpp    | 10 ++++------
 src/document.hpp    |  4 ++--
 src/drawcontext.cpp |  2 +-
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 299a3fd..3c2ab57 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1439,7 +1439,7 @@ rvoe<NoReturnValue> PdfDocument::generate_info_object() {
     RETOK;
 }
 
-CapyPDF_FontId PdfDocument::get_builtin_font_id(CapyPDF_Builtin_Fonts font) {
+int32_t PdfDocument::get_builtin_font_object(CapyPDF_Builtin_Fonts font) {
     auto it = builtin_fonts.find(font);
     if(it != builtin_fonts.end()) {
         return it->second;
@@ -1450,11 +1450,9 @@ CapyPDF_FontId PdfDocument::get_builtin_font_id(CapyPDF_Builtin_Fonts font) {
     fmt.add_token_pair("/Subtype", "/Type1");
     fmt.add_token_pair("/BaseFont", font_names[font]);
     fmt.end_dict();
-    font_objects.push_back(
-        FontPDFObjects{-1, -1, add_object(FullPDFObject{fmt.steal(), {}}), {}, size_t(-1)});
-    auto fontid = CapyPDF_FontId{(int32_t)font_objects.size() - 1};
-    builtin_fonts[font] = fontid;
-    return fontid;
+    const auto font_object = add_object(FullPDFObject{fmt.steal(), {}});
+    builtin_fonts[font] = font_object;
+    return font_object;
 }
 
 uint32_t PdfDocument::glyph_for_codepoint(FT_Face face, uint32_t ucs4) {
diff --git a/src/document.hpp b/src/document.hpp
index e395108..27a7501 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -488,7 +488,7 @@ public:
                                        const std::optional<uint32_t> glyph_id);
     rvoe<SubsetGlyph> get_subset_glyph(CapyPDF_FontId fid, const u8string &text, uint32_t glyph_id);
     uint32_t glyph_for_codepoint(FT_Face face, uint32_t ucs4);
-    CapyPDF_FontId get_builtin_font_id(CapyPDF_Builtin_Fonts font);
+    int32_t get_builtin_font_object(CapyPDF_Builtin_Fonts font);
 
     // Images
     rvoe<CapyPDF_ImageId> load_image(const char *fname, CapyPDF_Image_Interpolation interpolate);
@@ -615,7 +615,7 @@ private:
     std::vector<PageOffsets> pages; // Refers to object num.
     std::vector<PageLabel> page_labels;
     std::vector<ImageInfo> image_info;
-    std::unordered_map<CapyPDF_Builtin_Fonts, CapyPDF_FontId> builtin_fonts;
+    std::unordered_map<CapyPDF_Builtin_Fonts, int32_t> builtin_fonts;
     std::vector<FontPDFObjects> font_objects;
     std::vector<int32_t> separation_objects;
     std::vector<FontThingy> fonts;
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index e2cf97b..19b8b5c 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1161,7 +1161,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_pdfdoc_text_builtin(const char *pdfdo
         RETERR(BadOperationForIntent);
     }
     CHECK_ENUM(font_id, CAPY_FONT_COURIER_BOLDOBLIQUE);
-    auto font_object = doc->font_object_number(doc->get_builtin_font_id(font_id));
+    auto font_object = doc->get_builtin_font_object(font_id);
     used_builtin_fonts.insert(font_object);
     cmds.append("BT");
     ERCV(cmds.indent(DrawStateType::Text));
-- 
2.43.0


From 3daf4e10647461d9cb9d49648028e8065dd00da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 032/115] fix: name all subtypes of collection fields

---
 src/document.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 3c2ab57..16657df 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -151,7 +151,10 @@ const std::array<const char *, 3> blackpt_names{
     "/DEFAULT",
 };
 
-const std::array<const char *, 6> collection_view_subtype_names{
+const std::array<const char *, 9> collection_view_subtype_names{
+    "/S",
+    "/D",
+    "/N",
     "/F",
     "/Desc",
     "/ModDate",
-- 
2.43.0


From adad5b28cba518bfec633739a0b7e50ad6e4b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 033/115] fix: check ids of other objects when objects are
 added

---
 src/document.cpp    | 33 +++++++++++++++++++++++++++++++++
 src/drawcontext.cpp |  1 +
 2 files changed, 34 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 16657df..f0c8dd4 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -774,6 +774,7 @@ int32_t PdfDocument::add_object(ObjectType object) {
 rvoe<CapyPDF_SeparationId> PdfDocument::create_separation(const asciistring &name,
                                                           CapyPDF_Device_Colorspace cs,
                                                           const CapyPDF_FunctionId fid) {
+    CHECK_INDEXNESS(fid.id, functions);
     const auto &f4 = functions.at(fid.id);
     if(!std::holds_alternative<FunctionType4>(f4.original)) {
         RETERR(IncorrectFunctionType);
@@ -2072,6 +2073,9 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
         RETERR(EmptyTitle);
     }
     const auto cur_id = (int32_t)outlines.items.size();
+    if(o.parent) {
+        CHECK_INDEXNESS(o.parent->id, outlines.items);
+    }
     const auto par_id = o.parent.value_or(CapyPDF_OutlineId{-1}).id;
     outlines.parent[cur_id] = par_id;
     outlines.children[par_id].push_back(cur_id);
@@ -2080,6 +2084,16 @@ rvoe<CapyPDF_OutlineId> PdfDocument::add_outline(const Outline &o) {
 }
 
 rvoe<CapyPDF_FormFieldId> PdfDocument::add_form_field(FormField &field) {
+    if(field.parent) {
+        CHECK_INDEXNESS(field.parent->id, form_fields);
+    }
+    if(!field.V.empty()) {
+        if(std::holds_alternative<ButtonField>(field.sub)) {
+            ERCV(PdfName::from_view(field.V));
+        } else {
+            ERCV(u8string::from_view(field.V));
+        }
+    }
     auto field_id = (int32_t)form_fields.size();
     auto obj_id = add_object(DelayedFormField{{field_id}, std::move(field)});
     form_fields.push_back((int32_t)obj_id);
@@ -2125,6 +2139,23 @@ rvoe<CapyPDF_AnnotationId> PdfDocument::add_annotation(const Annotation &a) {
     if(!a.rect) {
         RETERR(AnnotationMissingRect);
     }
+    if(const auto *fa = std::get_if<FileAttachmentAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS(fa->fileid.id, embedded_files);
+    } else if(const auto *screen = std::get_if<ScreenAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS(screen->mediafile.id, embedded_files);
+    } else if(const auto *pma = std::get_if<PrintersMarkAnnotation>(&a.sub)) {
+        CHECK_INDEXNESS(pma->appearance.id, form_xobjects);
+    } else if(const auto *threed = std::get_if<ThreeDAnnotation>(&a.sub)) {
+        CHECK_OBJECT_ID(threed->stream.id, document_objects);
+    } else if(const auto *widget = std::get_if<WidgetAnnotation>(&a.sub)) {
+        if(widget->parent) {
+            CHECK_INDEXNESS(widget->parent->id, form_fields);
+        }
+        if(widget->buttoninfo) {
+            CHECK_INDEXNESS(widget->buttoninfo->on_state.id, form_xobjects);
+            CHECK_INDEXNESS(widget->buttoninfo->off_state.id, form_xobjects);
+        }
+    }
     auto annot_id = (int32_t)annotations.size();
     auto obj_id = add_object(DelayedAnnotation{{annot_id}, a});
     annotations.push_back((int32_t)obj_id);
@@ -2152,6 +2183,7 @@ PdfDocument::add_structure_item(const CapyPDF_RoleId role,
     if(parent) {
         CHECK_INDEXNESS_V(parent->id, structure_items);
     }
+    CHECK_INDEXNESS(role.id, rolemap);
     auto stritem_id = (int32_t)structure_items.size();
     auto obj_id = add_object(DelayedStructItem{stritem_id});
     structure_items.push_back(
@@ -2187,6 +2219,7 @@ rvoe<CapyPDF_TransparencyGroupId> PdfDocument::add_transparency_group(PdfDrawCon
 }
 
 rvoe<CapyPDF_SoftMaskId> PdfDocument::add_soft_mask(const SoftMask &sm) {
+    CHECK_INDEXNESS(sm.G.id, transparency_groups);
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/Mask");
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 19b8b5c..b6d6189 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -246,6 +246,7 @@ void PdfDrawContext::build_resource_dict(ObjectFormatter &fmt) {
 }
 
 rvoe<NoReturnValue> PdfDrawContext::annotate(CapyPDF_AnnotationId annotation) {
+    CHECK_INDEXNESS(annotation.id, doc->annotations);
     if(used_annotations.find(annotation) != used_annotations.end()) {
         RETERR(AnnotationReuse);
     }
-- 
2.43.0


From cef9ee52e93a7d4d899629f72537d07961b40e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 034/115] fix: write the value of choice fields

---
 src/pdfwriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index a597f55..121d8ee 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -955,6 +955,10 @@ rvoe<NoReturnValue> PdfWriter::write_form_field(int obj_num, const DelayedFormFi
         }
         fmt.add_token_pair("/FT", "/Tx");
     } else if(auto *choice = std::get_if<ChoiceField>(&field.sub)) {
+        if(!field.V.empty()) {
+            ERC(u8v, u8string::from_view(field.V));
+            fmt.add_token_pair("/V", utf8_to_pdfutf16be(u8v));
+        }
         fmt.add_token_pair("/FT", "/Ch");
         fmt.add_token(("/Opt"));
         {
-- 
2.43.0


From ef33d5570d4a3cf627443ea4b2580211adac2709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 035/115] fix: report an error when navigation is added twice

---
 src/drawcontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index b6d6189..55204e5 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -1205,7 +1205,7 @@ PdfDrawContext::add_simple_navigation(std::span<const CapyPDF_OptionalContentGro
         RETERR(InvalidDrawContextType);
     }
     if(!sub_navigations.empty()) {
-        std::abort();
+        RETERR(DuplicateName);
     }
     for(const auto &sn : navs) {
         if(used_ocgs.find(sn) == used_ocgs.end()) {
-- 
2.43.0


From 3c158d4d0c8706d8187c2fd343141e6f523fb51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 036/115] fix: forget the form XObjects and structure items of
 the previous page

---
 src/drawcontext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 55204e5..8c3dd71 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -131,6 +131,8 @@ void PdfDrawContext::clear() {
     used_annotations.clear();
     used_ocgs.clear();
     used_trgroups.clear();
+    used_form_xobjects.clear();
+    used_structures.clear();
     sub_navigations.clear();
     transition.reset();
     viewports.clear();
-- 
2.43.0


From 92c84456f5e41dda744181340723a4c0ffb44682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 037/115] fix: do not lose the contents of a page that reuses
 annotations or structure items

---
 src/document.cpp  | 23 +++++++++++++++--------
 src/document.hpp  |  3 +++
 src/generator.cpp |  1 +
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index f0c8dd4..4ef2c72 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -582,14 +582,9 @@ rvoe<NoReturnValue> PdfDocument::init() {
     RETOK;
 }
 
-rvoe<NoReturnValue> PdfDocument::add_page(std::string resource_dict,
-                                          std::string command_stream,
-                                          const PageProperties &custom_props,
-                                          const std::unordered_set<CapyPDF_AnnotationId> &annots,
-                                          const std::vector<CapyPDF_StructureItemId> &structs,
-                                          const std::optional<Transition> &transition,
-                                          const std::vector<SubPageNavigation> &subnav,
-                                          const std::vector<Viewport> &viewports) {
+rvoe<NoReturnValue> PdfDocument::check_page_usage(
+    const std::unordered_set<CapyPDF_AnnotationId> &annots,
+    const std::vector<CapyPDF_StructureItemId> &structs) const {
     for(const auto &a : annots) {
         if(annotation_use.find(a) != annotation_use.cend()) {
             RETERR(AnnotationReuse);
@@ -600,6 +595,18 @@ rvoe<NoReturnValue> PdfDocument::add_page(std::string resource_dict,
             RETERR(StructureReuse);
         }
     }
+    RETOK;
+}
+
+rvoe<NoReturnValue> PdfDocument::add_page(std::string resource_dict,
+                                          std::string command_stream,
+                                          const PageProperties &custom_props,
+                                          const std::unordered_set<CapyPDF_AnnotationId> &annots,
+                                          const std::vector<CapyPDF_StructureItemId> &structs,
+                                          const std::optional<Transition> &transition,
+                                          const std::vector<SubPageNavigation> &subnav,
+                                          const std::vector<Viewport> &viewports) {
+    ERCV(check_page_usage(annots, structs));
     ObjectFormatter fmt;
     fmt.begin_dict();
     const auto resource_num = add_object(FullPDFObject{std::move(resource_dict), {}});
diff --git a/src/document.hpp b/src/document.hpp
index 27a7501..f3c2125 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -452,6 +452,9 @@ public:
     friend class PdfWriter;
 
     // Pages
+    rvoe<NoReturnValue>
+    check_page_usage(const std::unordered_set<CapyPDF_AnnotationId> &annots,
+                     const std::vector<CapyPDF_StructureItemId> &structs) const;
     rvoe<NoReturnValue> add_page(std::string resource_dict,
                                  std::string command_stream,
                                  const PageProperties &custom_props,
diff --git a/src/generator.cpp b/src/generator.cpp
index a436bee..761f989 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -95,6 +95,7 @@ rvoe<PageId> PdfGen::add_page(PdfDrawContext &ctx) {
     if(ctx.has_unclosed_state()) {
         RETERR(DrawStateEndMismatch);
     }
+    ERCV(pdoc.check_page_usage(ctx.get_annotation_usage(), ctx.get_structure_usage()));
     ERC(sc_var, ctx.serialize());
     assert(std::holds_alternative<SerializedBasicContext>(sc_var));
     auto &sc = std::get<SerializedBasicContext>(sc_var);
-- 
2.43.0


From 1d8dca427d9a4d97aab45742013564db71a240cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 038/115] fix: do not mix draw contexts of different documents

---
 src/document.cpp  | 3 +++
 src/generator.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 4ef2c72..00a1631 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2211,6 +2211,9 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
 }
 
 rvoe<CapyPDF_TransparencyGroupId> PdfDocument::add_transparency_group(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != this) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_TRANSPARENCY_GROUP) {
         RETERR(InvalidDrawContextType);
     }
diff --git a/src/generator.cpp b/src/generator.cpp
index 761f989..638ff8d 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -118,6 +118,9 @@ rvoe<NoReturnValue> PdfGen::add_page_labeling(uint32_t start_page,
 }
 
 rvoe<CapyPDF_FormXObjectId> PdfGen::add_form_xobject(PdfDrawContext &ctx) {
+    if(&ctx.get_doc() != &pdoc) {
+        RETERR(IncorrectDocumentForObject);
+    }
     if(ctx.draw_context_type() != CAPY_DC_FORM_XOBJECT) {
         RETERR(InvalidDrawContextType);
     }
-- 
2.43.0


From ed24a6bb62107d3078d7ebbcbb84e608f2aebc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 039/115] fix: clear draw contexts of tiling patterns and
 transparency groups after use

---
 src/document.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 00a1631..af7ef3e 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2072,6 +2072,7 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
     auto &d = std::get<SerializedXObject>(sc_var);
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
+    ctx.clear();
     return CapyPDF_PatternId{objid};
 }
 
@@ -2225,6 +2226,7 @@ rvoe<CapyPDF_TransparencyGroupId> PdfDocument::add_transparency_group(PdfDrawCon
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
     transparency_groups.push_back(objid);
+    ctx.clear();
     return CapyPDF_TransparencyGroupId{(int32_t)transparency_groups.size() - 1};
 }
 
-- 
2.43.0


From 4bbd0e572ae03a106e720fb5fbcbe9d97458b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 040/115] fix: write names of embedded files as file
 specifications

---
 src/document.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index af7ef3e..6e7eab1 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2130,7 +2130,8 @@ rvoe<CapyPDF_EmbeddedFileId> PdfDocument::embed_file(EmbeddedFile &ef) {
         ObjectFormatter fmt;
         fmt.begin_dict();
         fmt.add_token_pair("/Type", "/Filespec");
-        fmt.add_token_pair("/F", pdfstring_quote(ef.pdfname.sv()));
+        fmt.add_token_pair("/F", u8str2filespec(ef.pdfname));
+        fmt.add_token_pair("/UF", u8str2filespec(ef.pdfname));
         fmt.add_token("/EF");
         fmt.begin_dict();
         fmt.add_token("/F");
-- 
2.43.0


From fee5abc53b938c7c03cf0f8a55e7a16595ad13e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 041/115] fix: write names of optional content groups as text
 strings

---
 src/capi.cpp      | 7 +++++--
 src/document.cpp  | 2 +-
 src/pdfcommon.hpp | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index e91406a..c24ab4e 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1966,9 +1966,12 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_transition_destroy(CapyPDF_Transition *transition
 CAPYPDF_PUBLIC CapyPDF_EC capy_optional_content_group_new(CapyPDF_OptionalContentGroup **out_ptr,
                                                           const char *name) CAPYPDF_NOEXCEPT {
     API_BOUNDARY_START;
-    // FIXME check for ASCIIness (or even more strict?)
+    auto rc = validate_utf8(name, -1);
+    if(!rc) {
+        return conv_err(rc);
+    }
     auto *ocg = new OptionalContentGroup();
-    ocg->name = name;
+    ocg->name = std::move(rc.value());
     *out_ptr = ocg;
     RETNOERR;
     API_BOUNDARY_END;
diff --git a/src/document.cpp b/src/document.cpp
index 6e7eab1..eef186d 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2205,7 +2205,7 @@ PdfDocument::add_optional_content_group(const OptionalContentGroup &g) {
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/OCG");
-    fmt.add_token_pair("/Name", pdfstring_quote(g.name));
+    fmt.add_token_pair("/Name", utf8_to_pdfutf16be(g.name));
     fmt.end_dict();
     auto id = add_object(FullPDFObject{fmt.steal(), {}});
     ocg_items.push_back(id);
diff --git a/src/pdfcommon.hpp b/src/pdfcommon.hpp
index 0e0473e..b8100b5 100644
--- a/src/pdfcommon.hpp
+++ b/src/pdfcommon.hpp
@@ -565,7 +565,7 @@ struct Transition : public _capyPDF_Transition {
 };
 
 struct OptionalContentGroup : public _capyPDF_OptionalContentGroup {
-    std::string name;
+    u8string name;
     // std::string intent;
     //  Usage usage;
 };
-- 
2.43.0


From 9d7ed232469cd64edbaeff2e76b1f094e056ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 042/115] fix: use a temporary file whose name is unique to the
 output file

---
 src/pdfwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 121d8ee..e04fcfc 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -246,7 +246,7 @@ rvoe<NoReturnValue> PdfWriter::write_to_file(const char *ofilename) {
     }
     doc.write_attempted = true;
     std::filesystem::path tempfname(ofilename);
-    tempfname.replace_extension(".pdf~");
+    tempfname += "~";
     FILE *out_file = fopen(tempfname.string().c_str(), "wb");
     if(!out_file) {
         perror(nullptr);
-- 
2.43.0


From c59438ee69e3ee6c97c355dd7338dbcbdbb114c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 043/115] fix: set the right attribute in
 capy_transition_set_Dm

---
 src/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capi.cpp b/src/capi.cpp
index c24ab4e..05d1110 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1911,7 +1911,7 @@ capy_transition_set_Dm(CapyPDF_Transition *tr, CapyPDF_Transition_Dimension dim)
     API_BOUNDARY_START;
     CHECK_API_ENUM(dim, CAPY_TR_DIM_V);
     auto pt = static_cast<Transition *>(tr);
-    pt->Di = dim;
+    pt->Dm = dim;
     RETNOERR;
     API_BOUNDARY_END;
 }
-- 
2.43.0


From 74b6a4b7d52ce6a2b08cd9dbc384dddf272405cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 044/115] fix: skip the scale of composite glyph components

---
 src/ft_subsetter.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 506df11..4fa642c 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1026,6 +1026,23 @@ rvoe<FontData> load_and_parse_font_file(const char *fname, const FontProperties
     return parse_font_file(std::move(mmapdata), props);
 }
 
+// The number of bytes after the glyph index of a composite glyph component.
+static int64_t composite_argument_size(uint16_t component_flag) {
+    const uint16_t ARGS_ARE_WORDS = 0x01;
+    const uint16_t HAS_SCALE = 0x08;
+    const uint16_t HAS_X_AND_Y_SCALE = 0x40;
+    const uint16_t HAS_TWO_BY_TWO = 0x80;
+    int64_t size = (component_flag & ARGS_ARE_WORDS) ? 2 * sizeof(int16_t) : 2 * sizeof(int8_t);
+    if(component_flag & HAS_SCALE) {
+        size += sizeof(int16_t);
+    } else if(component_flag & HAS_X_AND_Y_SCALE) {
+        size += 2 * sizeof(int16_t);
+    } else if(component_flag & HAS_TWO_BY_TWO) {
+        size += 4 * sizeof(int16_t);
+    }
+    return size;
+}
+
 rvoe<bool> is_composite_glyph(std::span<const std::byte> buf) {
     if(buf.empty()) {
         return false;
@@ -1045,7 +1062,6 @@ rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf)
     auto composite_data = std::span<const std::byte>(buf).subspan(5 * sizeof(int16_t));
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
-    const uint16_t ARGS_ARE_WORDS = 0x01;
     uint16_t component_flag;
     do {
         ERC(rv, extract<uint16_t>(composite_data, composite_offset));
@@ -1055,11 +1071,7 @@ rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf)
         ERC(glyph_index, extract<uint16_t>(composite_data, composite_offset));
         byte_swap_inplace(glyph_index);
         composite_offset += sizeof(uint16_t);
-        if(component_flag & ARGS_ARE_WORDS) {
-            composite_offset += 2 * sizeof(int16_t);
-        } else {
-            composite_offset += 2 * sizeof(int8_t);
-        }
+        composite_offset += composite_argument_size(component_flag);
         subglyphs.push_back(glyph_index);
     } while(component_flag & MORE_COMPONENTS);
     return subglyphs;
@@ -1073,7 +1085,6 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
     auto composite_data = buf.subspan(header_size);
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
-    const uint16_t ARGS_ARE_WORDS = 0x01;
     uint16_t component_flag;
     do {
         ERC(rv, extract<uint16_t>(composite_data, composite_offset));
@@ -1084,11 +1095,7 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
         ERC(glyph_index, extract<uint16_t>(composite_data, composite_offset));
         byte_swap_inplace(glyph_index);
         composite_offset += sizeof(uint16_t);
-        if(component_flag & ARGS_ARE_WORDS) {
-            composite_offset += 2 * sizeof(int16_t);
-        } else {
-            composite_offset += 2 * sizeof(int8_t);
-        }
+        composite_offset += composite_argument_size(component_flag);
         auto it = mapping.find(glyph_index);
         if(it == mapping.end()) {
             fprintf(stderr, "FAILfailFAIL\n");
-- 
2.43.0


From a10dad95beb4834d42620f7ae33a39cbe886f306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 045/115] fix: write the standard name of the default black
 point compensation

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index eef186d..be49a47 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -148,7 +148,7 @@ const std::array<const char *, 6> page_mode_names{
 const std::array<const char *, 3> blackpt_names{
     "/OFF",
     "/ON",
-    "/DEFAULT",
+    "/Default",
 };
 
 const std::array<const char *, 9> collection_view_subtype_names{
-- 
2.43.0


From 74de0952ae6bcc37ab6c0b6accb11ea390c33dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 046/115] fix: list all structure items without a parent in the
 structure tree root

---
 src/document.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index be49a47..e478161 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1264,27 +1264,21 @@ rvoe<int32_t> PdfDocument::create_outlines() {
 }
 
 void PdfDocument::create_structure_root_dict() {
-    std::optional<CapyPDF_StructureItemId> rootobj;
-
     if(!structure_parent_tree_object) {
         fprintf(stderr, "Internal error!\n");
         std::abort();
     }
-    for(int32_t i = 0; i < (int32_t)structure_items.size(); ++i) {
-        if(!structure_items[i].parent) {
-            rootobj = CapyPDF_StructureItemId{i};
-            break;
-        }
-        // FIXME, check that there is only one.
-    }
-    assert(rootobj);
     // /ParentTree
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/StructTreeRoot");
     fmt.add_token("/K");
     fmt.begin_array();
-    fmt.add_object_ref(structure_items[rootobj->id].obj_id);
+    for(const auto &item : structure_items) {
+        if(!item.parent) {
+            fmt.add_object_ref(item.obj_id);
+        }
+    }
     fmt.end_array();
     fmt.add_token("/ParentTree");
     fmt.add_object_ref(structure_parent_tree_object.value());
-- 
2.43.0


From e4f1011678c95f4a9c2e04579e782eaad9afbd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 047/115] fix: refuse raster images whose data does not match
 their size and format

---
 src/document.cpp | 14 +++++++--
 src/utils.cpp    | 78 ++++++++++++++++++++++++++++++++++++++++++++++++
 src/utils.hpp    |  8 +++++
 3 files changed, 97 insertions(+), 3 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index e478161..16ece68 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1505,12 +1505,19 @@ PdfDocument::get_subset_glyph(CapyPDF_FontId fid, const u8string &text, uint32_t
 
 rvoe<CapyPDF_ImageId> PdfDocument::add_mask_image(RawPixelImage image,
                                                   const ImagePDFProperties &params) {
+    if(image.md.w < 1 || image.md.h < 1) {
+        RETERR(InvalidImageSize);
+    }
+    if(image.pixels.empty()) {
+        RETERR(MissingPixels);
+    }
+    ERCV(validate_image_data(image));
+    if(!image.alpha.empty()) {
+        RETERR(MaskAndAlpha);
+    }
     if(image.md.cs != CAPY_IMAGE_CS_GRAY || image.md.pixel_depth != 1) {
         RETERR(UnsupportedFormat);
     }
-    if(!params.as_mask) {
-        std::abort();
-    }
     ImageObjectMetadata md;
     md.copy_common_from(image);
     md.depth = image.md.pixel_depth;
@@ -1528,6 +1535,7 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image(RawPixelImage image,
         RETERR(MissingPixels);
     }
     ERCV(validate_format(image));
+    ERCV(validate_image_data(image));
     std::optional<int32_t> smask_id;
     if(params.as_mask && !image.alpha.empty()) {
         RETERR(MaskAndAlpha);
diff --git a/src/utils.cpp b/src/utils.cpp
index 5e892eb..5fc8a64 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -173,6 +173,84 @@ rvoe<std::vector<std::byte>> flate_compress(std::span<std::byte> data) {
     return flate_compress(sv);
 }
 
+rvoe<uint64_t> inflated_size(std::span<const std::byte> data, uint64_t max_size) {
+    const size_t CHUNK = 64 * 1024;
+    z_stream strm;
+    memset(&strm, 0, sizeof(strm));
+    if(inflateInit(&strm) != Z_OK) {
+        RETERR(CompressionFailure);
+    }
+    std::unique_ptr<z_stream, int (*)(z_stream *)> zcloser(&strm, inflateEnd);
+    std::vector<unsigned char> buf(CHUNK);
+    uint64_t total = 0;
+    size_t consumed = 0;
+    int ret = Z_OK;
+    while(ret != Z_STREAM_END) {
+        if(strm.avail_in == 0) {
+            const auto left = std::min(data.size() - consumed, (size_t)1 << 30);
+            strm.next_in = (Bytef *)data.data() + consumed;
+            strm.avail_in = (uInt)left;
+            consumed += left;
+        }
+        strm.next_out = buf.data();
+        strm.avail_out = (uInt)buf.size();
+        ret = inflate(&strm, Z_NO_FLUSH);
+        if(ret != Z_OK && ret != Z_STREAM_END) {
+            RETERR(InvalidImageSize);
+        }
+        total += buf.size() - strm.avail_out;
+        if(total > max_size) {
+            RETERR(InvalidImageSize);
+        }
+    }
+    return total;
+}
+
+static rvoe<NoReturnValue> validate_sample_data(std::span<const std::byte> data,
+                                                const RasterImageMetadata &md,
+                                                uint64_t num_channels,
+                                                uint32_t depth) {
+    if(depth != 1 && depth != 2 && depth != 4 && depth != 8 && depth != 16) {
+        RETERR(UnsupportedFormat);
+    }
+    const uint64_t row_bytes = (num_channels * depth * md.w + 7) / 8;
+    if(row_bytes > UINT64_MAX / md.h) {
+        RETERR(InvalidImageSize);
+    }
+    const uint64_t expected_size = row_bytes * md.h;
+    uint64_t actual_size = data.size();
+    if(md.compression == CAPY_COMPRESSION_DEFLATE) {
+        ERC(real_size, inflated_size(data, expected_size));
+        actual_size = real_size;
+    }
+    if(actual_size != expected_size) {
+        RETERR(InvalidImageSize);
+    }
+    RETOK;
+}
+
+rvoe<NoReturnValue> validate_image_data(const RawPixelImage &image) {
+    uint64_t num_channels = 0;
+    switch(image.md.cs) {
+    case CAPY_IMAGE_CS_RGB:
+        num_channels = 3;
+        break;
+    case CAPY_IMAGE_CS_GRAY:
+        num_channels = 1;
+        break;
+    case CAPY_IMAGE_CS_CMYK:
+        num_channels = 4;
+        break;
+    default:
+        RETERR(UnsupportedFormat);
+    }
+    ERCV(validate_sample_data(image.pixels, image.md, num_channels, image.md.pixel_depth));
+    if(!image.alpha.empty()) {
+        ERCV(validate_sample_data(image.alpha, image.md, 1, image.md.alpha_depth));
+    }
+    RETOK;
+}
+
 rvoe<std::string> load_file_as_string(const char *fname) {
     FILE *f = fopen(fname, "rb");
     if(!f) {
diff --git a/src/utils.hpp b/src/utils.hpp
index c5521c4..73aaf68 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -23,6 +23,14 @@ template<class... Ts> overloaded(Ts...) -> overloaded<Ts...>;
 rvoe<std::vector<std::byte>> flate_compress(std::string_view data);
 rvoe<std::vector<std::byte>> flate_compress(std::span<std::byte> data);
 
+// The number of bytes that zlib data expands to, or an error if there are more
+// than max_size of them.
+rvoe<uint64_t> inflated_size(std::span<const std::byte> data, uint64_t max_size);
+
+// Check that the pixel and alpha data have the size implied by the image's metadata.
+struct RawPixelImage;
+rvoe<NoReturnValue> validate_image_data(const RawPixelImage &image);
+
 rvoe<std::string> load_file_as_string(const char *fname);
 rvoe<std::string> load_file_as_string(FILE *f);
 
-- 
2.43.0


From 88e4295c276f275a29404f92d355572515e572e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 048/115] fix: refuse to convert the colors of images that are
 not plain 8 bit data

---
 src/colorconverter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/colorconverter.cpp b/src/colorconverter.cpp
index 8a967e6..1f69f40 100644
--- a/src/colorconverter.cpp
+++ b/src/colorconverter.cpp
@@ -233,6 +233,13 @@ cmsHPROFILE PdfColorConverter::profile_for(CapyPDF_Image_Colorspace cs) const {
 rvoe<RawPixelImage> PdfColorConverter::convert_image_to(RawPixelImage ri,
                                                         CapyPDF_Device_Colorspace output_format,
                                                         CapyPDF_Rendering_Intent intent) const {
+    if(ri.md.w < 1 || ri.md.h < 1) {
+        RETERR(InvalidImageSize);
+    }
+    if(ri.md.pixel_depth != 8 || ri.md.compression != CAPY_COMPRESSION_NONE) {
+        RETERR(UnsupportedFormat);
+    }
+    ERCV(validate_image_data(ri));
     RawPixelImage converted;
     converted.md = ri.md;
     converted.alpha = std::move(ri.alpha);
@@ -251,6 +258,9 @@ rvoe<RawPixelImage> PdfColorConverter::convert_image_to(RawPixelImage ri,
             RETERR(InvalidICCProfile);
         }
         icc_holder.h = input_profile;
+        if(cmsChannelsOf(cmsGetColorSpace(input_profile)) != T_CHANNELS(input_pixelformat)) {
+            RETERR(IncorrectColorChannelCount);
+        }
     }
 
     if(!input_profile) {
-- 
2.43.0


From 04c03ba818dc377a1a469a569ff27dff8bda9deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 049/115] fix: refuse to use JPEG images as masks

---
 src/document.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 16ece68..69fa3ec 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1637,6 +1637,9 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image_object(const ImageObjectMetadata &m
 }
 
 rvoe<CapyPDF_ImageId> PdfDocument::embed_jpg(jpg_image jpg, const ImagePDFProperties &props) {
+    if(props.as_mask) {
+        RETERR(UnsupportedFormat);
+    }
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/XObject");
-- 
2.43.0


From ec47e260101e6bd85880dc9009ff9f3ca8dfcb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 050/115] fix: report an error when an image file can not be
 opened

---
 src/imagefileops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 100f125..de652d9 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -618,6 +618,9 @@ rvoe<RasterImage> load_image_file(const char *fname) {
     char buf[bufsize];
     buf[0] = 0;
     FILE *f = fopen(fname, "rb");
+    if(!f) {
+        RETERR(CouldNotOpenFile);
+    }
     auto rc = fread(buf, 1, bufsize, f);
     fclose(f);
     if(rc != bufsize) {
-- 
2.43.0


From 6bcbc6a5518a5d1dd4296cc21c4959ca3a3bd466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 051/115] fix: take the alpha channel of TIFF images from the
 right pixels

---
 src/imagefileops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index de652d9..b48e069 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -257,7 +257,7 @@ void separate_tif_alpha(RawPixelImage &image, const size_t num_color_channels) {
         for(size_t j = 0; j < num_color_channels; ++j) {
             colors.push_back(image.pixels[i + j]);
         }
-        image.alpha.push_back(image.pixels[num_color_channels]);
+        image.alpha.push_back(image.pixels[i + num_color_channels]);
     }
     image.pixels = std::move(colors);
 }
-- 
2.43.0


From a654e78346d0778f969581cf2dd8e2492e8a0ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 052/115] fix: reject planar TIFF images

---
 src/imagefileops.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index b48e069..8ca4c67 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -307,7 +307,9 @@ rvoe<RasterImage> do_tiff_load(TIFF *tif) {
     if(TIFFGetField(tif, TIFFTAG_PLANARCONFIG, &planarconf) != 1) {
         RETERR(UnsupportedTIFF);
     }
-    // Maybe fail for this?
+    if(planarconf != PLANARCONFIG_CONTIG) {
+        RETERR(UnsupportedTIFF);
+    }
 
     if(TIFFGetField(tif, TIFFTAG_ICCPROFILE, &icc_count, &icc_data) == 1) {
         result.icc_profile = std::vector<std::byte>((const std::byte *)icc_data,
-- 
2.43.0


From 5cbc1ebd2ce4b5e24e7018da0f7983f47996bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 053/115] fix: read 1 bit PNG images with transparency
 correctly

---
 src/imagefileops.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 8ca4c67..e682bcb 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -129,15 +129,6 @@ void load_mono_png(png_struct *png_ptr,
     assert(result.pixels.size() == final_size);
 }
 
-template<typename T> bool span_contains(std::span<T> &span, const T &value) {
-    for(const auto &e : span) {
-        if(e == value) {
-            return true;
-        }
-    }
-    return false;
-}
-
 // Special case for images that have 1-bit monochrome colors and a 1-bit alpha channel.
 rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
                                             png_info *info_ptr,
@@ -162,14 +153,14 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
             auto input_value = current_row[i];
             assert(input_value < palette.size()); // Span has .at only at c++26.
             bool is_white_p = is_white(palette[input_value]);
-            bool is_trans_p = span_contains(alpha, current_row[i]);
+            bool is_trans_p = input_value < alpha.size() && alpha[input_value] == 0;
             if(!is_white_p) {
                 current_byte |= 1;
             }
             if(is_trans_p) {
                 current_mask_byte |= 1;
             }
-            if((i % 8 == 0) && i > 0) {
+            if(i % 8 == 7) {
                 result.pixels.push_back(std::byte(~current_byte));
                 result.alpha.push_back(std::byte(~current_mask_byte));
                 current_byte = 0;
@@ -181,9 +172,9 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
         if(num_padding_bits > 0) {
             current_byte <<= num_padding_bits;
             current_mask_byte <<= num_padding_bits;
+            result.pixels.push_back(std::byte(~current_byte));
+            result.alpha.push_back(std::byte(~current_mask_byte));
         }
-        result.pixels.push_back(std::byte(current_byte));
-        result.alpha.push_back(std::byte(~current_mask_byte));
     }
     assert(result.pixels.size() == final_size);
     assert(result.alpha.size() == final_size);
-- 
2.43.0


From 52eeb4b76c40669f1f983b97110220380b83391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 054/115] fix: only load palette PNG images that are black and
 white

---
 src/imagefileops.cpp | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index e682bcb..05cbaa8 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -94,6 +94,8 @@ void load_ga_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result)
 bool is_white(const png_color *c) { return c->red == 255 && c->green == 255 && c->blue == 255; }
 bool is_white(const png_color &c) { return is_white(&c); }
 
+bool is_black(const png_color &c) { return c.red == 0 && c.green == 0 && c.blue == 0; }
+
 void load_mono_png(png_struct *png_ptr,
                    png_info *info_ptr,
                    std::span<png_color> palette,
@@ -104,13 +106,12 @@ void load_mono_png(png_struct *png_ptr,
     result.md.pixel_depth = 1;
     result.md.cs = CAPY_IMAGE_CS_GRAY;
     const int num_padding_bits = (result.md.w % 8) == 0 ? 0 : 8 - result.md.w % 8;
-    const int white_pixel = is_white(palette[0]) ? 0 : 1;
     for(uint32_t j = 0; j < result.md.h; ++j) {
         unsigned char current_byte = 0;
         auto current_row = rows[j];
         for(uint32_t i = 0; i < result.md.w; ++i) {
             current_byte <<= 1;
-            if(current_row[i] != white_pixel) {
+            if(!is_white(palette[current_row[i]])) {
                 current_byte |= 1;
             }
             if((i % 8 == 0) && i > 0) {
@@ -216,16 +217,38 @@ rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
         if(num_channels != 1) {
             RETERR(UnsupportedFormat);
         }
-        if(palette_size == 2) {
-            // FIXME: validate that the two entries in the file are in fact black and white.
-
+        std::span<unsigned char> aspan;
+        if(trns_rc == PNG_INFO_tRNS) {
+            aspan = std::span<unsigned char>(trans, num_trans);
+        }
+        if(palette_size > 4) {
+            RETERR(NonBWColormap);
+        }
+        for(int i = 0; i < palette_size; ++i) {
+            const bool has_alpha = i < (int)aspan.size();
+            if(has_alpha && aspan[i] == 0) {
+                // The color of fully transparent pixels does not matter.
+                continue;
+            }
+            if((has_alpha && aspan[i] != 255) || !(is_white(pspan[i]) || is_black(pspan[i]))) {
+                RETERR(NonBWColormap);
+            }
+        }
+        unsigned char **rows = png_get_rows(png_ptr, info_ptr);
+        for(uint32_t j = 0; j < image.md.h; ++j) {
+            for(uint32_t i = 0; i < image.md.w; ++i) {
+                if(rows[j][i] >= palette_size) {
+                    RETERR(NonBWColormap);
+                }
+            }
+        }
+        if(palette_size == 2 && aspan.empty()) {
             // Some programs write ICC profiles to monochrome images. They confuse
             // PDF renderers quite a bit so delete.
             image.icc_profile.clear();
             // white
             load_mono_png(png_ptr, info_ptr, pspan, image);
-        } else if((palette_size == 3 || palette_size == 4) && trns_rc == PNG_INFO_tRNS) {
-            std::span<unsigned char> aspan(trans, num_trans);
+        } else if(!aspan.empty()) {
             image.icc_profile.clear();
             ERCV(try_load_mono_alpha_png(png_ptr, info_ptr, pspan, aspan, image));
         } else {
-- 
2.43.0


From fc8fe03491ba0aa7cb3ff4764d3cec8b94298275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:52 +0000
Subject: [PATCH 055/115] fix: scale the samples of 2 and 4 bit gray PNG images

---
 src/imagefileops.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 05cbaa8..8405f3a 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -63,13 +63,16 @@ void load_gray_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &resul
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
     result.md.pixel_depth = 8;
     result.md.cs = CAPY_IMAGE_CS_GRAY;
+    // Samples of less than 8 bits are unpacked to one byte each without scaling.
+    const int bit_depth = png_get_bit_depth(png_ptr, info_ptr);
+    const int scale = bit_depth < 8 ? 255 / ((1 << bit_depth) - 1) : 1;
 
     result.pixels.reserve(result.md.w * result.md.h);
 
     for(uint32_t row_number = 0; row_number < result.md.h; ++row_number) {
         std::byte *current_row = (std::byte *)rows[row_number];
         for(size_t i = 0; i < result.md.w; ++i) {
-            result.pixels.push_back(current_row[i]);
+            result.pixels.push_back(std::byte(int(current_row[i]) * scale));
         }
     }
 }
-- 
2.43.0


From f5610b2d00a409b847e408cec362b41acf8f6c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:52 +0000
Subject: [PATCH 056/115] fix: reject PNG images with 16 bit samples

---
 src/imagefileops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 8405f3a..69be338 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -199,6 +199,9 @@ rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
         image.icc_profile = std::vector<std::byte>(icc_data, icc_data + icc_length);
     }
     const auto image_format = png_get_color_type(png_ptr, info_ptr);
+    if(png_get_bit_depth(png_ptr, info_ptr) == 16) {
+        RETERR(UnsupportedFormat);
+    }
     if(image_format == PNG_COLOR_TYPE_RGB_ALPHA) {
         load_rgba_png(png_ptr, info_ptr, image);
     } else if(image_format == PNG_COLOR_TYPE_RGB) {
-- 
2.43.0


From b2dab7ee00c6862d10fbd835d74bb273ded7b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 057/115] fix: list marked content of structure items that also
 have children

---
 src/pdfwriter.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index e04fcfc..7809a73 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -1223,24 +1223,24 @@ rvoe<NoReturnValue> PdfWriter::write_delayed_structure_item(int obj_num,
     fmt.add_token("/P");
     fmt.add_object_ref(parent_object);
 
+    const auto it = doc.structure_use.find(dsi.sid);
+    const bool used_on_page = it != doc.structure_use.end();
+    if(used_on_page) {
+        fmt.add_token("/Pg");
+        fmt.add_object_ref(doc.pages.at(it->second.page_num).page_obj_num);
+    }
     if(!children.empty()) {
         fmt.add_token("/K");
         fmt.begin_array(1);
-
+        if(used_on_page) {
+            fmt.add_token(it->second.mcid_num);
+        }
         for(const auto &c : children) {
             fmt.add_object_ref(doc.structure_items.at(c.id).obj_id);
         }
         fmt.end_array();
-    } else {
-        // FIXME. Maybe not correct? Assumes that a struct item
-        // either has children or is used on a page. Not both.
-        const auto it = doc.structure_use.find(dsi.sid);
-        if(it != doc.structure_use.end()) {
-            const auto &[page_num, mcid_num] = it->second;
-            fmt.add_token("/Pg");
-            fmt.add_object_ref(doc.pages.at(page_num).page_obj_num);
-            fmt.add_token_pair("/K", mcid_num);
-        }
+    } else if(used_on_page) {
+        fmt.add_token_pair("/K", it->second.mcid_num);
     }
 
     // Extra elements.
-- 
2.43.0


From 75ca8f58bd6b2a78a19a0cf72e92d57cc632cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 058/115] fix: use the specified names of the inverted spot
 functions

---
 src/document.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 69fa3ec..e8b2c60 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -38,22 +38,22 @@ const std::array<const char *, 5> page_label_types{
 
 const std::array<const char *, 21> spot_function_names{
     "/SimpleDot",
-    "/Inverted_SimpleDot",
+    "/InvertedSimpleDot",
     "/DoubleDot",
-    "/Inverted_DoubleDot",
+    "/InvertedDoubleDot",
     "/CosineDot",
     "/Double",
-    "/Inverted_Double",
+    "/InvertedDouble",
     "/Line",
     "/LineX",
     "/LineY",
     "/Round",
     "/Ellipse",
     "/EllipseA",
-    "/Inverted_EllipseA",
+    "/InvertedEllipseA",
     "/EllipseB",
     "/EllipseC",
-    "/Inverted_EllipseC",
+    "/InvertedEllipseC",
     "/Square",
     "/Cross",
     "/Rhomboid",
-- 
2.43.0


From 29154673dfb35374ffb70736d683cc45ff3b88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 059/115] fix: transparency groups always have a group
 dictionary

---
 src/drawcontext.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 8c3dd71..168f202 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -74,10 +74,8 @@ rvoe<DCSerialization> PdfDrawContext::serialize() {
         fmt.add_token(bbox.x2);
         fmt.add_token(bbox.y2);
         fmt.end_array();
-        if(custom_props.transparency_props) {
-            fmt.add_token("/Group");
-            custom_props.transparency_props->serialize(fmt);
-        }
+        fmt.add_token("/Group");
+        custom_props.transparency_props.value_or(TransparencyGroupProperties{}).serialize(fmt);
         if(group_matrix) {
             write_matrix(fmt, group_matrix.value());
         }
-- 
2.43.0


From 11c61e2273fd2c9281669fe8373beeb977dcdbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:45 +0000
Subject: [PATCH 060/115] fix: embedded fonts have a valid table directory

---
 src/ft_subsetter.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 4fa642c..e985972 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -71,10 +71,10 @@ struct TTOffsetTable {
         num_tables = new_size;
         assert(new_size > 0);
         int i = 0;
-        while((1 << i) < new_size) {
+        while((2 << i) <= new_size) {
             ++i;
         }
-        const auto pow2 = 1 << (i - 1);
+        const auto pow2 = 1 << i;
         // https://developer.apple.com/fonts/TrueType-Reference-Manual/RM06/Chap6.html
         //
         // Note that for table 4 the text description has a different definition for
@@ -696,9 +696,17 @@ TTHmtx subset_hmtx(const TrueTypeFontFile &source, const std::vector<TTGlyphs> &
     return subset;
 }
 
+// All tables must begin on a four byte boundary.
+void pad_to_table_alignment(std::vector<std::byte> &odata) {
+    while(odata.size() % sizeof(uint32_t) != 0) {
+        odata.push_back(std::byte{0});
+    }
+}
+
 TTDirEntry
 write_raw_table(std::vector<std::byte> &odata, const char *tag, std::span<const std::byte> bytes) {
     TTDirEntry e;
+    pad_to_table_alignment(odata);
     e.set_tag(tag);
     e.offset = odata.size();
     e.length = bytes.size();
@@ -739,6 +747,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     tf.head.checksum_adjustment = 0;
     // const auto start_of_head = odata.length(); // For checksum adjustment.
     tf.head.swap_endian();
+    pad_to_table_alignment(odata);
     const auto head_offset = odata.size();
     directory.push_back(write_raw_table(
         odata, "head", std::span<const std::byte>((const std::byte *)&tf.head, sizeof(tf.head))));
@@ -752,6 +761,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
         odata, "maxp", std::span<const std::byte>((const std::byte *)&tf.maxp, sizeof(tf.maxp))));
     // glyph time
     std::vector<int32_t> loca;
+    pad_to_table_alignment(odata);
     size_t glyphs_start = odata.size();
     // All new glyph data should be in the "subglyphs" parameter.
     assert(tf.glyphs.empty());
@@ -767,6 +777,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     directory.push_back(e);
 
     e.set_tag("loca");
+    pad_to_table_alignment(odata);
     e.offset = odata.size();
     for(auto offset : loca) {
         byte_swap_inplace(offset);
@@ -776,6 +787,7 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     directory.push_back(e);
 
     e.set_tag("hmtx");
+    pad_to_table_alignment(odata);
     e.offset = odata.size();
     for(auto hm : tf.hmtx.longhor) {
         hm.swap_endian();
@@ -790,8 +802,13 @@ std::vector<std::byte> serialize_font(TrueTypeFontFile &tf,
     assert(directory.size() == (size_t)tf.num_directory_entries());
     std::byte *directory_start = odata.data() + sizeof(TTOffsetTable);
     std::span<std::byte> full_view(odata.data(), odata.size());
+    // The directory is sorted by tag.
+    std::sort(directory.begin(), directory.end(), [](const TTDirEntry &a, const TTDirEntry &b) {
+        return memcmp(a.tag, b.tag, sizeof(a.tag)) < 0;
+    });
     for(int i = 0; i < (int)directory.size(); ++i) {
-        e.checksum = ttf_checksum(full_view.subspan(e.offset, e.length));
+        directory[i].checksum =
+            ttf_checksum(full_view.subspan(directory[i].offset, directory[i].length));
         directory[i].swap_endian();
         memcpy(directory_start + i * sizeof(TTDirEntry), &directory[i], sizeof(TTDirEntry));
     }
-- 
2.43.0


From 0c794175d56df78c3274e3349516b6a9b087d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:45 +0000
Subject: [PATCH 061/115] fix: metrics and bounds of variable font instances

---
 src/ft_subsetter.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index e985972..5732ad3 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -582,8 +582,8 @@ GlyphBoundingBox get_glyph_bb(FT_Outline outline) {
         const auto &px = outline.points[i].x;
         const auto &py = outline.points[i].y;
         bb.xMin = std::min(bb.xMin, px);
-        bb.xMax = std::max(bb.xMax, py);
-        bb.yMin = std::min(bb.yMin, px);
+        bb.xMax = std::max(bb.xMax, px);
+        bb.yMin = std::min(bb.yMin, py);
         bb.yMax = std::max(bb.yMax, py);
     }
     return bb;
@@ -983,6 +983,20 @@ generate_truetype_font(const TrueTypeFontFile &source,
     dest.maxp = source.maxp;
     dest.maxp.set_num_glyphs(subglyphs.size());
     dest.hmtx = subset_hmtx(source, glyphs);
+    if(FT_HAS_MULTIPLE_MASTERS(face)) {
+        // The metrics in the file are those of the default instance.
+        for(size_t i = 0; i < glyphs.size(); ++i) {
+            const auto rc =
+                FT_Load_Glyph(face, font_id_for_glyph(glyphs[i]), FT_LOAD_NO_SCALE | FT_LOAD_NO_BITMAP);
+            if(rc != 0) {
+                print_freetype_error(rc);
+                RETERR(FreeTypeError);
+            }
+            auto &hm = dest.hmtx.longhor[i];
+            hm.advance_width = uint16_t(face->glyph->metrics.horiAdvance);
+            hm.lsb = int16_t(get_glyph_bb(face->glyph->outline).xMin);
+        }
+    }
     dest.hhea.num_hmetrics = dest.hmtx.longhor.size();
     dest.head.index_to_loc_format = 1;
     dest.cvt = source.cvt;
-- 
2.43.0


From ba79cf24e1bd28e121c53bd2c2115bbac7d30cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:03 +0000
Subject: [PATCH 062/115] fix: PDF/A files have the PDF version of their part
 of the standard

---
 src/document.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index e8b2c60..cee0959 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -460,7 +460,18 @@ DocumentProperties::DocumentProperties() {
 
 PdfVersion DocumentProperties::version() const {
     if(auto *pdfa = std::get_if<CapyPDF_PDFA_Type>(&subtype)) {
-        if(*pdfa >= CAPY_PDFA_4f) {
+        switch(*pdfa) {
+        case CAPY_PDFA_1a:
+        case CAPY_PDFA_1b:
+            return PdfVersion::v14;
+        case CAPY_PDFA_2a:
+        case CAPY_PDFA_2b:
+        case CAPY_PDFA_2u:
+        case CAPY_PDFA_3a:
+        case CAPY_PDFA_3b:
+        case CAPY_PDFA_3u:
+            return PdfVersion::v17;
+        default:
             return PdfVersion::v20;
         }
     }
-- 
2.43.0


From befecce3f656615c5dd693edcf0ed0884f453db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:26 +0000
Subject: [PATCH 063/115] fix: write the glyph ids of the cmap table of subsets

---
 src/ft_subsetter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 5732ad3..466be62 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -852,7 +852,9 @@ std::vector<std::byte> gen_cmap(const std::vector<TTGlyphs> &glyphs) {
     append_bytes(buf, cmap_head);
     append_bytes(buf, enc);
     append_bytes(buf, glyphencoding);
-    append_bytes(buf, glyphids);
+    for(const auto gid : glyphids) {
+        append_bytes(buf, gid);
+    }
 
     return buf;
 }
-- 
2.43.0


From e308df09b8b7035f5a5674d0e2a2572f0258d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 064/115] fix: refuse annotations in draw contexts that are not
 pages

---
 src/drawcontext.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 168f202..baa5d2b 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -247,6 +247,9 @@ void PdfDrawContext::build_resource_dict(ObjectFormatter &fmt) {
 
 rvoe<NoReturnValue> PdfDrawContext::annotate(CapyPDF_AnnotationId annotation) {
     CHECK_INDEXNESS(annotation.id, doc->annotations);
+    if(context_type != CAPY_DC_PAGE) {
+        RETERR(InvalidDrawContextType);
+    }
     if(used_annotations.find(annotation) != used_annotations.end()) {
         RETERR(AnnotationReuse);
     }
-- 
2.43.0


From f8bb13b496bdcc4052d39e3874fd73e0fb9153c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 065/115] fix: only accept ids of graphics states, patterns,
 Lab color spaces and 3D streams that were handed out

---
 src/document.cpp      | 14 ++++++++++----
 src/document.hpp      |  6 ++++++
 src/drawcontext.cpp   | 12 ++++++------
 src/errorhandling.hpp |  4 ++--
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index cee0959..d3092eb 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -838,8 +838,9 @@ rvoe<CapyPDF_LabColorSpaceId> PdfDocument::add_lab_colorspace(const LabColorSpac
     }
     fmt.end_array();
 
-    add_object(FullPDFObject{fmt.steal(), {}});
-    return CapyPDF_LabColorSpaceId{(int32_t)document_objects.size() - 1};
+    const auto id = add_object(FullPDFObject{fmt.steal(), {}});
+    lab_colorspaces.insert(id);
+    return CapyPDF_LabColorSpaceId{id};
 }
 
 rvoe<CapyPDF_IccColorSpaceId> PdfDocument::load_icc_file(const char *fname) {
@@ -969,6 +970,7 @@ rvoe<CapyPDF_3DStreamId> PdfDocument::add_3d_stream(ThreeDStream stream) {
     fmt.end_dict();
     const auto obj_num =
         add_object(FullPDFObject{fmt.steal(), RawData(std::move(stream.model_data))});
+    threed_streams.insert(obj_num);
     return CapyPDF_3DStreamId{obj_num};
 }
 
@@ -1781,6 +1783,7 @@ rvoe<CapyPDF_GraphicsStateId> PdfDocument::add_graphics_state(const GraphicsStat
     }
     fmt.end_dict();
     add_object(FullPDFObject{fmt.steal(), {}});
+    graphics_states.insert(id);
     return CapyPDF_GraphicsStateId{id};
 }
 
@@ -2071,7 +2074,9 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_shading_pattern(const ShadingPattern &s
         fmt.end_array();
     }
     fmt.end_dict();
-    return CapyPDF_PatternId{add_object(FullPDFObject{fmt.steal(), {}})};
+    const auto objid = add_object(FullPDFObject{fmt.steal(), {}});
+    patterns.insert(objid);
+    return CapyPDF_PatternId{objid};
 }
 
 rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
@@ -2089,6 +2094,7 @@ rvoe<CapyPDF_PatternId> PdfDocument::add_tiling_pattern(PdfDrawContext &ctx) {
     auto objid =
         add_object(DeflatePDFObject{std::move(d.dict), RawData(std::move(d.command_stream)), true});
     ctx.clear();
+    patterns.insert(objid);
     return CapyPDF_PatternId{objid};
 }
 
@@ -2171,7 +2177,7 @@ rvoe<CapyPDF_AnnotationId> PdfDocument::add_annotation(const Annotation &a) {
     } else if(const auto *pma = std::get_if<PrintersMarkAnnotation>(&a.sub)) {
         CHECK_INDEXNESS(pma->appearance.id, form_xobjects);
     } else if(const auto *threed = std::get_if<ThreeDAnnotation>(&a.sub)) {
-        CHECK_OBJECT_ID(threed->stream.id, document_objects);
+        CHECK_OBJECT_ID(threed->stream.id, threed_streams);
     } else if(const auto *widget = std::get_if<WidgetAnnotation>(&a.sub)) {
         if(widget->parent) {
             CHECK_INDEXNESS(widget->parent->id, form_fields);
diff --git a/src/document.hpp b/src/document.hpp
index f3c2125..83acfd5 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -637,6 +637,12 @@ private:
     std::vector<ShadingInfo> shadings;
     std::vector<RolemapEnty> rolemap;
 
+    // Ids that are object numbers.
+    std::unordered_set<int32_t> graphics_states;
+    std::unordered_set<int32_t> patterns;
+    std::unordered_set<int32_t> lab_colorspaces;
+    std::unordered_set<int32_t> threed_streams;
+
     std::optional<Collection> collection;
 
     // A form widget can be used on one and only one page.
diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index baa5d2b..3dac1c0 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -441,7 +441,7 @@ rvoe<NoReturnValue> PdfDrawContext::cmd_G(LimitDouble gray) { return serialize_G
 rvoe<NoReturnValue> PdfDrawContext::cmd_g(LimitDouble gray) { return serialize_g(gray); }
 
 rvoe<NoReturnValue> PdfDrawContext::cmd_gs(CapyPDF_GraphicsStateId gid) {
-    CHECK_OBJECT_ID(gid.id, doc->document_objects);
+    CHECK_OBJECT_ID(gid.id, doc->graphics_states);
     used_gstates.insert(gid.id);
     auto cmd = std::format("/GS{} gs\n", gid.id);
     cmds.append(cmd);
@@ -766,7 +766,7 @@ rvoe<NoReturnValue> PdfDrawContext::set_color(const SeparationColor &color, bool
 }
 
 rvoe<NoReturnValue> PdfDrawContext::set_color(const LabColor &c, bool stroke) {
-    CHECK_INDEXNESS(c.id.id, doc->document_objects);
+    CHECK_OBJECT_ID(c.id.id, doc->lab_colorspaces);
     used_colorspaces.insert(c.id.id);
     std::string csname = std::format("/CSpace{}", c.id.id);
     if(stroke) {
@@ -1031,7 +1031,7 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
             RETOK;
         },
         [&](const gs_arg &gs) -> rvoe<NoReturnValue> {
-            CHECK_INDEXNESS(gs.gid.id, doc->document_objects);
+            CHECK_OBJECT_ID(gs.gid.id, doc->graphics_states);
             used_gstates.insert(gs.gid.id);
             auto cmd = std::format("/GS{} gs\n", gs.gid.id);
             cmds.append(cmd);
@@ -1107,7 +1107,7 @@ rvoe<NoReturnValue> PdfDrawContext::validate_text_contents(const PdfText &text)
         } else if(const auto *nonstroke = std::get_if<Nonstroke_arg>(&e)) {
             ERCV(check_color(nonstroke->c));
         } else if(const auto *gs = std::get_if<gs_arg>(&e)) {
-            CHECK_OBJECT_ID(gs->gid.id, doc->document_objects);
+            CHECK_OBJECT_ID(gs->gid.id, doc->graphics_states);
         }
     }
     if(in_marked_content) {
@@ -1270,9 +1270,9 @@ rvoe<NoReturnValue> PdfDrawContext::check_color(const Color &c) const {
             RETERR(IncorrectColorChannelCount);
         }
     } else if(const auto *pattern = std::get_if<CapyPDF_PatternId>(&c)) {
-        CHECK_OBJECT_ID(pattern->id, doc->document_objects);
+        CHECK_OBJECT_ID(pattern->id, doc->patterns);
     } else if(const auto *lab = std::get_if<LabColor>(&c)) {
-        CHECK_OBJECT_ID(lab->id.id, doc->document_objects);
+        CHECK_OBJECT_ID(lab->id.id, doc->lab_colorspaces);
     } else if(const auto *sep = std::get_if<SeparationColor>(&c)) {
         CHECK_INDEXNESS(sep->id.id, doc->separation_objects);
     }
diff --git a/src/errorhandling.hpp b/src/errorhandling.hpp
index a19093f..3f54bd6 100644
--- a/src/errorhandling.hpp
+++ b/src/errorhandling.hpp
@@ -190,9 +190,9 @@ struct NoReturnValue {};
         RETERR(BadId);                                                                             \
     }
 
-// For ids that are object numbers. The first object is never handed out.
+// For ids that are object numbers. They are only valid for the type they were handed out for.
 #define CHECK_OBJECT_ID(ind, container)                                                            \
-    if((ind < 1) || ((size_t)ind >= container.size())) {                                           \
+    if(!container.contains(ind)) {                                                                 \
         RETERR(BadId);                                                                             \
     }
 
-- 
2.43.0


From 94347f01c5ed67c086ba18e5107772c3d8603412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 066/115] fix: refuse data that is not an ICC profile with the
 given number of channels

---
 src/document.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index d3092eb..201fe0d 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1412,10 +1412,14 @@ rvoe<CapyPDF_IccColorSpaceId> PdfDocument::add_icc_profile(std::span<std::byte>
                                                            int32_t num_channels) {
     auto existing = find_icc_profile(contents);
     if(existing) {
+        if(get(*existing).num_channels != num_channels) {
+            RETERR(IncorrectColorChannelCount);
+        }
         return existing.value();
     }
-    if(contents.empty()) {
-        return CapyPDF_IccColorSpaceId{-1};
+    ERC(profile_channels, cm.get_num_channels(contents));
+    if(profile_channels != num_channels) {
+        RETERR(IncorrectColorChannelCount);
     }
     ObjectFormatter fmt;
     fmt.begin_dict();
@@ -1553,6 +1557,11 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image(RawPixelImage image,
     if(params.as_mask && !image.alpha.empty()) {
         RETERR(MaskAndAlpha);
     }
+    std::optional<CapyPDF_IccColorSpaceId> icc_id;
+    if(!image.icc_profile.empty()) {
+        ERC(id, add_icc_profile(image.icc_profile, num_channels_for(image.md.cs)));
+        icc_id = id;
+    }
     if(!image.alpha.empty()) {
         ImageObjectMetadata md;
         md.copy_common_from(image);
@@ -1563,12 +1572,11 @@ rvoe<CapyPDF_ImageId> PdfDocument::add_image(RawPixelImage image,
         ERC(imobj, add_image_object(md, {}, params, image.alpha));
         smask_id = get(imobj).obj;
     }
-    if(!image.icc_profile.empty()) {
-        ERC(icc_id, add_icc_profile(image.icc_profile, num_channels_for(image.md.cs)));
+    if(icc_id) {
         ImageObjectMetadata md;
         md.copy_common_from(image);
         md.depth = image.md.pixel_depth;
-        md.cs = icc_id;
+        md.cs = *icc_id;
         return add_image_object(md, smask_id, params, image.pixels);
     } else {
         ImageObjectMetadata md;
-- 
2.43.0


From f293ec68929738608141004b7a982be2431ead47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 067/115] fix: write empty streams as streams

---
 src/document.hpp  |  2 +-
 src/pdfwriter.cpp | 14 +++++++++-----
 src/pdfwriter.hpp |  2 +-
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/document.hpp b/src/document.hpp
index 83acfd5..da8afe2 100644
--- a/src/document.hpp
+++ b/src/document.hpp
@@ -113,7 +113,7 @@ struct DummyIndexZero {};
 
 struct FullPDFObject {
     std::string dictionary;
-    RawData stream;
+    std::optional<RawData> stream;
 };
 
 struct DeflatePDFObject {
diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index 7809a73..d89ead9 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -348,7 +348,11 @@ rvoe<std::vector<ObjectOffset>> PdfWriter::write_objects() {
         },
 
         [&](const FullPDFObject &pobj) -> rvoe<NoReturnValue> {
-            ERCV(write_finished_object(i, pobj.dictionary, pobj.stream.span()));
+            if(pobj.stream) {
+                ERCV(write_finished_object(i, pobj.dictionary, pobj.stream->span()));
+            } else {
+                ERCV(write_finished_object(i, pobj.dictionary, {}));
+            }
             RETOK;
         },
 
@@ -649,8 +653,8 @@ rvoe<NoReturnValue> PdfWriter::write_newstyle_trailer(int64_t xref_offset) {
 
 rvoe<NoReturnValue> PdfWriter::write_finished_object(int32_t object_number,
                                                      std::string_view dict_data,
-                                                     std::span<std::byte> stream_data) {
-    if(use_xref && stream_data.empty()) {
+                                                     std::optional<std::span<std::byte>> stream_data) {
+    if(use_xref && !stream_data) {
         return write_finished_object_to_objstm(dict_data);
     }
     std::string buf;
@@ -659,12 +663,12 @@ rvoe<NoReturnValue> PdfWriter::write_finished_object(int32_t object_number,
     auto appender = std::back_inserter(buf);
     std::format_to(appender, "{} 0 obj\n", object_number);
     buf += dict_data;
-    if(!stream_data.empty()) {
+    if(stream_data) {
         if(buf.back() != '\n') {
             buf += '\n';
         }
         buf += "stream\n";
-        buf += span2sv(stream_data);
+        buf += span2sv(*stream_data);
         // PDF spec says that there must always be a newline before "endstream".
         // It is not counted in the /Length key in the object dictionary.
         buf += "\nendstream\n";
diff --git a/src/pdfwriter.hpp b/src/pdfwriter.hpp
index 52a0f83..eee691c 100644
--- a/src/pdfwriter.hpp
+++ b/src/pdfwriter.hpp
@@ -41,7 +41,7 @@ private:
     rvoe<NoReturnValue> write_newstyle_trailer(int64_t xref_offset);
     rvoe<NoReturnValue> write_finished_object(int32_t object_number,
                                               std::string_view dict_data,
-                                              std::span<std::byte> stream_data);
+                                              std::optional<std::span<std::byte>> stream_data);
     rvoe<NoReturnValue> write_finished_object_to_objstm(std::string_view dict_data);
     rvoe<NoReturnValue> write_subset_font_data(int32_t object_num,
                                                const DelayedSubsetFontData &ssfont);
-- 
2.43.0


From dd50c54f67b5db8685a37719ef21aaad57fe7756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 068/115] fix: refuse mesh shading coordinates that are not
 numbers

---
 src/document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 201fe0d..ee1eae5 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -166,7 +166,7 @@ const std::array<const char *, 9> collection_view_subtype_names{
 const std::array<const char *, 4> collection_view_names = {"/D", "/T", "/H", "/C"};
 
 template<typename T> rvoe<NoReturnValue> append_floatvalue(std::string &buf, double v) {
-    if(v < 0 || v > 1.0) {
+    if(!(v >= 0 && v <= 1.0)) {
         RETERR(ColorOutOfRange);
     }
     T cval = (T)(std::numeric_limits<T>::max() * v);
-- 
2.43.0


From 7e66892e747b01e9ec3239de4494e2b0649a34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 069/115] fix: compute text widths with the metrics of the
 right font

---
 src/document.cpp  | 8 +++-----
 src/generator.cpp | 8 +++++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index ee1eae5..7eb84dc 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -2277,13 +2277,11 @@ rvoe<CapyPDF_SoftMaskId> PdfDocument::add_soft_mask(const SoftMask &sm) {
 
 std::optional<double>
 PdfDocument::glyph_advance(CapyPDF_FontId fid, double pointsize, uint32_t codepoint) const {
-    FT_Face face = fonts.at(fid.id).fontdata.face.get();
-    FT_Set_Char_Size(face, 0, (FT_F26Dot6)(pointsize * 64), 300, 300);
-    if(FT_Load_Char(face, codepoint, FT_LOAD_NO_HINTING | FT_LOAD_NO_BITMAP) != 0) {
+    FT_Face face = fonts.at(get(fid).font_index_tmp).fontdata.face.get();
+    if(FT_Load_Char(face, codepoint, FT_LOAD_NO_SCALE) != 0) {
         return {};
     }
-    const auto font_unit_advance = face->glyph->metrics.horiAdvance;
-    return (font_unit_advance / 64.0) / 300.0 * 72.0;
+    return face->glyph->metrics.horiAdvance * pointsize / face->units_per_EM;
 }
 
 rvoe<CapyPDF_FontId>
diff --git a/src/generator.cpp b/src/generator.cpp
index 638ff8d..9a51dff 100644
--- a/src/generator.cpp
+++ b/src/generator.cpp
@@ -183,7 +183,7 @@ PdfGen::utf8_text_width(const u8string &txt, CapyPDF_FontId fid, double pointsiz
             FT_Vector kerning;
             const auto index_left = FT_Get_Char_Index(face, previous_codepoint);
             const auto index_right = FT_Get_Char_Index(face, codepoint);
-            auto ec = FT_Get_Kerning(face, index_left, index_right, FT_KERNING_DEFAULT, &kerning);
+            auto ec = FT_Get_Kerning(face, index_left, index_right, FT_KERNING_UNSCALED, &kerning);
             if(ec != 0) {
                 print_freetype_error(ec);
                 RETERR(FreeTypeError);
@@ -191,11 +191,13 @@ PdfGen::utf8_text_width(const u8string &txt, CapyPDF_FontId fid, double pointsiz
             if(kerning.x != 0) {
                 // None of the fonts I tested had kerning that Freetype recognized,
                 // so don't know if this actually works.
-                w += int(kerning.x) / face->units_per_EM;
+                w += kerning.x * pointsize / face->units_per_EM;
             }
         }
         auto bob = glyph_advance(fid, pointsize, codepoint);
-        assert(bob);
+        if(!bob) {
+            RETERR(FreeTypeError);
+        }
         w += *bob;
         previous_codepoint = codepoint;
     }
-- 
2.43.0


From 2e88141f7edecb930f2cbf43db0f15c0cb1f1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 070/115] fix: release the axis data of fonts whose instance
 can not be set

---
 src/document.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 7eb84dc..fe62ac4 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -351,6 +351,7 @@ rvoe<NoReturnValue> initialize_multimaster(FT_Face face, const FontProperties &p
         error = FT_Get_Default_Named_Instance(face, &named_instance);
         if(error != 0) {
             print_freetype_error(error);
+            FT_Done_MM_Var(face->glyph->library, mmvar);
             RETERR(FreeTypeError);
         }
     }
@@ -358,6 +359,7 @@ rvoe<NoReturnValue> initialize_multimaster(FT_Face face, const FontProperties &p
     error = FT_Set_Named_Instance(face, named_instance);
     if(error != 0) {
         print_freetype_error(error);
+        FT_Done_MM_Var(face->glyph->library, mmvar);
         RETERR(FreeTypeError);
     }
 
-- 
2.43.0


From 70c2d6088925a683a1278788539423fa15cec5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 071/115] fix: set_output_intent of the C++ wrapper did not
 compile for strings

---
 include/capypdf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/capypdf.hpp b/include/capypdf.hpp
index f132d6b..e563a9b 100644
--- a/include/capypdf.hpp
+++ b/include/capypdf.hpp
@@ -272,7 +272,7 @@ public:
         CAPY_CPP_CHECK(capy_document_properties_set_output_intent(*this, identifier, strsize));
     }
     template<ByteSequence T> void set_output_intent(const T &buf) {
-        set_output_intent(buf.data, buf.size());
+        set_output_intent(buf.data(), buf.size());
     }
 
     void set_pdfx(CapyPDF_PDFX_Type xtype) {
-- 
2.43.0


From 89774dc35a7442cebc9829beefe01f961ffa15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 072/115] fix: report errors of add_separation in the C++
 wrapper

---
 include/capypdf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/capypdf.hpp b/include/capypdf.hpp
index e563a9b..8472176 100644
--- a/include/capypdf.hpp
+++ b/include/capypdf.hpp
@@ -1123,7 +1123,8 @@ public:
                                         CapyPDF_Device_Colorspace cs,
                                         CapyPDF_FunctionId fid) {
         CapyPDF_SeparationId id;
-        capy_generator_add_separation(*this, name, name_size, cs, fid, &id);
+        CAPY_CPP_CHECK(
+            capy_generator_add_separation(*this, name, name_size, cs, fid, &id));
         return id;
     }
 
-- 
2.43.0


From 953325e2234a9ba99ed7a999679d317a4c657167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 073/115] fix: accept edge flag 3 for Coons patches in the C++
 wrapper

---
 include/capypdf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/capypdf.hpp b/include/capypdf.hpp
index 8472176..07425be 100644
--- a/include/capypdf.hpp
+++ b/include/capypdf.hpp
@@ -642,11 +642,11 @@ public:
     }
     void
     extend(uint32_t flag, double *coords, uint32_t num_coords, Color *colors, uint32_t num_colors) {
-        if(flag != 1 and flag != 2) {
+        if(flag != 1 and flag != 2 and flag != 3) {
             CAPY_ERROR_HAPPENED("Bad flag value");
         }
         if(num_coords != 16) {
-            CAPY_ERROR_HAPPENED("Coords must have exactly 2 doubles");
+            CAPY_ERROR_HAPPENED("Coords must have exactly 16 doubles");
         }
         if(num_colors != 2) {
             CAPY_ERROR_HAPPENED("Shading extension must have exactly 2 colors");
-- 
2.43.0


From 52704964d8ad1113a275eaf50003566dbb04cc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 074/115] fix: Python enum values that were tuples by accident

---
 python/capypdf.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index faf7094..a509603 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -22,7 +22,7 @@ class LineAnnotationEndStyle(Enum):
     Circle = 1
     Diamond = 2
     OpenArrow = 3
-    ClosedArrow = 4,
+    ClosedArrow = 4
     NoEnding = 5 # Because "None" is a Python keyword
     Butt = 6
     ROpenAreow = 7
@@ -75,12 +75,12 @@ class TransitionType(Enum):
     Uncover = 10
     Fade = 11
 
-class TransitionDimension:
-    H = 0,
+class TransitionDimension(Enum):
+    H = 0
     V = 1
 
-class TransitionMotion:
-    I = 0,
+class TransitionMotion(Enum):
+    I = 0
     O = 1
 
 class PageBox(Enum):
@@ -178,8 +178,8 @@ class StructureType(Enum):
     Document = 0
     DocumentFragment = 1
 
-    Part = 2,
-    Sect = 3,
+    Part = 2
+    Sect = 3
     Div = 4
     Aside = 5
     Nonstruct = 6
-- 
2.43.0


From 4f6f04930e9f36c57146e3f8eae965ecfd22ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 075/115] fix: transition setters of the Python module

---
 python/capypdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index a509603..39dcddb 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1574,11 +1574,11 @@ class Transition:
     def set_D(self, d):
         check_error(libfile.capy_transition_set_D(self, d))
 
-    def set_Dn(self, dm):
-        check_error(libfile.capy_transition_set_Dm(self, Dm.value))
+    def set_Dm(self, dm):
+        check_error(libfile.capy_transition_set_Dm(self, dm.value))
 
     def set_M(self, m):
-        check_error(libfile.capy_transition_set_M(self, M.value))
+        check_error(libfile.capy_transition_set_M(self, m.value))
 
     def set_Di(self, Di):
         check_error(libfile.capy_transition_set_Di(self, Di))
@@ -1587,7 +1587,7 @@ class Transition:
         check_error(libfile.capy_transition_set_SS(self, ss))
 
     def set_B(self, B):
-        check_error(libfile.capy_transition_set_S(self, int(B)))
+        check_error(libfile.capy_transition_set_B(self, int(B)))
 
     def __del__(self):
         check_error(libfile.capy_transition_destroy(self))
-- 
2.43.0


From c594dab82aafa50b3d138692b47b6627d3f882e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 076/115] fix: set_page_mode of the Python module used an
 undefined name

---
 python/capypdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 39dcddb..0feaf6a 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -831,10 +831,10 @@ class DocumentProperties:
             raise CapyPDFException('Argument must be a PageLayout enum.')
         check_error(libfile.capy_document_properties_set_page_layout(self, layout.value))
 
-    def set_page_mode(self, model):
-        if not isinstance(layout, PageMode):
+    def set_page_mode(self, mode):
+        if not isinstance(mode, PageMode):
             raise CapyPDFException('Argument must be a PageMode enum.')
-        check_error(libfile.capy_document_properties_set_page_mode(self, model.value))
+        check_error(libfile.capy_document_properties_set_page_mode(self, mode.value))
 
     def set_metadata_xml(self, xmldata):
         xmlbytes = xmldata.encode('UTF-8')
-- 
2.43.0


From 4cebaf4bdb1cabb6f8f4367d0776cb8c43351cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 077/115] fix: set_interpolate of the Python module called a
 function that does not exist

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 0feaf6a..e200ba4 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2001,7 +2001,7 @@ class ImagePdfProperties:
     def set_interpolate(self, ival):
         if not isinstance(ival, ImageInterpolation):
             raise CapyPDFException('Argument must be image interpolation enum.')
-        check_error(libfile.capy_image_lpdf_properties_set_interpolate(self, ival.value))
+        check_error(libfile.capy_image_pdf_properties_set_interpolate(self, ival.value))
 
 
 class Destination:
-- 
2.43.0


From b24d997b71a2a1bfb41caa5b04f9bd6f2dfb7181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 078/115] fix: EmbeddedFile.set_contents of the Python module
 used an undefined name

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index e200ba4..7495ecd 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2086,7 +2086,7 @@ class EmbeddedFile:
     def set_contents(self, contents):
         if not isinstance(contents, bytes):
             raise CapyPDFException('Contents must be raw bytes.')
-        check_error(libfile.capy_embedded_file_set_contents(ctypes.pointer(o), contents, len(contents)))
+        check_error(libfile.capy_embedded_file_set_contents(self, contents, len(contents)))
 
     def set_subtype(self, subtype):
         sbytes = subtype.encode('UTF-8')
-- 
2.43.0


From b0f36d2c35d4cc7df64bc98ff343f5a34d324208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 079/115] fix: FormField.set_parent of the Python module passes
 the id

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 7495ecd..ecd76b0 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2161,7 +2161,7 @@ class FormField:
     def set_parent(self, parent_field):
         if not isinstance(parent_field, FormFieldId):
             raise CapyPDFException('Argument must be a FormFieldId.')
-        check_error(libfile.capy_form_field_set_parent(self, parent_field.value))
+        check_error(libfile.capy_form_field_set_parent(self, parent_field))
 
     def set_Ff(self, Ff):
         if not isinstance(Ff, FormFieldFlags):
-- 
2.43.0


From e37526126d19d35b8876d6855f8bd30cf05307bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 080/115] fix: Collection.set_D of the Python module used an
 undefined name

---
 python/capypdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index ecd76b0..acb4a27 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2194,11 +2194,11 @@ class Collection:
         check_error(libfile.capy_collection_destroy(self))
 
     def set_D(self, text):
-        if isinstance(V, bytes):
-            vbytes = V
+        if isinstance(text, bytes):
+            dbytes = text
         else:
-            vbytes = V.encode('UTF-8')
-        check_error(libfile.capy_collection_set_D(self, vbytes, len(vbytes)))
+            dbytes = text.encode('UTF-8')
+        check_error(libfile.capy_collection_set_D(self, dbytes, len(dbytes)))
 
     def set_view(self, view):
         if not isinstance(view, CollectionView):
-- 
2.43.0


From 42d64f93b56013ea9d72d62b9e02a89a7b882871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 081/115] fix: Halftone.set_default of the Python module takes
 no argument

---
 python/capypdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index acb4a27..348fff2 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -2126,8 +2126,8 @@ class Halftone:
         check_error(libfile.capy_halftone_new(ctypes.pointer(o)))
         self._as_parameter_ = o
 
-    def set_default(self, subfont):
-        check_error(libfile.capy_halftone_set_default(self, subfont))
+    def set_default(self):
+        check_error(libfile.capy_halftone_set_default(self))
 
     def set_type1(self, frequency, angle, spotfunction):
         if not isinstance(spotfunction, HalftoneSpotFunction):
-- 
2.43.0


From 1d0c679fcb0229cbb3450548027b736affe82fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 082/115] fix: accept all names of optional content groups in
 the Python module

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 348fff2..c3a699f 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1708,7 +1708,7 @@ class GraphicsState:
 class OptionalContentGroup:
     def __init__(self, name):
         self._as_parameter_ = None
-        in_bytes = name.encode('ASCII')
+        in_bytes = name.encode('UTF-8')
         opt = ctypes.c_void_p()
         check_error(libfile.capy_optional_content_group_new(ctypes.pointer(opt), in_bytes))
         self._as_parameter_ = opt
-- 
2.43.0


From 38363c705b41ae6bc50ca2b5d1874b258dd7965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 083/115] fix: allow text objects in all drawing contexts in
 the Python module

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index c3a699f..b98658d 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1448,7 +1448,7 @@ class TextSequence:
 
 class Text:
     def __init__(self, dc):
-        if not isinstance(dc, DrawContext):
+        if not isinstance(dc, DrawContextBase):
             raise CapyPDFException('Argument must be a DrawingContext (preferably use its .text_new() method instead).')
         self._as_parameter_ = None
         opt = ctypes.c_void_p()
-- 
2.43.0


From 829b5d8c21e7d414e1d29eecc55da38d9216af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 084/115] fix: do not destroy objects whose constructor failed
 in the Python module

---
 python/capypdf.py | 96 +++++++++++++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 33 deletions(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index b98658d..044d245 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -775,7 +775,8 @@ class DocumentProperties:
         self._as_parameter_ = prop
 
     def __del__(self):
-        check_error(libfile.capy_document_properties_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_document_properties_destroy(self))
 
     def set_colorspace(self, cs):
         if not isinstance(cs, DeviceColorspace):
@@ -848,7 +849,8 @@ class PageProperties:
         self._as_parameter_ = opt
 
     def __del__(self):
-        check_error(libfile.capy_page_properties_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_page_properties_destroy(self))
 
     def set_pagebox(self, boxtype, x1, y1, x2, y2):
         check_error(libfile.capy_page_properties_set_pagebox(self, boxtype.value, x1, y1, x2, y2))
@@ -865,7 +867,8 @@ class DrawContextBase:
         self.generator = generator
 
     def __del__(self):
-        check_error(libfile.capy_dc_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_dc_destroy(self))
 
     def cmd_b(self):
         check_error(libfile.capy_dc_cmd_b(self))
@@ -1126,7 +1129,8 @@ class TransparencyGroupProperties():
         self._as_parameter_ = cptr
 
     def __del__(self):
-        check_error(libfile.capy_transparency_group_properties_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_transparency_group_properties_destroy(self))
 
     def set_CS(self, cspace):
         check_error(libfile.capy_transparency_group_properties_set_CS(self, cspace.value))
@@ -1184,7 +1188,7 @@ class Generator:
         self._as_parameter_ = gptr
 
     def __del__(self):
-        if self._as_parameter_ is not None:
+        if getattr(self, '_as_parameter_', None) is not None:
             check_error(libfile.capy_generator_destroy(self))
 
     def __enter__(self):
@@ -1405,7 +1409,8 @@ class SoftMask:
         self._as_parameter_ = gptr
 
     def __del__(self):
-        check_error(libfile.capy_soft_mask_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_soft_mask_destroy(self))
 
 
 class TextSequence:
@@ -1415,7 +1420,8 @@ class TextSequence:
         self._as_parameter_ = opt
 
     def __del__(self):
-        check_error(libfile.capy_text_sequence_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_text_sequence_destroy(self))
 
     def append_codepoint(self, codepoint):
         if not isinstance(codepoint, int):
@@ -1466,7 +1472,7 @@ class Text:
             self.dc = None # Not very elegant.
 
     def __del__(self):
-        if self._as_parameter_ is not None:
+        if getattr(self, '_as_parameter_', None) is not None:
             check_error(libfile.capy_text_destroy(self))
 
     def cmd_Tj(self, text):
@@ -1531,7 +1537,7 @@ class Color:
         self._as_parameter_ = opt
 
     def __del__(self):
-        if self._as_parameter_ is not None:
+        if getattr(self, '_as_parameter_', None) is not None:
             check_error(libfile.capy_color_destroy(self))
 
     def get_underlying(self):
@@ -1590,7 +1596,8 @@ class Transition:
         check_error(libfile.capy_transition_set_B(self, int(B)))
 
     def __del__(self):
-        check_error(libfile.capy_transition_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_transition_destroy(self))
 
 
 class RasterImage:
@@ -1604,7 +1611,8 @@ class RasterImage:
             self._as_parameter_ = cptr
 
     def __del__(self):
-        check_error(libfile.capy_raster_image_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_raster_image_destroy(self))
 
     def get_size(self):
         w = ctypes.c_uint32()
@@ -1634,7 +1642,8 @@ class RasterImageBuilder:
             self._as_parameter_ = cptr
 
     def __del__(self):
-        check_error(libfile.capy_raster_image_builder_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_raster_image_builder_destroy(self))
 
     def set_size(self, w, h):
         check_error(libfile.capy_raster_image_builder_set_size(self, w, h))
@@ -1663,7 +1672,8 @@ class GraphicsState:
         self._as_parameter_ = opt
 
     def __del__(self):
-        check_error(libfile.capy_graphics_state_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_graphics_state_destroy(self))
 
     def set_CA(self, value):
         check_error(libfile.capy_graphics_state_set_CA(self, value))
@@ -1714,7 +1724,8 @@ class OptionalContentGroup:
         self._as_parameter_ = opt
 
     def __del__(self):
-        check_error(libfile.capy_optional_content_group_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_optional_content_group_destroy(self))
 
 
 class Type2Function:
@@ -1725,7 +1736,8 @@ class Type2Function:
         self._as_parameter_ = t2f
 
     def __del__(self):
-        check_error(libfile.capy_function_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_function_destroy(self))
 
 
 class Type3Function:
@@ -1741,7 +1753,8 @@ class Type3Function:
         self._as_parameter_ = t3f
 
     def __del__(self):
-        check_error(libfile.capy_function_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_function_destroy(self))
 
 
 class Type4Function:
@@ -1758,7 +1771,8 @@ class Type4Function:
         self._as_parameter_ = t4f
 
     def __del__(self):
-        check_error(libfile.capy_function_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_function_destroy(self))
 
 
 class Type2Shading:
@@ -1777,7 +1791,8 @@ class Type2Shading:
         check_error(libfile.capy_shading_set_domain(self, starting, ending))
 
     def __del__(self):
-        check_error(libfile.capy_shading_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_shading_destroy(self))
 
 
 class Type3Shading:
@@ -1798,7 +1813,8 @@ class Type3Shading:
         check_error(libfile.capy_shading_set_domain(self, starting, ending))
 
     def __del__(self):
-        check_error(libfile.capy_shading_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_shading_destroy(self))
 
 
 class Type4Shading:
@@ -1809,7 +1825,8 @@ class Type4Shading:
         self._as_parameter_ = t4s
 
     def __del__(self):
-        check_error(libfile.capy_shading_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_shading_destroy(self))
 
     def add_triangle(self, coords, colors):
         if len(coords) != 6:
@@ -1843,7 +1860,8 @@ class Type6Shading:
         self._as_parameter_ = t6s
 
     def __del__(self):
-        check_error(libfile.capy_shading_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_shading_destroy(self))
 
     def add_patch(self, coords, colors):
         if len(coords) != 24:
@@ -1875,7 +1893,8 @@ class Annotation:
         self._as_parameter_ = handle
 
     def __del__(self):
-        check_error(libfile.capy_annotation_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_annotation_destroy(self))
 
     def set_rectangle(self, x1, y1, x2, y2):
         check_error(libfile.capy_annotation_set_rectangle(self, x1, y1, x2, y2))
@@ -1966,7 +1985,8 @@ class StructItemExtraData:
         self._as_parameter_ = ed
 
     def __del__(self):
-        check_error(libfile.capy_struct_item_extra_data_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_struct_item_extra_data_destroy(self))
 
     def set_t(self, T):
         chars = T.encode('UTF-8')
@@ -1992,7 +2012,8 @@ class ImagePdfProperties:
         self._as_parameter_ = ed
 
     def __del__(self):
-        check_error(libfile.capy_image_pdf_properties_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_image_pdf_properties_destroy(self))
 
     def set_mask(self, boolval):
         intval = 1 if boolval else 0
@@ -2011,7 +2032,8 @@ class Destination:
         self._as_parameter_ = d
 
     def __del__(self):
-        check_error(libfile.capy_destination_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_destination_destroy(self))
 
     def set_page_fit(self, page_num):
         check_error(libfile.capy_destination_set_page_fit(self, page_num))
@@ -2037,7 +2059,8 @@ class Outline:
         self._as_parameter_ = o
 
     def __del__(self):
-        check_error(libfile.capy_outline_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_outline_destroy(self))
 
     def set_title(self, title):
         ctitle = title.encode('UTF-8')
@@ -2070,7 +2093,8 @@ class ShadingPattern:
         check_error(libfile.capy_shading_pattern_set_matrix(self, a, b, c, d, e, f))
 
     def __del__(self):
-        check_error(libfile.capy_shading_pattern_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_shading_pattern_destroy(self))
 
 
 class EmbeddedFile:
@@ -2097,7 +2121,8 @@ class EmbeddedFile:
         check_error(libfile.capy_embedded_file_set_pdf_name(self, pbytes, len(pbytes)))
 
     def __del__(self):
-        check_error(libfile.capy_embedded_file_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_embedded_file_destroy(self))
 
 
 class FontProperties:
@@ -2117,7 +2142,8 @@ class FontProperties:
         check_error(libfile.capy_font_properties_set_variation(self, axisbytes, len(axisbytes), value))
 
     def __del__(self):
-        check_error(libfile.capy_font_properties_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_font_properties_destroy(self))
 
 
 class Halftone:
@@ -2135,7 +2161,8 @@ class Halftone:
         check_error(libfile.capy_halftone_set_type1(self, frequency, angle, spotfunction.value))
 
     def __del__(self):
-        check_error(libfile.capy_halftone_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_halftone_destroy(self))
 
 
 class ThreeDStream:
@@ -2146,7 +2173,8 @@ class ThreeDStream:
         self._as_parameter_ = o
 
     def __del__(self):
-        check_error(libfile.capy_3d_stream_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_3d_stream_destroy(self))
 
 
 class FormField:
@@ -2156,7 +2184,8 @@ class FormField:
         self._as_parameter_ = o
 
     def __del__(self):
-        check_error(libfile.capy_form_field_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_form_field_destroy(self))
 
     def set_parent(self, parent_field):
         if not isinstance(parent_field, FormFieldId):
@@ -2191,7 +2220,8 @@ class Collection:
         self._as_parameter_ = o
 
     def __del__(self):
-        check_error(libfile.capy_collection_destroy(self))
+        if getattr(self, '_as_parameter_', None) is not None:
+            check_error(libfile.capy_collection_destroy(self))
 
     def set_D(self, text):
         if isinstance(text, bytes):
-- 
2.43.0


From 154534994b08467e170649d7fce010219cdb356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 085/115] fix: step over empty INDEX structures in CFF fonts

---
 src/cffsubsetter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 5344fb9..da730e9 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -91,10 +91,10 @@ rvoe<CFFIndex> load_index(std::span<std::byte> dataspan, size_t &offset) {
     CFFIndex index;
     ERC(cnt, extract<uint16_t>(dataspan, offset));
     const uint32_t count = std::byteswap(cnt);
+    offset += sizeof(uint16_t);
     if(count == 0) {
         return index;
     }
-    offset += sizeof(uint16_t);
     ERC(offSize, extract<uint8_t>(dataspan, offset));
     ++offset;
     std::vector<size_t> offsets;
-- 
2.43.0


From dd5be0d11eebb62dbdd6c0b8c6312c43a43e8243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 086/115] fix: read FDSelect structures of format 0 in CFF
 fonts

---
 src/cffsubsetter.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index da730e9..73dd4bc 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -263,11 +263,12 @@ rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan
     size_t offset = 0;
     const uint8_t format = (uint8_t)dataspan[offset++];
     if(format == 0) {
-        std::vector<std::byte> selector_array{dataspan.begin() + offset,
-                                              dataspan.begin() + offset + num_glyphs};
-        // FIXME. OR maybe not. This seems to be used in generated
-        // subset fonts only.
-        return ranges;
+        for(uint32_t i = 0; i < num_glyphs; ++i) {
+            ERC(fd, extract<uint8_t>(dataspan, offset + i));
+            if(ranges.empty() || ranges.back().fd != fd) {
+                ranges.emplace_back((uint16_t)i, fd);
+            }
+        }
     } else if(format == 3) {
         ERC(nRg, extract_and_swap<uint16_t>(dataspan, offset));
         const uint32_t nRanges = nRg;
-- 
2.43.0


From 0f19900b8ba606825bb846d52c305d650f77936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 087/115] fix: keep local subroutines of CFF fonts wherever the
 Private DICT mentions them

---
 src/cffsubsetter.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 73dd4bc..1138836 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -142,15 +142,19 @@ rvoe<CFFIndex> load_index(std::span<std::byte> dataspan, size_t &offset) {
 rvoe<CFFPrivateDict>
 build_pdict_from_dict(std::span<std::byte> dataspan, size_t priv_dict_offset, CFFDict raw_pdict) {
     CFFPrivateDict priv(std::move(raw_pdict), {});
-    if(priv.entries.entries.size() > 0) {
-        // This seems to always be last.
-        const auto &subrs = priv.entries.entries.back();
-        if(subrs.opr == DictOperator::Subrs) {
-            size_t local_subrs_offset = priv_dict_offset + subrs.operand.front();
-            ERC(rsdata, load_index(dataspan, local_subrs_offset));
-            priv.subr = std::move(rsdata);
-            priv.entries.entries.pop_back();
+    auto &items = priv.entries.entries;
+    for(size_t i = 0; i < items.size(); ++i) {
+        if(items[i].opr != DictOperator::Subrs) {
+            continue;
+        }
+        if(items[i].operand.empty()) {
+            RETERR(MalformedFontFile);
         }
+        size_t local_subrs_offset = priv_dict_offset + items[i].operand.front();
+        ERC(rsdata, load_index(dataspan, local_subrs_offset));
+        priv.subr = std::move(rsdata);
+        items.erase(items.begin() + i);
+        break;
     }
     return priv;
 }
-- 
2.43.0


From 1d93bcf6315fb1287aa6e1d8964ca528e087380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 088/115] fix: preserve real and negative numbers of CFF
 dictionaries

---
 src/cffsubsetter.cpp | 27 +++++++++++++++++++++++----
 src/cffsubsetter.hpp |  6 +++++-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index 1138836..cbfe4c4 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -162,6 +162,7 @@ build_pdict_from_dict(std::span<std::byte> dataspan, size_t priv_dict_offset, CF
 rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
     CFFDict dict;
     size_t offset = 0;
+    size_t operands_start = 0;
     std::vector<int32_t> operands;
     // span.at() is not available yet. Change back to span once it is.
     auto dataspan = span2sv(dataspan_orig);
@@ -170,13 +171,17 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
         const int32_t b0 = (uint8_t)dataspan.at(offset++);
         if(b0 <= 21) {
             // Is an operator.
+            std::vector<std::byte> raw{dataspan_orig.begin() + operands_start,
+                                       dataspan_orig.begin() + offset - 1};
             int32_t unpacked_operator = b0;
             if(b0 == 0xc) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 unpacked_operator = b0 << 8 | b1;
             }
-            dict.entries.emplace_back(std::move(operands), (DictOperator)unpacked_operator);
+            dict.entries.emplace_back(
+                std::move(operands), (DictOperator)unpacked_operator, std::move(raw));
             operands.clear();
+            operands_start = offset;
         } else if((b0 >= 28 && b0 <= 30) || (b0 >= 32 && b0 <= 254)) {
             // Is an operand.
             int32_t unpacked_operand;
@@ -191,7 +196,7 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
             } else if(b0 == 28) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 const int32_t b2 = (uint8_t)dataspan.at(offset++);
-                unpacked_operand = b1 << 8 | b2;
+                unpacked_operand = int16_t(b1 << 8 | b2);
             } else if(b0 == 29) {
                 const int32_t b1 = (uint8_t)dataspan.at(offset++);
                 const int32_t b2 = (uint8_t)dataspan.at(offset++);
@@ -204,7 +209,7 @@ rvoe<CFFDict> unpack_dictionary(std::span<std::byte> dataspan_orig) {
                 do {
                     b1 = (uint8_t)dataspan.at(offset++);
                 } while((b1 & 0xf) != 0xf);
-                unpacked_operand = -1; // FIXME
+                unpacked_operand = -1; // Only the serialized form is used for these.
             } else {
                 std::abort();
             }
@@ -589,6 +594,20 @@ void CFFDictWriter::append_command(const std::vector<int32_t> &operands, DictOpe
         o.output.push_back(std::byte{29});
         swap_and_append_bytes(o.output, opr);
     }
+    append_operator(op);
+}
+
+void CFFDictWriter::append_command(const CFFDictItem &e) {
+    if(e.raw_operands.empty()) {
+        append_command(e.operand, e.opr);
+        return;
+    }
+    o.offsets.push_back(o.output.size());
+    append_bytes(o.output, e.raw_operands);
+    append_operator(e.opr);
+}
+
+void CFFDictWriter::append_operator(DictOperator op) {
     if((uint16_t)op > 0xFF) {
         o.output.push_back(std::byte{0xc});
     }
@@ -821,7 +840,7 @@ rvoe<NoReturnValue> CFFWriter::copy_dict_item(CFFDictWriter &w, DictOperator op)
 void CFFWriter::copy_dict_item_if_exists(CFFDictWriter &w, DictOperator op) {
     auto *e = find_command(source, op);
     if(e) {
-        w.append_command(e->operand, e->opr);
+        w.append_command(*e);
     }
 }
 
diff --git a/src/cffsubsetter.hpp b/src/cffsubsetter.hpp
index c5aadbc..3593115 100644
--- a/src/cffsubsetter.hpp
+++ b/src/cffsubsetter.hpp
@@ -92,6 +92,8 @@ struct CFFIndex {
 struct CFFDictItem {
     std::vector<int32_t> operand;
     DictOperator opr; // "operator" is a reserved word
+    // The operands as they are in the source font. Empty for new items.
+    std::vector<std::byte> raw_operands;
 };
 
 struct CFFDict {
@@ -187,13 +189,15 @@ struct Fixups {
 class CFFDictWriter {
 public:
     void append_command(const std::vector<int32_t> &operands, DictOperator op);
-    void append_command(const CFFDictItem &e) { append_command(e.operand, e.opr); };
+    void append_command(const CFFDictItem &e);
 
     DictOutput steal() { return std::move(o); }
 
     size_t current_size() const { return o.output.size(); }
 
 private:
+    void append_operator(DictOperator op);
+
     DictOutput o;
 };
 
-- 
2.43.0


From d99909d6f557ca94b5f79fc708e5b81fc7b0a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 089/115] fix: write correct offsets in CFF subsets of fonts
 that lack optional Top DICT items

---
 src/cffsubsetter.cpp | 16 +++++++++-------
 src/ft_subsetter.cpp |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index cbfe4c4..fcdb3f6 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -624,7 +624,7 @@ rvoe<NoReturnValue> CFFWriter::create() {
     output.assign((std::byte *)header, (std::byte *)header + 4);
     append_index(source.name);
 
-    create_topdict();
+    ERCV(create_topdict());
     append_index(source.string);
     append_index(source.global_subr);
     fixups.charsets.value = output.size();
@@ -781,8 +781,8 @@ rvoe<NoReturnValue> CFFWriter::create_topdict() {
     copy_dict_item_if_exists(topdict, DictOperator::Weight);
     copy_dict_item_if_exists(topdict, DictOperator::FontBBox);
     if(source.is_cid) {
-        ERCV(copy_dict_item(topdict, DictOperator::CIDFontVersion));
-        ERCV(copy_dict_item(topdict, DictOperator::CIDCount));
+        copy_dict_item_if_exists(topdict, DictOperator::CIDFontVersion);
+        copy_dict_item_if_exists(topdict, DictOperator::CIDCount);
         ERCV(copy_dict_item(topdict, DictOperator::FDArray));  // offset needs to be fixed in post.
         ERCV(copy_dict_item(topdict, DictOperator::FDSelect)); // offset needs to be fixed in post.
     } else {
@@ -806,10 +806,12 @@ rvoe<NoReturnValue> CFFWriter::create_topdict() {
     auto offsets = append_index(wrapper);
     assert(offsets.size() == 1);
     const auto dict_start = offsets.front();
-    fixups.fdarray.offset = serialization.offsets.at(8) + 1 + dict_start;
-    fixups.fdselect.offset = serialization.offsets.at(9) + 1 + dict_start;
-    fixups.charsets.offset = serialization.offsets.at(10) + 1 + dict_start;
-    fixups.charstrings.offset = serialization.offsets.at(11) + 1 + dict_start;
+    // These are always the last four items.
+    const auto first_fixup = serialization.offsets.size() - 4;
+    fixups.fdarray.offset = serialization.offsets.at(first_fixup) + 1 + dict_start;
+    fixups.fdselect.offset = serialization.offsets.at(first_fixup + 1) + 1 + dict_start;
+    fixups.charsets.offset = serialization.offsets.at(first_fixup + 2) + 1 + dict_start;
+    fixups.charstrings.offset = serialization.offsets.at(first_fixup + 3) + 1 + dict_start;
 
     /*
     uint32_t sanity_check_be;
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 466be62..00be3db 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1034,7 +1034,7 @@ rvoe<std::vector<std::byte>> generate_cff_font(const TrueTypeFontFile &source,
         }
     }
     CFFWriter w(source_data, converted);
-    w.create();
+    ERCV(w.create());
     return w.steal();
 }
 
-- 
2.43.0


From 048c8fc97a6b9ed0018a732b9e0eb22451b9c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 090/115] fix: collect the parts of a composite .notdef glyph

---
 src/fontsubsetter.cpp | 11 ++++++++++-
 src/ft_subsetter.cpp  |  3 +--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index a09091d..13b3759 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -51,7 +51,16 @@ rvoe<FontSubsetter>
 FontSubsetter::construct(const char *&fontfile, FT_Face face, const FontProperties &props) {
     ERC(font, load_and_parse_font_file(fontfile, props));
     if(auto *ttffile = std::get_if<TrueTypeFontFile>(&font)) {
-        return FontSubsetter(std::move(*ttffile), face, create_startstate(), props);
+        auto start_state = create_startstate();
+        if(!ttffile->in_cff_format()) {
+            // Glyph zero is always in the subset, so its parts must be too.
+            ERC(subglyphs, get_all_subglyphs(0, *ttffile));
+            for(const auto &new_glyph : subglyphs) {
+                start_state.glyphs.push_back(CompositeGlyph{new_glyph});
+                start_state.font_index_mapping[new_glyph] = (uint32_t)start_state.glyphs.size() - 1;
+            }
+        }
+        return FontSubsetter(std::move(*ttffile), face, std::move(start_state), props);
     } else {
         fprintf(stderr, "Only basic Truetype fonts supported currently.\n");
         RETERR(UnsupportedFormat);
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 00be3db..81964be 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1131,8 +1131,7 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
         composite_offset += composite_argument_size(component_flag);
         auto it = mapping.find(glyph_index);
         if(it == mapping.end()) {
-            fprintf(stderr, "FAILfailFAIL\n");
-            std::abort();
+            RETERR(MalformedFontFile);
         }
         glyph_index = it->second;
         byte_swap_inplace(glyph_index);
-- 
2.43.0


From 2652d92f85046fd790f26296dffa765c09172160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 091/115] fix: walk composite glyphs without recursion and
 check their indexes

---
 src/fontsubsetter.cpp | 26 +++++++++++++++++---------
 src/ft_subsetter.cpp  |  6 ++++++
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 13b3759..120a757 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -24,15 +24,23 @@ FontSubsetData create_startstate() {
 rvoe<NoReturnValue> add_subglyphs(std::unordered_set<uint32_t> &new_subglyphs,
                                   uint32_t glyph_id,
                                   const TrueTypeFontFile &ttfile) {
-    const auto &cur_glyph = ttfile.glyphs.at(glyph_id);
-    ERC(iscomp, is_composite_glyph(cur_glyph));
-    if(!iscomp) {
-        RETOK;
-    }
-    ERC(subglyphs, composite_subglyphs(cur_glyph));
-    for(const auto &g : subglyphs) {
-        if(new_subglyphs.insert(g).second) {
-            ERCV(add_subglyphs(new_subglyphs, g, ttfile));
+    std::vector<uint32_t> pending{glyph_id};
+    while(!pending.empty()) {
+        const auto cur_id = pending.back();
+        pending.pop_back();
+        if(cur_id >= ttfile.glyphs.size()) {
+            RETERR(MalformedFontFile);
+        }
+        const auto &cur_glyph = ttfile.glyphs[cur_id];
+        ERC(iscomp, is_composite_glyph(cur_glyph));
+        if(!iscomp) {
+            continue;
+        }
+        ERC(subglyphs, composite_subglyphs(cur_glyph));
+        for(const auto &g : subglyphs) {
+            if(new_subglyphs.insert(g).second) {
+                pending.push_back(g);
+            }
         }
     }
     RETOK;
diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 81964be..8b629b3 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1092,6 +1092,9 @@ rvoe<bool> is_composite_glyph(const std::vector<std::byte> &buf) {
 rvoe<std::vector<uint32_t>> composite_subglyphs(std::span<const std::byte> buf) {
     std::vector<uint32_t> subglyphs;
     assert(num_contours(buf).value() < 0);
+    if(buf.size() < sizeof(TTGlyphHeader)) {
+        RETERR(MalformedFontFile);
+    }
     auto composite_data = std::span<const std::byte>(buf).subspan(5 * sizeof(int16_t));
     int64_t composite_offset = 0;
     const uint16_t MORE_COMPONENTS = 0x20;
@@ -1114,6 +1117,9 @@ rvoe<NoReturnValue>
 reassign_composite_glyph_numbers(std::span<std::byte> buf,
                                  const std::unordered_map<uint32_t, uint32_t> &mapping) {
     const int64_t header_size = 5 * sizeof(int16_t);
+    if(buf.size() < (size_t)header_size) {
+        RETERR(MalformedFontFile);
+    }
 
     auto composite_data = buf.subspan(header_size);
     int64_t composite_offset = 0;
-- 
2.43.0


From b6112d43a2ba03c351cecfb4385f6077e52135e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 092/115] fix: check the table directory of font files without
 overflow

---
 src/ft_subsetter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 8b629b3..2c9e8da 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -871,6 +871,9 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
     TrueTypeFontFile tf;
     tf.original_data = std::move(backing);
     ERC(original_data, span_of_source(tf.original_data));
+    if(header_offset > original_data.size()) {
+        RETERR(IndexOutOfBounds);
+    }
     auto header_span = original_data.subspan(header_offset);
     if(header_span.size() < sizeof(TTOffsetTable)) {
         RETERR(MalformedFontFile);
@@ -881,7 +884,7 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
     for(int i = 0; i < off.num_tables; ++i) {
         ERC(e, extract<TTDirEntry>(header_span, sizeof(off) + i * sizeof(TTDirEntry)));
         e.swap_endian();
-        if(e.offset + e.length > original_data.size()) {
+        if((uint64_t)e.offset + e.length > original_data.size()) {
             RETERR(IndexOutOfBounds);
         }
 #ifndef CAPYFUZZING
-- 
2.43.0


From c18d6d1fdcc8ee06aba9196adaacd995fd79540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 093/115] fix: read only the used offset of font collection
 files

---
 src/ft_subsetter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 2c9e8da..d67fcec 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -953,13 +953,13 @@ rvoe<TrueTypeFontFile> parse_ttc_file(DataSource backing, const FontProperties &
     ERC(original_data, span_of_source(backing));
     ERC(header, extract<TTCHeader>(original_data, 0));
     header.swap_endian();
-    std::vector<uint32_t> offsets;
-    offsets.reserve(header.num_fonts);
-    for(uint32_t i = 0; i < header.num_fonts; ++i) {
-        ERC(off, extract<uint32_t>(original_data, sizeof(TTCHeader) + i * sizeof(uint32_t)));
-        offsets.push_back(std::byteswap(off));
+    if(props.subfont < 0 || (uint32_t)props.subfont >= header.num_fonts) {
+        RETERR(IndexOutOfBounds);
     }
-    return parse_truetype_file(std::move(backing), offsets.at(props.subfont));
+    ERC(offset,
+        extract_and_swap<uint32_t>(original_data,
+                                   sizeof(TTCHeader) + props.subfont * sizeof(uint32_t)));
+    return parse_truetype_file(std::move(backing), offset);
 }
 
 rvoe<FontData> parse_font_file(DataSource backing, const FontProperties &props) {
-- 
2.43.0


From 05fdb27ed17779e39d2bb65b2d0a1d44876f322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 094/115] fix: refuse fonts with a bad magic number instead of
 aborting

---
 src/ft_subsetter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index d67fcec..0ec688d 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -424,9 +424,9 @@ rvoe<TTHead> load_head(const std::vector<TTDirEntry> &dir, std::span<const std::
     }
     ERC(head, extract<TTHead>(buf, e->offset));
     head.swap_endian();
-#ifndef CAPYFUZZING
-    assert(head.magic == 0x5f0f3cf5);
-#endif
+    if(head.magic != 0x5f0f3cf5) {
+        RETERR(MalformedFontFile);
+    }
     return head;
 }
 
-- 
2.43.0


From f9ad9297867cdf95286869ea64275371c413497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 095/115] fix: do not loop forever on fonts with 65535 glyphs

---
 src/ft_subsetter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 0ec688d..07a74a3 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -442,14 +442,14 @@ rvoe<std::vector<int32_t>> load_loca(const std::vector<TTDirEntry> &dir,
     std::vector<int32_t> offsets;
     offsets.reserve(num_glyphs);
     if(index_to_loc_format == 0) {
-        for(uint16_t i = 0; i <= num_glyphs; ++i) {
+        for(uint32_t i = 0; i <= num_glyphs; ++i) {
             uint16_t offset;
             ERCV(safe_memcpy(&offset, buf, loca->offset + i * sizeof(uint16_t)));
             byte_swap_inplace(offset);
             offsets.push_back(offset * 2);
         }
     } else if(index_to_loc_format == 1) {
-        for(uint16_t i = 0; i <= num_glyphs; ++i) {
+        for(uint32_t i = 0; i <= num_glyphs; ++i) {
             int32_t offset;
             ERCV(safe_memcpy(&offset, buf, loca->offset + i * sizeof(int32_t)));
             byte_swap_inplace(offset);
-- 
2.43.0


From 3faf389b1f2313320676d6cecfea11564b7ba2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 096/115] fix: refuse fonts that have no glyphs or no
 horizontal metrics

---
 src/ft_subsetter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 07a74a3..4df578e 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -493,7 +493,7 @@ rvoe<TTHmtx> load_hmtx(const std::vector<TTDirEntry> &dir,
     if(!e) {
         RETERR(MalformedFontFile);
     }
-    if(num_hmetrics > num_glyphs) {
+    if(num_hmetrics == 0 || num_hmetrics > num_glyphs) {
         RETERR(MalformedFontFile);
     }
     TTHmtx hmtx;
@@ -919,6 +919,9 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
         ERC(cffg, load_CFF_glyphs(cff->offset, original_data, tf.maxp.num_glyphs()))
         tf.cff = std::move(cffg);
     }
+    if(!glyf && !cff) {
+        RETERR(UnsupportedFormat);
+    }
     ERC(cvt, load_raw_table(directory, original_data, "cvt "));
     tf.cvt = cvt;
     ERC(fpgm, load_raw_table(directory, original_data, "fpgm"));
-- 
2.43.0


From 621e95e2d0d44da4c577b2e4d1b0ed577daab51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 097/115] fix: refuse CFF fonts whose glyph count differs from
 the maxp table

---
 src/ft_subsetter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 4df578e..aead81b 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -540,11 +540,11 @@ rvoe<std::vector<std::span<std::byte>>> load_GLYF_glyphs(uint32_t offset,
 
 rvoe<CFFont> load_CFF_glyphs(uint32_t offset, std::span<std::byte> buf, uint16_t num_glyphs) {
     auto cff_span = buf.subspan(offset);
-    auto cff = parse_cff_data(cff_span);
-    if(cff.has_value()) {
-        assert(cff->char_strings.size() == num_glyphs);
+    ERC(cff, parse_cff_data(cff_span));
+    if(cff.char_strings.size() != num_glyphs) {
+        RETERR(MalformedFontFile);
     }
-    return cff;
+    return std::move(cff);
 }
 
 rvoe<std::vector<std::byte>> load_raw_table(const std::vector<TTDirEntry> &dir,
-- 
2.43.0


From e9122f55922a59935017431d87457c4a189fd63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 098/115] fix: accept fonts with empty hinting tables

---
 src/ft_subsetter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index aead81b..801c885 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -562,7 +562,7 @@ rvoe<std::vector<std::byte>> load_raw_table(const std::vector<TTDirEntry> &dir,
     if(end_offset > buf.size()) {
         RETERR(IndexOutOfBounds);
     }
-    if(end_offset <= e->offset) {
+    if(end_offset < e->offset) {
         RETERR(IndexOutOfBounds);
     }
     return std::vector<std::byte>(buf.data() + e->offset, buf.data() + end_offset);
-- 
2.43.0


From 10fd610057e49ca198403377610dd02c6c7052ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 099/115] fix: check the operands of CFF dictionaries

---
 src/cffsubsetter.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index fcdb3f6..b066456 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -492,8 +492,15 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
     ERC(cstring, load_index(dataspan, offset));
     f.char_strings = std::move(cstring);
 
+    if(f.char_strings.entries.empty()) {
+        RETERR(MalformedFontFile);
+    }
+
     auto *ence = find_command(f, DictOperator::Encoding);
     if(ence) {
+        if(ence->operand.empty()) {
+            RETERR(MalformedFontFile);
+        }
         f.predefined_encoding = ence->operand.front();
     }
     auto *cste = find_command(f, DictOperator::Charset);
@@ -511,12 +518,13 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
 
     auto *priv = find_command(f, DictOperator::Private);
     if(priv) {
-        if(priv->operand.empty()) {
+        if(priv->operand.size() != 2) {
             RETERR(MalformedFontFile);
         }
         auto dict_offset = priv->operand[1];
         auto dict_size = priv->operand[0];
-        ERC(raw_pdict, unpack_dictionary(dataspan.subspan(dict_offset, dict_size)));
+        ERC(dictspan, safe_subspan(dataspan, dict_offset, dict_size));
+        ERC(raw_pdict, unpack_dictionary(dictspan));
         ERC(processed_pdict, build_pdict_from_dict(dataspan, dict_offset, raw_pdict));
         f.pdict = std::move(processed_pdict);
     }
@@ -532,7 +540,7 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
         append_ros_strings(f);
     }
     if(f.is_cid) {
-        if(!fda || fda->operand.empty()) {
+        if(!fda || fda->operand.size() != 1) {
             RETERR(UnsupportedFormat);
         }
         offset = fda->operand[0];
@@ -541,7 +549,7 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
             ERC(fdentry, load_fdarray_entry(dataspan, dstr));
             f.fdarray.emplace_back(std::move(fdentry));
         }
-        if(!fds || fds->operand.empty()) {
+        if(!fds || fds->operand.size() != 1) {
             RETERR(UnsupportedFormat);
         }
         offset = fds->operand[0];
-- 
2.43.0


From 722768725405ad6d9ae6d309f2577aea0e80a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 100/115] fix: refuse CFF fonts whose glyphs have no font
 dictionary

---
 src/cffsubsetter.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index b066456..da686c7 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -270,6 +270,9 @@ rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan
                                                    uint32_t num_glyphs) {
     std::vector<CFFSelectRange3> ranges;
     size_t offset = 0;
+    if(dataspan.empty()) {
+        RETERR(MalformedFontFile);
+    }
     const uint8_t format = (uint8_t)dataspan[offset++];
     if(format == 0) {
         for(uint32_t i = 0; i < num_glyphs; ++i) {
@@ -293,6 +296,11 @@ rvoe<std::vector<CFFSelectRange3>> unpack_fdselect(std::span<std::byte> dataspan
         if(sentinel != num_glyphs) {
             RETERR(MalformedFontFile);
         }
+    } else {
+        RETERR(UnsupportedFormat);
+    }
+    if(ranges.empty() || ranges.front().first != 0) {
+        RETERR(MalformedFontFile);
     }
     return ranges;
 }
@@ -545,6 +553,10 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
         }
         offset = fda->operand[0];
         ERC(fdastr, load_index(dataspan, offset))
+        if(fdastr.size() > 256) {
+            // The selector has only eight bits.
+            RETERR(MalformedFontFile);
+        }
         for(const auto dstr : fdastr.entries) {
             ERC(fdentry, load_fdarray_entry(dataspan, dstr));
             f.fdarray.emplace_back(std::move(fdentry));
@@ -557,6 +569,11 @@ rvoe<CFFont> parse_cff_data(DataSource source) {
             RETERR(MalformedFontFile);
         }
         ERC(fdsstr, unpack_fdselect(dataspan.subspan(offset), f.char_strings.size()));
+        for(const auto &range : fdsstr) {
+            if(range.fd >= f.fdarray.size()) {
+                RETERR(MalformedFontFile);
+            }
+        }
         f.fdselect = std::move(fdsstr);
     }
     return f;
-- 
2.43.0


From 9d747992f59ce1554124f7085362c2440241c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 101/115] fix: name fonts that have no PostScript name

---
 src/pdfwriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdfwriter.cpp b/src/pdfwriter.cpp
index d89ead9..76c8348 100644
--- a/src/pdfwriter.cpp
+++ b/src/pdfwriter.cpp
@@ -58,7 +58,7 @@ std::string fontname2pdfname(std::string_view original) {
     return bytes2pdfstringliteral(out, false);
 }
 
-std::string subsetfontname2pdfname(std::string_view original, const int32_t subset_number) {
+std::string subsetfontname2pdfname(const char *original, const int32_t subset_number) {
     std::string out;
     const int bufsize = 10;
     char buf[bufsize];
@@ -67,7 +67,8 @@ std::string subsetfontname2pdfname(std::string_view original, const int32_t subs
         out += 'A' + (buf[i] - '0');
     }
     out += "+";
-    out += fontname2pdfname(original);
+    // Damaged fonts might not have a name.
+    out += fontname2pdfname(original ? original : "Unnamed");
     return out;
 }
 
-- 
2.43.0


From fe5957c29c354ef91af256ce140ac593ccbc8726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 102/115] fix: refuse fonts whose composite glyphs are nested
 without end

---
 src/ft_subsetter.cpp | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index 801c885..af5e0b2 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -538,6 +538,42 @@ rvoe<std::vector<std::span<std::byte>>> load_GLYF_glyphs(uint32_t offset,
     return glyph_data;
 }
 
+// FreeType loads the parts of composite glyphs recursively.
+rvoe<NoReturnValue> check_composite_nesting(const std::vector<std::span<std::byte>> &glyphs) {
+    const int max_depth = 100;
+    std::vector<bool> resolved(glyphs.size(), true);
+    std::vector<std::pair<uint32_t, std::vector<uint32_t>>> pending;
+    for(size_t i = 0; i < glyphs.size(); ++i) {
+        auto iscomp = is_composite_glyph(glyphs[i]);
+        if(iscomp && *iscomp) {
+            auto parts = composite_subglyphs(glyphs[i]);
+            if(parts) {
+                resolved[i] = false;
+                pending.emplace_back((uint32_t)i, std::move(*parts));
+            }
+        }
+    }
+    for(int depth = 0; depth < max_depth && !pending.empty(); ++depth) {
+        std::vector<uint32_t> current;
+        std::erase_if(pending, [&](const auto &p) {
+            for(const auto part : p.second) {
+                if(part < resolved.size() && !resolved[part]) {
+                    return false;
+                }
+            }
+            current.push_back(p.first);
+            return true;
+        });
+        for(const auto gid : current) {
+            resolved[gid] = true;
+        }
+    }
+    if(!pending.empty()) {
+        RETERR(MalformedFontFile);
+    }
+    RETOK;
+}
+
 rvoe<CFFont> load_CFF_glyphs(uint32_t offset, std::span<std::byte> buf, uint16_t num_glyphs) {
     auto cff_span = buf.subspan(offset);
     ERC(cff, parse_cff_data(cff_span));
@@ -912,6 +948,7 @@ rvoe<TrueTypeFontFile> parse_truetype_file(DataSource backing, uint64_t header_o
     auto *glyf = find_entry(directory, "glyf");
     if(glyf) {
         ERC(glyphs, load_GLYF_glyphs(glyf->offset, original_data, tf.maxp.num_glyphs(), loca))
+        ERCV(check_composite_nesting(glyphs));
         tf.glyphs = glyphs;
     }
     auto *cff = find_entry(directory, "CFF ");
-- 
2.43.0


From 1046d2a6be596069775b1974a2a990619b42bac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 103/115] fix: leave the drawing context intact when the glyphs
 of a text can not be subset

---
 src/drawcontext.cpp | 32 ++++++++++++++++++++++++++++++++
 src/drawcontext.hpp |  1 +
 2 files changed, 33 insertions(+)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 3dac1c0..6436f8a 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -873,6 +873,8 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
         RETERR(WrongDrawContext);
     }
     ERCV(validate_text_contents(textobj));
+    // This can fail, so it must be done before anything is written.
+    ERCV(subset_text_glyphs(textobj));
 
     CapyPDF_FontId current_font{-1};
     double current_pointsize{-1};
@@ -1046,6 +1048,36 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
     RETOK;
 }
 
+rvoe<NoReturnValue> PdfDrawContext::subset_text_glyphs(const PdfText &text) {
+    CapyPDF_FontId font{-1};
+    auto subset_string = [&](const u8string &str) -> rvoe<NoReturnValue> {
+        for(const auto codepoint : str) {
+            ERCV(doc->get_subset_glyph(font, codepoint, {}));
+        }
+        RETOK;
+    };
+    for(const auto &e : text.get_events()) {
+        if(const auto *Tf = std::get_if<Tf_arg>(&e)) {
+            font = Tf->font;
+        } else if(const auto *text_arg = std::get_if<Tj_arg>(&e)) {
+            ERCV(subset_string(text_arg->text));
+        } else if(const auto *TJ = std::get_if<TJ_arg>(&e)) {
+            for(const auto &te : TJ->elements) {
+                if(const auto *unicode = std::get_if<UnicodeCharacter>(&te)) {
+                    ERCV(doc->get_subset_glyph(font, unicode->codepoint, {}));
+                } else if(const auto *u8str = std::get_if<u8string>(&te)) {
+                    ERCV(subset_string(*u8str));
+                } else if(const auto *glyph = std::get_if<GlyphItem>(&te)) {
+                    ERCV(doc->get_subset_glyph(font, glyph->unicode_codepoint, glyph->glyph_id));
+                } else if(const auto *ligature = std::get_if<GlyphTextItem>(&te)) {
+                    ERCV(doc->get_subset_glyph(font, ligature->source_text, ligature->glyph_id));
+                }
+            }
+        }
+    }
+    RETOK;
+}
+
 rvoe<NoReturnValue> PdfDrawContext::validate_text_contents(const PdfText &text) {
     std::optional<CapyPDF_FontId> font;
     std::vector<CapyPDF_StructureItemId> new_structures;
diff --git a/src/drawcontext.hpp b/src/drawcontext.hpp
index 8450f2b..5c58abb 100644
--- a/src/drawcontext.hpp
+++ b/src/drawcontext.hpp
@@ -219,6 +219,7 @@ private:
     rvoe<int32_t> add_bcd_structure(CapyPDF_StructureItemId sid);
 
     rvoe<NoReturnValue> validate_text_contents(const PdfText &text);
+    rvoe<NoReturnValue> subset_text_glyphs(const PdfText &text);
 
     PdfDocument *doc;
     PdfColorConverter *cm;
-- 
2.43.0


From c8b3116a9b1890f2367bddaa1f52010d9d0f692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 104/115] fix: accept only colour profiles whose colour space
 PDF knows

---
 src/colorconverter.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/colorconverter.cpp b/src/colorconverter.cpp
index 1f69f40..7cd5feb 100644
--- a/src/colorconverter.cpp
+++ b/src/colorconverter.cpp
@@ -92,8 +92,7 @@ rvoe<PdfColorConverter> PdfColorConverter::construct(const ColorProfiles &d) {
             RETERR(InvalidICCProfile);
         }
         conv.rgb_profile.h = h;
-        auto num_channels = (int32_t)cmsChannelsOf(cmsGetColorSpace(h));
-        if(num_channels != 3) {
+        if(cmsGetColorSpace(h) != cmsSigRgbData) {
             RETERR(IncorrectColorChannelCount);
         }
     } else {
@@ -108,8 +107,7 @@ rvoe<PdfColorConverter> PdfColorConverter::construct(const ColorProfiles &d) {
             RETERR(InvalidICCProfile);
         }
         conv.gray_profile.h = h;
-        auto num_channels = (int32_t)cmsChannelsOf(cmsGetColorSpace(h));
-        if(num_channels != 1) {
+        if(cmsGetColorSpace(h) != cmsSigGrayData) {
             RETERR(IncorrectColorChannelCount);
         }
     } else {
@@ -126,8 +124,7 @@ rvoe<PdfColorConverter> PdfColorConverter::construct(const ColorProfiles &d) {
             RETERR(InvalidICCProfile);
         }
         conv.cmyk_profile.h = h;
-        auto num_channels = (int32_t)cmsChannelsOf(cmsGetColorSpace(h));
-        if(num_channels != 4) {
+        if(cmsGetColorSpace(h) != cmsSigCmykData) {
             RETERR(IncorrectColorChannelCount);
         }
     } else {
@@ -304,9 +301,19 @@ rvoe<int> PdfColorConverter::get_num_channels(std::span<std::byte> icc_data) con
     if(!h) {
         RETERR(InvalidICCProfile);
     }
-    auto num_channels = (int32_t)cmsChannelsOf(cmsGetColorSpace(h));
+    const auto colorspace = cmsGetColorSpace(h);
     cmsCloseProfile(h);
-    return num_channels;
+    // Only these are permitted by the PDF spec. Note that cmsChannelsOf returns 3
+    // for everything it does not know.
+    switch(colorspace) {
+    case cmsSigGrayData:
+    case cmsSigRgbData:
+    case cmsSigLabData:
+    case cmsSigCmykData:
+        return (int)cmsChannelsOf(colorspace);
+    default:
+        RETERR(InvalidICCProfile);
+    }
 }
 
 } // namespace capypdf::internal
-- 
2.43.0


From 160eaa6bf5c048378477f4b702aac792c7ad901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 105/115] fix: refuse RGB JPEG files in PDF/X documents like
 other RGB pictures

---
 src/document.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index fe62ac4..298849e 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1663,6 +1663,10 @@ rvoe<CapyPDF_ImageId> PdfDocument::embed_jpg(jpg_image jpg, const ImagePDFProper
     if(props.as_mask) {
         RETERR(UnsupportedFormat);
     }
+    if(std::holds_alternative<CapyPDF_PDFX_Type>(docprops.subtype) &&
+       jpg.cs == CAPY_DEVICE_CS_RGB) {
+        RETERR(ImageFormatNotPermitted);
+    }
     ObjectFormatter fmt;
     fmt.begin_dict();
     fmt.add_token_pair("/Type", "/XObject");
-- 
2.43.0


From 1e6b901ec0589cfb15a89524cfb0ad1b7e63a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 106/115] fix: keep the XMP metadata well formed when the
 creator has control characters

---
 src/utils.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 5fc8a64..bdef0e3 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -538,8 +538,23 @@ void quote_xml_element_data_into(const u8string &content, std::string &result) {
 }
 
 void quote_xml_element_data_unchecked_into(const std::string_view &content, std::string &result) {
-    for(char c : content) {
+    // XML can not represent these in any way.
+    const char *replacement_character = "\xef\xbf\xbd";
+    for(size_t i = 0; i < content.size(); ++i) {
+        const char c = content[i];
+        if((unsigned char)c < 0x20 && c != '\t' && c != '\n' && c != '\r') {
+            result += replacement_character;
+            continue;
+        }
+        if(content.substr(i, 3) == "\xef\xbf\xbe" || content.substr(i, 3) == "\xef\xbf\xbf") {
+            result += replacement_character;
+            i += 2;
+            continue;
+        }
         switch(c) {
+        case '\r':
+            result += "&#13;";
+            break;
         case '<':
             result += "&lt;";
             break;
-- 
2.43.0


From 9dc486260c44318c9314a27a8bd7a703906bc368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 107/115] fix: write the version and conformance keys ISO
 15930-1 asks of PDF/X-1a:2001

---
 src/document.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/document.cpp b/src/document.cpp
index 298849e..6af916a 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1452,10 +1452,18 @@ rvoe<NoReturnValue> PdfDocument::generate_info_object() {
         fmt.add_token_pair("/CreationDate", current_date);
     }
     if(auto xptr = std::get_if<CapyPDF_PDFX_Type>(&docprops.subtype)) {
+        // PDF/X-1a:2001 is identified as a conformance level of PDF/X-1:2001.
+        const bool is_1a_2001 = *xptr == CAPY_PDFX_1A_2001;
         std::string parname("(");
-        parname += pdfx_names.at(*xptr);
+        parname += pdfx_names.at(is_1a_2001 ? CAPY_PDFX_1_2001 : *xptr);
         parname += ")\n";
         fmt.add_token_pair("/GTS_PDFXVersion", parname);
+        if(is_1a_2001) {
+            std::string conformance("(");
+            conformance += pdfx_names.at(*xptr);
+            conformance += ")\n";
+            fmt.add_token_pair("/GTS_PDFXConformance", conformance);
+        }
         fmt.add_token_pair("/Trapped", "/False");
     }
     fmt.end_dict();
-- 
2.43.0


From ec7d18b6a19096fb010bcb2e45821e3492dcd708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 108/115] fix: store the title and author of PDF/A documents in
 their XMP metadata

---
 src/document.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/document.cpp b/src/document.cpp
index 6af916a..29f5ab6 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -1379,6 +1379,40 @@ int32_t PdfDocument::add_document_metadata_object() {
         }
         xfmt.close_tag();
 
+        // Some PDF/A types have no info dictionary, so this is the only place for these.
+        if(!docprops.title.empty() || !docprops.author.empty()) {
+            xfmt.start_tag("rdf:Description");
+            xfmt.add_tag_attribute("rdf:about", "");
+            xfmt.add_tag_attribute("xmlns:dc", "http://purl.org/dc/elements/1.1/");
+            xfmt.finish_tag();
+            if(!docprops.title.empty()) {
+                xfmt.start_tag("dc:title");
+                xfmt.finish_tag();
+                xfmt.start_tag("rdf:Alt");
+                xfmt.finish_tag();
+                xfmt.start_tag("rdf:li");
+                xfmt.add_tag_attribute("xml:lang", "x-default");
+                xfmt.finish_tag();
+                xfmt.add_content(docprops.title);
+                xfmt.close_tag();
+                xfmt.close_tag();
+                xfmt.close_tag();
+            }
+            if(!docprops.author.empty()) {
+                xfmt.start_tag("dc:creator");
+                xfmt.finish_tag();
+                xfmt.start_tag("rdf:Seq");
+                xfmt.finish_tag();
+                xfmt.start_tag("rdf:li");
+                xfmt.finish_tag();
+                xfmt.add_content(docprops.author);
+                xfmt.close_tag();
+                xfmt.close_tag();
+                xfmt.close_tag();
+            }
+            xfmt.close_tag();
+        }
+
         xfmt.close_tag();
         xfmt.close_tag();
         xfmt.add_text_unchecked(R"(<?xpacket end="w"?>)");
-- 
2.43.0


From f9b12141d54243bbcdb3f1ef2494c396792398b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:21 +0000
Subject: [PATCH 109/115] fix: forget the glyphs of a text that can not be
 subset

The glyphs before the failing one stayed in the font subset and were written to the file
even though the text was refused.
---
 src/drawcontext.cpp   | 14 +++++++++++++-
 src/fontsubsetter.cpp | 14 ++++++++++++++
 src/fontsubsetter.hpp |  3 +++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/drawcontext.cpp b/src/drawcontext.cpp
index 6436f8a..89d14f3 100644
--- a/src/drawcontext.cpp
+++ b/src/drawcontext.cpp
@@ -874,7 +874,19 @@ rvoe<NoReturnValue> PdfDrawContext::render_text(const PdfText &textobj) {
     }
     ERCV(validate_text_contents(textobj));
     // This can fail, so it must be done before anything is written.
-    ERCV(subset_text_glyphs(textobj));
+    std::unordered_map<int32_t, size_t> subset_sizes;
+    for(const auto &e : textobj.get_events()) {
+        if(const auto *Tf = std::get_if<Tf_arg>(&e)) {
+            subset_sizes.emplace(Tf->font.id, doc->fonts.at(Tf->font.id).subsets.subset_size());
+        }
+    }
+    auto subset_result = subset_text_glyphs(textobj);
+    if(!subset_result) {
+        for(const auto &[font_id, old_size] : subset_sizes) {
+            doc->fonts.at(font_id).subsets.truncate_subset(old_size);
+        }
+        return subset_result;
+    }
 
     CapyPDF_FontId current_font{-1};
     double current_pointsize{-1};
diff --git a/src/fontsubsetter.cpp b/src/fontsubsetter.cpp
index 120a757..b7757f7 100644
--- a/src/fontsubsetter.cpp
+++ b/src/fontsubsetter.cpp
@@ -75,6 +75,20 @@ FontSubsetter::construct(const char *&fontfile, FT_Face face, const FontProperti
     }
 }
 
+void FontSubsetter::truncate_subset(size_t old_size) {
+    if(old_size >= subset.glyphs.size()) {
+        return;
+    }
+    subset.glyphs.erase(subset.glyphs.begin() + old_size, subset.glyphs.end());
+    subset.font_index_mapping.clear();
+    // The first one is .notdef, which is not mapped.
+    for(size_t i = 1; i < subset.glyphs.size(); ++i) {
+        const auto glyph_index =
+            std::visit([](const auto &g) -> uint32_t { return g.glyph_index; }, subset.glyphs[i]);
+        subset.font_index_mapping[glyph_index] = (uint32_t)i;
+    }
+}
+
 rvoe<FontSubsetInfo> FontSubsetter::get_glyph_subset(uint32_t codepoint,
                                                      const std::optional<uint32_t> glyph_id) {
     if(glyph_id) {
diff --git a/src/fontsubsetter.hpp b/src/fontsubsetter.hpp
index ad096d0..ad0d956 100644
--- a/src/fontsubsetter.hpp
+++ b/src/fontsubsetter.hpp
@@ -50,6 +50,9 @@ public:
 
     size_t subset_size() const { return subset.glyphs.size(); }
 
+    // Forgets the glyphs that were added after the subset had the given size.
+    void truncate_subset(size_t old_size);
+
     rvoe<std::vector<std::byte>> generate_subset(const TrueTypeFontFile &source) const;
 
 private:
-- 
2.43.0


From eff2a746224c695147bfbdf024d7db72d4d83487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:46 +0000
Subject: [PATCH 110/115] fix: keep the font matrix of CFF fonts

---
 src/cffsubsetter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cffsubsetter.cpp b/src/cffsubsetter.cpp
index da686c7..1571294 100644
--- a/src/cffsubsetter.cpp
+++ b/src/cffsubsetter.cpp
@@ -804,6 +804,7 @@ rvoe<NoReturnValue> CFFWriter::create_topdict() {
     copy_dict_item_if_exists(topdict, DictOperator::FullName);
     copy_dict_item_if_exists(topdict, DictOperator::FamilyName);
     copy_dict_item_if_exists(topdict, DictOperator::Weight);
+    copy_dict_item_if_exists(topdict, DictOperator::FontMatrix);
     copy_dict_item_if_exists(topdict, DictOperator::FontBBox);
     if(source.is_cid) {
         copy_dict_item_if_exists(topdict, DictOperator::CIDFontVersion);
-- 
2.43.0


From b27b43e738d7d00e05cd93dd005019c22081a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:46 +0000
Subject: [PATCH 111/115] fix: embed the glyph of a text mapped to U+0000

---
 src/ft_subsetter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ft_subsetter.cpp b/src/ft_subsetter.cpp
index af5e0b2..c50f3ff 100644
--- a/src/ft_subsetter.cpp
+++ b/src/ft_subsetter.cpp
@@ -1061,7 +1061,7 @@ rvoe<std::vector<std::byte>> generate_cff_font(const TrueTypeFontFile &source,
     uint32_t counter = 0;
     for(const auto &g : glyphs) {
         if(const auto *rg = std::get_if<RegularGlyph>(&g)) {
-            if(rg->unicode_codepoint == 0) {
+            if(rg->glyph_index == (uint32_t)-1) {
                 converted.emplace_back(0, 0);
             } else {
                 converted.emplace_back(rg->unicode_codepoint, rg->glyph_index);
@@ -1192,7 +1192,8 @@ reassign_composite_glyph_numbers(std::span<std::byte> buf,
 uint32_t font_id_for_glyph(const TTGlyphs &g) {
     if(std::holds_alternative<RegularGlyph>(g)) {
         auto &rg = std::get<RegularGlyph>(g);
-        if(rg.unicode_codepoint == 0) {
+        // Only the .notdef glyph every subset starts with has no real glyph index.
+        if(rg.glyph_index == (uint32_t)-1) {
             return 0;
         } else {
             return rg.glyph_index;
-- 
2.43.0


From cc52bb3f143a5d45bf3327d8b2bd859d97c97747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:46 +0000
Subject: [PATCH 112/115] fix: refuse raw glyphs mapped to something that is
 not a character

---
 src/capi.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/capi.cpp b/src/capi.cpp
index 05d1110..a3e139d 100644
--- a/src/capi.cpp
+++ b/src/capi.cpp
@@ -1595,6 +1595,10 @@ CAPYPDF_PUBLIC CapyPDF_EC capy_text_sequence_append_raw_glyph(CapyPDF_TextSequen
     if(glyph_id == 0) {
         return conv_err(ErrorCode::MissingGlyph);
     }
+    if(codepoint > 0x10FFFF || (codepoint >= 0xD800 && codepoint <= 0xDFFF)) {
+        // Not a character, it can not be represented in a ToUnicode map.
+        return conv_err(ErrorCode::BadUtf8);
+    }
     auto rc = ts->append_raw_glyph(glyph_id, codepoint);
     return conv_err(rc);
     API_BOUNDARY_END;
-- 
2.43.0


From 46e888888bf7510f2010e868f321a066eff18b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 113/115] fix: write names of embedded files in an encoding
 every PDF version has

---
 src/document.cpp |  2 +-
 src/utils.cpp    | 31 +++++++------------------------
 2 files changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/document.cpp b/src/document.cpp
index 29f5ab6..605962f 100644
--- a/src/document.cpp
+++ b/src/document.cpp
@@ -895,7 +895,7 @@ rvoe<int32_t> PdfDocument::create_AF_dict() {
         fmt.add_token_pair("/Type", "/Filespec");
         if(!e.ef.description.empty()) {
             fmt.add_token("/Desc");
-            fmt.add_token(u8str2u8textstring(e.ef.description));
+            fmt.add_token(utf8_to_pdfutf16be(e.ef.description));
         }
         fmt.add_token_pair("/AFRelationship", "/Data");
         // Yes, these two are the same. For BW reasons I guess?
diff --git a/src/utils.cpp b/src/utils.cpp
index bdef0e3..cc6059f 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -418,33 +418,16 @@ std::string u8str2u8textstring(std::string_view u8string) {
 }
 
 std::string u8str2filespec(const u8string &str) {
-    std::string result;
-    result.reserve(str.size() + 10);
-    result.push_back('(');
-    result.push_back(char(239));
-    result.push_back(char(187));
-    result.push_back(char(191));
+    std::string escaped;
+    escaped.reserve(str.size() + 10);
     for(const char c : str.sv()) {
-        switch(c) {
-        case '(':
-        case ')':
-        case '\\':
-            result.push_back('\\');
-            break;
-        case '/':
-            // The slash is escaped in the file specification, the backslash in the string.
-            result += "\\\\";
-            break;
-        case '\r':
-            result += "\\r";
-            continue;
-        default:
-            break;
+        if(c == '/') {
+            escaped.push_back('\\');
         }
-        result.push_back(c);
+        escaped.push_back(c);
     }
-    result.push_back(')');
-    return result;
+    // Text strings in UTF-8 only exist in PDF 2.0.
+    return utf8_to_pdfutf16be(u8string::from_view(escaped).value());
 }
 
 std::string pdfname_quote(std::string_view raw_string) {
-- 
2.43.0


From 4cfdfc088243e94b8fe8ed355f8f6467ab200661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 114/115] fix: accept every role name in the Python module

---
 python/capypdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/capypdf.py b/python/capypdf.py
index 044d245..e98e978 100644
--- a/python/capypdf.py
+++ b/python/capypdf.py
@@ -1372,7 +1372,7 @@ class Generator:
         if not isinstance(builtin_type, StructureType):
             raise CapyPDFException('Builtin type must be a StructureType.')
         roid = RoleId()
-        name_bytes = name.encode('ASCII')
+        name_bytes = name.encode('UTF-8')
         check_error(libfile.capy_generator_add_rolemap_entry(self,
                                                              name_bytes,
                                                              len(name_bytes),
-- 
2.43.0


From d6b6dcf86911097462706ed1bf4f6a5aa48bb258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:12 +0000
Subject: [PATCH 115/115] fix: scale gray PNG samples by the bit depth of the
 file

---
 src/imagefileops.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/imagefileops.cpp b/src/imagefileops.cpp
index 69be338..a483603 100644
--- a/src/imagefileops.cpp
+++ b/src/imagefileops.cpp
@@ -59,12 +59,11 @@ void load_rgba_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &resul
     }
 }
 
-void load_gray_png(png_struct *png_ptr, png_info *info_ptr, RawPixelImage &result) {
+void load_gray_png(png_struct *png_ptr, png_info *info_ptr, int bit_depth, RawPixelImage &result) {
     unsigned char **rows = png_get_rows(png_ptr, info_ptr);
     result.md.pixel_depth = 8;
     result.md.cs = CAPY_IMAGE_CS_GRAY;
     // Samples of less than 8 bits are unpacked to one byte each without scaling.
-    const int bit_depth = png_get_bit_depth(png_ptr, info_ptr);
     const int scale = bit_depth < 8 ? 255 / ((1 << bit_depth) - 1) : 1;
 
     result.pixels.reserve(result.md.w * result.md.h);
@@ -185,7 +184,7 @@ rvoe<NoReturnValue> try_load_mono_alpha_png(png_struct *png_ptr,
     return NoReturnValue{};
 }
 
-rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
+rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr, int file_bit_depth) {
     RawPixelImage image;
     image.md.w = png_get_image_width(png_ptr, info_ptr);
     image.md.h = png_get_image_height(png_ptr, info_ptr);
@@ -207,7 +206,7 @@ rvoe<RasterImage> do_png_load(png_struct *png_ptr, png_info *info_ptr) {
     } else if(image_format == PNG_COLOR_TYPE_RGB) {
         load_rgb_png(png_ptr, info_ptr, image);
     } else if(image_format == PNG_COLOR_TYPE_GRAY) {
-        load_gray_png(png_ptr, info_ptr, image);
+        load_gray_png(png_ptr, info_ptr, file_bit_depth, image);
     } else if(image_format == PNG_COLOR_TYPE_GRAY_ALPHA) {
         load_ga_png(png_ptr, info_ptr, image);
     } else if(image_format == PNG_COLOR_TYPE_PALETTE) {
@@ -479,7 +478,12 @@ rvoe<RasterImage> load_png_file(FILE *f) {
     }
     png_init_io(pclose.p, f);
     png_read_png(pclose.p, pclose.i, PNG_TRANSFORM_PACKING, nullptr);
-    return do_png_load(pclose.p, pclose.i);
+    // After decoding libpng only tells the depth of the unpacked samples. The one
+    // in the file is the byte after the width and height in the IHDR chunk.
+    if(fseek(f, 24, SEEK_SET) != 0) {
+        RETERR(FileReadError);
+    }
+    return do_png_load(pclose.p, pclose.i, fgetc(f));
 }
 
 rvoe<RasterImage> load_png_file(const char *fname) {
-- 
2.43.0

