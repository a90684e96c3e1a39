From 84e7b96f151a57d992e5f2171c31e2869fa95f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 01/43] fix: escape backslashes and carriage returns in PDF
 strings

---
 pdfme/parser.py | 5 ++---
 pdfme/utils.py  | 5 ++++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 4aafb09..8529bd0 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -1,4 +1,3 @@
-import re
 from typing import Iterable, Union
 class PDFObject:
     """A class that represents a PDF object.
@@ -82,7 +81,7 @@ def parse_obj(obj: ObjectType) -> bytes:
     elif isinstance(obj, (int, float)):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
-        return ('(' + re.sub(r'([()])', r'\\\1', obj) + ')').encode('latin')
+        return ('(' + escape_string(obj) + ')').encode('latin')
 
 
 def parse_dict(obj: dict) -> bytes:
@@ -165,4 +164,4 @@ def parse_stream(obj: dict) -> bytes:
     return ret
 
 from .encoders import encode_stream
-from .utils import subs
+from .utils import escape_string, subs
diff --git a/pdfme/utils.py b/pdfme/utils.py
index 45f12ab..0fdab12 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -438,7 +438,10 @@ def escape_string(text):
     Returns:
         str: Escaped text.
     '''
-    return text.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
+    return (
+        text.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
+            .replace('\r', '\\r')
+    )
 
 from .color import PDFColor
 from .fonts import PDFFonts, PDFFont
-- 
2.43.0


From abbd5493c64f2761b7d0203732aaf6951181f8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 02/43] fix: write float objects without exponent

---
 pdfme/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 8529bd0..dd5c768 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -78,7 +78,9 @@ def parse_obj(obj: ObjectType) -> bytes:
         return obj
     elif isinstance(obj, bool):
         return b'true' if obj else b'false'
-    elif isinstance(obj, (int, float)):
+    elif isinstance(obj, float):
+        return '{:.6f}'.format(obj).rstrip('0').rstrip('.').encode('latin')
+    elif isinstance(obj, int):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
         return ('(' + escape_string(obj) + ')').encode('latin')
-- 
2.43.0


From 702215f385f3bb35157adfb45ffa0e84d32ad8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 03/43] fix: accept b:1, i:0 and u:1, and spaces around s and
 r, in style strings

---
 pdfme/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 0fdab12..cf32f5c 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -196,7 +196,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element "{}" must be 0 or 1: {}'
                         .format(attr, value)
                     )
-            if attr == "f":
+            elif attr == "f":
                 if value not in fonts.fonts:
                     font_found = False
 
@@ -216,7 +216,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                 style['c'] = PDFColor(value)
             elif attr == "bg":
                 style['bg'] = PDFColor(value)
-            elif attrs[0] == "s":
+            elif attr == "s":
                 try:
                     v = float(value)
                     if int(v) == v:
@@ -227,7 +227,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element value for "s" is wrong:'
                         ' {}'.format(value)
                     )
-            elif attrs[0] == 'r':
+            elif attr == 'r':
                 try: style['r'] = float(value)
                 except:
                     raise ValueError(
-- 
2.43.0


From 98585fb1c153dba6303a1df61cd99c3be021465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 04/43] fix: accept numbers as content elements

---
 pdfme/content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 983f1ed..9bc6eea 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -782,7 +782,7 @@ class PDFContentPart:
 
     def parse_element(self, element: ProcessElement) -> dict:
         if not isinstance(element, (dict, str, list, tuple)):
-            return str(element)
+            element = str(element)
         if isinstance(element, (str, list, tuple)):
             return {'.': element}
 
-- 
2.43.0


From bbaa0675d1a705a3d803efd17b69dea300fde010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 05/43] fix: parse margins given as a single number string, "a,
 b" strings or 3-tuples

---
 pdfme/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index cf32f5c..30e4de5 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -111,9 +111,9 @@ def parse_margin(margin: MarginType) -> dict:
         return margin
 
     if isinstance(margin, str):
-        margin = re.split(',| ', margin)
+        margin = re.split('[, ]+', margin.strip())
         if len(margin) == 1:
-            margin = float(margin)
+            margin = float(margin[0])
         else:
             margin = [float(x) for x in margin]
 
@@ -128,7 +128,7 @@ def parse_margin(margin: MarginType) -> dict:
         elif len(margin) == 2:
             margin = margin * 2
         elif len(margin) == 3:
-            margin = margin + [margin[1]]
+            margin = [*margin, margin[1]]
         elif len(margin) > 4:
             margin = margin[0:4]
 
-- 
2.43.0


From 30768987f6c00e390dc01d4d47e6749b8e604be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 06/43] fix: use the document's line_height and indent in text

---
 pdfme/pdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 6e2c145..393610d 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -554,7 +554,7 @@ class PDF:
 
     def _create_text(
         self, content: TextType, width: Number=None, height: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None
     ) -> 'PDFText':
         """Method to create a paragraph.
@@ -645,7 +645,7 @@ class PDF:
     def _text(
         self, content: Union[TextType, 'PDFText'], width: Number=None,
         height: Number=None, x: Number=None, y: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None,
         move: str='bottom'
     ) -> 'PDFText':
@@ -677,8 +677,8 @@ class PDF:
         return pdf_text
 
     def text(
-        self, content: TextType, text_align: str=None, line_height: Number=1.1,
-        indent: Number=0, list_text: str=None, list_indent: Number=None,
+        self, content: TextType, text_align: str=None, line_height: Number=None,
+        indent: Number=None, list_text: str=None, list_indent: Number=None,
         list_style: dict=None
     ) -> None:
         """Method to create and add a paragraph to this document. This method
-- 
2.43.0


From ccd2853bfdf2bb10740f0441646942ef76751272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 07/43] fix: do not fail when laying out an empty table

---
 pdfme/table.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index ae4f59e..6a23971 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -169,11 +169,10 @@ class PDFTable:
         self.fonts = fonts
         self.pdf = pdf
         self.finished = False
-        if len(content) == 0 or len(content[0]) == 0:
-            return
-
-        self.cols_count = len(content[0])
         self.delayed = {}
+        self.cols_count = 0 if len(content) == 0 else len(content[0])
+        if self.cols_count == 0:
+            return
 
         if widths is not None:
             if not isinstance(widths, (list, tuple)):
@@ -477,6 +476,10 @@ class PDFTable:
         ]
         self.current_height = 0
 
+        if self.cols_count == 0:
+            self.finished = True
+            return
+
         can_continue = True
         if len(self.delayed) > 0:
             can_continue = False
-- 
2.43.0


From 76ad500794dbd710c5b36fb3284e08e2f5ca7099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 08/43] fix: accept open ended page ranges

---
 pdfme/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 30e4de5..7ba7026 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -1,4 +1,5 @@
 import re
+import sys
 from typing import Any, Iterable, Union
 
 page_sizes = {
@@ -411,7 +412,8 @@ def parse_range_string(range_str: str) -> MuiltiRange:
             first = range_parts[0].strip()
             range_parts[0] = 0 if first == '' else int(first)
             if len(range_parts) > 1:
-                range_parts[1] = int(range_parts[1].strip())
+                last = range_parts[1].strip()
+                range_parts[1] = sys.maxsize if last == '' else int(last)
             if len(range_parts) > 2:
                 range_parts[2] = int(range_parts[2].strip())
             multi_range.add(*range_parts)
-- 
2.43.0


From f7e71af0cc3703655b46a5cddaef8edb209c8983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 09/43] fix: do not modify the caller's documents, contents and
 elements

---
 pdfme/content.py  | 10 +++++++---
 pdfme/document.py |  2 +-
 pdfme/pdf.py      |  2 +-
 pdfme/utils.py    |  2 ++
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 9bc6eea..34180d6 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -856,7 +856,7 @@ class PDFContentPart:
             par_style = {
                 v: style.get(v) for v in PARAGRAPH_PROPERTIES if v in style
             }
-            element['style'] = style.copy()
+            element = {**element, 'style': style.copy()}
             pdf_text = PDFText(
                 element, self.width, self.max_height, self.x, self.y,
                 fonts=self.p.fonts, pdf=self.p.pdf, **par_style
@@ -935,7 +935,8 @@ class PDFContentPart:
                 })
         else:
             self.y = initial_y
-            if element.setdefault('tries', 0) >= 50:
+            element = {**element, 'tries': element.get('tries', 0)}
+            if element['tries'] >= 50:
                 raise Exception(
                     'Image element could not be fitted in the document (try '
                     'adding "min_height" style property to this image for us'
@@ -1145,7 +1146,10 @@ class PDFContentPart:
                 element, style, add_element=False, add_top_margin=i != 0
             )
             if not (isinstance(ans, dict) and ans.get('delayed') is None):
-                if group_element.setdefault('tries', 0) >= 50:
+                group_element = {
+                    **group_element, 'tries': group_element.get('tries', 0)
+                }
+                if group_element['tries'] >= 50:
                     raise Exception(
                         'Group element could not be fitted in the document: {}'
                         .format(group_element)
diff --git a/pdfme/document.py b/pdfme/document.py
index d7881f9..5102ff9 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -188,7 +188,7 @@ class PDFDocument:
             new_range_dict['pages'] = parse_range_string(range_dict['pages'])
             self.per_page.append(new_range_dict)
 
-        self.sections = document.get('sections', [])
+        self.sections = copy(document.get('sections', []))
 
         self.x = self.y = self.width = self.height = 0
 
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 393610d..5969ab8 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -509,7 +509,7 @@ class PDF:
             if len(style_str) > 0:
                 style.update(parse_style_str(style_str[0], self.fonts))
             style.update(process_style(content.get('style'), self))
-            content['style'] = style
+            content = {**content, 'style': style}
         return content
 
     def _position_and_size(
diff --git a/pdfme/utils.py b/pdfme/utils.py
index 7ba7026..1ad0797 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -374,6 +374,8 @@ def copy(obj: Any) -> Any:
     """
     if isinstance(obj, list):
         return [copy(el) for el in obj]
+    elif isinstance(obj, tuple):
+        return tuple(copy(el) for el in obj)
     elif isinstance(obj, dict):
         return {k: copy(v) for k, v in obj.items()}
     else:
-- 
2.43.0


From 2b0d48a1df30836e63a96d596c6feb3787d09d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 10/43] fix: keep track of loaded fonts per document and use
 fonts added with add_font

---
 pdfme/fonts.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 68ad665..d1b2888 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -80,7 +80,6 @@ class PDFFont(abc.ABC):
     """
 
     registered_fonts = {}
-    loaded_fonts = []
 
     def __init__(self, ref: str) -> None:
         self._ref = ref
@@ -411,6 +410,7 @@ class PDFFonts:
     """
     def __init__(self) -> None:
         self.fonts = {}
+        self.loaded_fonts = []
         self.index = 1
         for font_family, modes in STANDARD_FONTS.items():
             self.fonts[font_family] = {}
@@ -435,15 +435,14 @@ class PDFFonts:
             family = self.fonts[font_family]
         else:
             font_type = (font_family, mode)
-            if font_type in PDFFont.registered_fonts:
-                if font_type not in PDFFont.loaded_fonts:
+            if font_type not in self.loaded_fonts:
+                if font_type in PDFFont.registered_fonts:
                     self.load_font(PDFFont.registered_fonts[font_type],
                         font_family,
                         mode)
-                    PDFFont.loaded_fonts.append(font_type)
-                family = self.fonts[font_family]
-            else:
-                raise ValueError('Unknown font family requested!')
+                elif font_family not in self.fonts:
+                    raise ValueError('Unknown font family requested!')
+            family = self.fonts[font_family]
             
         return family['n'] if mode not in family else family[mode]
 
@@ -460,6 +459,7 @@ class PDFFonts:
         if not font_family in self.fonts:
             self.fonts[font_family] = {'n': font}
         self.fonts[font_family][mode] = font
+        self.loaded_fonts.append((font_family, mode))
         self.index += 1
 
 from .parser import PDFObject
-- 
2.43.0


From 33d24d776d1c3dae928b8f15d59fa9f8641b9ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 11/43] fix: do not override the built-in encoding of Symbol
 and ZapfDingbats

---
 pdfme/fonts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index d1b2888..9eb2551 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -182,8 +182,7 @@ class PDFStandardFont(PDFFont):
         font = base.add({
             'Type': b'/Font',
             'Subtype': b'/Type1',
-            'BaseFont': subs('/{}', self.base_font),
-            'Encoding': b'/WinAnsiEncoding'
+            'BaseFont': subs('/{}', self.base_font)
         })
         if self.base_font not in ['Symbol', 'ZapfDingbats']:
             font['Encoding'] = b'/WinAnsiEncoding'
-- 
2.43.0


From cb46bf5efe136f9c37b06b66ee609313817693e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 12/43] fix: assign widths to the right glyphs when characters
 share a glyph

---
 pdfme/fonts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 9eb2551..b0e92af 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -391,13 +391,12 @@ class PDFTrueTypeFont(PDFFont):
             current_glyph_id = font.getGlyphID(cmap[c])
             if not widths:
                 widths.append(current_glyph_id)
-                prev_glyph_id = current_glyph_id
             elif (current_glyph_id - prev_glyph_id) != 1:
                 widths.append(current_width_group)
                 widths.append(current_glyph_id)
                 current_width_group = []
-                prev_glyph_id = current_glyph_id
 
+            prev_glyph_id = current_glyph_id
             current_width_group.append(glyph_set[cmap[c]].width * scale)
 
         widths.append(current_width_group)
-- 
2.43.0


From fa62a0a7e7837729abb5db51738302a3c53cfe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 13/43] fix: encode and escape drawn text and list markers
 once, with the font they use

---
 pdfme/fonts.py |  9 +++++++--
 pdfme/text.py  | 50 +++++---------------------------------------------
 2 files changed, 12 insertions(+), 47 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index b0e92af..7536fbb 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -177,6 +177,9 @@ class PDFStandardFont(PDFFont):
         """See :meth:`pdfme.fonts.PDFFont.get_text_width`"""
         return sum(self.widths[char] for char in text) / 1000
 
+    def encode_text(self, text: str) -> str:
+        return escape_string(text)
+
     def add_font(self, base: 'PDFBase') -> 'PDFObject':
         """See :meth:`pdfme.fonts.PDFFont.add_font`"""
         font = base.add({
@@ -375,7 +378,9 @@ class PDFTrueTypeFont(PDFFont):
         })
 
     def encode_text(self, text: str):
-        return ''.join(as_hex(chr(self.cids2gids[ord(c)])) for c in text)
+        return ''.join(
+            as_hex(chr(self.cids2gids.get(ord(c), 0))) for c in text
+        )
 
     def compute_char_widths(self):
         glyph_set = self.glyph_set
@@ -462,4 +467,4 @@ class PDFFonts:
 
 from .parser import PDFObject
 from .base import PDFBase
-from .utils import as_hex, subs
+from .utils import as_hex, escape_string, subs
diff --git a/pdfme/text.py b/pdfme/text.py
index 7e05300..cd9533e 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -844,31 +844,11 @@ class PDFTextBase:
                     if self.list_state.size > full_line_height:
                         full_line_height = self.list_state.size
 
-                    style = self.list_style
-                    font_family = style.get('f', None)
-                    if not font_family:
-                        current_line_style = self.current_line.line_parts[0].style
-                        font_family = current_line_style.get('f', None)
-
-                    font = None
-                    if font_family not in STANDARD_FONTS:
-                        mode = 'n'
-                        if 'b' in style:
-                            mode = 'b'
-                        if 'i' in style:
-                            if mode == 'b':
-                                mode += 'i'
-                            else:
-                                mode = 'i'
-
-                        font = self.fonts.get_font(font_family, mode)
-
                     self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
                         round(full_line_height, 3),
                         self.list_state.compare(self.last_state),
-                        (font.encode_text(self.list_text) if
-                            font else self.list_text),
-                        first_indent
+                        self.list_state.font.encode_text(str(self.list_text)),
+                        round(first_indent, 3)
                     )
                 else:
                     self.text += ' {} -{} Td'.format(
@@ -917,8 +897,7 @@ class PDFTextBase:
             x += part_width
 
     def clean_words(self, words: list) -> str:
-        """This function joins a list of words (spaces included) and makes the
-        resulting string compatible with a PDF string.
+        """This function joins a list of words (spaces included).
 
         Args:
             words (list): a list of strings, where each string is a word.
@@ -927,10 +906,7 @@ class PDFTextBase:
             str: A string with all of the words passed.
         """
 
-        text = ''.join(word for word in words)
-        if text != '':
-            text = text.replace('\\',r'\\').replace('(','\\(').replace(')','\\)')
-        return text
+        return ''.join(word for word in words)
 
     def output_text(self, part: PDFTextLinePart, text, factor: Number=1) -> str:
         """Function that creates a piece of PDF stream (only the text), from
@@ -958,23 +934,7 @@ class PDFTextBase:
             self.last_factor = tw
 
         if text != '':
-            style = part.style
-            if ((font_family := style.get('f', None)) and 
-                font_family not in STANDARD_FONTS):
-            
-                mode = 'n'
-                if 'b' in style:
-                    mode = 'b'
-                if 'i' in style:
-                    if mode == 'b':
-                        mode += 'i'
-                    else:
-                        mode = 'i'
-
-                font = part.fonts.get_font(font_family, mode)
-                stream += ' ({})Tj'.format(font.encode_text(text))
-            else:
-                stream += ' ({})Tj'.format(text)
+            stream += ' ({})Tj'.format(part.state.font.encode_text(text))
         return stream
 
     def output_graphics(
-- 
2.43.0


From 5e62f16a0c68767b5b81e2660fec486ee07aea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 14/43] fix: accept outline items without an item in the level
 above

---
 pdfme/pdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 5969ab8..981859a 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -633,6 +633,8 @@ class PDF:
                 outline_data = json.loads(id_[9:])
                 outline = self.outlines
                 for _ in range(outline_data['level'] - 1):
+                    if len(outline) == 0:
+                        break
                     outline = outline[-1].setdefault('children', [])
 
                 outline.append(outline_data)
-- 
2.43.0


From c003fc2cd4f00b05d21a67a431064cb6589e7b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 15/43] fix: add labels and outline items of paragraphs that
 span pages only once

---
 pdfme/pdf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 981859a..2d9c006 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -170,6 +170,7 @@ class PDF:
         self.pages = []
         self.running_sections = []
         self.outlines = []
+        self.outline_ids = []
 
         self.base = PDFBase()
         self.root = self.base.add({ 'Type': b'/Catalog'})
@@ -600,10 +601,10 @@ class PDF:
             if id_.startswith('$label:'):
                 d = rects[0]
                 x_ref = x + d[0]
-                self.dests[id_[7:]] = [
+                self.dests.setdefault(id_[7:], [
                     self.page.page.id, b'/XYZ', round(x_ref, 3),
                     round(y + d[3], 3), round(x_ref/self.page.width, 3) + 1
-                ]
+                ])
             elif id_.startswith('$ref:'):
                 for r in rects:
                     self.page.add_reference(
@@ -629,7 +630,8 @@ class PDF:
                             round(x + r[2], 3), round(y + r[3], 3)
                         ]
                     )
-            elif id_.startswith('$outline:'):
+            elif id_.startswith('$outline:') and id_ not in self.outline_ids:
+                self.outline_ids.append(id_)
                 outline_data = json.loads(id_[9:])
                 outline = self.outlines
                 for _ in range(outline_data['level'] - 1):
-- 
2.43.0


From a9ce550969914284ea491b2f86f6b1f8b90f0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 16/43] fix: discard lines and fills, too, when columns are
 balanced

---
 pdfme/content.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 34180d6..7b5b3e6 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -388,7 +388,7 @@ class PDFContentPart:
         self.delayed = copy(self.section_delayed) # current delayed elements
         self.will_reset = False
         self.resetting = False
-        self.parts_index = len(self.p.parts)
+        self.save_indexes()
 
         self.minim_diff_last = None
         self.minim_diff = None
@@ -649,6 +649,8 @@ class PDFContentPart:
 
         self.will_reset = False
         self.p.parts = self.p.parts[:self.parts_index]
+        self.p.lines = self.p.lines[:self.lines_index]
+        self.p.fills = self.p.fills[:self.fills_index]
         self.go_to_beginning()
 
         if self.minim_diff is None:
@@ -669,6 +671,14 @@ class PDFContentPart:
 
         return True
 
+    def save_indexes(self) -> None:
+        """Function to remember what has been added to the parent PDFContent
+        before this section.
+        """
+        self.parts_index = len(self.p.parts)
+        self.lines_index = len(self.p.lines)
+        self.fills_index = len(self.p.fills)
+
     def go_to_beginning(self) -> None:
         """Function that takes the x and y coordinates of this element to the
         ``min_x`` and ``min_y`` coordinates.
@@ -726,7 +736,7 @@ class PDFContentPart:
                     return ret
                 self.min_y = ret['min_y']
                 self.min_x = ret['min_x']
-                self.parts_index = len(self.p.parts)
+                self.save_indexes()
                 self.go_to_beginning()
                 return 'retry' if children_memory is None else ret
         else:
-- 
2.43.0


From 3174070a1276a6fd5e8f800dcc0f5f16b5f89d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 17/43] fix: declare the list marker font in the page where the
 marker is drawn

---
 pdfme/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index cd9533e..74ac74d 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -844,6 +844,9 @@ class PDFTextBase:
                     if self.list_state.size > full_line_height:
                         full_line_height = self.list_state.size
 
+                    self.used_fonts.add((
+                        self.list_state.font_family, self.list_state.font_mode
+                    ))
                     self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
                         round(full_line_height, 3),
                         self.list_state.compare(self.last_state),
-- 
2.43.0


From 6d84a4419d20d06c8483b6145142c0368990d6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 18/43] fix: keep links and underlines on the text in aligned
 and continued paragraphs

---
 pdfme/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 74ac74d..6c654ee 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -830,9 +830,12 @@ class PDFTextBase:
         if not self.started:
             self.started = True
             if self.is_first_line:
-                factor_width -= self.indent
-                x += self.indent
                 self.is_first_line = False
+                if self.text_align in ['r', 'c']:
+                    self.correct_indent = False
+                else:
+                    factor_width -= self.indent
+                    x += self.indent
 
                 first_indent = (
                     adjusted_indent if self.text_align in ['r', 'c']
@@ -858,6 +861,7 @@ class PDFTextBase:
                         round(first_indent, 3), round(full_line_height, 3)
                     )
             else:
+                self.correct_indent = False
                 first_indent = adjusted_indent
                 if self.list_text:
                     first_indent += self.list_indent
-- 
2.43.0


From 10acabbf6befe5377828ab9815126d872190e5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 19/43] fix: restore the whole state of a table

---
 pdfme/table.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 6a23971..ecead7c 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -227,10 +227,13 @@ class PDFTable:
             dict: a dict with the state of this table.
         """
         return {
-            'current_index': self.current_index, 'delayed': copy(self.delayed)
+            'current_index': self.current_index, 'delayed': copy(self.delayed),
+            'first_row': self.first_row
         }
 
-    def set_state(self, current_index: int=None, delayed: dict=None) -> None:
+    def set_state(
+        self, current_index: int=None, delayed: dict=None, first_row: bool=None
+    ) -> None:
         """Method to set the state of this table.
         
         The arguments of this method define the current state of this table,
@@ -241,11 +244,14 @@ class PDFTable:
                 added.
             delayed (dict, optional): a dict with delayed cells that should be
                 added before the next row.
+            first_row (bool, optional): whether no row has been added yet.
         """
         if current_index is not None:
             self.current_index = current_index
-        elif delayed is not None:
-            self.delayed = delayed
+        if delayed is not None:
+            self.delayed = copy(delayed)
+        if first_row is not None:
+            self.first_row = first_row
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
-- 
2.43.0


From 55426071cc1fe33bbbfee52ab12738aa6366888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 20/43] fix: process running sections and fonts in a
 deterministic order

---
 pdfme/document.py | 14 ++++++++------
 pdfme/pdf.py      |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 5102ff9..b1886d2 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -251,7 +251,7 @@ class PDFDocument:
                 of the current section being added.
         """
         self.pdf.running_sections = []
-        for name in running_sections:
+        for name in dict.fromkeys(running_sections):
             section = copy(self.running_sections[name])
 
             if section.get('width') in ['left', 'right']:
@@ -318,7 +318,7 @@ class PDFDocument:
 
             page_args = section_page_args.copy()
 
-            running_sections = set(section.get('running_sections', []))
+            running_sections = list(section.get('running_sections', []))
 
             for range_dict in self.per_page:
                 if page_n in range_dict['pages']:
@@ -330,10 +330,12 @@ class PDFDocument:
                         })
                     if 'running_sections' in range_dict:
                         per_page_rs = range_dict['running_sections']
-                        running_sections -= set(per_page_rs.get('exclude', []))
-                        running_sections.update(
-                            set(per_page_rs.get('include', []))
-                        )
+                        exclude = per_page_rs.get('exclude', [])
+                        running_sections = [
+                            name for name in running_sections
+                            if name not in exclude
+                        ]
+                        running_sections.extend(per_page_rs.get('include', []))
 
             self.pdf.setup_page(**page_args)
 
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 2d9c006..e172e50 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -592,7 +592,7 @@ class PDF:
         stream = get_paragraph_stream(x, y, text_stream, graphics_stream)
         self.page.add(stream)
 
-        for font in used_fonts:
+        for font in sorted(used_fonts):
             self._used_font(*font)
 
         for id_, rects in ids.items():
-- 
2.43.0


From 562e73521b38e72286c31cbf415d9e0c1b28760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 21/43] fix: accept footnotes whose style is the name of a
 format

---
 pdfme/document.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index b1886d2..c484ea3 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -451,7 +451,8 @@ class PDFDocument:
         content = {'style': '$footnotes', 'content': []}
         for index, footnote in enumerate(page_footnotes):
             footnote = copy(footnote)
-            style = footnote.setdefault('style', {})
+            style = copy(process_style(footnote.get('style'), self.pdf))
+            footnote['style'] = style
             style.update(dict(
                 list_text=str(index + 1) + ' ', list_style='$footnote'
             ))
-- 
2.43.0


From c16da2a07d6bc3ad7e5ff0b5c4e28cf9651d7c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 22/43] fix: restore the whole state of a paragraph

---
 pdfme/text.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 6c654ee..145296c 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -533,10 +533,15 @@ class PDFTextBase:
         """
         return {
             'last_part': self.last_part,
-            'last_word': self.last_word
+            'last_word': self.last_word,
+            'is_first_line': self.is_first_line,
+            'correct_indent': self.correct_indent
         }
 
-    def set_state(self, last_part: int=None, last_word: int=None) -> None:
+    def set_state(
+        self, last_part: int=None, last_word: int=None,
+        is_first_line: bool=None, correct_indent: bool=None
+    ) -> None:
         """Function to update the state of the paragraph
 
         The arguments of this method define the current state of this paragraph,
@@ -548,9 +553,16 @@ class PDFTextBase:
             last_word (int): this is the index of the
                 word of the last part that was added the last time method
                 ``run`` was called.
+            is_first_line (bool, optional): whether no line has been added yet.
+            correct_indent (bool, optional): whether the indentation of the
+                first line must be undone in the next one.
         """
-        self.last_part = last_part
-        self.last_word = last_word
+        self.last_part = self.last_part_added = self.last_part_line = last_part
+        self.last_word = self.last_word_added = self.last_word_line = last_word
+        if is_first_line is not None:
+            self.is_first_line = is_first_line
+        if correct_indent is not None:
+            self.correct_indent = correct_indent
 
     def setup(
         self, x: Number=None, y:Number=None, width: Number=None,
-- 
2.43.0


From 86e2e31af66f59c7c3c1b6464c30c1e466f6cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 23/43] fix: reject colors with a wrong number of components

---
 pdfme/color.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/color.py b/pdfme/color.py
index 4809c0c..e77c1a8 100644
--- a/pdfme/color.py
+++ b/pdfme/color.py
@@ -245,7 +245,7 @@ def parse_color(color: ColorType) -> list:
             else:
                 return [int(color[i:2+i], 16)/255 for i in range(1,7,2)]
         else:
-            color = re.split(',| ', color)
+            color = re.split('[, ]+', color.strip())
 
     if not isinstance(color, (list, tuple)):
         raise TypeError('Invalid color value type: {}'.format(type(color)))
@@ -266,5 +266,7 @@ def parse_color(color: ColorType) -> list:
             return [float(c) for c in color[:4]]
         except:
             raise TypeError("Couldn't parse numeric color value: {}".format(color))
+    else:
+        raise TypeError('Invalid color value: {}'.format(color))
 
 from .utils import copy
-- 
2.43.0


From 0087458b29ccdf87c76aaae532b45535c1a9ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 24/43] fix: keep room for the list marker in the first line of
 a continued paragraph

---
 pdfme/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 145296c..b8fc2f0 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -615,6 +615,8 @@ class PDFTextBase:
         self.lines = []
 
         line_width = self.width - (self.indent if self.is_first_line else 0)
+        if self.list_setup_done:
+            line_width -= self.list_indent
         self.current_line = PDFTextLine(
             self.fonts, line_width, self.text_align, self.line_height
         )
-- 
2.43.0


From a0ca318555b80dbebfbb465eb47f019417ee61f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 25/43] fix: add a font shared by several modes to the document
 once

---
 pdfme/pdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index e172e50..2879c5b 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -341,8 +341,12 @@ class PDF:
         if f in self.used_fonts:
             return self.used_fonts[f]
         font = self.fonts.get_font(*f)
+        for font_args in self.used_fonts.values():
+            if font_args[0] == font.ref:
+                self.used_fonts[f] = font_args
+                return font_args
         font_obj = font.add_font(self.base)
-        self.used_fonts[(font_family, mode)] = (font.ref, font_obj.id)
+        self.used_fonts[f] = (font.ref, font_obj.id)
         return font.ref, font_obj.id
 
     def _used_font(self, font_family: str, mode: str) -> None:
-- 
2.43.0


From ff74ce96daf591b7acaa220bf493c23323b874be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:57 +0000
Subject: [PATCH 26/43] fix: do not carry the page layout of a section or a
 page over to the next ones

---
 pdfme/document.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index c484ea3..6ed6293 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -172,6 +172,10 @@ class PDFDocument:
         )
 
         self.style = style
+        self.page_settings = {
+            'page_size': (self.pdf.page_width, self.pdf.page_height),
+            'rotate_page': self.pdf.rotate_page, 'margin': self.pdf.margin
+        }
 
         self.pdf.context.update(context)
 
@@ -316,7 +320,7 @@ class PDFDocument:
         while True:
             page_n = len(self.pdf.pages)
 
-            page_args = section_page_args.copy()
+            page_args = {**self.page_settings, **section_page_args}
 
             running_sections = list(section.get('running_sections', []))
 
-- 
2.43.0


From 929deeff9b6932ef88d536cc31922431540f40bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:13 +0000
Subject: [PATCH 27/43] fix: number footnote references as in the final layout
 of the page

---
 pdfme/document.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 6ed6293..eecfcfd 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -395,12 +395,22 @@ class PDFDocument:
             new_height = self.height - footnotes_obj.current_height \
                 - self.footnotes_margin
 
-            if section_state is not None:
-                self.section.set_state(**section_state)
-                self.section.finished = False
-            self.pdf._content(self.section, height=new_height)
+            # the references of the new layout can have other numbers than the
+            # ones they were laid out with, when one of them was pushed to the
+            # next page: repeat the layout until the numbers don't change.
+            for _ in range(5):
+                if section_state is not None:
+                    self.section.set_state(**section_state)
+                    self.section.finished = False
+                self.section.run(height=new_height)
+                numbers = self._get_footnotes_numbers()
+                footnotes_obj = self._process_footnotes()
+                if numbers == self._get_footnotes_numbers():
+                    break
 
-            footnotes_obj = self._process_footnotes()
+            self.pdf._add_graphics([*self.section.fills,*self.section.lines])
+            self.pdf._add_parts(self.section.parts)
+            self.pdf.page._y -= self.section.current_height
 
             if footnotes_obj is not None:
                 self.pdf.page._y = self.pdf.margin['bottom'] + footnotes_height
@@ -430,6 +440,17 @@ class PDFDocument:
                 page_footnotes.append(self.footnotes[index])
                 self.pdf.context[id_] = len(page_footnotes)
 
+    def _get_footnotes_numbers(self) -> list:
+        """Method to get the numbers the footnotes references have currently.
+
+        Returns:
+            list: the number of every footnote of the document.
+        """
+        return [
+            self.pdf.context['$footnote:' + str(index)]
+            for index in range(len(self.footnotes))
+        ]
+
     def _check_footnotes(self, page_footnotes: list) -> None:
         """Method that loops through the current section parts, extracting the
         footnotes from each part's ids.
-- 
2.43.0


From f5e4bcedbe7449d3f3fd341d3e489f0693687f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:44 +0000
Subject: [PATCH 28/43] fix: characters beyond the BMP in the character map of
 a font

---
 pdfme/fonts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 7536fbb..f2affe3 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -47,7 +47,8 @@ def get_tounicode_cmap(cmap_mappings):
     mappings = []
     for (cid, gid) in cmap_mappings.items():
         mappings.append(
-            f'{cmap_hex_format(hex(int(gid)))} {cmap_hex_format(hex(int(cid)))}')
+            f'{cmap_hex_format(hex(int(gid)))} '
+            f'{cmap_hex_format(chr(int(cid)).encode("utf-16-be").hex())}')
 
     return f'''/CIDInit /ProcSet findresource begin
         12 dict begin
-- 
2.43.0


From 14da3628a46b29ae867fd01999637993f7c0c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:44 +0000
Subject: [PATCH 29/43] fix: width of the missing glyph of an embedded font

---
 pdfme/fonts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index f2affe3..b809c14 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -361,6 +361,7 @@ class PDFTrueTypeFont(PDFFont):
                 'Ordering': 'Identity',
                 'Supplement': 0
             },
+            'DW': self.glyph_set['.notdef'].width * self.scale,
             'W': self.compute_char_widths()
         })
 
-- 
2.43.0


From 339e9f17006a6cbdac7b0840b1798e262c9890bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:44 +0000
Subject: [PATCH 30/43] fix: fonts without an OS/2 table can be loaded

---
 pdfme/fonts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index b809c14..9358ad6 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -309,7 +309,7 @@ class PDFTrueTypeFont(PDFFont):
             if hhea is None:
                 ascent = yMax
                 descent = yMin
-            capHeight = self.ascent
+            capHeight = ascent
 
         stemV = 50 + int(pow((usWeightClass / 65.0),2))
 
-- 
2.43.0


From f37f39dd83a94b6030f9edcb0585c44ee37afa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:49 +0000
Subject: [PATCH 31/43] fix: keep the top border of cells beside a cell
 spanning three or more rows

---
 pdfme/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index ecead7c..9a68e7f 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -675,8 +675,8 @@ class PDFTable:
                     self.fills_mem[col]['add_later'] = False
                 if self.heights_mem.get(col, 0) > self.max_height:
                     self.max_height = self.heights_mem[col]
-                if self.colspan == 0:
-                    self.is_rowspan = False
+            if self.colspan == 0:
+                self.is_rowspan = False
             can_continue = True
         return can_continue
 
-- 
2.43.0


From 81a46abb5262620783ab467917827c566b6e06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:24 +0000
Subject: [PATCH 32/43] fix: table positions with a negative step selected
 nothing

---
 pdfme/table.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 9a68e7f..6264161 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -305,15 +305,10 @@ class PDFTable:
         """
         data = ':' if data == '' else data
         if ':' in data:
-            parts = data.split(':')
-            num = 0 if parts[0].strip() == '' else int(parts[0])
-            parts[0] = num if num >= 0 else count + num
-            if len(parts) > 1:
-                num = count if parts[1].strip() == '' else int(parts[1])
-                parts[1] = num if num >= 0 else count + num
-            if len(parts) > 2:
-                parts[2] = 1 if parts[2].strip() == '' else int(parts[2])
-            return range(*parts)
+            parts = [
+                int(part) if part.strip() else None for part in data.split(':')
+            ]
+            return range(*slice(*parts).indices(count))
         else:
             return [
                 count + int(i) if int(i) < 0 else int(i)
-- 
2.43.0


From cf4e281ad979e20ea6ca6a8c894756dc4f2ec259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:58 +0000
Subject: [PATCH 33/43] fix: a table row continued on the next page lost the
 fill and the column span of its finished cells

---
 pdfme/table.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 6264161..783ebdc 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -484,7 +484,10 @@ class PDFTable:
         can_continue = True
         if len(self.delayed) > 0:
             can_continue = False
-            row = [self.delayed.get(i) for i in range(self.cols_count)]
+            row = [
+                self.delayed[i] if i in self.delayed else self.get_rest(i)
+                for i in range(self.cols_count)
+            ]
             action = self.add_row(row, True)
             if action == 'continue':
                 self.current_index += 1
@@ -526,6 +529,26 @@ class PDFTable:
         if self.current_index >= len(self.content) and len(self.delayed) == 0:
             self.finished = True
 
+    def get_rest(self, col: int) -> dict:
+        """Method to get what remains of the cell at column ``col`` of the
+        current row, when the row continues but the content of this cell was
+        already added.
+
+        Args:
+            col (int): the column of the cell.
+
+        Returns:
+            dict: an empty cell with the style and the spans of the original.
+        """
+        rest = {'.': ''}
+        if self.current_index < len(self.content):
+            element = self.content[self.current_index][col]
+            if isinstance(element, dict):
+                for key in ('style', 'colspan', 'rowspan'):
+                    if key in element:
+                        rest[key] = element[key]
+        return rest
+
     def add_row(self, row: Iterable, is_delayed: bool=False) -> str:
         """Method to add a row to this table.
 
-- 
2.43.0


From 28cfc2332d8f1337f01fb0925ad45d8cab68579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:25 +0000
Subject: [PATCH 34/43] fix: a table cell spanning rows lost its fill and its
 spans where the table continues on the next page

---
 pdfme/table.py | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 783ebdc..8db687c 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -496,7 +496,14 @@ class PDFTable:
         cancel = False
         if can_continue:
             while self.current_index < len(self.content):
-                action = self.add_row(self.content[self.current_index])
+                row = self.content[self.current_index]
+                if self.current_index > 0 and self.current_height == 0 and (
+                    len(row) == self.cols_count
+                ):
+                    row = [
+                        self.get_rest(i, False) for i in range(self.cols_count)
+                    ]
+                action = self.add_row(row)
                 if action == 'cancel':
                     cancel = True
                     break
@@ -529,25 +536,34 @@ class PDFTable:
         if self.current_index >= len(self.content) and len(self.delayed) == 0:
             self.finished = True
 
-    def get_rest(self, col: int) -> dict:
+    def get_rest(self, col: int, finished: bool=True) -> CellType:
         """Method to get what remains of the cell at column ``col`` of the
-        current row, when the row continues but the content of this cell was
-        already added.
+        current row, when this is the first row being added in this run.
 
         Args:
             col (int): the column of the cell.
+            finished (bool, optional): whether the content of the cells that
+                start in the current row was already added.
 
         Returns:
-            dict: an empty cell with the style and the spans of the original.
+            CellType: the cell itself, or an empty cell with the style and the
+            spans of the original, if its content was already added.
         """
-        rest = {'.': ''}
-        if self.current_index < len(self.content):
-            element = self.content[self.current_index][col]
-            if isinstance(element, dict):
+        cell = {'.': ''} if finished else self.content[self.current_index][col]
+        if isinstance(cell, dict) and not finished:
+            return cell
+        last = min(self.current_index, len(self.content) - 1)
+        for row in range(last, -1, -1):
+            element = self.content[row][col]
+            if isinstance(element, dict) and (
+                element.get('rowspan', 1) > self.current_index - row
+            ):
+                rest = {'.': '', 'row': row}
                 for key in ('style', 'colspan', 'rowspan'):
                     if key in element:
                         rest[key] = element[key]
-        return rest
+                return rest
+        return cell
 
     def add_row(self, row: Iterable, is_delayed: bool=False) -> str:
         """Method to add a row to this table.
@@ -744,7 +760,7 @@ class PDFTable:
         return element, style, cell_style
 
     def _setup_cell_fill(
-        self, col: int, cell_style: dict, width: Number, rowspan: int
+        self, col: int, cell_style: dict, width: Number, rowspan: int, row: int
     ) -> None:
         """Method to optionally add the fill color in ``cell`style`` to
         attribute ``fills_mem``
@@ -754,12 +770,13 @@ class PDFTable:
             cell_style (dict): the cell style.
             width (Number): the width of the cell.
             rowspan (int): the rowspan of the cell.
+            row (int): the row where the cell starts.
         """
         fill_color = cell_style.get('cell_fill', None)
 
         if fill_color is None:
             fill_color = (
-                self.fills_defs.get(self.current_index, {}).get(col, None)
+                self.fills_defs.get(row, {}).get(col, None)
             )
 
         if fill_color is not None:
@@ -816,7 +833,9 @@ class PDFTable:
             'rowspan': element.get('rowspan', 1), 'row': row_added
         }
 
-        self._setup_cell_fill(col, cell_style, width + padd_x, rowspan)
+        self._setup_cell_fill(
+            col, cell_style, width + padd_x, rowspan, row_added
+        )
 
         keys = [key for key in element.keys() if key.startswith('.')]
 
-- 
2.43.0


From c156203250336b6669d368c7a152eb0a94c424c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:04 +0000
Subject: [PATCH 35/43] fix: right-aligned and centred lines of a list went
 beyond the right edge

---
 pdfme/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index b8fc2f0..e8d3f3d 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -834,7 +834,7 @@ class PDFTextBase:
         factor_width = self.width - words_width - x
         adjusted_indent = 0
         if self.text_align in ['r', 'c']:
-            indent = self.width - words_width - spaces_width
+            indent = self.width - x - words_width - spaces_width
             if self.text_align == 'c':
                 indent /= 2
             x += indent
-- 
2.43.0


From c575c33efaca7f42996a5ec48b863bf954ca548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:04 +0000
Subject: [PATCH 36/43] fix: the last line of a justified paragraph could be
 wider than the paragraph

---
 pdfme/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index e8d3f3d..8c5ce3e 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -830,7 +830,7 @@ class PDFTextBase:
         x = self.list_indent if self.list_text else 0
         line_height = line.height
         full_line_height = line_height
-        ignore_factor = self.text_align != 'j' or is_last or spaces_width == 0
+        ignore_factor = self.text_align != 'j' or spaces_width == 0
         factor_width = self.width - words_width - x
         adjusted_indent = 0
         if self.text_align in ['r', 'c']:
@@ -895,6 +895,8 @@ class PDFTextBase:
         self.y_ -= full_line_height
 
         factor = 1 if ignore_factor else factor_width / spaces_width
+        if is_last:
+            factor = min(max(factor, line.justify_min_factor), 1)
 
         for part in line.line_parts:
             text = self.clean_words(part.words)
-- 
2.43.0


From f74fe798659eb48944fc2f6dcdf90680840422fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:04 +0000
Subject: [PATCH 37/43] fix: the space at the end of a line was kept where
 another piece of text starts, so a justified line ended too early

---
 pdfme/text.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 8c5ce3e..39f2be7 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -348,11 +348,11 @@ class PDFTextLine:
                 if (self.min_width + self.next_line.min_width < self.max_width):
                     return {'status': 'preadded'}
                 else:
-                    if (
-                        len(self.line_parts[-1].words) and
-                        self.line_parts[-1].words[-1] == ' '
-                    ):
-                        self.line_parts[-1].pop_word(-1)
+                    for part in reversed(self.line_parts):
+                        while len(part.words) and part.words[-1] == ' ':
+                            part.pop_word(-1)
+                        if len(part.words):
+                            break
                     self.next_line.firstWordAdded = True
                     self.next_line.top_margin = self.bottom
                     self.next_line.next_line = PDFTextLine(
-- 
2.43.0


From 132488a6f0bb987a533c348d6ba0978869598936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:04 +0000
Subject: [PATCH 38/43] fix: a list whose marker is larger than its first line
 went below its height

---
 pdfme/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 39f2be7..99e3f94 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -757,6 +757,8 @@ class PDFTextBase:
             line_height *= self.line_height
         else:
             self.first_line_added = True
+            if self.list_text and self.is_first_line:
+                line_height = max(line_height, self.list_state.size)
 
         if line_height + self.current_height > self.height:
             self.last_part = self.last_part_line
-- 
2.43.0


From a6bc8ae9f807f1bf34ca941cd5b7b402cdec9ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:04 +0000
Subject: [PATCH 39/43] fix: lines of a list after a line break were as wide as
 the paragraph

---
 pdfme/text.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 99e3f94..5405ab5 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -659,8 +659,9 @@ class PDFTextBase:
                     self.last_word_added = 0
                     continue_ = self.add_current_line(True)
                     self.current_line = PDFTextLine(
-                        self.fonts, self.width, self.text_align,
-                        self.line_height
+                        self.fonts,
+                        self.width - (self.list_indent if self.list_text else 0),
+                        self.text_align, self.line_height
                     )
                     if not continue_:
                         return self.result
-- 
2.43.0


From 88e445a691deb1b14676b0df13f7db98522e8713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:04 +0000
Subject: [PATCH 40/43] fix: a list starting with a line break raised, and the
 indent of a list could change where it is continued

---
 pdfme/text.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 5405ab5..212afab 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -615,7 +615,10 @@ class PDFTextBase:
         self.lines = []
 
         line_width = self.width - (self.indent if self.is_first_line else 0)
-        if self.list_setup_done:
+        if self.list_text:
+            if not self.list_setup_done:
+                self.list_setup_done = True
+                self.setup_list()
             line_width -= self.list_indent
         self.current_line = PDFTextLine(
             self.fonts, line_width, self.text_align, self.line_height
@@ -700,10 +703,6 @@ class PDFTextBase:
             style=style, ids=part.get('ids')
         )
 
-        if not self.list_setup_done and self.list_text:
-            self.list_setup_done = True
-            self.setup_list()
-
         self.current_line_used_fonts.add((
             new_line_part.state.font_family,
             new_line_part.state.font_mode
@@ -789,7 +788,11 @@ class PDFTextBase:
             TypeError: if list_style or list_indent passed to this instance
                 are not a dict and an number respectively.
         """
-        style = self.current_line.next_line.line_parts[0].style.copy()
+        style = TEXT_DEFAULTS.copy()
+        for part in self.content:
+            if isinstance(part, dict) and ('text' in part or 'var' in part):
+                style.update(part.get('style', {}))
+                break
 
         if self.list_style is None:
             self.list_style = {}
@@ -818,7 +821,6 @@ class PDFTextBase:
             )
 
         self.list_state = line_part.state
-        self.current_line.max_width -= self.list_indent
 
     def add_line_to_stream(self, line: PDFTextLine, is_last:bool=False) -> None:
         """Function to add a PDFTextLine representing a paragraph line to the
-- 
2.43.0


From f545ec72ab845e981bcf8a55c482adc726704875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:24 +0000
Subject: [PATCH 41/43] fix: the line before the last one was not justified
 when the last one has a single word

---
 pdfme/text.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 212afab..49397d2 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -714,7 +714,6 @@ class PDFTextBase:
                 for w in re.split('( +)', words)
                 if w != ''
             ]
-        is_last_part = part_index == len(self.content) - 1
 
         for word_index in range(self.last_word, len(words)):
             word = words[word_index]
@@ -723,9 +722,7 @@ class PDFTextBase:
                 self.last_part_added = part_index
                 self.last_word_added = word_index + 1
             elif ans['status'] == 'finished':
-                continue_ = self.add_current_line(
-                    is_last_part and word_index == len(words) - 1
-                )
+                continue_ = self.add_current_line()
                 ans['new_line'].max_width = self.width - (
                     self.list_indent if self.list_text else 0
                 )
-- 
2.43.0


From 182c34666e0b47a6c5ea7409b56e8167724c7ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:24 +0000
Subject: [PATCH 42/43] fix: spaces on both sides of the start of a piece of
 text were added twice

---
 pdfme/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 49397d2..decbdcb 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -340,6 +340,7 @@ class PDFTextLine:
                 if self.is_last_word_space:
                     return {'status': 'ignored'}
                 else:
+                    self.is_last_word_space = True
                     self.add_accumulated()
                     return {'status': 'added'}
             else:
-- 
2.43.0


From a0e5ded443a3e8f14653b5cc80eeec9f5167809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:36 +0000
Subject: [PATCH 43/43] fix: the space at the end of a paragraph was part of
 the width of its last line

---
 pdfme/text.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index decbdcb..064286e 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -300,6 +300,15 @@ class PDFTextLine:
             PDFTextLinePart(last_part.style, self.fonts, last_part.ids)
         ]
 
+    def remove_last_spaces(self) -> None:
+        """Method to remove the spaces at the end of this line.
+        """
+        for part in reversed(self.line_parts):
+            while len(part.words) and part.words[-1] == ' ':
+                part.pop_word(-1)
+            if len(part.words):
+                break
+
     def add_word(self, word:str) -> dict:
         """Function to add a word to this line.
 
@@ -349,11 +358,7 @@ class PDFTextLine:
                 if (self.min_width + self.next_line.min_width < self.max_width):
                     return {'status': 'preadded'}
                 else:
-                    for part in reversed(self.line_parts):
-                        while len(part.words) and part.words[-1] == ' ':
-                            part.pop_word(-1)
-                        if len(part.words):
-                            break
+                    self.remove_last_spaces()
                     self.next_line.firstWordAdded = True
                     self.next_line.top_margin = self.bottom
                     self.next_line.next_line = PDFTextLine(
@@ -749,6 +754,7 @@ class PDFTextBase:
             self.current_line.line_parts.extend(
                 self.current_line.next_line.line_parts
             )
+            self.current_line.remove_last_spaces()
 
         line_height = self.current_line.height
         if self.first_line_added:
-- 
2.43.0

