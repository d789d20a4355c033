From 395b6599b1de7813c83aa9d270fbe9f09f509870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:42 +0000
Subject: [PATCH 01/30] fix: don't panic when displaying act ids without a
 roman numeral form

'2012/0' and '2012/4000' are accepted by FromStr, but roman::to() has no
answer for them, so writing them in an error message or using them as a
fixup file name panicked.
---
 src/identifier/act.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/identifier/act.rs b/src/identifier/act.rs
index f71eb21..3753deb 100644
--- a/src/identifier/act.rs
+++ b/src/identifier/act.rs
@@ -33,12 +33,11 @@ pub struct ActIdentifier {
 
 impl Display for ActIdentifier {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(
-            f,
-            "{:?}. évi {}. törvény",
-            self.year,
-            roman::to(self.number).unwrap()
-        )
+        match roman::to(self.number) {
+            Some(number) => write!(f, "{:?}. évi {number}. törvény", self.year),
+            // Not representable as a roman numeral (e.g. it was parsed from '2012/0')
+            None => write!(f, "{:?}. évi {}. törvény", self.year, self.number),
+        }
     }
 }
 
-- 
2.43.0


From 146291b48d1eb6805027aa6bd184b498c6181894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:42 +0000
Subject: [PATCH 02/30] fix: identifier 0 does not follow the largest one

is_next_from() used wrapping subtraction, so '0' was taken for the successor
of '65535', and article '0:1' for the successor of any article of book 255.
---
 src/identifier/article.rs | 2 +-
 src/identifier/numeric.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/identifier/article.rs b/src/identifier/article.rs
index 171416f..69ef51c 100644
--- a/src/identifier/article.rs
+++ b/src/identifier/article.rs
@@ -44,7 +44,7 @@ impl IdentifierCommon for ArticleIdentifier {
         match (self.book, other.book) {
             (None, None) => self.identifier.is_next_from(other.identifier),
             (Some(bs), Some(bo)) if bs == bo => self.identifier.is_next_from(other.identifier),
-            (Some(bs), Some(bo)) if bs.wrapping_sub(bo) == 1 => self.identifier.is_first(),
+            (Some(bs), Some(bo)) if bs.checked_sub(bo) == Some(1) => self.identifier.is_first(),
             _ => false,
         }
     }
diff --git a/src/identifier/numeric.rs b/src/identifier/numeric.rs
index 57fb40b..17270b0 100644
--- a/src/identifier/numeric.rs
+++ b/src/identifier/numeric.rs
@@ -92,7 +92,7 @@ impl NumericIdentifier {
 impl IdentifierCommon for NumericIdentifier {
     fn is_next_from(&self, other: Self) -> bool {
         match (self.suffix, other.suffix) {
-            (None, _) => self.num.wrapping_sub(other.num) == 1,
+            (None, _) => self.num.checked_sub(other.num) == Some(1),
             (Some(ss), None) => self.num == other.num && ss.is_first(),
             (Some(ss), Some(so)) => self.num == other.num && ss.is_next_from(so),
         }
-- 
2.43.0


From 8b010d2bb781ccd3a4532b5777799ce826416ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 03/30] fix: a reference with missing outer parts is not the
 parent of unrelated elements
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

1. § a) pont (no paragraph) was considered the parent of, and to contain
1. § (2) bekezdés b) pont, and a relative a) pont every paragraph and article.
---
 src/reference/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/reference/mod.rs b/src/reference/mod.rs
index 312c0f7..b996273 100644
--- a/src/reference/mod.rs
+++ b/src/reference/mod.rs
@@ -248,16 +248,23 @@ impl Reference {
     }
 
     pub fn is_parent_of(&self, other: &Reference) -> bool {
+        // The parent must not have any parts below the point of divergence. Checking
+        // only the diverging part is not enough, because outer parts may be missing
+        // from a Reference that has inner ones.
+        let no_subpoint = self.subpoint.is_none();
+        let no_point = self.point.is_none() && no_subpoint;
+        let no_paragraph = self.paragraph.is_none() && no_point;
+        let no_article = self.article.is_none() && no_paragraph;
         if self.act != other.act {
             false
         } else if self.article != other.article {
-            self.article.is_none()
+            no_article
         } else if self.paragraph != other.paragraph {
-            self.paragraph.is_none()
+            no_paragraph
         } else if self.point != other.point {
-            self.point.is_none()
+            no_point
         } else if self.subpoint != other.subpoint {
-            self.subpoint.is_none()
+            no_subpoint
         } else {
             false
         }
-- 
2.43.0


From e870cc4c4badf28f9ad7dc63415d29e0608cd201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:27 +0000
Subject: [PATCH 04/30] fix: don't panic on slicing a line from its very end
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A header line with nothing after the header ('(1) ', '1. § ') has an empty rest
that starts at the end of the line. Only the end index was prepared for that.
---
 src/util/indentedline.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/util/indentedline.rs b/src/util/indentedline.rs
index 6263f72..e5647ab 100644
--- a/src/util/indentedline.rs
+++ b/src/util/indentedline.rs
@@ -125,21 +125,18 @@ impl IndentedLine {
     }
 
     pub fn slice_bytes(&self, from: usize, to: Option<usize>) -> IndentedLine {
-        let chars_from = self
-            .content()
-            .char_indices()
-            .position(|(cp, _)| cp == from)
-            .unwrap() as i64;
-        let chars_to = to.map(|to_inner| {
-            if to_inner >= self.content().as_bytes().len() {
-                self.content().chars().count() as i64
+        let to_char_index = |byte_index: usize| {
+            if byte_index >= self.content().len() {
+                self.len() as i64
             } else {
                 self.content()
                     .char_indices()
-                    .position(|(cp, _)| cp == to_inner)
+                    .position(|(cp, _)| cp == byte_index)
                     .unwrap() as i64
             }
-        });
+        };
+        let chars_from = to_char_index(from);
+        let chars_to = to.map(to_char_index);
         self.slice(chars_from, chars_to)
     }
 
-- 
2.43.0


From 6a030a47fdf07b1026bd4b1b1c7275da580320bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:51 +0000
Subject: [PATCH 05/30] fix: do not crash on an article that has nothing but a
 title

---
 src/parser/structure/article.rs | 2 +-
 src/parser/structure/sae.rs     | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/structure/article.rs b/src/parser/structure/article.rs
index facfa47..b02914e 100644
--- a/src/parser/structure/article.rs
+++ b/src/parser/structure/article.rs
@@ -102,7 +102,7 @@ impl ArticleParser {
         // amendment in 2013. évi CCLII. törvény 185. § (18)
         // There can only be at most 1 consecutive EMPTY_LINE because of previous
         // preprocessing in the PDF extractor.
-        if self.lines[0].is_empty() {
+        if self.lines.first().map_or(false, IndentedLine::is_empty) {
             self.lines.remove(0);
         }
         let extracted = ParagraphParser.extract_multiple(
diff --git a/src/parser/structure/sae.rs b/src/parser/structure/sae.rs
index a17d1ec..774e137 100644
--- a/src/parser/structure/sae.rs
+++ b/src/parser/structure/sae.rs
@@ -172,9 +172,12 @@ pub trait SAEParser: Debug {
     where
         T: From<Vec<SubArticleElement<Self::IdentifierType, Self::ChildrenType>>>,
     {
+        let first_line = lines
+            .first()
+            .ok_or_else(|| anyhow!("No lines to parse for {self:?}"))?;
         let (mut identifier, first_line_rest) = self
-            .parse_header(&lines[0])
-            .ok_or_else(|| anyhow!("Invalid header for {self:?}: '{}'", lines[0].content()))?;
+            .parse_header(first_line)
+            .ok_or_else(|| anyhow!("Invalid header for {self:?}: '{}'", first_line.content()))?;
         if let Some(ei) = expected_identifier {
             ensure!(
                 identifier == ei,
@@ -187,7 +190,7 @@ pub trait SAEParser: Debug {
         quote_checker.update(&first_line_rest)?;
         let mut elements: Vec<_> = Vec::new();
         let mut body: Vec<IndentedLine> = vec![first_line_rest];
-        let header_indent = lines[0].indent();
+        let header_indent = first_line.indent();
 
         for line in &lines[1..] {
             quote_checker.update(line)?;
-- 
2.43.0


From fd6b5781150c490644ed857d12d76a99e8e2ccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:51 +0000
Subject: [PATCH 06/30] fix: do not crash on converting an empty structural
 block amendment

---
 src/parser/structure/block_amendment.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 38d2aa7..67ba64f 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -112,6 +112,8 @@ fn convert_structural_block_amendment(
     position: &StructuralReference,
     lines: &[IndentedLine],
 ) -> Result<Vec<ActChild>> {
+    ensure!(!lines.is_empty());
+
     if let StructuralReferenceElement::Article(article_id) = position.structural_element {
         convert_articles(article_id.first_in_range(), lines)
     } else if position.title_only {
-- 
2.43.0


From 2deb6e151ccbe04fb9e5238b465443d41791a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:29 +0000
Subject: [PATCH 07/30] fix: don't take an article header quoted in an amended
 article for a new article

---
 src/parser/structure/block_amendment.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 67ba64f..20665fd 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -38,7 +38,7 @@ use crate::{
         Act, ActChild, Article, BlockAmendment, BlockAmendmentChildren, Paragraph,
         ParagraphChildren, SAEBody, StructuralBlockAmendment, StructuralElementType,
     },
-    util::{debug::WithElemContext, indentedline::IndentedLine},
+    util::{debug::WithElemContext, indentedline::IndentedLine, QuoteCheck},
 };
 
 impl Act {
@@ -190,14 +190,20 @@ fn convert_articles(first_id: ArticleIdentifier, lines: &[IndentedLine]) -> Resu
         .with_context(|| {
             anyhow!("First line of amendment could not be parsed into an article header",)
         })?;
+    let mut quote_checker = QuoteCheck::default();
+    quote_checker.update(&lines[0])?;
     for line in &lines[1..] {
-        if let Ok(new_parser) = factory.try_create_from_header(line, None) {
+        quote_checker.update(line)?;
+        if quote_checker.beginning_is_quoted {
+            parser.feed_line(line);
+        } else if let Ok(new_parser) = factory.try_create_from_header(line, None) {
             result.push(parser.finish()?.into());
             parser = new_parser;
         } else {
             parser.feed_line(line);
         }
     }
+    quote_checker.check_end()?;
     result.push(parser.finish()?.into());
     Ok(result)
 }
-- 
2.43.0


From 4153811ee77e253b86893315946ece60a971497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:57 +0000
Subject: [PATCH 08/30] fix: don't lose an act that has two empty lines before
 its header

---
 src/parser/mk_act_section.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/mk_act_section.rs b/src/parser/mk_act_section.rs
index 3a3c9ce..cf183f2 100644
--- a/src/parser/mk_act_section.rs
+++ b/src/parser/mk_act_section.rs
@@ -91,6 +91,10 @@ impl ActExtractor {
     }
 
     fn wait_for_header(&mut self, line: &IndentedLine) -> ActExtractionState {
+        // Any number of empty lines may come before the header, e.g. at page boundaries
+        if line.is_empty() {
+            return WaitingForHeader;
+        }
         if let Some((_, year_str, num_str)) = regex_captures!(
             "^([12][09][0-9][0-9]). évi ([IVXLC]+). törvény",
             line.content()
-- 
2.43.0


From b15a8c791c745da7b468b67286305f270db35c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:39 +0000
Subject: [PATCH 09/30] fix: don't mix up the fonts of different pages of a PDF

The font cache was keyed by the address of the Font object, but with an
uncached file those are dropped with their page (or form, or graphics
state), and another font could get the same address.
---
 src/parser/pdf/font.rs | 15 ++++++++++-----
 src/parser/pdf/page.rs |  4 ++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index 1d0fc34..11d3681 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -23,7 +23,7 @@ use anyhow::{anyhow, bail, Result};
 use pdf::{
     encoding::{BaseEncoding, Encoding as PdfEncoding},
     font::{Font, FontData, ToUnicodeMap, Widths},
-    object::Resolve,
+    object::{MaybeRef, PlainRef, Resolve},
 };
 use pdf_encoding::glyphname_to_unicode;
 
@@ -155,13 +155,18 @@ impl FastFont {
 
 #[derive(Debug, Default)]
 pub struct FontCache {
-    cache: HashMap<usize, Rc<FastFont>>,
+    cache: HashMap<PlainRef, Rc<FastFont>>,
 }
 
 impl FontCache {
-    pub fn get(&mut self, font: &Font, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
-        let entry = self.cache.entry(font as *const Font as usize);
-        Ok(match entry {
+    pub fn get(&mut self, font: &MaybeRef<Font>, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
+        // The Font object itself may be dropped at any time, so its
+        // address cannot be used to identify it.
+        let font_ref = match font.as_ref() {
+            Some(font_ref) => font_ref.get_inner(),
+            None => return Ok(Rc::new(FastFont::convert(font, resolve)?)),
+        };
+        Ok(match self.cache.entry(font_ref) {
             hash_map::Entry::Occupied(e) => e.get().clone(),
             hash_map::Entry::Vacant(e) => {
                 let fast_font = Rc::new(FastFont::convert(font, resolve)?);
diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 71b0b6e..17e4cd8 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -130,7 +130,7 @@ where
         Ok(())
     }
 
-    fn set_font(&mut self, font: &Font, size: f32) -> Result<()> {
+    fn set_font(&mut self, font: &MaybeRef<Font>, size: f32) -> Result<()> {
         let fast_font = self.font_cache.get(font, self.pdf_file)?;
         self.collector.font_changed(&fast_font)?;
         self.state.font = Some(fast_font);
@@ -216,7 +216,7 @@ where
                     .ok_or_else(|| anyhow!("Did not find graphics state resource"))?
                     .font
                 {
-                    self.set_font(&*self.pdf_file.get(font_ref)?, size)?;
+                    self.set_font(&self.pdf_file.get(font_ref)?.into(), size)?;
                 }
             }
             Op::TextFont { name, size } => {
-- 
2.43.0


From 16459594899f76e07e51a2fbb581c3ff27c5c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:50 +0000
Subject: [PATCH 10/30] fix: restore the boldness and space width of text with
 the PDF graphics state

Boldness and the width of a space are kept in the collector, which wasn't
told about the font changing back at the end of a q..Q block or a form.
---
 src/parser/pdf/page.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 17e4cd8..a037671 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -16,7 +16,7 @@
 
 use std::rc::Rc;
 
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, Context, Result};
 use euclid::Transform2D;
 use pdf::{
     content::{Op, TextDrawAdjusted},
@@ -138,6 +138,18 @@ where
         Ok(())
     }
 
+    fn restore_state(&mut self) -> Result<()> {
+        self.state = self
+            .state_stack
+            .pop()
+            .ok_or_else(|| anyhow!("State stack empty"))?;
+        // The collector has to know about the font being changed back too.
+        if let Some(font) = &self.state.font {
+            self.collector.font_changed(font)?;
+        }
+        Ok(())
+    }
+
     fn handle_xobject(&mut self, name: Name) -> Result<()> {
         let resources = self.resources()?;
         let xobject_ref = resources
@@ -165,10 +177,8 @@ where
         }
 
         // Load back the stuff
-        self.state = self
-            .state_stack
-            .pop()
-            .ok_or_else(|| anyhow!("State stack empty after Form rendering"))?;
+        self.restore_state()
+            .with_context(|| anyhow!("State stack empty after Form rendering"))?;
         self.resources = saved_resources;
         Ok(())
     }
@@ -200,12 +210,7 @@ where
 
             // --- State stack ---
             Op::Save => self.state_stack.push(self.state.clone()),
-            Op::Restore => {
-                self.state = self
-                    .state_stack
-                    .pop()
-                    .ok_or_else(|| anyhow!("State stack empty"))?
-            }
+            Op::Restore => self.restore_state()?,
 
             // --- Font stuff ---
             Op::GraphicsState { name } => {
-- 
2.43.0


From 9d7dee1d6b9d3efaac940a6ca75a55ea25c7d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:28 +0000
Subject: [PATCH 11/30] fix: don't lose PDF characters with an unknown glyph
 name but a ToUnicode entry

---
 src/parser/pdf/font.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index 11d3681..d227dd2 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -128,6 +128,8 @@ impl FastFont {
             self.smap.insert(cid, s.to_string());
             return;
         }
+        // This mapping overrides all previous ones
+        self.smap.remove(&cid);
         if cid as usize >= self.cmap.len() {
             self.cmap.resize(cid as usize + 1, '\u{0}');
         }
-- 
2.43.0


From 55a35c88770c3f3f843f77d8a5bc2a2e3432a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:35 +0000
Subject: [PATCH 12/30] fix: also map the last character code of single byte
 PDF encodings

---
 src/parser/pdf/font.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index d227dd2..7e7842b 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -80,7 +80,7 @@ impl FastFont {
             BaseEncoding::MacRomanEncoding => self.process_base_encoding(&pdf_encoding::MACROMAN),
             BaseEncoding::WinAnsiEncoding => {
                 let mut tmp = [0u8; 4];
-                for cid in 0..255 {
+                for cid in 0..=255 {
                     if let Some(c) = pdf_encoding::WINANSI.get(cid) {
                         self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
                     } else if cid > 30 {
@@ -110,7 +110,7 @@ impl FastFont {
 
     fn process_base_encoding(&mut self, map: &pdf_encoding::ForwardMap) {
         let mut tmp = [0u8; 4];
-        for cid in 0..255 {
+        for cid in 0..=255 {
             if let Some(c) = map.get(cid) {
                 self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
             }
-- 
2.43.0


From 50ff6a39261e6bcf4fb63c33eb00690a75beeb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:35 +0000
Subject: [PATCH 13/30] fix: use the resources pages inherit from the PDF page
 tree

---
 src/parser/pdf/page.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index a037671..5eef516 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -68,7 +68,8 @@ where
         collector: &'a mut CharCollector,
     ) -> Result<Self> {
         Ok(Self {
-            resources: page.resources.clone(),
+            // Not just the field, because resources may be inherited from the page tree
+            resources: page.resources().ok().cloned(),
             page,
             pdf_file,
             font_cache,
-- 
2.43.0


From ff6572f6f67726007fb6612041f2198b21b88cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:51 +0000
Subject: [PATCH 14/30] fix: do not crash on text output narrower than the
 indentation

---
 src/output/text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output/text.rs b/src/output/text.rs
index a31c9fd..8e9b79a 100644
--- a/src/output/text.rs
+++ b/src/output/text.rs
@@ -303,7 +303,8 @@ impl TextOutputParams {
     }
 
     fn write_wrapped_line(&mut self, writer: &mut impl Write, text: &str) -> Result<()> {
-        for line in textwrap::wrap(text, self.width - self.indentation_level * 5) {
+        let width = self.width.saturating_sub(self.indentation_level * 5);
+        for line in textwrap::wrap(text, width) {
             self.write_indent_if_needed(writer)?;
             writer.write_all(line.as_bytes())?;
             self.write_newline(writer)?;
-- 
2.43.0


From 982bc768886d7f1aba47fae410ee689354a4b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:28 +0000
Subject: [PATCH 15/30] fix: don't crash when a line is cleared completely in
 the fixup editor

---
 src/bin/hun_law/fixup_editor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/hun_law/fixup_editor.rs b/src/bin/hun_law/fixup_editor.rs
index b79ae26..5b2551c 100644
--- a/src/bin/hun_law/fixup_editor.rs
+++ b/src/bin/hun_law/fixup_editor.rs
@@ -73,7 +73,11 @@ pub fn run_fixup_editor(act: &ActRawText, editor: &str) -> Result<()> {
         .iter()
         .map(|l| l.content().trim().to_owned())
         .collect();
-    let new_lines = contents.lines().map(|l| l[5..].trim().to_owned()).collect();
+    // A line to be deleted may also have been cleared together with its prefix
+    let new_lines = contents
+        .lines()
+        .map(|l| l.chars().skip(5).collect::<String>().trim().to_owned())
+        .collect();
     let mut fixups = Fixups::load(act.identifier)?;
     update_fixups(&mut fixups, old_lines, new_lines)?;
     fixups.save()?;
-- 
2.43.0


From 1300fa3502d195ceff5c097319cd1a96a864a936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:07 +0000
Subject: [PATCH 16/30] fix: don't lose the changes of an editor that saves by
 replacing the file

---
 src/bin/hun_law/fixup_editor.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bin/hun_law/fixup_editor.rs b/src/bin/hun_law/fixup_editor.rs
index 5b2551c..2f29645 100644
--- a/src/bin/hun_law/fixup_editor.rs
+++ b/src/bin/hun_law/fixup_editor.rs
@@ -14,7 +14,7 @@
 // You should have received a copy of the GNU General Public License
 // along with Hun-law. If not, see <http://www.gnu.org/licenses/>.
 
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::Write;
 
 use anyhow::{anyhow, ensure, Result};
 use hun_law::{
@@ -65,9 +65,8 @@ pub fn run_fixup_editor(act: &ActRawText, editor: &str) -> Result<()> {
         .arg(format!("+{}", open_at_line + 1))
         .status()?;
 
-    let mut contents = String::new();
-    temp_file.seek(SeekFrom::Start(0))?;
-    temp_file.read_to_string(&mut contents)?;
+    // The editor may have replaced the file, so the already open one is of no use.
+    let contents = std::fs::read_to_string(temp_file.path())?;
     let old_lines = act
         .body
         .iter()
-- 
2.43.0


From 88a83b7c39af718bd226340160d718bc13467114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:15 +0000
Subject: [PATCH 17/30] fix: never leave a partially written gazette issue in
 the cache

---
 src/mk_downloader.rs    |  4 ++--
 src/util/atomic_file.rs | 37 +++++++++++++++++++++++++++++++++++++
 src/util/mod.rs         |  1 +
 3 files changed, 40 insertions(+), 2 deletions(-)
 create mode 100644 src/util/atomic_file.rs

diff --git a/src/mk_downloader.rs b/src/mk_downloader.rs
index b43ae89..d437cc7 100644
--- a/src/mk_downloader.rs
+++ b/src/mk_downloader.rs
@@ -21,7 +21,7 @@ use std::{io::Read, path::Path};
 use anyhow::{ensure, Result};
 use log::info;
 
-use crate::parser::pdf::CropBox;
+use crate::{parser::pdf::CropBox, util::atomic_file::write_atomically};
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
 pub struct MkIssue {
@@ -77,6 +77,6 @@ pub fn download_mk_issue(issue: &MkIssue, cache_dir: &Path) -> Result<Vec<u8>> {
     if let Some(file_dir) = file_path.parent() {
         fs::create_dir_all(file_dir)?;
     }
-    fs::write(file_path, &http_body)?;
+    write_atomically(&file_path, &http_body)?;
     Ok(http_body)
 }
diff --git a/src/util/atomic_file.rs b/src/util/atomic_file.rs
new file mode 100644
index 0000000..02ce38a
--- /dev/null
+++ b/src/util/atomic_file.rs
@@ -0,0 +1,37 @@
+// Copyright (C) 2022, Alex Badics
+//
+// This file is part of Hun-Law.
+//
+// Hun-law is free software: you can redistribute it and/or modify
+// it under the terms of the GNU General Public License as published by
+// the Free Software Foundation, version 3 of the License.
+//
+// Hun-law is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU General Public License for more details.
+//
+// You should have received a copy of the GNU General Public License
+// along with Hun-law. If not, see <http://www.gnu.org/licenses/>.
+
+use std::{io::Write, path::Path};
+
+use anyhow::Result;
+
+/// Write a file in one step.
+///
+/// If writing fails or gets interrupted, whatever was at the path before is still there unchanged.
+pub fn write_atomically(path: &Path, contents: &[u8]) -> Result<()> {
+    let mut builder = tempfile::Builder::new();
+    // Temporary files are private by default, but this one will not stay temporary.
+    #[cfg(unix)]
+    builder.permissions(std::os::unix::fs::PermissionsExt::from_mode(0o666));
+    let mut file = match path.parent() {
+        Some(dir) => builder.tempfile_in(dir)?,
+        None => builder.tempfile_in(".")?,
+    };
+    file.write_all(contents)?;
+    file.as_file().sync_all()?;
+    file.persist(path)?;
+    Ok(())
+}
diff --git a/src/util/mod.rs b/src/util/mod.rs
index c164917..58a85da 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -16,6 +16,7 @@
 
 use anyhow::{ensure, Result};
 
+pub mod atomic_file;
 pub mod compact_string;
 pub mod debug;
 pub mod hun_str;
-- 
2.43.0


From 2a825858ffac76578d4f8652ac710f67c80dc8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:15 +0000
Subject: [PATCH 18/30] fix: never leave a partially written fixup file behind

---
 src/fixups.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fixups.rs b/src/fixups.rs
index ace4bfe..ae62800 100644
--- a/src/fixups.rs
+++ b/src/fixups.rs
@@ -25,6 +25,7 @@ use serde::{Deserialize, Serialize};
 use crate::{
     identifier::ActIdentifier,
     util::{
+        atomic_file::write_atomically,
         debug::{DebugContextString, WithElemContext},
         indentedline::{IndentedLine, IndentedLinePart, EMPTY_LINE},
         singleton_yaml,
@@ -76,8 +77,9 @@ impl Fixups {
                 .parent()
                 .ok_or_else(|| anyhow!("No parent for fixup_path"))?,
         )?;
-        singleton_yaml::to_writer(&mut File::create(&self.fixup_path)?, &self.fixups)?;
-        Ok(())
+        let mut contents = Vec::new();
+        singleton_yaml::to_writer(&mut contents, &self.fixups)?;
+        write_atomically(&self.fixup_path, &contents)
     }
 
     pub fn apply(&self, lines: &mut [IndentedLine]) -> Result<()> {
-- 
2.43.0


From 2c3e9050b4d8d9db77886853e2b13f9b63f1dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:15 +0000
Subject: [PATCH 19/30] fix: don't take fixups that cannot be accessed for no
 fixups

---
 src/fixups.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fixups.rs b/src/fixups.rs
index ae62800..96f2ee8 100644
--- a/src/fixups.rs
+++ b/src/fixups.rs
@@ -16,6 +16,7 @@
 
 use std::{
     fs::{create_dir_all, File},
+    io::ErrorKind,
     path::PathBuf,
 };
 
@@ -59,10 +60,10 @@ impl Fixups {
         let fixup_path = base_dir
             .join(act_id.year.to_string())
             .join(format!("{act_id}.yml"));
-        let fixups = if fixup_path.exists() {
-            singleton_yaml::from_reader(File::open(&fixup_path)?)?
-        } else {
-            Vec::new()
+        let fixups = match File::open(&fixup_path) {
+            Ok(file) => singleton_yaml::from_reader(file)?,
+            Err(e) if e.kind() == ErrorKind::NotFound => Vec::new(),
+            Err(e) => return Err(e.into()),
         };
         Ok(Self { fixups, fixup_path })
     }
-- 
2.43.0


From 4360894614f4122557c454a0ff3e11f5a93c723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:13 +0000
Subject: [PATCH 20/30] fix: prefer the longest known abbreviation

---
 hun_law_grammar/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hun_law_grammar/src/lib.rs b/hun_law_grammar/src/lib.rs
index 6f6b7b4..c80ed18 100644
--- a/hun_law_grammar/src/lib.rs
+++ b/hun_law_grammar/src/lib.rs
@@ -43,10 +43,12 @@ pub fn parse_abbreviation(
     s: &str,
     state: &mut CustomParseState,
 ) -> Result<(String, usize), &'static str> {
-    for known_abbrev in &state.known_abbreviations {
-        if s.starts_with(known_abbrev) {
-            return Ok((known_abbrev.clone(), known_abbrev.len()));
-        }
-    }
-    Err("Not a known abbreviation")
+    // One abbreviation may be the beginning of another ("Bv." and "Bv. tv."): the longest one is meant.
+    state
+        .known_abbreviations
+        .iter()
+        .filter(|known_abbrev| s.starts_with(known_abbrev.as_str()))
+        .max_by_key(|known_abbrev| known_abbrev.len())
+        .map(|known_abbrev| (known_abbrev.clone(), known_abbrev.len()))
+        .ok_or("Not a known abbreviation")
 }
-- 
2.43.0


From 0da5c79137595f9b0702855f72b34d5312e4d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:08 +0000
Subject: [PATCH 21/30] fix: recognize the repeal of an act named by an
 abbreviation at the end of the sentence

---
 hun_law_grammar/grammar.ebnf | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hun_law_grammar/grammar.ebnf b/hun_law_grammar/grammar.ebnf
index 69e1c4b..45cff7c 100644
--- a/hun_law_grammar/grammar.ebnf
+++ b/hun_law_grammar/grammar.ebnf
@@ -454,7 +454,8 @@ Repeal =
     Az ActTitle act_reference:ActReference
     { (references:TextAmendmentReference) [ListSeparator] }
     { [Az] texts:Quote [TextAmendmentToken] [ListSeparator]}
-    "."
+    # The final stop may have been a part of an abbreviation
+    ["."]
     ;
 
 # ============ SIMPLE TOKENS ============
-- 
2.43.0


From b00bb972ff89c41472f8b1821861d69d79bd418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:55 +0000
Subject: [PATCH 22/30] fix: don't judge the intro of a list by the phrase it
 would be without the list

---
 src/parser/semantic_info/sae.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/parser/semantic_info/sae.rs b/src/parser/semantic_info/sae.rs
index fe8e3f4..ced7bbd 100644
--- a/src/parser/semantic_info/sae.rs
+++ b/src/parser/semantic_info/sae.rs
@@ -70,7 +70,7 @@ impl<'a> SAEVisitorMut for SemanticInfoAdder<'a> {
                 element.semantic_info = self.extract_semantic_info(text)?;
             }
             SAEBody::Children { intro, wrap_up, .. } => {
-                element.semantic_info = self.extract_semantic_info(intro)?;
+                element.semantic_info = self.extract_intro_semantic_info(intro)?;
                 if let Some(sp) = &element.semantic_info.special_phrase {
                     match sp {
                         // Only leave these in, the rest may not go into the intro section.
@@ -126,6 +126,32 @@ impl<'a> SemanticInfoAdder<'a> {
         // check for len(text) > 10000:
         // check for not any(s in text for s in (")", "§", "törvén", "hely", "hatály", "Hatály"))
 
+        self.extract_semantic_info_with(middle, |abbreviation_cache, parsed| {
+            extract_special_phrase(abbreviation_cache, parsed)
+        })
+    }
+
+    /// Intros are only part of a sentence, so phrases that may not end there are not converted:
+    /// they may be invalid without the rest of the sentence.
+    fn extract_intro_semantic_info(&mut self, intro: &str) -> Result<SemanticInfo> {
+        self.extract_semantic_info_with(intro, |abbreviation_cache, parsed| match parsed.content {
+            hun_law_grammar::Root_content::BlockAmendment(_)
+            | hun_law_grammar::Root_content::BlockAmendmentStructural(_)
+            | hun_law_grammar::Root_content::BlockAmendmentWithSubtitle(_) => {
+                extract_special_phrase(abbreviation_cache, parsed)
+            }
+            _ => Ok(None),
+        })
+    }
+
+    fn extract_semantic_info_with(
+        &mut self,
+        middle: &str,
+        extract_phrase: impl FnOnce(
+            &AbbreviationCache,
+            &hun_law_grammar::Root,
+        ) -> Result<Option<SpecialPhrase>>,
+    ) -> Result<SemanticInfo> {
         let s = assemble_to_be_parsed_text(self.prefix(), middle, self.postfix());
         let parsed = grammar_parse(&s, self.abbreviation_cache.all_abbreviations())?;
         let new_abbreviations = get_new_abbreviations(&parsed)?;
@@ -138,7 +164,7 @@ impl<'a> SemanticInfoAdder<'a> {
             })
             .collect();
 
-        let special_phrase = extract_special_phrase(self.abbreviation_cache, &parsed)
+        let special_phrase = extract_phrase(self.abbreviation_cache, &parsed)
             .with_context(|| format!("Could not extract special phrase from '{s}'"))?;
         Ok(SemanticInfo {
             outgoing_references,
-- 
2.43.0


From dc48bedb9dc170fe7d24ca68701df47f8c39ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:54 +0000
Subject: [PATCH 23/30] fix: report failure if an issue could not be processed

---
 src/bin/hun_law/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/hun_law/main.rs b/src/bin/hun_law/main.rs
index c35f5b5..42efb56 100644
--- a/src/bin/hun_law/main.rs
+++ b/src/bin/hun_law/main.rs
@@ -137,7 +137,8 @@ fn main() -> Result<()> {
             }
             Ok(())
         }() {
-            println!("{e:#?}");
+            log::error!("{e:?}");
+            everything_ok = false;
         }
     }
     if everything_ok {
-- 
2.43.0


From 3594eb7b1819c6cdb95badb22ceeb69ad888392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:19 +0000
Subject: [PATCH 24/30] fix: report failure if a requested act was not found in
 its issue

---
 src/bin/hun_law/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bin/hun_law/main.rs b/src/bin/hun_law/main.rs
index 42efb56..537310f 100644
--- a/src/bin/hun_law/main.rs
+++ b/src/bin/hun_law/main.rs
@@ -105,6 +105,7 @@ fn main() -> Result<()> {
 
     let mut everything_ok = true;
     let (issues, acts) = get_issues(&args)?;
+    let mut missing_acts = acts.clone();
     for issue in &issues {
         if let Err(e) = || -> Result<()> {
             let mk_name = format!("mk_{}_{}", issue.year, issue.issue);
@@ -123,6 +124,7 @@ fn main() -> Result<()> {
                     log::info!("Skipping {}", act.identifier);
                     continue;
                 }
+                missing_acts.retain(|id| *id != act.identifier);
 
                 let mut output = get_output(&act.identifier.to_string(), &args)?;
                 let process_result = if args.interactive {
@@ -141,6 +143,12 @@ fn main() -> Result<()> {
             everything_ok = false;
         }
     }
+    if args.parse_until != ParsingStep::PdfLines {
+        for id in &missing_acts {
+            log::error!("{id} was not found in its issue");
+            everything_ok = false;
+        }
+    }
     if everything_ok {
         Ok(())
     } else {
-- 
2.43.0


From 37270f92b1ee0e9c249dd7e4e08924060608abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:53 +0000
Subject: [PATCH 25/30] fix: don't take the end of the input for a consent to
 start the editor

---
 src/bin/hun_law/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/hun_law/main.rs b/src/bin/hun_law/main.rs
index 537310f..15d7f0b 100644
--- a/src/bin/hun_law/main.rs
+++ b/src/bin/hun_law/main.rs
@@ -288,7 +288,10 @@ fn process_single_act(
 fn confirm(s: &str) -> Result<bool> {
     eprint!("{s} [Y/n]");
     let mut buf = String::new();
-    std::io::stdin().read_line(&mut buf)?;
+    if std::io::stdin().read_line(&mut buf)? == 0 {
+        // There is nobody to answer
+        return Ok(false);
+    }
     buf.make_ascii_lowercase();
     Ok(buf.trim().is_empty() || buf.starts_with('y'))
 }
-- 
2.43.0


From 0b3dfdcbd146f86591ce4ba333ff8ecba4250010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:21 +0000
Subject: [PATCH 26/30] fix: start the output of an act anew at every attempt

---
 src/bin/hun_law/main.rs | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/bin/hun_law/main.rs b/src/bin/hun_law/main.rs
index 15d7f0b..beaff7b 100644
--- a/src/bin/hun_law/main.rs
+++ b/src/bin/hun_law/main.rs
@@ -126,11 +126,10 @@ fn main() -> Result<()> {
                 }
                 missing_acts.retain(|id| *id != act.identifier);
 
-                let mut output = get_output(&act.identifier.to_string(), &args)?;
                 let process_result = if args.interactive {
-                    process_single_act_interactive(act, &args, &mut output)
+                    process_single_act_interactive(act, &args)
                 } else {
-                    process_single_act(act, &args, &mut output)
+                    process_single_act(act, &args)
                 };
                 if let Err(error) = process_result {
                     log::error!("{error:?}");
@@ -235,12 +234,8 @@ fn get_issues(args: &HunLawArgs) -> Result<(Vec<MkIssue>, Vec<ActIdentifier>)> {
     }
 }
 
-fn process_single_act_interactive(
-    act_raw: ActRawText,
-    args: &HunLawArgs,
-    output: &mut impl std::io::Write,
-) -> Result<()> {
-    while let Err(error) = process_single_act(act_raw.clone(), args, output) {
+fn process_single_act_interactive(act_raw: ActRawText, args: &HunLawArgs) -> Result<()> {
+    while let Err(error) = process_single_act(act_raw.clone(), args) {
         log::error!("{error:?}");
         if confirm("Try to fix issue in editor?")? {
             // TODO: Remove this duplicate code somehow
@@ -256,28 +251,26 @@ fn process_single_act_interactive(
     Ok(())
 }
 
-fn process_single_act(
-    mut act_raw: ActRawText,
-    args: &HunLawArgs,
-    output: &mut impl std::io::Write,
-) -> Result<()> {
+fn process_single_act(mut act_raw: ActRawText, args: &HunLawArgs) -> Result<()> {
+    // Every attempt starts its output anew
+    let mut output = get_output(&act_raw.identifier.to_string(), args)?;
     info!("Parsing {}", act_raw.identifier);
     Fixups::load(act_raw.identifier)?.apply(&mut act_raw.body)?;
     act_raw.remove_double_empty_lines();
 
     if args.parse_until == ParsingStep::ActLines {
-        return act_raw.cli_output(args.width, args.output_format, output);
+        return act_raw.cli_output(args.width, args.output_format, &mut output);
     }
 
     let mut act = parse_act_structure(&act_raw)?;
 
     if args.parse_until == ParsingStep::Structure {
-        return act.cli_output(args.width, args.output_format, output);
+        return act.cli_output(args.width, args.output_format, &mut output);
     }
 
     act.add_semantic_info()?;
     act.convert_block_amendments()?;
-    act.cli_output(args.width, args.output_format, output)?;
+    act.cli_output(args.width, args.output_format, &mut output)?;
     if args.force_fixup_editor {
         Err(anyhow!("Forcing fixup editor because of parameters"))
     } else {
-- 
2.43.0


From 010438cadf939a7ca539762bb36907bcd89825fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:11 +0000
Subject: [PATCH 27/30] fix: keep the empty lines for the fixup editor

---
 src/bin/hun_law/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/hun_law/main.rs b/src/bin/hun_law/main.rs
index beaff7b..d153010 100644
--- a/src/bin/hun_law/main.rs
+++ b/src/bin/hun_law/main.rs
@@ -240,8 +240,8 @@ fn process_single_act_interactive(act_raw: ActRawText, args: &HunLawArgs) -> Res
         if confirm("Try to fix issue in editor?")? {
             // TODO: Remove this duplicate code somehow
             let mut act_fixed_up = act_raw.clone();
+            // The new fixups will be applied to these lines, so the empty ones have to stay
             Fixups::load(act_fixed_up.identifier)?.apply(&mut act_fixed_up.body)?;
-            act_fixed_up.remove_double_empty_lines();
 
             run_fixup_editor(&act_fixed_up, &args.editor)?;
             continue;
-- 
2.43.0


From 695911aebd1bf53796edfbecaa19c740cda952b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:09 +0000
Subject: [PATCH 28/30] fix: don't apply word spacing to two-byte codes

---
 src/parser/pdf/textstate.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/pdf/textstate.rs b/src/parser/pdf/textstate.rs
index f31d91d..10614c1 100644
--- a/src/parser/pdf/textstate.rs
+++ b/src/parser/pdf/textstate.rs
@@ -61,11 +61,12 @@ impl TextState {
     }
 
     pub fn advance_by_char(&mut self, cid: u32) {
-        let w0 = self
-            .font
-            .as_ref()
-            .map_or(0.0, |font| font.widths.get(cid as usize) / 1000.0);
-        let spacing = self.char_spacing + if cid == 32 { self.word_spacing } else { 0.0 };
+        let (w0, is_cid) = self.font.as_ref().map_or((0.0, false), |font| {
+            (font.widths.get(cid as usize) / 1000.0, font.is_cid)
+        });
+        // Word spacing only applies to single-byte codes
+        let is_space = cid == 32 && !is_cid;
+        let spacing = self.char_spacing + if is_space { self.word_spacing } else { 0.0 };
         let tx = (w0 * self.font_size + spacing) * self.horizontal_scale;
         self.advance(tx);
     }
-- 
2.43.0


From bb9b1026628544e3595d6215590354fe08c241da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:09 +0000
Subject: [PATCH 29/30] fix: let the outer ActualText replace the nested ones

---
 src/parser/pdf/page.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 5eef516..658fc5a 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -188,7 +188,10 @@ where
         match op {
             // --- Marked content ---
             Op::BeginMarkedContent { tag, properties } => {
-                let mct = if let Some(atc) = ActualTextCollector::from_bmc_params(tag, properties) {
+                let mct = if self.actual_text_collector.is_some() {
+                    // The outer text replaces everything inside, even other ActualTexts
+                    MarkedContentType::Other
+                } else if let Some(atc) = ActualTextCollector::from_bmc_params(tag, properties) {
                     self.actual_text_collector = Some(atc);
                     MarkedContentType::ActualText
                 } else {
-- 
2.43.0


From 9321b493cc58609616825fa708d24d3e71f0633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:40 +0000
Subject: [PATCH 30/30] fix: refuse forms that draw themselves instead of
 recursing forever

---
 src/parser/pdf/page.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 658fc5a..1f220c0 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -16,12 +16,12 @@
 
 use std::rc::Rc;
 
-use anyhow::{anyhow, Context, Result};
+use anyhow::{anyhow, ensure, Context, Result};
 use euclid::Transform2D;
 use pdf::{
     content::{Op, TextDrawAdjusted},
     font::Font,
-    object::{MaybeRef, PageRc, Resolve, Resources, XObject},
+    object::{MaybeRef, PageRc, PlainRef, Resolve, Resources, XObject},
     primitive::{Name, PdfString},
 };
 
@@ -46,6 +46,9 @@ where
     state: TextState,
     state_stack: Vec<TextState>,
 
+    /// The forms currently being rendered, from the outermost to the innermost
+    active_forms: Vec<PlainRef>,
+
     marked_content_stack: Vec<MarkedContentType>,
 
     actual_text_collector: Option<ActualTextCollector>,
@@ -76,6 +79,7 @@ where
             collector,
             state: TextState::default(),
             state_stack: Vec::new(),
+            active_forms: Vec::new(),
             marked_content_stack: Vec::new(),
             actual_text_collector: None,
         })
@@ -165,12 +169,19 @@ where
             return Ok(());
         };
 
+        let form_ref = xobject_ref.get_inner();
+        ensure!(
+            !self.active_forms.contains(&form_ref),
+            "Form draws itself in PDF: {name}"
+        );
+
         // Save some stuff on this function's stack
         let saved_resources = self.resources.clone();
         if let Some(resources) = xfo.dict().resources.clone() {
             self.resources = Some(resources);
         }
         self.state_stack.push(self.state.clone());
+        self.active_forms.push(form_ref);
 
         // Recurse
         for op in xfo.operations(self.pdf_file)? {
@@ -178,6 +189,7 @@ where
         }
 
         // Load back the stuff
+        self.active_forms.pop();
         self.restore_state()
             .with_context(|| anyhow!("State stack empty after Form rendering"))?;
         self.resources = saved_resources;
-- 
2.43.0

