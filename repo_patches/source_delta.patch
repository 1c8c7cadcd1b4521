From 90f5e57d1b41235c01d0ee2282b34f81e143b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 01/30] fix: consume UTF-16 input by bytes, not by code units

The UTF-16 reader counted code units but passed the count to
BufRead::consume() as bytes (re-reading half of every buffer), counted the
offset twice, and asserted that an unpaired surrogate at the start of a
buffer is impossible.
---
 src/reader.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f70cd50..4ae23aa 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -175,7 +175,8 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
         match ch {
             Ok(ch) => {
                 push_char(out, ch, *offset)?;
-                let n = ch.len_utf16();
+                // `len_utf16()` counts code units, each of which is 2 bytes.
+                let n = ch.len_utf16() * 2;
                 *offset += n;
                 used += n;
             }
@@ -193,10 +194,8 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
 
     if used != 0 {
         reader.consume(used);
-        *offset += used;
         Ok(true)
     } else {
-        debug_assert!(!available.is_empty() && available.len() < 2);
         read_utf16_char_unbuffered::<BIG_ENDIAN>(reader, out, offset)?;
         Ok(true)
     }
-- 
2.43.0


From 1b8cbcc3753cbbabf9457f4f9266c7fc8b36115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 02/30] fix: accept UTF-8 input that starts with U+F000..U+FFFD

The first byte of these characters is the first byte of the UTF-8 BOM, and the
stream was rejected for an invalid byte order mark.
---
 src/reader.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4ae23aa..ab1f041 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -8,7 +8,11 @@ const BOM_UTF8: [u8; 3] = [0xef, 0xbb, 0xbf];
 const BOM_UTF16LE: [u8; 2] = [0xff, 0xfe];
 const BOM_UTF16BE: [u8; 2] = [0xfe, 0xff];
 
-fn yaml_parser_determine_encoding(reader: &mut dyn BufRead) -> Result<Option<Encoding>> {
+fn yaml_parser_determine_encoding(
+    reader: &mut dyn BufRead,
+    out: &mut VecDeque<char>,
+    offset: &mut usize,
+) -> Result<Option<Encoding>> {
     let initial_bytes = reader.fill_buf()?;
     if initial_bytes.is_empty() {
         return Ok(None);
@@ -20,12 +24,15 @@ fn yaml_parser_determine_encoding(reader: &mut dyn BufRead) -> Result<Option<Enc
             reader.read_exact(&mut bom)?;
             if bom == BOM_UTF8 {
                 Ok(Some(Encoding::Utf8))
+            } else if let Ok(valid) = core::str::from_utf8(&bom) {
+                // Not a BOM, but U+F000 and above also start with this byte.
+                for ch in valid.chars() {
+                    push_char(out, ch, *offset)?;
+                    *offset += ch.len_utf8();
+                }
+                Ok(Some(Encoding::Utf8))
             } else {
-                Err(Error::reader(
-                    "invalid byte order marker",
-                    0,
-                    i32::from_be_bytes([bom[0], bom[1], bom[2], 0]),
-                ))
+                Err(Error::reader("invalid UTF-8", 0, bom[0] as _))
             }
         }
         0xff | 0xfe => {
@@ -294,7 +301,11 @@ pub(crate) fn yaml_parser_update_buffer<R: BufRead>(
         return Ok(());
     }
     if parser.encoding == Encoding::Any {
-        if let Some(encoding) = yaml_parser_determine_encoding(reader)? {
+        if let Some(encoding) = yaml_parser_determine_encoding(
+            reader,
+            &mut parser.buffer,
+            &mut parser.offset,
+        )? {
             parser.encoding = encoding;
         } else {
             parser.eof = true;
-- 
2.43.0


From e19be71317c9285aaf3c26f010f1ee79a5bd8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 03/30] fix: retry an interrupted read while determining the
 encoding

Every other read in the reader already retries ErrorKind::Interrupted.
---
 src/reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index ab1f041..0503150 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -13,7 +13,13 @@ fn yaml_parser_determine_encoding(
     out: &mut VecDeque<char>,
     offset: &mut usize,
 ) -> Result<Option<Encoding>> {
-    let initial_bytes = reader.fill_buf()?;
+    let initial_bytes = loop {
+        match reader.fill_buf() {
+            Ok(initial_bytes) => break initial_bytes,
+            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err.into()),
+        }
+    };
     if initial_bytes.is_empty() {
         return Ok(None);
     }
-- 
2.43.0


From 0c5de925fcb34269851d62293a367e89d86d3282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 04/30] fix: decode URI escapes in tags as UTF-8

Each escaped octet was pushed as if it were a character of its own, so
'%C3%A9' was read as two Latin-1 characters.
---
 src/scanner.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index ab97696..40af182 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1226,6 +1226,7 @@ impl<R: BufRead> Scanner<R> {
         string: &mut String,
     ) -> Result<()> {
         let mut width: i32 = 0;
+        let mut octets = Vec::with_capacity(4);
         loop {
             self.cache(3)?;
             if !(CHECK!(self.buffer, '%')
@@ -1255,7 +1256,6 @@ impl<R: BufRead> Scanner<R> {
                 } else {
                     0
                 };
-                // TODO: Something is fishy here, why isn't `width` being used?
                 if width == 0 {
                     return self.set_scanner_error(
                         if directive {
@@ -1278,7 +1278,7 @@ impl<R: BufRead> Scanner<R> {
                     "found an incorrect trailing UTF-8 octet",
                 );
             }
-            string.push(char::from_u32(octet as _).expect("invalid Unicode"));
+            octets.push(octet);
             self.skip_char();
             self.skip_char();
             self.skip_char();
@@ -1287,6 +1287,21 @@ impl<R: BufRead> Scanner<R> {
                 break;
             }
         }
+        match core::str::from_utf8(&octets) {
+            Ok(decoded) => string.push_str(decoded),
+            // Overlong encodings, surrogates, and values above U+10FFFF.
+            Err(_) => {
+                return self.set_scanner_error(
+                    if directive {
+                        "while parsing a %TAG directive"
+                    } else {
+                        "while parsing a tag"
+                    },
+                    start_mark,
+                    "found an incorrect trailing UTF-8 octet",
+                );
+            }
+        }
         Ok(())
     }
 
-- 
2.43.0


From 796e56157b901cc56a24b69127d273cdb1ab55ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 05/30] fix: do not panic on a tag followed by ',' in a flow
 collection

'[!!str, a]' is valid, and accepted by libyaml.
---
 src/scanner.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 40af182..fb964e5 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1109,7 +1109,6 @@ impl<R: BufRead> Scanner<R> {
                     "did not find expected whitespace or line break",
                 );
             }
-            panic!("TODO: What is expected here?");
         }
 
         let end_mark: Mark = self.mark;
-- 
2.43.0


From 72eda514ebc76cc0f20a981fda63d168fda67ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 06/30] fix: report, rather than panic on, a backslash at the
 end of the stream

A double-quoted scalar that ends the stream with a backslash is an unknown
escape, as in libyaml.
---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index fb964e5..3c110c4 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1552,7 +1552,7 @@ impl<R: BufRead> Scanner<R> {
                         break;
                     } else if !single && CHECK!(self.buffer, '\\') {
                         let mut code_length = 0usize;
-                        match self.buffer.get(1).copied().unwrap() {
+                        match self.buffer.get(1).copied().unwrap_or('\0') {
                             '0' => {
                                 string.push('\0');
                             }
-- 
2.43.0


From ec51e0a66b2157426ca2c8efbfa841e6faf3dbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 07/30] fix: do not panic on a block scalar without a trailing
 line break

The last line of a block scalar may be ended by the end of the stream.
---
 src/scanner.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 3c110c4..bac12dd 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1425,7 +1425,9 @@ impl<R: BufRead> Scanner<R> {
                 self.cache(1)?;
             }
             self.cache(2)?;
-            self.read_line_break(&mut leading_break);
+            if IS_BREAK!(self.buffer) {
+                self.read_line_break(&mut leading_break);
+            }
             self.scan_block_scalar_breaks(
                 &mut indent,
                 &mut trailing_breaks,
-- 
2.43.0


From add31027fb4fa4ebf205dd6cab862bed6e7a108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 08/30] fix: keep the line breaks of folded scalars

The lookahead for the first character of the next line skipped that character
and looked at the one after it.
---
 src/emitter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 7647c65..83e1c86 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1734,9 +1734,8 @@ impl<'w> Emitter<'w> {
         while let Some(ch) = chars.next() {
             if is_break(ch) {
                 if !breaks && !leading_spaces && ch == '\n' {
-                    let mut skip_breaks = chars.clone();
-                    while is_break(skip_breaks.next()) {}
-                    if !is_blankz(skip_breaks.next()) {
+                    let next_line = chars.clone().find(|ch| !is_break(*ch));
+                    if !is_blankz(next_line) {
                         self.put_break()?;
                     }
                 }
-- 
2.43.0


From bd00e2ec1b2cfd12e9e2940dee26ef5be3703d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 09/30] fix: do not slice a tag inside of a character

A %TAG prefix whose length falls inside of a multi-byte character of the tag
made the emitter panic.
---
 src/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 83e1c86..af40112 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1130,7 +1130,7 @@ impl<'w> Emitter<'w> {
 
         for tag_directive in tag_directives {
             let prefix_len = tag_directive.prefix.len();
-            if prefix_len < tag.len() && tag_directive.prefix == tag[0..prefix_len] {
+            if prefix_len < tag.len() && tag.starts_with(tag_directive.prefix.as_str()) {
                 handle = &tag_directive.handle;
                 suffix = &tag[prefix_len..];
                 break;
-- 
2.43.0


From f389711f87e65978179649dea066520e7a8959c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 10/30] fix: escape U+FEFF, not U+7EFF, in double-quoted
 scalars

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index f91e4f6..ddd01ec 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -109,7 +109,7 @@ macro_rules! IS_BOM {
 }
 
 pub(crate) fn is_bom(ch: char) -> bool {
-    ch == '\u{7eff}'
+    ch == '\u{feff}'
 }
 
 macro_rules! IS_SPACE_AT {
-- 
2.43.0


From 2e65745706a08c72d02096215f2791a23e30817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 11/30] fix: count the references to nested nodes when dumping
 a document

Only the children of the root were counted, so a document with a node that is
shared below them could not be dumped (the anchor of the alias was missing).
---
 src/document.rs | 6 +++---
 src/emitter.rs  | 8 --------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 69d21ba..646bc1f 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -606,13 +606,13 @@ impl Document {
             match &node.data {
                 NodeData::Sequence { items, .. } => {
                     for item in items {
-                        emitter.anchor_node_sub(*item);
+                        self.anchor_node(emitter, *item);
                     }
                 }
                 NodeData::Mapping { pairs, .. } => {
                     for pair in pairs {
-                        emitter.anchor_node_sub(pair.key);
-                        emitter.anchor_node_sub(pair.value);
+                        self.anchor_node(emitter, pair.key);
+                        self.anchor_node(emitter, pair.value);
                     }
                 }
                 _ => {}
diff --git a/src/emitter.rs b/src/emitter.rs
index af40112..e2239bd 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1815,14 +1815,6 @@ impl<'w> Emitter<'w> {
         self.last_anchor_id = 0;
     }
 
-    pub(crate) fn anchor_node_sub(&mut self, index: i32) {
-        self.anchors[index as usize - 1].references += 1;
-        if self.anchors[index as usize - 1].references == 2 {
-            self.last_anchor_id += 1;
-            self.anchors[index as usize - 1].anchor = self.last_anchor_id;
-        }
-    }
-
     pub(crate) fn generate_anchor(anchor_id: i32) -> String {
         alloc::format!("id{anchor_id:03}")
     }
-- 
2.43.0


From b6262a273452b116ce8562de86081c7f7bbfbd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 12/30] fix: return None from Document::get_node(0)

The index was decremented before the range check, which overflowed.
---
 src/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 646bc1f..395a587 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -108,14 +108,14 @@ impl Document {
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node_mut(&mut self, index: i32) -> Option<&mut Node> {
-        self.nodes.get_mut(index as usize - 1)
+        self.nodes.get_mut((index as usize).wrapping_sub(1))
     }
 
     /// Get a node of a YAML document.
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node(&self, index: i32) -> Option<&Node> {
-        self.nodes.get(index as usize - 1)
+        self.nodes.get((index as usize).wrapping_sub(1))
     }
 
     /// Get the root of a YAML document node.
-- 
2.43.0


From 6c24e57c429a726e6ef41fe1a5b7a6d0ecb6fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 13/30] fix: produce no events after a parse error

Like libyaml's parser->error. Calling Parser::parse() again after an error used
to pop the mark of the same collection again and panic.
---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0e6f522..397cd9a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -189,7 +189,12 @@ impl<R: BufRead> Parser<R> {
         if self.scanner.stream_end_produced || self.inner.state == ParserState::End {
             return Ok(Event::stream_end());
         }
-        self.state_machine()
+        let result = self.state_machine();
+        if result.is_err() {
+            // No events after an error (same as libyaml).
+            self.inner.state = ParserState::End;
+        }
+        result
     }
 
     fn state_machine(&mut self) -> Result<Event> {
-- 
2.43.0


From 5bb38afd5f403f542e7612ff2573e434f4e3fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 14/30] fix: load no documents after an error

Calling Document::load() again after a syntax or composer error resumed in the
middle of the document that failed to load, and panicked.
---
 src/document.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 395a587..686c9d2 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -2,8 +2,8 @@ use std::io::BufRead;
 
 use crate::{
     AliasData, Anchors, DEFAULT_MAPPING_TAG, DEFAULT_SCALAR_TAG, DEFAULT_SEQUENCE_TAG, Emitter,
-    Error, Event, EventData, MappingStyle, Mark, Parser, ParserInner, Result, ScalarStyle,
-    SequenceStyle, TagDirective, VersionDirective,
+    Error, Event, EventData, MappingStyle, Mark, Parser, ParserInner, ParserState, Result,
+    ScalarStyle, SequenceStyle, TagDirective, VersionDirective,
 };
 
 /// The document structure.
@@ -252,6 +252,9 @@ impl Document {
         let mut document = Document::new(None, &[], false, false);
         document.nodes.reserve(16);
 
+        if parser.inner.state == ParserState::End {
+            return Ok(document);
+        }
         if !parser.scanner.stream_start_produced {
             match parser.parse() {
                 Ok(Event {
@@ -286,6 +289,8 @@ impl Document {
             Err(e) => err = e,
         }
         parser.inner.delete_aliases();
+        // No documents after an error.
+        parser.inner.state = ParserState::End;
         Err(err)
     }
 
-- 
2.43.0


From 940a1ebe0cbc93517a45bf4624b5737f318a11bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 15/30] fix: give implied events an empty span

The start of an implicit document, the end of an indentless sequence, and the
end of a single-pair mapping have no token of their own. Their end mark was the
end of the token that follows them.
---
 src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 397cd9a..43f7132 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -284,7 +284,7 @@ impl<R: BufRead> Parser<R> {
                     implicit: true,
                 },
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.process_directives(None, None)?;
             self.inner.states.push(ParserState::DocumentEnd);
@@ -637,7 +637,7 @@ impl<R: BufRead> Parser<R> {
             let event = Event {
                 data: EventData::SequenceEnd,
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.inner.state = self.inner.states.pop().unwrap();
             Ok(event)
@@ -808,7 +808,7 @@ impl<R: BufRead> Parser<R> {
     fn parse_flow_sequence_entry_mapping_end(&mut self) -> Result<Event> {
         let token = self.scanner.peek()?;
         let start_mark = token.start_mark;
-        let end_mark = token.end_mark;
+        let end_mark = token.start_mark;
         self.inner.state = ParserState::FlowSequenceEntry;
         Ok(Event {
             data: EventData::MappingEnd,
-- 
2.43.0


From f7b52fb57da0024ec0d1ca54e059ada0a71a6c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 16/30] fix: escape flow indicators in the suffix of a
 shorthand tag

The scanner ends the suffix of a shorthand tag at ',', '[', and ']', so a tag
that was emitted with one of them could not be read back.
---
 src/emitter.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index e2239bd..ce3b39b 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -577,7 +577,7 @@ impl<'w> Emitter<'w> {
                 for tag_directive in tag_directives {
                     self.write_indicator("%TAG", true, false, false)?;
                     self.write_tag_handle(&tag_directive.handle)?;
-                    self.write_tag_content(&tag_directive.prefix, true)?;
+                    self.write_tag_content(&tag_directive.prefix, true, true)?;
                     self.write_indent()?;
                 }
             }
@@ -1032,12 +1032,12 @@ impl<'w> Emitter<'w> {
         }
         if analysis.handle.is_empty() {
             self.write_indicator("!<", true, false, false)?;
-            self.write_tag_content(analysis.suffix, false)?;
+            self.write_tag_content(analysis.suffix, false, true)?;
             self.write_indicator(">", false, false, false)?;
         } else {
             self.write_tag_handle(analysis.handle)?;
             if !analysis.suffix.is_empty() {
-                self.write_tag_content(analysis.suffix, false)?;
+                self.write_tag_content(analysis.suffix, false, false)?;
             }
         }
         Ok(())
@@ -1410,7 +1410,12 @@ impl<'w> Emitter<'w> {
         Ok(())
     }
 
-    fn write_tag_content(&mut self, value: &str, need_whitespace: bool) -> Result<()> {
+    fn write_tag_content(
+        &mut self,
+        value: &str,
+        need_whitespace: bool,
+        uri_char: bool,
+    ) -> Result<()> {
         if need_whitespace && !self.whitespace {
             self.put(' ')?;
         }
@@ -1422,8 +1427,13 @@ impl<'w> Emitter<'w> {
             }
 
             match ch {
-                ';' | '/' | '?' | ':' | '@' | '&' | '=' | '+' | '$' | ',' | '_' | '.' | '~'
-                | '*' | '\'' | '(' | ')' | '[' | ']' => {
+                ';' | '/' | '?' | ':' | '@' | '&' | '=' | '+' | '$' | '_' | '.' | '~' | '*'
+                | '\'' | '(' | ')' => {
+                    self.write_char(ch)?;
+                    continue;
+                }
+                // The suffix of a shorthand tag cannot contain flow indicators.
+                ',' | '[' | ']' if uri_char => {
                     self.write_char(ch)?;
                     continue;
                 }
-- 
2.43.0


From 007ab87d7bedb2b3c66308263e2ae4c0356b9065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 17/30] fix: do not fold the lines of a folded scalar that
 start with a space

Line breaks next to a more-indented line are not folded when read, so a break
inserted into one changes the value.
---
 src/emitter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emitter.rs b/src/emitter.rs
index ce3b39b..f565d09 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1758,6 +1758,7 @@ impl<'w> Emitter<'w> {
                     leading_spaces = is_blank(ch);
                 }
                 if !breaks
+                    && !leading_spaces
                     && is_space(ch)
                     && !is_space(chars.clone().next())
                     && self.column > self.best_width
-- 
2.43.0


From b10bb0662f594a86411ca42a06fe51ec7c40a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 18/30] fix: emit an explicit start for a document with an
 empty root

An implicit document with an empty plain scalar was emitted as an empty stream,
which contains no document, or as '...', which is a syntax error.
---
 src/emitter.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index f565d09..16702e5 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -581,7 +581,7 @@ impl<'w> Emitter<'w> {
                     self.write_indent()?;
                 }
             }
-            if Self::check_empty_document() {
+            if self.check_empty_document() {
                 implicit = false;
             }
             if !implicit {
@@ -881,8 +881,18 @@ impl<'w> Emitter<'w> {
         Ok(())
     }
 
-    fn check_empty_document() -> bool {
-        false
+    /// Would the document be empty without a "---" indicator?
+    fn check_empty_document(&self) -> bool {
+        match self.events.front().map(|event| &event.data) {
+            Some(EventData::Scalar {
+                anchor: None,
+                value,
+                plain_implicit: true,
+                style: ScalarStyle::Any | ScalarStyle::Plain,
+                ..
+            }) => value.is_empty(),
+            _ => false,
+        }
     }
 
     fn check_empty_sequence(&self, event: &Event) -> bool {
-- 
2.43.0


From 470f9c8347826db4e31a66a853687883a2734744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 19/30] fix: count the byte order mark in the offset of reader
 errors

---
 src/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 0503150..3c403fe 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -29,6 +29,7 @@ fn yaml_parser_determine_encoding(
             let mut bom = [0; 3];
             reader.read_exact(&mut bom)?;
             if bom == BOM_UTF8 {
+                *offset += bom.len();
                 Ok(Some(Encoding::Utf8))
             } else if let Ok(valid) = core::str::from_utf8(&bom) {
                 // Not a BOM, but U+F000 and above also start with this byte.
@@ -45,8 +46,10 @@ fn yaml_parser_determine_encoding(
             let mut bom = [0; 2];
             reader.read_exact(&mut bom)?;
             if bom == BOM_UTF16LE {
+                *offset += bom.len();
                 Ok(Some(Encoding::Utf16Le))
             } else if bom == BOM_UTF16BE {
+                *offset += bom.len();
                 Ok(Some(Encoding::Utf16Be))
             } else {
                 Err(Error::reader(
-- 
2.43.0


From e8e2e3643ddc9ca8fa722ac24f20cdf942231127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 20/30] fix: report invalid UTF-8 near the end of the input
 however it is split

---
 src/reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3c403fe..e157a98 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -143,7 +143,13 @@ fn read_utf8_char_unbuffered(
 ) -> Result<()> {
     let width = utf8_char_width(initial);
     let mut buffer = [0; 4];
-    reader.read_exact(&mut buffer[..width])?;
+    for i in 0..width {
+        reader.read_exact(&mut buffer[i..=i])?;
+        // Don't wait for the rest of a character that is already invalid.
+        if matches!(core::str::from_utf8(&buffer[..=i]), Err(err) if err.error_len().is_some()) {
+            break;
+        }
+    }
     if let Ok(valid) = core::str::from_utf8(&buffer[..width]) {
         // We read a whole, valid character.
         let ch = match valid.chars().next() {
-- 
2.43.0


From c7ee6558ddfb1d2180f9a1ea037788e15a954f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 21/30] fix: scan() produces no tokens after an error

---
 src/scanner.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index bac12dd..cfd41ae 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -202,7 +202,11 @@ impl<R: BufRead> Scanner<R> {
             });
         }
         if !self.token_available {
-            self.fetch_more_tokens()?;
+            if let Err(err) = self.fetch_more_tokens() {
+                // No tokens after an error (same as libyaml).
+                self.stream_end_produced = true;
+                return Err(err);
+            }
         }
         if let Some(token) = self.tokens.pop_front() {
             self.token_available = false;
-- 
2.43.0


From 36ff8f1072c1bc9fcbae9c690b4c443bb2401edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 22/30] fix: a UTF-16 flush repeated after a failure wrote its
 text twice

---
 src/emitter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/emitter.rs b/src/emitter.rs
index 16702e5..c902300 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1811,6 +1811,8 @@ impl<'w> Emitter<'w> {
             Encoding::Utf16Be => true,
         };
 
+        // What is left of a previous flush that failed is still in the buffer.
+        self.raw_buffer.clear();
         for ch in self.buffer.encode_utf16() {
             let bytes = if big_endian {
                 ch.to_be_bytes()
-- 
2.43.0


From 94d8483f19e8c4460216138d26abb43eea1a9cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 23/30] fix: panic when a flow collection's end is emitted
 again after a failed write

---
 src/emitter.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index c902300..bb96ca8 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -645,13 +645,15 @@ impl<'w> Emitter<'w> {
             self.flow_level += 1;
         }
         if let EventData::SequenceEnd = &event.data {
-            self.flow_level -= 1;
-            self.indent = self.indents.pop().unwrap();
+            self.indent = *self.indents.last().unwrap();
             if self.canonical && !first {
                 self.write_indicator(",", false, false, false)?;
                 self.write_indent()?;
             }
             self.write_indicator("]", false, false, false)?;
+            // Only once nothing can fail: the event may be emitted again.
+            self.flow_level -= 1;
+            self.indents.pop();
             self.state = self.states.pop().unwrap();
             return Ok(());
         }
@@ -678,13 +680,15 @@ impl<'w> Emitter<'w> {
         }
         if let EventData::MappingEnd = &event.data {
             assert!(!self.indents.is_empty(), "self.indents should not be empty");
-            self.flow_level -= 1;
-            self.indent = self.indents.pop().unwrap();
+            self.indent = *self.indents.last().unwrap();
             if self.canonical && !first {
                 self.write_indicator(",", false, false, false)?;
                 self.write_indent()?;
             }
             self.write_indicator("}", false, false, false)?;
+            // Only once nothing can fail: the event may be emitted again.
+            self.flow_level -= 1;
+            self.indents.pop();
             self.state = self.states.pop().unwrap();
             return Ok(());
         }
-- 
2.43.0


From 23eaba5f0781660877d15d39f920d04341a0ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 24/30] fix: dump deeply nested documents without overflowing
 the stack

Dumping recursed for every level of nesting, so a document of a few tens of
thousands of nested collections, which loads fine, aborted the process.
Keep the nodes that remain to be visited in a vector instead.
---
 src/document.rs | 94 +++++++++++++++++++++++++++++++------------------
 1 file changed, 59 insertions(+), 35 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 686c9d2..01b7319 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -82,6 +82,13 @@ pub struct NodePair {
     pub value: i32,
 }
 
+/// What remains to be done when dumping a document.
+enum DumpStep {
+    Node(i32),
+    SequenceEnd,
+    MappingEnd,
+}
+
 impl Document {
     /// Create a YAML document.
     pub fn new(
@@ -594,8 +601,8 @@ impl Document {
                 implicit: self.start_implicit,
             });
             emitter.emit(event)?;
-            self.anchor_node(emitter, 1);
-            self.dump_node(emitter, 1)?;
+            self.anchor_nodes(emitter, 1);
+            self.dump_nodes(emitter, 1)?;
             let event = Event::document_end(self.end_implicit);
             emitter.emit(event)?;
         }
@@ -604,31 +611,50 @@ impl Document {
         Ok(())
     }
 
-    fn anchor_node(&self, emitter: &mut Emitter, index: i32) {
-        let node = &self.nodes[index as usize - 1];
-        emitter.anchors[index as usize - 1].references += 1;
-        if emitter.anchors[index as usize - 1].references == 1 {
-            match &node.data {
-                NodeData::Sequence { items, .. } => {
-                    for item in items {
-                        self.anchor_node(emitter, *item);
+    fn anchor_nodes(&self, emitter: &mut Emitter, root: i32) {
+        // Documents may be nested deeper than the stack allows, so keep track of
+        // the nodes to visit, the next one last.
+        let mut pending = vec![root];
+        while let Some(index) = pending.pop() {
+            let node = &self.nodes[index as usize - 1];
+            let anchor = &mut emitter.anchors[index as usize - 1];
+            anchor.references += 1;
+            if anchor.references == 1 {
+                match &node.data {
+                    NodeData::Sequence { items, .. } => pending.extend(items.iter().rev()),
+                    NodeData::Mapping { pairs, .. } => {
+                        for pair in pairs.iter().rev() {
+                            pending.push(pair.value);
+                            pending.push(pair.key);
+                        }
                     }
+                    _ => {}
                 }
-                NodeData::Mapping { pairs, .. } => {
-                    for pair in pairs {
-                        self.anchor_node(emitter, pair.key);
-                        self.anchor_node(emitter, pair.value);
-                    }
-                }
-                _ => {}
+            } else if anchor.references == 2 {
+                emitter.last_anchor_id += 1;
+                anchor.anchor = emitter.last_anchor_id;
+            }
+        }
+    }
+
+    fn dump_nodes(&mut self, emitter: &mut Emitter, root: i32) -> Result<()> {
+        let mut pending = vec![DumpStep::Node(root)];
+        while let Some(step) = pending.pop() {
+            match step {
+                DumpStep::Node(index) => self.dump_node(emitter, index, &mut pending)?,
+                DumpStep::SequenceEnd => emitter.emit(Event::sequence_end())?,
+                DumpStep::MappingEnd => emitter.emit(Event::mapping_end())?,
             }
-        } else if emitter.anchors[index as usize - 1].references == 2 {
-            emitter.last_anchor_id += 1;
-            emitter.anchors[index as usize - 1].anchor = emitter.last_anchor_id;
         }
+        Ok(())
     }
 
-    fn dump_node(&mut self, emitter: &mut Emitter, index: i32) -> Result<()> {
+    fn dump_node(
+        &mut self,
+        emitter: &mut Emitter,
+        index: i32,
+        pending: &mut Vec<DumpStep>,
+    ) -> Result<()> {
         assert!(index > 0);
         let node = &mut self.nodes[index as usize - 1];
         let anchor_id: i32 = emitter.anchors[index as usize - 1].anchor;
@@ -644,8 +670,8 @@ impl Document {
         let node = core::mem::take(node);
         match node.data {
             NodeData::Scalar { .. } => Self::dump_scalar(emitter, node, anchor),
-            NodeData::Sequence { .. } => self.dump_sequence(emitter, node, anchor),
-            NodeData::Mapping { .. } => self.dump_mapping(emitter, node, anchor),
+            NodeData::Sequence { .. } => Self::dump_sequence(emitter, node, anchor, pending),
+            NodeData::Mapping { .. } => Self::dump_mapping(emitter, node, anchor, pending),
             _ => unreachable!("document node is neither a scalar, sequence, or a mapping"),
         }
     }
@@ -675,10 +701,10 @@ impl Document {
     }
 
     fn dump_sequence(
-        &mut self,
         emitter: &mut Emitter,
         node: Node,
         anchor: Option<String>,
+        pending: &mut Vec<DumpStep>,
     ) -> Result<()> {
         let implicit = node.tag.as_deref() == Some(DEFAULT_SEQUENCE_TAG);
 
@@ -694,18 +720,16 @@ impl Document {
         });
 
         emitter.emit(event)?;
-        for item in items {
-            self.dump_node(emitter, item)?;
-        }
-        let event = Event::sequence_end();
-        emitter.emit(event)
+        pending.push(DumpStep::SequenceEnd);
+        pending.extend(items.into_iter().rev().map(DumpStep::Node));
+        Ok(())
     }
 
     fn dump_mapping(
-        &mut self,
         emitter: &mut Emitter,
         node: Node,
         anchor: Option<String>,
+        pending: &mut Vec<DumpStep>,
     ) -> Result<()> {
         let implicit = node.tag.as_deref() == Some(DEFAULT_MAPPING_TAG);
 
@@ -721,11 +745,11 @@ impl Document {
         });
 
         emitter.emit(event)?;
-        for pair in pairs {
-            self.dump_node(emitter, pair.key)?;
-            self.dump_node(emitter, pair.value)?;
+        pending.push(DumpStep::MappingEnd);
+        for pair in pairs.into_iter().rev() {
+            pending.push(DumpStep::Node(pair.value));
+            pending.push(DumpStep::Node(pair.key));
         }
-        let event = Event::mapping_end();
-        emitter.emit(event)
+        Ok(())
     }
 }
-- 
2.43.0


From a2ba8edd18f85974cf2a64f01e607ebe2c8d0134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:55 +0000
Subject: [PATCH 25/30] fix: a failed dump leaves no anchor numbers behind

An error while emitting a document's nodes skipped resetting the anchors, so
the anchors of the next document dumped were not numbered from id001.
---
 src/document.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 01b7319..4e5eddf 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -580,12 +580,15 @@ impl Document {
     ///
     /// The document object may be generated using the [`Document::load()`]
     /// function or the [`Document::new()`] function.
-    pub fn dump(mut self, emitter: &mut Emitter) -> Result<()> {
+    pub fn dump(self, emitter: &mut Emitter) -> Result<()> {
+        let result = self.dump_document(emitter);
+        emitter.reset_anchors();
+        result
+    }
+
+    fn dump_document(mut self, emitter: &mut Emitter) -> Result<()> {
         if !emitter.opened {
-            if let Err(err) = emitter.open() {
-                emitter.reset_anchors();
-                return Err(err);
-            }
+            emitter.open()?;
         }
         if self.nodes.is_empty() {
             // TODO: Do we really want to close the emitter just because the
@@ -607,7 +610,6 @@ impl Document {
             emitter.emit(event)?;
         }
 
-        emitter.reset_anchors();
         Ok(())
     }
 
-- 
2.43.0


From 14ec97c2dac66c66e5413d3886f87c82df125fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 26/30] fix: flushing an emitter before the stream start does
 not panic

There is nothing to write yet, and no encoding is needed for that.
---
 src/emitter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index bb96ca8..752e614 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1791,12 +1791,15 @@ impl<'w> Emitter<'w> {
     /// Flush the accumulated characters to the output.
     pub fn flush(&mut self) -> Result<()> {
         assert!((self.write_handler).is_some());
-        assert_ne!(self.encoding, Encoding::Any);
 
+        // Before the stream start there may not be an encoding yet, but nothing
+        // has been written either.
         if self.buffer.is_empty() {
             return Ok(());
         }
 
+        assert_ne!(self.encoding, Encoding::Any);
+
         if self.encoding == Encoding::Utf8 {
             let to_emit = self.buffer.as_bytes();
             self.write_handler
-- 
2.43.0


From 8c41d8484c52300392ad5555d143ddda753bda74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 27/30] fix: an event that could not be emitted leaves the
 emitter's stacks alone

After an event had been refused, or writing had failed, in the middle of a
collection, the stack of states had grown by one that the stack of indentation
levels had no counterpart for, and ending the collection twice panicked.
---
 src/emitter.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 752e614..4cefbae 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -304,8 +304,21 @@ impl<'w> Emitter<'w> {
         while let Some(event) = self.needs_mode_events() {
             let tag_directives = core::mem::take(&mut self.tag_directives);
 
-            let mut analysis = self.analyze_event(&event, &tag_directives)?;
-            self.state_machine(&event, &mut analysis)?;
+            let (state, indent, flow_level) = (self.state, self.indent, self.flow_level);
+            let (states, indents) = (self.states.len(), self.indents.len());
+            let result = self
+                .analyze_event(&event, &tag_directives)
+                .and_then(|mut analysis| self.state_machine(&event, &mut analysis));
+            if let Err(err) = result {
+                // The event was not emitted: others may be emitted in its place.
+                self.state = state;
+                self.states.truncate(states);
+                self.indent = indent;
+                self.indents.truncate(indents);
+                self.flow_level = flow_level;
+                self.tag_directives = tag_directives;
+                return Err(err);
+            }
 
             // The DOCUMENT-START event populates the tag directives, and this
             // happens only once, so don't swap out the tags in that case.
-- 
2.43.0


From 7bd3ba083df804e5567cc94d5cbd483c2d5c4c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:00 +0000
Subject: [PATCH 28/30] fix: the event notation's values are not searched for
 anchors and tags

---
 src/bin/run-emitter-test-suite.rs | 67 ++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/bin/run-emitter-test-suite.rs b/src/bin/run-emitter-test-suite.rs
index efeddc1..c16e8f4 100644
--- a/src/bin/run-emitter-test-suite.rs
+++ b/src/bin/run-emitter-test-suite.rs
@@ -55,37 +55,23 @@ pub(crate) fn test_main(
             let implicit = !line[4..].starts_with(" ...");
             Event::document_end(implicit)
         } else if line.starts_with("+MAP") {
-            Event::mapping_start(
-                get_anchor('&', line),
-                get_tag(line),
-                false,
-                MappingStyle::Block,
-            )
+            let (anchor, tag, _) = get_properties(line);
+            Event::mapping_start(anchor, tag, false, MappingStyle::Block)
         } else if line.starts_with("-MAP") {
             Event::mapping_end()
         } else if line.starts_with("+SEQ") {
-            Event::sequence_start(
-                get_anchor('&', line),
-                get_tag(line),
-                false,
-                SequenceStyle::Block,
-            )
+            let (anchor, tag, _) = get_properties(line);
+            Event::sequence_start(anchor, tag, false, SequenceStyle::Block)
         } else if line.starts_with("-SEQ") {
             Event::sequence_end()
         } else if line.starts_with("=VAL") {
             let mut style = ScalarStyle::Any;
-            let value = get_value(line, &mut value_buffer, &mut style);
-            let implicit = get_tag(line).is_none();
-            Event::scalar(
-                get_anchor('&', line),
-                get_tag(line),
-                value,
-                implicit,
-                implicit,
-                style,
-            )
+            let (anchor, tag, rest) = get_properties(line);
+            let value = get_value(rest, &mut value_buffer, &mut style);
+            let implicit = tag.is_none();
+            Event::scalar(anchor, tag, value, implicit, implicit, style)
         } else if line.starts_with("=ALI") {
-            Event::alias(get_anchor('*', line).expect("no alias name"))
+            Event::alias(get_alias(line).expect("no alias name"))
         } else {
             return Err(format!("Unknown event: '{line}'").into());
         };
@@ -96,8 +82,8 @@ pub(crate) fn test_main(
     }
 }
 
-fn get_anchor(sigil: char, line: &str) -> Option<&str> {
-    let (_, from_sigil) = line.split_once(sigil)?;
+fn get_alias(line: &str) -> Option<&str> {
+    let (_, from_sigil) = line.split_once('*')?;
     if let Some((until_space, _tail)) = from_sigil.split_once(' ') {
         Some(until_space)
     } else if !from_sigil.is_empty() {
@@ -107,10 +93,33 @@ fn get_anchor(sigil: char, line: &str) -> Option<&str> {
     }
 }
 
-fn get_tag(line: &str) -> Option<&str> {
-    let (_, from_angle_open) = line.split_once('<')?;
-    let (until_angle_close, _) = from_angle_open.split_once('>')?;
-    Some(until_angle_close)
+/// The anchor and the tag of a node, and what follows them in the line. The
+/// value of a scalar may contain anything, so it must not be searched for them.
+fn get_properties(line: &str) -> (Option<&str>, Option<&str>, &str) {
+    let (mut anchor, mut tag) = (None, None);
+    let mut rest = &line[4..];
+    loop {
+        if let Some(tail) = rest.strip_prefix(" &") {
+            let (name, _) = tail.split_once(' ').unwrap_or((tail, ""));
+            anchor = Some(name);
+            rest = &tail[name.len()..];
+        } else if let Some(tail) = rest.strip_prefix(" <") {
+            if let Some((until_angle_close, tail)) = tail.split_once('>') {
+                tag = Some(until_angle_close);
+                rest = tail;
+            } else {
+                break;
+            }
+        } else if let Some(tail) = rest
+            .strip_prefix(" []")
+            .or_else(|| rest.strip_prefix(" {}"))
+        {
+            rest = tail;
+        } else {
+            break;
+        }
+    }
+    (anchor, tag, rest)
 }
 
 fn get_value<'a>(line: &str, buffer: &'a mut String, style: &mut ScalarStyle) -> &'a str {
-- 
2.43.0


From b27fdbd224942604532463c1a89868768bc23896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:39 +0000
Subject: [PATCH 29/30] fix: Break::Any set after the stream start does not
 suppress line breaks

---
 src/emitter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 4cefbae..bd83ed4 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -351,10 +351,11 @@ impl<'w> Emitter<'w> {
         self.flush_if_needed()?;
         if self.line_break == Break::Cr {
             self.buffer.push('\r');
-        } else if self.line_break == Break::Ln {
-            self.buffer.push('\n');
         } else if self.line_break == Break::CrLn {
             self.buffer.push_str("\r\n");
+        } else {
+            // `Break::Any` may have been set after the stream start.
+            self.buffer.push('\n');
         }
         self.column = 0;
         self.line += 1;
-- 
2.43.0


From fcd6da4c92857013e6dfffb16921fd550c0b7263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:40 +0000
Subject: [PATCH 30/30] fix: set_width(-1) means unlimited after the stream
 start, too

---
 src/emitter.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index bd83ed4..fce24cb 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -280,7 +280,8 @@ impl<'w> Emitter<'w> {
 
     /// Set the preferred line width. -1 means unlimited.
     pub fn set_width(&mut self, width: i32) {
-        self.best_width = if width >= 0 { width } else { -1 };
+        // The stream may have started already.
+        self.best_width = if width >= 0 { width } else { i32::MAX };
     }
 
     /// Set if unescaped non-ASCII characters are allowed.
@@ -519,9 +520,6 @@ impl<'w> Emitter<'w> {
             if self.best_width >= 0 && self.best_width <= self.best_indent * 2 {
                 self.best_width = 80;
             }
-            if self.best_width < 0 {
-                self.best_width = i32::MAX;
-            }
             if self.line_break == Break::Any {
                 self.line_break = Break::Ln;
             }
-- 
2.43.0

