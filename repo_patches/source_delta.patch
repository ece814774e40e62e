From 08c97cd7f882c0c5b9ce25a1e75908e495bac6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:31 +0000
Subject: [PATCH 01/20] fix: read the first character of a comment from the
 comment itself

The comment line scanner looked at the ';' again instead of at the
character after it, and assumed that the comment starts with a one byte
character that is not a newline.

- An empty comment line swallowed the line that follows it
- A ';' at the end of the text read beyond the end of the text
- A comment starting with a multi-byte character split that character
---
 src/hml_reader/lexer_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index f5f1701..d25067f 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -28,9 +28,9 @@ where
     // Skip past the ';'
     // the comment line is from posn to the newline (or EOF)
     let comment_start = lexer.consumed_char(posn, ch);
-    let Some(ch) = lexer.peek_at(&posn) else {
+    let Some(ch) = lexer.peek_at(&comment_start) else {
         acc.push((comment_start, comment_start));
-        return (acc, None);
+        return (acc, Some(comment_start));
     };
     let (comment_end, _) = lexer.do_while(comment_start, ch, &|_, ch| !is_newline(ch));
     acc.push((comment_start, comment_end));
-- 
2.43.0


From b0bdcfcc5f98d5f0a20b0d3fe36412761b88e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:31 +0000
Subject: [PATCH 02/20] fix: track lines across newlines in whitespace

Whitespace was skipped as if it had no newlines in it, so the line and
column of everything after the first line break was wrong.
---
 src/hml_reader/lexer_parsers.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index d25067f..d3e48b2 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -68,9 +68,18 @@ where
     L: lexer_rs::Lexer<State = P> + lexer_rs::CharStream<P>,
     P: Posn,
 {
-    let (end, Some((start, _n))) = lexer.do_while(posn, ch, &|_, ch| ch.is_whitespace()) else {
+    if !ch.is_whitespace() {
         return Ok(None);
-    };
+    }
+    // do_while does not track lines, and whitespace may include newlines
+    let start = posn;
+    let mut end = lexer.consumed_char(start, ch);
+    while let Some(ch) = lexer.peek_at(&end) {
+        if !ch.is_whitespace() {
+            break;
+        }
+        end = lexer.consumed_char(end, ch);
+    }
     let token = Token::whitespace(Span::new(start, end));
     Ok(Some((end, token)))
 }
-- 
2.43.0


From 13f09329764ea216e4305f742eaad54de6116d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:31 +0000
Subject: [PATCH 03/20] fix: accept all combining diacritics in names

The range of name characters is that of XML, which has 0x300 to 0x36f;
the code had 0x369 to 0x36f.
---
 src/hml_reader/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hml_reader/utils.rs b/src/hml_reader/utils.rs
index 68a6f61..c5fa942 100644
--- a/src/hml_reader/utils.rs
+++ b/src/hml_reader/utils.rs
@@ -51,7 +51,7 @@ pub fn is_name(ch: char) -> bool {
         let ch = ch as u32;
         ((ch==45) || (ch==46) || (ch==0xb7)) || // - .
             (48..=57).contains(&ch) ||
-            (0x369..=0x36f).contains(&ch) ||
+            (0x300..=0x36f).contains(&ch) ||
             (0x203f..=0x2040).contains(&ch)
     }
 }
-- 
2.43.0


From 3300f50ee192e013e57037f5b96fc70a2f205663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:31 +0000
Subject: [PATCH 04/20] fix: reject close tags that do not match the open boxed
 element

A close tag with no boxed element open made the parser panic, and one
with the wrong name or depth closed the innermost box all the same. The
document grammar requires a close tag to have the name and depth of the
open tag of its box.
---
 src/error.rs              | 13 +++++++++++++
 src/hml_reader/builder.rs | 11 ++++++++++-
 src/hml_reader/parser.rs  |  7 +++++--
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 0b0beda..ed6534f 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -134,6 +134,12 @@ where
         /// Attribute
         attr: String,
     },
+    /// A close tag that does not close the innermost open boxed element
+    #[error("Close tag does not match an open boxed element")]
+    UnexpectedCloseTag {
+        /// Span of the error
+        span: Span<P>,
+    },
     /// Newline in a quoted string
     #[error("Unexpected newline in quoted string")]
     UnexpectedNewlineInQuotedString {
@@ -208,6 +214,12 @@ where
         Err(Self::UnexpectedAttribute { span, attr })
     }
 
+    //fp unexpected_close_tag
+    /// Return an unexpected_close_tag error over the given span
+    pub fn unexpected_close_tag<T>(span: Span<P>) -> HmlResult<T, P> {
+        Err(Self::UnexpectedCloseTag { span })
+    }
+
     //fp io_error
     /// An IO error
     pub fn io_error(span: Span<P>, source: std::io::Error) -> Self {
@@ -240,6 +252,7 @@ where
             Self::UnexpectedCharacter { span, .. } => Some(span),
             Self::UnexpectedTagIndent { span, .. } => Some(span),
             Self::UnexpectedAttribute { span, .. } => Some(span),
+            Self::UnexpectedCloseTag { span, .. } => Some(span),
             Self::UnexpectedEOF { span, .. } => Some(span),
             Self::UnexpectedNewlineInQuotedString { span, .. } => Some(span),
             Self::ExpectedEquals { span, .. } => Some(span),
diff --git a/src/hml_reader/builder.rs b/src/hml_reader/builder.rs
index 983b995..b0b7334 100644
--- a/src/hml_reader/builder.rs
+++ b/src/hml_reader/builder.rs
@@ -44,7 +44,6 @@ where
     T: std::fmt::Debug,
 {
     span: Span<P>,
-    #[allow(dead_code)]
     name: Name,
     pub extra: T,
 }
@@ -147,6 +146,16 @@ where
         self.tag_name = tag.name;
         Ok(Event::start_element(self.open_tag.span, tag))
     }
+    /// Returns true if the close tag has the prefix and name of this element
+    ///
+    /// The URI is not compared, as the close tag may be within elements
+    /// that map the prefix differently
+    pub fn has_name_of(&self, close_tag: &CloseTag<P, T>) -> bool {
+        self.tag_name.prefix == close_tag.name.prefix && self.tag_name.name == close_tag.name.name
+    }
+    pub fn extra(&self) -> &T {
+        &self.open_tag.extra
+    }
     pub fn as_end_element(
         &self,
         ns_stack: &mut NamespaceStack,
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 6feb310..df36a39 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -117,9 +117,12 @@ where
             let span = Span::new_at(close_tag.span().start());
             self.pending_close_tag = Some(close_tag);
             self.pop_tag_stack(ns_stack, &span)
-        } else {
-            // should validate close_tag matches the StackElement at the top of the tag stack
+        } else if self.tag_stack.last().is_some_and(|e| {
+            e.extra().depth == close_tag.extra.depth && e.has_name_of(&close_tag)
+        }) {
             self.pop_tag_stack(ns_stack, close_tag.span())
+        } else {
+            HmlError::unexpected_close_tag(*close_tag.span())
         }
     }
 
-- 
2.43.0


From cf9860350fb8df9c7d2548b64ddafc722e63e00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:31 +0000
Subject: [PATCH 05/20] fix: reject documents that end inside a boxed element

A boxed element requires a close tag, but a document that was cut short
inside one was accepted as if it were complete.
---
 src/hml_reader/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index df36a39..5aac26b 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -99,6 +99,10 @@ where
             Ok(None)
         } else {
             let span = Span::new_at(&self.token_pos);
+            if self.tag_depth == 0 {
+                // the innermost element is boxed, and has no close tag
+                return Err(HmlError::UnexpectedEOF { span });
+            }
             self.pop_tag_stack(ns_stack, &span)
         }
     }
-- 
2.43.0


From 64cd2130a4cb666b4a2a984f5a11d00b6380dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:31 +0000
Subject: [PATCH 06/20] fix: reject content outside of any element

The content event is documented as always being within an element, but
a string before the first or after the last element produced one.
---
 src/error.rs             | 13 +++++++++++++
 src/hml_reader/parser.rs |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index ed6534f..95180ad 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -140,6 +140,12 @@ where
         /// Span of the error
         span: Span<P>,
     },
+    /// Content provided outside of any element
+    #[error("Content must be within an element")]
+    UnexpectedContent {
+        /// Span of the error
+        span: Span<P>,
+    },
     /// Newline in a quoted string
     #[error("Unexpected newline in quoted string")]
     UnexpectedNewlineInQuotedString {
@@ -214,6 +220,12 @@ where
         Err(Self::UnexpectedAttribute { span, attr })
     }
 
+    //fp unexpected_content
+    /// Return an unexpected_content error over the given span
+    pub fn unexpected_content<T>(span: Span<P>) -> HmlResult<T, P> {
+        Err(Self::UnexpectedContent { span })
+    }
+
     //fp unexpected_close_tag
     /// Return an unexpected_close_tag error over the given span
     pub fn unexpected_close_tag<T>(span: Span<P>) -> HmlResult<T, P> {
@@ -253,6 +265,7 @@ where
             Self::UnexpectedTagIndent { span, .. } => Some(span),
             Self::UnexpectedAttribute { span, .. } => Some(span),
             Self::UnexpectedCloseTag { span, .. } => Some(span),
+            Self::UnexpectedContent { span, .. } => Some(span),
             Self::UnexpectedEOF { span, .. } => Some(span),
             Self::UnexpectedNewlineInQuotedString { span, .. } => Some(span),
             Self::ExpectedEquals { span, .. } => Some(span),
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 5aac26b..e922c58 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -239,6 +239,9 @@ where
                         HmlError::unexpected_attribute(span, &prefix, &name)
                     }
                 }
+                TokenType::Characters | TokenType::RawCharacters if self.tag_stack.is_empty() => {
+                    HmlError::unexpected_content(Span::new_at(token.get_span().start()))
+                }
                 TokenType::Characters => {
                     let mut data = token.take_contents();
                     let data = data.pop_front().unwrap();
-- 
2.43.0


From 851391a7f514798066cf8d4fed390d6f40967f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:03 +0000
Subject: [PATCH 07/20] fix: do not iterate over shadowed namespace mappings

The iterator kept a set of the prefixes it had returned but never added
to it, so a prefix that is mapped in more than one frame was returned
once for each frame, with mappings that are not in force.
---
 src/names/namespace_stack.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index ef25eb0..69b0071 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -129,10 +129,10 @@ impl<'ns, 'b> Iterator for NamespaceStackIterator<'ns, 'b> {
             None
         } else if let Some(iter) = &mut self.frame_iter {
             if let Some((p_id, u_id)) = iter.next() {
-                if self.used.contains(p_id) {
-                    self.next()
-                } else {
+                if self.used.insert(*p_id) {
                     Some(NSMap::new(*p_id, *u_id))
+                } else {
+                    self.next()
                 }
             } else {
                 self.frame -= 1;
-- 
2.43.0


From bbed160d614905e5eaaa3fd291714d8eda706c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:03 +0000
Subject: [PATCH 08/20] fix: make the mappings of the topmost frame available

iter_top_mappings panicked unless the stack was empty, and the order of
the mappings that it iterates over was never recorded.
---
 src/names/namespace_stack.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index 69b0071..4cc6bda 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -69,7 +69,13 @@ struct NamespaceStackFrame {
 impl NamespaceStackFrame {
     //mp add_mapping_by_id
     pub fn add_mapping_by_id(&mut self, map: NSMap) {
-        self.mappings.insert(map.prefix_id(), map.uri_id());
+        if self
+            .mappings
+            .insert(map.prefix_id(), map.uri_id())
+            .is_none()
+        {
+            self.order.push(map.prefix_id());
+        }
     }
 
     //mp add_mapping_by_id_if_unset
@@ -291,7 +297,7 @@ impl<'ns> NamespaceStack<'ns> {
     //ap iter_top_mappings
     /// Get a slice of the mappings of the topmost frame
     pub fn iter_top_mappings(&self) -> NamespaceStackFrameIter<'_> {
-        assert!(self.frames.is_empty(), "Namespace stack cannot be empty");
+        assert!(!self.frames.is_empty(), "Namespace stack cannot be empty");
         self.frames.last().unwrap().iter_mappings()
     }
 
-- 
2.43.0


From 988b3d7111b5de14536ff6fad904dca68d5064a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:03 +0000
Subject: [PATCH 09/20] fix: do not print namespace declarations to stdout

A library user gets its standard output corrupted by every document
that declares a namespace.
---
 src/names/attribute.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/names/attribute.rs b/src/names/attribute.rs
index b13dec9..9a885ab 100644
--- a/src/names/attribute.rs
+++ b/src/names/attribute.rs
@@ -27,12 +27,10 @@ impl Attribute {
     ) -> MarkupResult<Self> {
         if ns_stack.uses_xmlns() {
             if prefix.is_empty() && name == "xmlns" {
-                println!("Add ns '' to be {}", value);
                 ns_stack.add_ns("", &value);
                 let name = Name::new(ns_stack, name, name)?;
                 return Ok(Self { name, value });
             } else if prefix == "xmlns" {
-                println!("Add ns {} to be value {}", name, value);
                 ns_stack.add_ns(name, &value);
             }
         }
-- 
2.43.0


From b8aae734c65d48534927bf2a4f93b79112b8d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:04 +0000
Subject: [PATCH 10/20] fix: keep the default namespace declaration free of a
 prefix

An 'xmlns' attribute was given the prefix 'xmlns', and so it became an
'xmlns:xmlns' attribute in the XML events, which is not legal.
---
 src/names/attribute.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/names/attribute.rs b/src/names/attribute.rs
index 9a885ab..3633de6 100644
--- a/src/names/attribute.rs
+++ b/src/names/attribute.rs
@@ -1,5 +1,5 @@
 //a Imports
-use super::{Name, NamespaceStack};
+use super::{NSPrefixId, Name, NamespaceStack};
 use crate::MarkupResult;
 
 //a Attribute
@@ -28,7 +28,9 @@ impl Attribute {
         if ns_stack.uses_xmlns() {
             if prefix.is_empty() && name == "xmlns" {
                 ns_stack.add_ns("", &value);
-                let name = Name::new(ns_stack, name, name)?;
+                // the name is in the xmlns namespace, but it has no prefix
+                let mut name = Name::new(ns_stack, name, name)?;
+                name.prefix = NSPrefixId::none();
                 return Ok(Self { name, value });
             } else if prefix == "xmlns" {
                 ns_stack.add_ns(name, &value);
-- 
2.43.0


From 090f3f862fd470a68cf98eb1f2d3440c86132a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:42 +0000
Subject: [PATCH 11/20] fix: replace only well-formed entity references

- '&;', '&#;' and '&#x;' have no digits, but became a nul character
- '&#x1x2;' is not a number, but became a character
- an '&' that is not a reference hid a valid reference that follows it
---
 src/escape.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 1ff2236..e74f011 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -186,15 +186,20 @@ impl<'a> Entities<'a> {
             let mut is_hex = false;
             let mut is_dec = true;
             let mut value = 0;
+            let mut has_digits = false;
             while i < n {
                 let b = bytes[i];
+                if b == b'&' {
+                    // not a reference; there may be one that starts here
+                    break;
+                }
                 if b == b';' {
                     if inc_map {
                         if let Some(c) = self.map.get(&bytes[start..i]) {
                             return (i + 1, Some(c), None);
                         }
                     }
-                    if is_hex || is_dec {
+                    if has_digits && (is_hex || is_dec) {
                         if let Ok(c) = char::try_from(value) {
                             return (i + 1, None, Some(c));
                         }
@@ -209,12 +214,12 @@ impl<'a> Entities<'a> {
                 } else if (b'a'..=b'f').contains(&b) || (b'A'..=b'F').contains(&b) {
                     value = (value << 4) | (((b & 0xf) + 9) as u32);
                     is_dec = false;
+                    has_digits = true;
                 } else if b == b'x' {
-                    if i == start + 1 && is_dec {
-                        is_hex = true;
-                    }
+                    is_hex = i == start + 1 && is_dec;
                     is_dec = false;
                 } else if b.is_ascii_digit() {
+                    has_digits = true;
                     if is_dec {
                         value = (value * 10).wrapping_add((b - b'0') as u32);
                     } else {
-- 
2.43.0


From 1990ecd6ca2a2cd5b11563fd093b70e5b8efd139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:42 +0000
Subject: [PATCH 12/20] fix: do not build invalid strings from arbitrary bytes

escape_required is a safe public function that takes any bytes, and it
made an unchecked String of them. Return None if they are not UTF-8.
---
 src/escape.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index e74f011..6913938 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -87,8 +87,7 @@ pub fn escape_required(bytes: &[u8], char_set: usize, i: usize, n: usize) -> Opt
             }
         }
     }
-    let string = unsafe { String::from_utf8_unchecked(r) };
-    Some(string)
+    String::from_utf8(r).ok()
 }
 
 //fp escape
-- 
2.43.0


From a6f9286e5ee59186428266c343d67033bef38e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:42 +0000
Subject: [PATCH 13/20] fix: resolve attribute names after all namespace
 declarations

The namespaces that an element declares apply to all of its attributes,
but those in front of the declaration were resolved without it.
---
 src/hml_reader/builder.rs | 24 ++++++++++++------
 src/hml_reader/parser.rs  |  2 +-
 src/names/attribute.rs    | 53 ++++++++++++++++++++++++++++++++++-----
 3 files changed, 64 insertions(+), 15 deletions(-)

diff --git a/src/hml_reader/builder.rs b/src/hml_reader/builder.rs
index b0b7334..e3e9474 100644
--- a/src/hml_reader/builder.rs
+++ b/src/hml_reader/builder.rs
@@ -1,6 +1,6 @@
 //a Imports
 use crate::markup::Event;
-use crate::names::{Attributes, Name, NamespaceStack, Tag};
+use crate::names::{Attribute, Attributes, Name, NamespaceStack, Tag};
 use crate::{HmlError, HmlResult, Posn, Span};
 
 //a Internal types
@@ -96,7 +96,8 @@ where
     parent_depth: usize,
     open_tag: OpenTag<P, T>,
     tag_name: Name,
-    attributes: Attributes,
+    /// Attributes (span, prefix, name, value) to be resolved when all are known
+    attributes: Vec<(Span<P>, String, String, String)>,
 }
 
 //ii StackElement
@@ -112,7 +113,7 @@ where
     ) -> Self {
         ns_stack.push_frame();
 
-        let attributes = Attributes::default();
+        let attributes = Vec::new();
         let tag_name = Name::none();
         StackElement {
             parent_depth,
@@ -125,15 +126,22 @@ where
         &mut self,
         span: Span<P>,
         ns_stack: &mut NamespaceStack,
-        prefix: &str,
-        name: &str,
+        prefix: String,
+        name: String,
         value: String,
-    ) -> HmlResult<(), P> {
-        HmlError::map_markup_error(self.attributes.add(ns_stack, prefix, name, value), &span)
+    ) {
+        Attribute::declare_ns(ns_stack, &prefix, &name, &value);
+        self.attributes.push((span, prefix, name, value));
     }
 
     pub fn as_start_element(&mut self, ns_stack: &mut NamespaceStack) -> HmlResult<Event<P>, P> {
-        let attributes = std::mem::take(&mut self.attributes);
+        let mut attributes = Attributes::default();
+        for (span, prefix, name, value) in self.attributes.drain(..) {
+            HmlError::map_markup_error(
+                attributes.add_declared(ns_stack, &prefix, &name, value),
+                &span,
+            )?;
+        }
         let tag = HmlError::map_markup_error(
             Tag::new(
                 ns_stack,
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index e922c58..844d883 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -233,7 +233,7 @@ where
                         self.tag_stack
                             .last_mut()
                             .unwrap()
-                            .add_attribute(span, ns_stack, &prefix, &name, value)?;
+                            .add_attribute(span, ns_stack, prefix, name, value);
                         Ok(None)
                     } else {
                         HmlError::unexpected_attribute(span, &prefix, &name)
diff --git a/src/names/attribute.rs b/src/names/attribute.rs
index 3633de6..379d7d4 100644
--- a/src/names/attribute.rs
+++ b/src/names/attribute.rs
@@ -25,17 +25,43 @@ impl Attribute {
         name: &str,
         value: String,
     ) -> MarkupResult<Self> {
+        Self::declare_ns(ns_stack, prefix, name, &value);
+        Self::resolve(ns_stack, prefix, name, value)
+    }
+
+    //fp declare_ns
+    /// Add the namespace mapping that the attribute declares, if it is
+    /// a namespace declaration
+    pub(crate) fn declare_ns(
+        ns_stack: &mut NamespaceStack,
+        prefix: &str,
+        name: &str,
+        value: &str,
+    ) {
         if ns_stack.uses_xmlns() {
             if prefix.is_empty() && name == "xmlns" {
-                ns_stack.add_ns("", &value);
-                // the name is in the xmlns namespace, but it has no prefix
-                let mut name = Name::new(ns_stack, name, name)?;
-                name.prefix = NSPrefixId::none();
-                return Ok(Self { name, value });
+                ns_stack.add_ns("", value);
             } else if prefix == "xmlns" {
-                ns_stack.add_ns(name, &value);
+                ns_stack.add_ns(name, value);
             }
         }
+    }
+
+    //fp resolve
+    /// Create a new [Attribute] given that all the namespaces it can
+    /// use have been declared
+    pub(crate) fn resolve(
+        ns_stack: &mut NamespaceStack,
+        prefix: &str,
+        name: &str,
+        value: String,
+    ) -> MarkupResult<Self> {
+        if ns_stack.uses_xmlns() && prefix.is_empty() && name == "xmlns" {
+            // the name is in the xmlns namespace, but it has no prefix
+            let mut name = Name::new(ns_stack, name, name)?;
+            name.prefix = NSPrefixId::none();
+            return Ok(Self { name, value });
+        }
         let name = Name::new(ns_stack, prefix, name)?;
         Ok(Self { name, value })
     }
@@ -76,6 +102,21 @@ impl Attributes {
         Ok(())
     }
 
+    //mp add_declared
+    /// As `add`, for an attribute whose element has had all its
+    /// namespace declarations added already
+    pub(crate) fn add_declared(
+        &mut self,
+        ns_stack: &mut NamespaceStack,
+        prefix: &str,
+        name: &str,
+        value: String,
+    ) -> MarkupResult<()> {
+        self.attributes
+            .push(Attribute::resolve(ns_stack, prefix, name, value)?);
+        Ok(())
+    }
+
     //mp steal
     /// Take all the attributes away from another [Attributes] and add them to this
     pub fn steal(&mut self, v: &mut Self) {
-- 
2.43.0


From 8f5af3ebb885ccf5ebd095f6ebf255301ba8e36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:42 +0000
Subject: [PATCH 14/20] fix: write to the file given by --output in hmlconvert

The option was accepted but ignored, with the XML always going to
stdout.
---
 src/bin/hmlconvert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/hmlconvert.rs b/src/bin/hmlconvert.rs
index d507e81..832afd4 100644
--- a/src/bin/hmlconvert.rs
+++ b/src/bin/hmlconvert.rs
@@ -61,7 +61,10 @@ fn main() {
     let lexer_parsers = hml_rs::hml_reader::parse_fns();
     let mut lexer_iter = lexer.iter(&lexer_parsers);
     let mut parser: Parser<LexerPos> = Parser::default().set_version(xml_version);
-    let output = std::io::stdout();
+    let output: Box<dyn Write> = match matches.get_one::<String>("output") {
+        None => Box::new(std::io::stdout()),
+        Some(filename) => Box::new(File::create(filename).unwrap()),
+    };
     let mut writer = xml::writer::EmitterConfig::new()
         .perform_indent(true)
         .create_writer(output);
-- 
2.43.0


From 249c3cfc426ff40400adb94383456893710153db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:42 +0000
Subject: [PATCH 15/20] fix: exit with a failure status if hmlconvert fails to
 parse

A document with an error in it was converted in part, with an exit
status of success.
---
 src/bin/hmlconvert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/hmlconvert.rs b/src/bin/hmlconvert.rs
index 832afd4..7c210f6 100644
--- a/src/bin/hmlconvert.rs
+++ b/src/bin/hmlconvert.rs
@@ -89,7 +89,7 @@ fn main() {
                     eprintln!("Parse error: {e}");
                     eprintln!();
                 }
-                break;
+                std::process::exit(1);
             }
         }
     }
-- 
2.43.0


From c919c0e21ff3d915a659d55efe00dd8aabd22ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:19 +0000
Subject: [PATCH 16/20] Expose the HML escape module under the hml_verif cfg

The module is private and so far unused. The cfg makes it public for
verification builds only; nothing changes without it.
---
 src/hml.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hml.rs b/src/hml.rs
index f441eac..b3e265c 100644
--- a/src/hml.rs
+++ b/src/hml.rs
@@ -1,4 +1,5 @@
 //a Documentation
+#![allow(unexpected_cfgs)]
 /*!
 
 # HML
@@ -9,4 +10,8 @@ This module provides escape handling for XML and entity replacement
 
 !*/
 
+#[cfg(not(hml_verif))]
 mod escape;
+#[cfg(hml_verif)]
+#[allow(missing_docs)]
+pub mod escape;
-- 
2.43.0


From dce768bf48c7482552b739fd300d4d9e7a7d466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:19 +0000
Subject: [PATCH 17/20] fix: iterate over deep namespace stacks without
 recursion

The iterator recursed for every frame without a new mapping, and so it
overflowed the call stack within a deeply nested document.
---
 src/names/namespace_stack.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index 4cc6bda..39993a4 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -131,24 +131,21 @@ impl<'ns, 'b> NamespaceStackIterator<'ns, 'b> {
 impl<'ns, 'b> Iterator for NamespaceStackIterator<'ns, 'b> {
     type Item = NSMap;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.frame == 0 {
-            None
-        } else if let Some(iter) = &mut self.frame_iter {
-            if let Some((p_id, u_id)) = iter.next() {
-                if self.used.insert(*p_id) {
-                    Some(NSMap::new(*p_id, *u_id))
+        while self.frame > 0 {
+            if let Some(iter) = &mut self.frame_iter {
+                if let Some((p_id, u_id)) = iter.next() {
+                    if self.used.insert(*p_id) {
+                        return Some(NSMap::new(*p_id, *u_id));
+                    }
                 } else {
-                    self.next()
+                    self.frame -= 1;
+                    self.frame_iter = None;
                 }
             } else {
-                self.frame -= 1;
-                self.frame_iter = None;
-                self.next()
+                self.frame_iter = Some(self.stack.borrow_frame(self.frame - 1).mappings.iter());
             }
-        } else {
-            self.frame_iter = Some(self.stack.borrow_frame(self.frame - 1).mappings.iter());
-            self.next()
         }
+        None
     }
 }
 
-- 
2.43.0


From 15cbfa386cf5488f45dfb1f76bb721fb44c44282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:40 +0000
Subject: [PATCH 18/20] fix: do not map a prefix for a declaration with an
 empty name

Adding an attribute with the prefix xmlns and no name is an error, but it
changed the default namespace all the same.
---
 src/names/attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/names/attribute.rs b/src/names/attribute.rs
index 379d7d4..77c8186 100644
--- a/src/names/attribute.rs
+++ b/src/names/attribute.rs
@@ -41,7 +41,7 @@ impl Attribute {
         if ns_stack.uses_xmlns() {
             if prefix.is_empty() && name == "xmlns" {
                 ns_stack.add_ns("", value);
-            } else if prefix == "xmlns" {
+            } else if prefix == "xmlns" && !name.is_empty() {
                 ns_stack.add_ns(name, value);
             }
         }
-- 
2.43.0


From 5bb2cbfb787c80a9f739a1d71c82c89daaaa4613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:50 +0000
Subject: [PATCH 19/20] fix: reject references whose value overflows through
 letter digits

The value of a hexadecimal character reference was only compared with the
largest character after a decimal digit. Four or more letters at the end
could shift the high digits out, so that &#xd0010ffff; became U+10FFFF.
---
 src/escape.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 6913938..683bd38 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -224,15 +224,15 @@ impl<'a> Entities<'a> {
                     } else {
                         value = (value << 4) | ((b & 0xf) as u32);
                     }
-                    if value > 0x10ffff {
-                        is_dec = false;
-                        is_hex = false;
-                        value = 0;
-                    }
                 } else {
                     is_dec = false;
                     is_hex = false;
                 }
+                if value > 0x10ffff {
+                    is_dec = false;
+                    is_hex = false;
+                    value = 0;
+                }
                 i += 1;
             }
             (i, None, None)
-- 
2.43.0


From 9ba4fb87c12b6361f96f2ddbf352a0c06ccddf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:40:49 +0000
Subject: [PATCH 20/20] fix: report output that cannot be written

Standard output keeps the last line back until it is flushed, and what could
not be written at exit was not reported: a text without elements converted
with status zero when the disk was full. Flush it at the end.
---
 src/bin/hmlconvert.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/hmlconvert.rs b/src/bin/hmlconvert.rs
index 7c210f6..e352e14 100644
--- a/src/bin/hmlconvert.rs
+++ b/src/bin/hmlconvert.rs
@@ -93,4 +93,6 @@ fn main() {
             }
         }
     }
+    // standard output does not report what it cannot write at exit
+    writer.into_inner().flush().unwrap();
 }
-- 
2.43.0

