From f2f0a14e01a98ae5e78c4005bfded2fce3d9d64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:34 +0000
Subject: [PATCH 01/14] fix: lex comments from the character after the
 semicolon

An empty comment line swallowed the next line, a comment starting with a
non-ASCII character was sliced inside that character, and a lone semicolon
at the end of the text was read past its end.
---
 src/hml_reader/lexer_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index f5f1701..d25067f 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -28,9 +28,9 @@ where
     // Skip past the ';'
     // the comment line is from posn to the newline (or EOF)
     let comment_start = lexer.consumed_char(posn, ch);
-    let Some(ch) = lexer.peek_at(&posn) else {
+    let Some(ch) = lexer.peek_at(&comment_start) else {
         acc.push((comment_start, comment_start));
-        return (acc, None);
+        return (acc, Some(comment_start));
     };
     let (comment_end, _) = lexer.do_while(comment_start, ch, &|_, ch| !is_newline(ch));
     acc.push((comment_start, comment_end));
-- 
2.43.0


From ed64a2a242e54bca73389b1c7d26193ccdf458b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:34 +0000
Subject: [PATCH 02/14] fix: track lines and columns across whitespace

Newlines in whitespace advanced only the column, so positions after the
first line were wrong.
---
 src/hml_reader/lexer_parsers.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index d25067f..0a77d73 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -68,10 +68,18 @@ where
     L: lexer_rs::Lexer<State = P> + lexer_rs::CharStream<P>,
     P: Posn,
 {
-    let (end, Some((start, _n))) = lexer.do_while(posn, ch, &|_, ch| ch.is_whitespace()) else {
+    if !ch.is_whitespace() {
         return Ok(None);
-    };
-    let token = Token::whitespace(Span::new(start, end));
+    }
+    // Consume a character at a time, as do_while does not track lines
+    let mut end = lexer.consumed_char(posn, ch);
+    while let Some(ch) = lexer.peek_at(&end) {
+        if !ch.is_whitespace() {
+            break;
+        }
+        end = lexer.consumed_char(end, ch);
+    }
+    let token = Token::whitespace(Span::new(posn, end));
     Ok(Some((end, token)))
 }
 
-- 
2.43.0


From ffd20dc991abedb9a8b11b36152c9cf31aa18d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:35 +0000
Subject: [PATCH 03/14] fix: reject close tags that do not match the open box

A close tag with no box open hit an assertion, and one with another name or
depth closed the box silently.
---
 src/error.rs              | 13 +++++++++++++
 src/hml_reader/builder.rs |  8 +++++++-
 src/hml_reader/parser.rs  |  9 ++++++++-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 0b0beda..3fdc533 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -123,6 +123,12 @@ where
         /// Depth
         depth: usize,
     },
+    /// A close tag that does not match the innermost open boxed element
+    #[error("Close tag does not match an open boxed element")]
+    UnexpectedCloseTag {
+        /// Span of the error
+        span: Span<P>,
+    },
     /// Iterated beyond the end of the reader stream
     #[error("Attempt to parse beyond end of tokens, probably a bug")]
     BeyondEndOfTokens,
@@ -201,6 +207,12 @@ where
         Err(Self::UnexpectedTagIndent { span, depth })
     }
 
+    //fp unexpected_close_tag
+    /// Return an unexpected_close_tag error over the specified span
+    pub fn unexpected_close_tag<T>(span: Span<P>) -> HmlResult<T, P> {
+        Err(Self::UnexpectedCloseTag { span })
+    }
+
     //fp unexpected_attribute
     /// Return an unexpected_attribute eror over the given span
     pub fn unexpected_attribute<T>(span: Span<P>, prefx: &str, name: &str) -> HmlResult<T, P> {
@@ -239,6 +251,7 @@ where
             Self::IoError { span, .. } => Some(span),
             Self::UnexpectedCharacter { span, .. } => Some(span),
             Self::UnexpectedTagIndent { span, .. } => Some(span),
+            Self::UnexpectedCloseTag { span, .. } => Some(span),
             Self::UnexpectedAttribute { span, .. } => Some(span),
             Self::UnexpectedEOF { span, .. } => Some(span),
             Self::UnexpectedNewlineInQuotedString { span, .. } => Some(span),
diff --git a/src/hml_reader/builder.rs b/src/hml_reader/builder.rs
index 983b995..60389e2 100644
--- a/src/hml_reader/builder.rs
+++ b/src/hml_reader/builder.rs
@@ -44,7 +44,6 @@ where
     T: std::fmt::Debug,
 {
     span: Span<P>,
-    #[allow(dead_code)]
     name: Name,
     pub extra: T,
 }
@@ -147,6 +146,13 @@ where
         self.tag_name = tag.name;
         Ok(Event::start_element(self.open_tag.span, tag))
     }
+    /// Return true if the close tag, which has the given depth, has
+    /// the name and depth of this element
+    pub fn is_closed_by(&self, close_tag: &CloseTag<P, T>, depth: usize) -> bool {
+        close_tag.name.prefix == self.tag_name.prefix
+            && close_tag.name.name == self.tag_name.name
+            && depth == self.parent_depth + 1
+    }
     pub fn as_end_element(
         &self,
         ns_stack: &mut NamespaceStack,
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 6feb310..17f9bd0 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -118,7 +118,14 @@ where
             self.pending_close_tag = Some(close_tag);
             self.pop_tag_stack(ns_stack, &span)
         } else {
-            // should validate close_tag matches the StackElement at the top of the tag stack
+            // The close tag must match the boxed element at the top of the tag stack
+            let matches = self
+                .tag_stack
+                .last()
+                .is_some_and(|e| e.is_closed_by(&close_tag, close_tag.extra.depth));
+            if !matches {
+                return HmlError::unexpected_close_tag(*close_tag.span());
+            }
             self.pop_tag_stack(ns_stack, close_tag.span())
         }
     }
-- 
2.43.0


From 921d571bf82dc26d24afc3c79860f1508f161b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:01 +0000
Subject: [PATCH 04/14] fix: do not repeat shadowed prefixes when iterating a
 namespace stack

The set of prefixes already returned was never filled in.
---
 src/names/namespace_stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index ef25eb0..57aab00 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -129,7 +129,7 @@ impl<'ns, 'b> Iterator for NamespaceStackIterator<'ns, 'b> {
             None
         } else if let Some(iter) = &mut self.frame_iter {
             if let Some((p_id, u_id)) = iter.next() {
-                if self.used.contains(p_id) {
+                if !self.used.insert(*p_id) {
                     self.next()
                 } else {
                     Some(NSMap::new(*p_id, *u_id))
-- 
2.43.0


From a2f30e117c39e6c819e93ca98807d604cf0994e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:01 +0000
Subject: [PATCH 05/14] fix: list the mappings of the topmost namespace frame

The assertion on the stack was inverted, so listing always panicked, and the
order of the mappings was never recorded, so the list would have been empty.
---
 src/names/namespace_stack.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index 57aab00..7658c47 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -69,7 +69,9 @@ struct NamespaceStackFrame {
 impl NamespaceStackFrame {
     //mp add_mapping_by_id
     pub fn add_mapping_by_id(&mut self, map: NSMap) {
-        self.mappings.insert(map.prefix_id(), map.uri_id());
+        if self.mappings.insert(map.prefix_id(), map.uri_id()).is_none() {
+            self.order.push(map.prefix_id());
+        }
     }
 
     //mp add_mapping_by_id_if_unset
@@ -291,7 +293,7 @@ impl<'ns> NamespaceStack<'ns> {
     //ap iter_top_mappings
     /// Get a slice of the mappings of the topmost frame
     pub fn iter_top_mappings(&self) -> NamespaceStackFrameIter<'_> {
-        assert!(self.frames.is_empty(), "Namespace stack cannot be empty");
+        assert!(!self.frames.is_empty(), "Namespace stack cannot be empty");
         self.frames.last().unwrap().iter_mappings()
     }
 
-- 
2.43.0


From 6e1d59cbeab5c83d4252750fe5fc184da4df47ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:02 +0000
Subject: [PATCH 06/14] fix: accept all combining marks in names

XML allows U+0300 to U+036F after the start of a name; only U+0369 onwards
were accepted.
---
 src/hml_reader/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hml_reader/utils.rs b/src/hml_reader/utils.rs
index 68a6f61..c5fa942 100644
--- a/src/hml_reader/utils.rs
+++ b/src/hml_reader/utils.rs
@@ -51,7 +51,7 @@ pub fn is_name(ch: char) -> bool {
         let ch = ch as u32;
         ((ch==45) || (ch==46) || (ch==0xb7)) || // - .
             (48..=57).contains(&ch) ||
-            (0x369..=0x36f).contains(&ch) ||
+            (0x300..=0x36f).contains(&ch) ||
             (0x203f..=0x2040).contains(&ch)
     }
 }
-- 
2.43.0


From 15df225650ef3a8dd6c998062778a3881668038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:02 +0000
Subject: [PATCH 07/14] fix: do not print namespace declarations to standard
 output

---
 src/names/attribute.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/names/attribute.rs b/src/names/attribute.rs
index b13dec9..9a885ab 100644
--- a/src/names/attribute.rs
+++ b/src/names/attribute.rs
@@ -27,12 +27,10 @@ impl Attribute {
     ) -> MarkupResult<Self> {
         if ns_stack.uses_xmlns() {
             if prefix.is_empty() && name == "xmlns" {
-                println!("Add ns '' to be {}", value);
                 ns_stack.add_ns("", &value);
                 let name = Name::new(ns_stack, name, name)?;
                 return Ok(Self { name, value });
             } else if prefix == "xmlns" {
-                println!("Add ns {} to be value {}", name, value);
                 ns_stack.add_ns(name, &value);
             }
         }
-- 
2.43.0


From ffacf80c149bdec9fcbb7e6e8ee4ba2977a20c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:03 +0000
Subject: [PATCH 08/14] fix: keep the default namespace attribute unprefixed

It was given the xmlns prefix, so it was written to XML as xmlns:xmlns.
---
 src/names/attribute.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/names/attribute.rs b/src/names/attribute.rs
index 9a885ab..5196f8b 100644
--- a/src/names/attribute.rs
+++ b/src/names/attribute.rs
@@ -1,5 +1,5 @@
 //a Imports
-use super::{Name, NamespaceStack};
+use super::{NSPrefixId, Name, NamespaceStack};
 use crate::MarkupResult;
 
 //a Attribute
@@ -28,7 +28,9 @@ impl Attribute {
         if ns_stack.uses_xmlns() {
             if prefix.is_empty() && name == "xmlns" {
                 ns_stack.add_ns("", &value);
-                let name = Name::new(ns_stack, name, name)?;
+                let mut name = Name::new(ns_stack, name, name)?;
+                // The attribute is in the xmlns namespace, but has no prefix
+                name.prefix = NSPrefixId::none();
                 return Ok(Self { name, value });
             } else if prefix == "xmlns" {
                 ns_stack.add_ns(name, &value);
-- 
2.43.0


From 8ab8ce3ab30f791fb703cf9e4030190a45728145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:03 +0000
Subject: [PATCH 09/14] fix: add namespaces of an element before resolving its
 attributes

An attribute whose prefix was declared by a later attribute of the same
element was resolved in the outer scope, or rejected.
---
 src/hml_reader/builder.rs | 21 ++++++++++++-----
 src/hml_reader/parser.rs  |  2 +-
 src/names/attribute.rs    | 47 ++++++++++++++++++++++++++++++++++++---
 3 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/src/hml_reader/builder.rs b/src/hml_reader/builder.rs
index 60389e2..fbbfd19 100644
--- a/src/hml_reader/builder.rs
+++ b/src/hml_reader/builder.rs
@@ -1,6 +1,6 @@
 //a Imports
 use crate::markup::Event;
-use crate::names::{Attributes, Name, NamespaceStack, Tag};
+use crate::names::{Attribute, Attributes, Name, NamespaceStack, Tag};
 use crate::{HmlError, HmlResult, Posn, Span};
 
 //a Internal types
@@ -96,7 +96,8 @@ where
     parent_depth: usize,
     open_tag: OpenTag<P, T>,
     tag_name: Name,
-    attributes: Attributes,
+    /// Attributes in document order, resolved once all have been seen
+    attributes: Vec<(Span<P>, String, String, String)>,
 }
 
 //ii StackElement
@@ -112,7 +113,7 @@ where
     ) -> Self {
         ns_stack.push_frame();
 
-        let attributes = Attributes::default();
+        let attributes = Vec::new();
         let tag_name = Name::none();
         StackElement {
             parent_depth,
@@ -128,12 +129,20 @@ where
         prefix: &str,
         name: &str,
         value: String,
-    ) -> HmlResult<(), P> {
-        HmlError::map_markup_error(self.attributes.add(ns_stack, prefix, name, value), &span)
+    ) {
+        Attribute::add_ns(ns_stack, prefix, name, &value);
+        self.attributes
+            .push((span, prefix.into(), name.into(), value));
     }
 
     pub fn as_start_element(&mut self, ns_stack: &mut NamespaceStack) -> HmlResult<Event<P>, P> {
-        let attributes = std::mem::take(&mut self.attributes);
+        let mut attributes = Attributes::default();
+        for (span, prefix, name, value) in std::mem::take(&mut self.attributes) {
+            HmlError::map_markup_error(
+                attributes.add_resolved(ns_stack, &prefix, &name, value),
+                &span,
+            )?;
+        }
         let tag = HmlError::map_markup_error(
             Tag::new(
                 ns_stack,
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 17f9bd0..632c720 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -233,7 +233,7 @@ where
                         self.tag_stack
                             .last_mut()
                             .unwrap()
-                            .add_attribute(span, ns_stack, &prefix, &name, value)?;
+                            .add_attribute(span, ns_stack, &prefix, &name, value);
                         Ok(None)
                     } else {
                         HmlError::unexpected_attribute(span, &prefix, &name)
diff --git a/src/names/attribute.rs b/src/names/attribute.rs
index 5196f8b..c11d864 100644
--- a/src/names/attribute.rs
+++ b/src/names/attribute.rs
@@ -19,21 +19,47 @@ pub struct Attribute {
 impl Attribute {
     //fp new
     /// Create a new [Attribute] using the [NamespaceStack] to resolve the name
+    ///
+    /// If it is a namespace attribute then the namespace is added to
+    /// the [NamespaceStack] first
     pub fn new(
         ns_stack: &mut NamespaceStack,
         prefix: &str,
         name: &str,
         value: String,
+    ) -> MarkupResult<Self> {
+        Self::add_ns(ns_stack, prefix, name, &value);
+        Self::resolve(ns_stack, prefix, name, value)
+    }
+
+    //fp add_ns
+    /// Add the namespace to the topmost frame of the [NamespaceStack], if
+    /// this is a namespace attribute
+    pub(crate) fn add_ns(ns_stack: &mut NamespaceStack, prefix: &str, name: &str, value: &str) {
+        if ns_stack.uses_xmlns() {
+            if prefix.is_empty() && name == "xmlns" {
+                ns_stack.add_ns("", value);
+            } else if prefix == "xmlns" {
+                ns_stack.add_ns(name, value);
+            }
+        }
+    }
+
+    //fp resolve
+    /// Create a new [Attribute] using the [NamespaceStack] to resolve
+    /// the name, without adding any namespace
+    pub(crate) fn resolve(
+        ns_stack: &mut NamespaceStack,
+        prefix: &str,
+        name: &str,
+        value: String,
     ) -> MarkupResult<Self> {
         if ns_stack.uses_xmlns() {
             if prefix.is_empty() && name == "xmlns" {
-                ns_stack.add_ns("", &value);
                 let mut name = Name::new(ns_stack, name, name)?;
                 // The attribute is in the xmlns namespace, but has no prefix
                 name.prefix = NSPrefixId::none();
                 return Ok(Self { name, value });
-            } else if prefix == "xmlns" {
-                ns_stack.add_ns(name, &value);
             }
         }
         let name = Name::new(ns_stack, prefix, name)?;
@@ -76,6 +102,21 @@ impl Attributes {
         Ok(())
     }
 
+    //mp add_resolved
+    /// Add a prefix/name and value to the [Attributes] list, where any
+    /// namespace it declares has already been added to the [NamespaceStack]
+    pub(crate) fn add_resolved(
+        &mut self,
+        ns_stack: &mut NamespaceStack,
+        prefix: &str,
+        name: &str,
+        value: String,
+    ) -> MarkupResult<()> {
+        self.attributes
+            .push(Attribute::resolve(ns_stack, prefix, name, value)?);
+        Ok(())
+    }
+
     //mp steal
     /// Take all the attributes away from another [Attributes] and add them to this
     pub fn steal(&mut self, v: &mut Self) {
-- 
2.43.0


From d1db60ae22f804f1de83df1b2d7fecf5ec88068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:04 +0000
Subject: [PATCH 10/14] fix: keep malformed entity references unchanged

References without digits became NUL characters, a second 'x' was skipped,
and a lone ampersand hid the reference following it.
---
 src/escape.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 1ff2236..0ef678e 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -186,15 +186,20 @@ impl<'a> Entities<'a> {
             let mut is_hex = false;
             let mut is_dec = true;
             let mut value = 0;
+            let mut num_digits = 0;
             while i < n {
                 let b = bytes[i];
+                if b == b'&' {
+                    // Not an entity, but another may start here
+                    break;
+                }
                 if b == b';' {
                     if inc_map {
                         if let Some(c) = self.map.get(&bytes[start..i]) {
                             return (i + 1, Some(c), None);
                         }
                     }
-                    if is_hex || is_dec {
+                    if num_digits > 0 && (is_hex || is_dec) {
                         if let Ok(c) = char::try_from(value) {
                             return (i + 1, None, Some(c));
                         }
@@ -209,10 +214,9 @@ impl<'a> Entities<'a> {
                 } else if (b'a'..=b'f').contains(&b) || (b'A'..=b'F').contains(&b) {
                     value = (value << 4) | (((b & 0xf) + 9) as u32);
                     is_dec = false;
+                    num_digits += 1;
                 } else if b == b'x' {
-                    if i == start + 1 && is_dec {
-                        is_hex = true;
-                    }
+                    is_hex = i == start + 1 && is_dec;
                     is_dec = false;
                 } else if b.is_ascii_digit() {
                     if is_dec {
@@ -220,6 +224,7 @@ impl<'a> Entities<'a> {
                     } else {
                         value = (value << 4) | ((b & 0xf) as u32);
                     }
+                    num_digits += 1;
                     if value > 0x10ffff {
                         is_dec = false;
                         is_hex = false;
-- 
2.43.0


From 909936cb66aad67f9d49837931d4278674529cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:20 +0000
Subject: [PATCH 11/14] Expose the HML escape decoder to verification builds

Guarded by the hml_verif cfg; nothing changes without it.
---
 src/hml.rs | 6 ++++++
 src/lib.rs | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/hml.rs b/src/hml.rs
index f441eac..981b052 100644
--- a/src/hml.rs
+++ b/src/hml.rs
@@ -9,4 +9,10 @@ This module provides escape handling for XML and entity replacement
 
 !*/
 
+#[cfg(not(hml_verif))]
 mod escape;
+
+// Exposed to the verification harness only
+#[cfg(hml_verif)]
+#[allow(missing_docs)]
+pub mod escape;
diff --git a/src/lib.rs b/src/lib.rs
index 90a7746..8999683 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -212,6 +212,7 @@ pub type Span<P> = lexer_rs::StreamCharSpan<P>;
 pub mod escape;
 
 // Probably exposes nothing - it as HML escapes in some form
+#[allow(unexpected_cfgs)]
 pub mod hml;
 
 // All the errors the library can return
-- 
2.43.0


From 4654c90fda1919809b422ce153181f5a8dcae290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:53 +0000
Subject: [PATCH 12/14] fix: Refuse character references whose value overflows
 in a letter digit

A hexadecimal reference with more than eight digits could wrap around and
be replaced by an unrelated character, as the value was only checked after
the digits 0 to 9.
---
 src/escape.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/escape.rs b/src/escape.rs
index 0ef678e..cb7fbd0 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -215,6 +215,10 @@ impl<'a> Entities<'a> {
                     value = (value << 4) | (((b & 0xf) + 9) as u32);
                     is_dec = false;
                     num_digits += 1;
+                    if value > 0x10ffff {
+                        is_hex = false;
+                        value = 0;
+                    }
                 } else if b == b'x' {
                     is_hex = i == start + 1 && is_dec;
                     is_dec = false;
-- 
2.43.0


From 5610989ca7d0fd119bc312adfc86cd952d86f68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:49 +0000
Subject: [PATCH 13/14] fix: write the converted document to the file named by
 --output

The option was accepted and described in the help but ignored, so the
document always went to standard output.
---
 src/bin/hmlconvert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/hmlconvert.rs b/src/bin/hmlconvert.rs
index d507e81..832afd4 100644
--- a/src/bin/hmlconvert.rs
+++ b/src/bin/hmlconvert.rs
@@ -61,7 +61,10 @@ fn main() {
     let lexer_parsers = hml_rs::hml_reader::parse_fns();
     let mut lexer_iter = lexer.iter(&lexer_parsers);
     let mut parser: Parser<LexerPos> = Parser::default().set_version(xml_version);
-    let output = std::io::stdout();
+    let output: Box<dyn Write> = match matches.get_one::<String>("output") {
+        None => Box::new(std::io::stdout()),
+        Some(filename) => Box::new(File::create(filename).unwrap()),
+    };
     let mut writer = xml::writer::EmitterConfig::new()
         .perform_indent(true)
         .create_writer(output);
-- 
2.43.0


From 3412d43cfd6b250b26796865379529ec9b2a3eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:22 +0000
Subject: [PATCH 14/14] fix: iterate over the frames of a namespace stack
 without recursion

Each hidden mapping and each frame cost a nested call, so that iterating
over a stack with many frames overflowed the call stack.
---
 src/names/namespace_stack.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index 7658c47..eea55cb 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -127,24 +127,19 @@ impl<'ns, 'b> NamespaceStackIterator<'ns, 'b> {
 impl<'ns, 'b> Iterator for NamespaceStackIterator<'ns, 'b> {
     type Item = NSMap;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.frame == 0 {
-            None
-        } else if let Some(iter) = &mut self.frame_iter {
-            if let Some((p_id, u_id)) = iter.next() {
-                if !self.used.insert(*p_id) {
-                    self.next()
-                } else {
-                    Some(NSMap::new(*p_id, *u_id))
+        while self.frame > 0 {
+            let iter = self.frame_iter.get_or_insert_with(|| {
+                self.stack.borrow_frame(self.frame - 1).mappings.iter()
+            });
+            for (p_id, u_id) in iter {
+                if self.used.insert(*p_id) {
+                    return Some(NSMap::new(*p_id, *u_id));
                 }
-            } else {
-                self.frame -= 1;
-                self.frame_iter = None;
-                self.next()
             }
-        } else {
-            self.frame_iter = Some(self.stack.borrow_frame(self.frame - 1).mappings.iter());
-            self.next()
+            self.frame -= 1;
+            self.frame_iter = None;
         }
+        None
     }
 }
 
-- 
2.43.0

