From a4ba2790329406cb3db97c5b4470668deadb2ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 01/11] fix: keep first line of quoted attribute value that
 ends with a backslash

---
 src/attr.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/attr.rs b/src/attr.rs
index e56773e..b60130b 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -746,7 +746,11 @@ impl<'s> Parser<'s> {
 
             let st = std::mem::replace(&mut self.state, state_next);
 
-            if st != self.state && !matches!((st, self.state), (ValueEscape, _) | (_, ValueEscape))
+            if st != self.state
+                && !matches!(
+                    (st, self.state),
+                    (ValueEscape, ValueQuoted) | (_, ValueEscape)
+                )
             {
                 let content = &input[pos_prev..pos];
                 pos_prev = pos;
@@ -759,11 +763,11 @@ impl<'s> Parser<'s> {
                         },
                         "".into(),
                     )),
-                    Value | ValueQuoted | ValueContinued => {
+                    Value | ValueQuoted | ValueEscape | ValueContinued => {
                         let last = self.attrs.len() - 1;
-                        self.attrs.0[last]
-                            .1
-                            .extend(&content[usize::from(matches!(st, ValueQuoted))..]);
+                        self.attrs.0[last].1.extend(
+                            &content[usize::from(matches!(st, ValueQuoted | ValueEscape))..],
+                        );
                     }
                     Comment | CommentNewline => {
                         let last = self.attrs.len() - 1;
-- 
2.43.0


From fb4ecc4a3ae8303093a6b3f3482787eeee1dcb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 02/11] fix: do not apply attributes of one block to later
 headings and link definitions

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f54dd63..b8aa19e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2232,6 +2232,7 @@ impl<'s> PrePass<'s> {
                         "".into() // static
                     };
                     link_definitions.insert(label, (url, attrs));
+                    attr_prev.clear();
                 }
                 block::EventKind::Enter(block::Node::Leaf(block::Leaf::Heading { .. })) => {
                     // All headings ids have to be obtained initially, as references can appear
@@ -2319,11 +2320,14 @@ impl<'s> PrePass<'s> {
                         text,
                         id_override,
                     });
+                    attr_prev.clear();
                 }
                 block::EventKind::Atom(block::Atom::Attributes) => {
                     attr_prev.push(e.span.clone());
                 }
-                block::EventKind::Enter(..)
+                block::EventKind::Enter(block::Node::Container(block::Container::Section {
+                    ..
+                }))
                 | block::EventKind::Exit(block::Node::Container(block::Container::Section {
                     ..
                 })) => {}
-- 
2.43.0


From a90aba9f837e4ca21d8284af2bb2dedf295ca323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 03/11] fix: close verbatim after backslash on continued lines

---
 src/inline.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/inline.rs b/src/inline.rs
index c09f477..189ca1f 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -118,7 +118,9 @@ impl<'s> Input<'s> {
     }
 
     fn set_current_line(&mut self, line: std::ops::Range<usize>) {
+        let verbatim = self.lexer.verbatim;
         self.lexer = lex::Lexer::new(&self.src.as_bytes()[line.clone()]);
+        self.lexer.verbatim = verbatim;
         self.span = line.start..line.start;
         self.span_line = line;
     }
-- 
2.43.0


From 3163fc8d2be2c5dc9c715f7b110e66d4bac0075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 04/11] fix: do not emit br tag within alt attribute of image

---
 src/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 8c87508..a1abfdd 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -658,11 +658,11 @@ impl<'s> Renderer<'s> {
             Event::EnDash => out.write_str("–")?,
             Event::EmDash => out.write_str("—")?,
             Event::NonBreakingSpace => out.write_str("&nbsp;")?,
-            Event::Hardbreak => {
+            Event::Hardbreak if self.img_alt_text == 0 => {
                 out.write_str("<br>")?;
                 self.block(out, 0)?;
             }
-            Event::Softbreak => {
+            Event::Hardbreak | Event::Softbreak => {
                 out.write_char('\n')?;
                 self.indent(out)?;
             }
-- 
2.43.0


From 8749d73c463469c538f7fe17de6f6ee31ceb3d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 05/11] fix: do not panic on heading with more than 65535
 hashes

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index cf43e85..35fcaf7 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -425,7 +425,7 @@ impl<'s> TreeParser<'s> {
                 Kind::Atom(a) => Block::Atom(a),
                 Kind::Paragraph => Block::Leaf(Paragraph),
                 Kind::Heading { level } => Block::Leaf(Heading {
-                    level: level.try_into().unwrap(),
+                    level: level.try_into().unwrap_or(u16::MAX),
                     has_section: top_level,
                     pos: span_start.start as u32,
                 }),
-- 
2.43.0


From 63a95c98ae413821251fa7d95df7e95de396c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 06/11] fix: do not lose text of table row that ends within
 verbatim

A line whose last pipe is part of verbatim, or that is a single pipe, is not a
table row.
---
 src/block.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 35fcaf7..b827892 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1003,7 +1003,7 @@ impl<'s> IdentifiedBlock<'s> {
                 (attr::valid(line) == lt).then(|| (Kind::Atom(Attributes), indent..(indent + l)))
             }
             '|' => {
-                if lt >= 2 && line_t.ends_with('|') && !line_t.ends_with("\\|") {
+                if is_table_row(line_t) {
                     Some((
                         Kind::Table {
                             caption: false,
@@ -1297,16 +1297,34 @@ impl<'s> Kind<'s> {
                     *caption = true;
                     true
                 } else {
-                    !*blankline
-                        && (line_t.starts_with('|')
-                            && line_t.ends_with('|')
-                            && !line_t.ends_with("\\|"))
+                    !*blankline && is_table_row(line_t)
                 }
             }
         }
     }
 }
 
+/// Whether a trimmed line is enclosed by pipes, where the last one is not part of verbatim.
+fn is_table_row(line: &str) -> bool {
+    if line.len() < 2 || !line.starts_with('|') || !line.ends_with('|') || line.ends_with("\\|") {
+        return false;
+    }
+
+    let mut lex = lex::Lexer::new(&line.as_bytes()[1..]);
+    let mut verbatim = None;
+    while let Some(lex::Token { kind, len }) = lex.next() {
+        if matches!(kind, lex::Kind::Seq(lex::Sequence::Backtick)) {
+            if verbatim.is_none() {
+                verbatim = Some(len);
+            } else if verbatim == Some(len) {
+                verbatim = None;
+            }
+            lex.verbatim = verbatim.is_some();
+        }
+    }
+    verbatim.is_none()
+}
+
 /// Similar to `std::str::split('\n')` but newline is included and spans are used instead of `str`.
 fn lines(src: &str) -> impl Iterator<Item = std::ops::Range<usize>> + '_ {
     let mut chars = src.chars();
-- 
2.43.0


From 3fccca68d42d78d55a7607cf9cf4a3add6092bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 07/11] fix: reinterpret all items when resolving ambiguous
 list numbering

Do not report a roman numeral list when a later item is a letter that is not a
roman numeral.
---
 src/block.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b827892..9c293d0 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -144,6 +144,14 @@ impl ListNumber {
 }
 
 impl ListType {
+    /// Other list type that an item of this type could represent, if any.
+    fn alternative(&self) -> Option<Self> {
+        match self {
+            Ordered(n, s) => n.ambiguity().map(|n| Ordered(n, *s)),
+            _ => None,
+        }
+    }
+
     /// Whether this list item can be continued by the other list item.
     ///
     /// If so, return the two new resolved `ListType` objects. They only differ from the input in
@@ -185,6 +193,8 @@ struct OpenList {
     /// Type of the previous item, generally the same as `ty_start` but value may differ in ordered
     /// lists.
     ty_prev: ListType,
+    /// Whether the type of every item so far is ambiguous.
+    ambiguous: bool,
     /// Depth in the tree where the direct list items of the list are. Needed to determine when to
     /// close the list.
     depth: u16,
@@ -371,6 +381,7 @@ impl<'s> TreeParser<'s> {
             if let Some(OpenList {
                 ty_start,
                 ty_prev,
+                ambiguous,
                 depth,
                 ..
             }) = self.open_lists.last_mut()
@@ -378,10 +389,20 @@ impl<'s> TreeParser<'s> {
                 debug_assert!(usize::from(*depth) <= self.open.len());
                 if self.open.len() == (*depth).into() {
                     let continues = if let Kind::ListItem { ty: ty_new, .. } = kind {
-                        if let Some((ty_prev_res, ty_new_res)) = ty_prev.continues(&ty_new) {
-                            if ty_start == ty_prev {
-                                *ty_start = ty_prev_res;
+                        let single = is_single_letter(&self.src[span_start.clone()]);
+                        if let Some((ty_prev_res, ty_new_res)) =
+                            ty_prev.continues(&ty_new).filter(|(prev, new)| {
+                                (prev == ty_prev || *ambiguous) && (*new == ty_new || single)
+                            })
+                        {
+                            if ty_prev_res != *ty_prev {
+                                // all items have to be reinterpreted
+                                *ty_start = ty_start.alternative().unwrap_or(*ty_start);
                             }
+                            *ambiguous &= ty_prev_res == *ty_prev
+                                && ty_new_res == ty_new
+                                && ty_new.alternative().is_some()
+                                && single;
                             *ty_prev = ty_new_res;
                             true
                         } else {
@@ -627,6 +648,8 @@ impl<'s> TreeParser<'s> {
                 self.open_lists.push(OpenList {
                     ty_start: *ty,
                     ty_prev: *ty,
+                    ambiguous: ty.alternative().is_some()
+                        && is_single_letter(&self.src[span_start.clone()]),
                     depth: self.open.len().try_into().unwrap(),
                     event,
                 });
@@ -1325,6 +1348,11 @@ fn is_table_row(line: &str) -> bool {
     verbatim.is_none()
 }
 
+/// Whether an ordered list marker consists of a single letter.
+fn is_single_letter(marker: &str) -> bool {
+    marker.bytes().filter(u8::is_ascii_alphabetic).count() == 1
+}
+
 /// Similar to `std::str::split('\n')` but newline is included and spans are used instead of `str`.
 fn lines(src: &str) -> impl Iterator<Item = std::ops::Range<usize>> + '_ {
     let mut chars = src.chars();
-- 
2.43.0


From 7bf12e5d2d49f88bcfe421f8e44f45185f2673cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 08/11] fix: do not skip line prefixes after attributes
 followed by unfinished ones

---
 src/inline.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 189ca1f..7ea2e8d 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -523,12 +523,14 @@ impl<'s> Parser<'s> {
             parser.finish()
         };
 
-        for _ in 0..line_next {
+        for _ in 0..state.valid_lines {
             let l = self.input.ahead.pop_front().unwrap();
             self.input.set_current_line(l);
         }
         self.input.span = start_attr..state.end_attr;
-        self.input.lexer = lex::Lexer::new(&self.input.src.as_bytes()[state.end_attr..line_end]);
+        self.input.lexer = lex::Lexer::new(
+            &self.input.src.as_bytes()[state.end_attr..self.input.span_line.end],
+        );
 
         if attrs.is_empty() {
             if matches!(state.elem_ty, AttributesElementType::Container { .. }) {
-- 
2.43.0


From d29b1b7f5e7c65a45563e7991f6be98e01d1c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 09/11] fix: do not repeat, reorder or lose attributes within
 multi-line link destination

---
 src/inline.rs | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 7ea2e8d..a7d5aec 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -84,6 +84,8 @@ struct Input<'s> {
     complete: bool,
     /// Span of current line.
     span_line: std::ops::Range<usize>,
+    /// Spans of all lines up to and including the current line within the current block.
+    lines: Vec<std::ops::Range<usize>>,
     /// Upcoming lines within the current block.
     ahead: std::collections::VecDeque<std::ops::Range<usize>>,
     /// Span of current event.
@@ -97,6 +99,7 @@ impl<'s> Input<'s> {
             lexer: lex::Lexer::new(b""),
             complete: false,
             span_line: 0..0,
+            lines: Vec::new(),
             ahead: std::collections::VecDeque::new(),
             span: 0..0,
         }
@@ -122,12 +125,14 @@ impl<'s> Input<'s> {
         self.lexer = lex::Lexer::new(&self.src.as_bytes()[line.clone()]);
         self.lexer.verbatim = verbatim;
         self.span = line.start..line.start;
+        self.lines.push(line.clone());
         self.span_line = line;
     }
 
     fn reset(&mut self) {
         self.lexer = lex::Lexer::new(b"");
         self.complete = false;
+        self.lines.clear();
         self.ahead.clear();
     }
 
@@ -528,9 +533,8 @@ impl<'s> Parser<'s> {
             self.input.set_current_line(l);
         }
         self.input.span = start_attr..state.end_attr;
-        self.input.lexer = lex::Lexer::new(
-            &self.input.src.as_bytes()[state.end_attr..self.input.span_line.end],
-        );
+        self.input.lexer =
+            lex::Lexer::new(&self.input.src.as_bytes()[state.end_attr..self.input.span_line.end]);
 
         if attrs.is_empty() {
             if matches!(state.elem_ty, AttributesElementType::Container { .. }) {
@@ -788,32 +792,20 @@ impl<'s> Parser<'s> {
                             spec.into()
                         } else if multiline_spec {
                             let mut spec = String::new();
-                            let mut first_part = true;
-                            let mut span =
-                                self.events[e_opener].span.end..self.events[e_opener].span.end;
-
-                            let mut append = |span: std::ops::Range<usize>| {
-                                self.input.src[span].split('\n').for_each(|s| {
-                                    if !s.is_empty() {
-                                        if !inline && !first_part {
+                            for line in &self.input.lines {
+                                let start = usize::max(line.start, span_spec.start);
+                                let end = usize::min(line.end, span_spec.end);
+                                if start < end {
+                                    let part = &self.input.src[start..end];
+                                    let part = part.strip_suffix('\n').unwrap_or(part);
+                                    if !part.is_empty() {
+                                        if !inline && !spec.is_empty() {
                                             spec.push(' ');
                                         }
-                                        spec.push_str(s);
-                                        first_part = false;
+                                        spec.push_str(part);
                                     }
-                                });
-                            };
-
-                            for ev in self.events.iter().skip(e_opener + 1) {
-                                if span.end == ev.span.start {
-                                    span.end = ev.span.end;
-                                } else {
-                                    append(span);
-                                    span = ev.span.clone();
                                 }
                             }
-                            append(span);
-
                             spec.into()
                         } else {
                             self.input.src[span_spec.clone()].into()
-- 
2.43.0


From 598fda7dd908b0796e7a942056ff90692ec4cad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 10/11] fix: treat span with empty attributes as a span, not as
 text across lines

---
 src/inline.rs | 61 ++++++++++++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index a7d5aec..c9db2e1 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -536,47 +536,48 @@ impl<'s> Parser<'s> {
         self.input.lexer =
             lex::Lexer::new(&self.input.src.as_bytes()[state.end_attr..self.input.span_line.end]);
 
-        if attrs.is_empty() {
-            if matches!(state.elem_ty, AttributesElementType::Container { .. }) {
-                let last = self.events.len() - 1;
-                self.events[last].span.end = self.input.span.end;
-            }
+        let attr_event = if attrs.is_empty() {
+            None
         } else {
             let attr_index = self.store_attributes.len() as AttributesIndex;
             self.store_attributes.push(attrs);
-            let attr_event = Event {
+            Some(Event {
                 kind: EventKind::Attributes {
                     container: matches!(state.elem_ty, AttributesElementType::Container { .. }),
                     attrs: attr_index,
                 },
                 span: self.input.span.clone(),
-            };
-            match state.elem_ty {
-                AttributesElementType::Container { mut e_placeholder } => {
+            })
+        };
+        match state.elem_ty {
+            AttributesElementType::Container { mut e_placeholder } => {
+                if let Some(attr_event) = attr_event {
                     self.events[e_placeholder] = attr_event;
-                    let mut last = self.events.len() - 1;
-                    if matches!(self.events[e_placeholder + 1].kind, EventKind::Str) {
-                        let range = self.events[e_placeholder + 1].span.clone();
-                        if &self.input.src[range] == "![" {
-                            // Lexed as image link, but actually just a span preceeded by an exclamation mark
-                            let start = self.events[e_placeholder + 1].span.start;
-                            self.events.insert(
-                                e_placeholder,
-                                Event {
-                                    kind: EventKind::Str,
-                                    span: start..start + 1,
-                                },
-                            );
-                            e_placeholder += 1;
-                            last += 1;
-                            self.events[e_placeholder + 1].span.start += 1;
-                        }
-                        self.events[e_placeholder + 1].kind = EventKind::Enter(Span);
-                        self.events[last].kind = EventKind::Exit(Span);
+                }
+                let mut last = self.events.len() - 1;
+                if matches!(self.events[e_placeholder + 1].kind, EventKind::Str) {
+                    let range = self.events[e_placeholder + 1].span.clone();
+                    if &self.input.src[range] == "![" {
+                        // Lexed as image link, but actually just a span preceeded by an exclamation mark
+                        let start = self.events[e_placeholder + 1].span.start;
+                        self.events.insert(
+                            e_placeholder,
+                            Event {
+                                kind: EventKind::Str,
+                                span: start..start + 1,
+                            },
+                        );
+                        e_placeholder += 1;
+                        last += 1;
+                        self.events[e_placeholder + 1].span.start += 1;
                     }
-                    self.events[last].span.end = self.input.span.end;
+                    self.events[e_placeholder + 1].kind = EventKind::Enter(Span);
+                    self.events[last].kind = EventKind::Exit(Span);
                 }
-                AttributesElementType::Word => {
+                self.events[last].span.end = self.input.span.end;
+            }
+            AttributesElementType::Word => {
+                if let Some(attr_event) = attr_event {
                     self.events.push_back(attr_event);
                     // push for now, pop later if attrs attached to word
                     self.push(EventKind::Empty);
-- 
2.43.0


From 6d30c0f4c45fbfd9025294ac7a365c3a829556c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:56 +0000
Subject: [PATCH 11/11] fix: separate the classes of math and task lists from
 explicit classes

---
 src/html.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index a1abfdd..e16b321 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -753,6 +753,9 @@ where
         Container::Math { display: true } => Some("math display"),
         _ => None,
     } {
+        if first_written {
+            out.write_char(' ')?;
+        }
         first_written = true;
         out.write_str(cls)?;
     }
-- 
2.43.0

