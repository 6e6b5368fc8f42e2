From bffbc9584c5acff67fb8d5cb8825d9c125f250f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 01/11] fix: report MissingText instead of focusing on another
 node's text

---
 src/pretty_print.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index 8a8a846..b02b1e9 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -470,6 +470,7 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
         use ConsolidatedNotation::*;
         span!("seek_text");
 
+        let id = chunk.id;
         let mut first_block = self.next_blocks.pop().unwrap();
         self.expand_focusing_first_block(&mut first_block, chunk)?;
         self.next_blocks.push(first_block);
@@ -483,7 +484,7 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
                     FocusMark => (),
                     EndOfLine => block.at_eol = true,
                     Textual(textual) => {
-                        if textual.is_from_text {
+                        if textual.is_from_text && chunk.id == id {
                             let (left_textual, right_textual) = textual.split_at(text_pos);
                             block.push_text(left_textual)?;
                             block.chunks.push(Chunk {
-- 
2.43.0


From 841d72ec0055b465c94ec5de157c18f35184772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 02/11] fix: divide pane space when proportional weights are
 all zero or huge

---
 src/pane/divvy.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pane/divvy.rs b/src/pane/divvy.rs
index d718004..74053b8 100644
--- a/src/pane/divvy.rs
+++ b/src/pane/divvy.rs
@@ -80,12 +80,18 @@ impl Divvier {
                 child_hungers.push(*hunger);
             }
         }
-        let total_hunger: usize = child_hungers.iter().sum();
+        // Compute in `u128` because `cookies * hunger` may not fit in a `usize`.
+        let total_hunger: u128 = child_hungers.iter().map(|hunger| *hunger as u128).sum();
+        if total_hunger == 0 {
+            // No child wants anything, so leave all of their allocations at zero.
+            return;
+        }
+        let deserved_cookies = |hunger: &usize| self.cookies as u128 * *hunger as u128;
         // Start by allocating each child a guaranteed minimum number of cookies,
         // found as the floor of the real number of cookies they deserve.
         let mut cookie_allocation: Vec<usize> = child_hungers
             .iter()
-            .map(|hunger| self.cookies * hunger / total_hunger)
+            .map(|hunger| (deserved_cookies(hunger) / total_hunger) as usize)
             .collect();
         // Compute the number of cookies still remaining.
         let allocated_cookies: usize = cookie_allocation.iter().sum();
@@ -93,9 +99,9 @@ impl Divvier {
         // Determine what fraction of a cookie each child still deserves, found as
         // the remainder of the above division. Then hand out the remaining cookies
         // to the children with the largest remainders.
-        let mut remainders: Vec<(usize, usize)> = child_hungers
+        let mut remainders: Vec<(usize, u128)> = child_hungers
             .iter()
-            .map(|hunger| self.cookies * hunger % total_hunger)
+            .map(|hunger| deserved_cookies(hunger) % total_hunger)
             .enumerate()
             .collect();
         remainders.sort_by(|(_, r1), (_, r2)| r2.cmp(r1));
-- 
2.43.0


From 1bb1bc65cafe339ca996b9454e846d5a5335245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 03/11] fix: show the whole document in a Dynamic pane when its
 focus is not at the top

---
 src/pane/display_pane.rs | 59 ++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index e012d22..af2a135 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -79,7 +79,7 @@ where
         }
         PaneNotation::Doc { label } => {
             if let Some((doc, options)) = get_content(label.clone()) {
-                let printed_doc = PrintedDoc::new(doc, &options, rect.size(), style)?;
+                let printed_doc = PrintedDoc::new(doc, &options, rect.size(), style, false)?;
                 printed_doc.display(window, rect)?;
             }
         }
@@ -109,7 +109,7 @@ where
 
                 let (label, doc_style) = extract_doc::<L, D, W>(child_note, style.clone())?;
                 let printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
-                    PrintedDoc::new(doc, &options, available_size, &doc_style)?
+                    PrintedDoc::new(doc, &options, available_size, &doc_style, false)?
                 } else {
                     PrintedDoc::new_empty(&doc_style)
                 };
@@ -161,7 +161,7 @@ where
 
                 let (label, doc_style) = extract_doc::<L, D, W>(child_note, style.clone())?;
                 let printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
-                    PrintedDoc::new(doc, &options, available_size, &doc_style)?
+                    PrintedDoc::new(doc, &options, available_size, &doc_style, true)?
                 } else {
                     PrintedDoc::new_empty(&doc_style)
                 };
@@ -250,19 +250,22 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
     }
 
     /// Pretty-print the portion of document that would fit in the given `size`,
-    /// storing it as text in the `PrintedDoc`.
+    /// storing it as text in the `PrintedDoc`. If `shrink_to_fit`, the pane's height will be
+    /// exactly the number of lines in the `PrintedDoc`, so rows that would be left blank above or
+    /// below the document are used for other lines of the document, if it has more.
     fn new(
         doc: D,
         options: &PrintingOptions,
         size: Size,
         root_style: &D::Style,
+        shrink_to_fit: bool,
     ) -> Result<Self, PrintingError<D::Error>> {
         if size.height == 0 || size.width == 0 {
             return Ok(PrintedDoc::new_empty(root_style));
         }
 
         let printing_width = options.choose_width(size.width);
-        let focus_line_row = options.choose_focus_line_row(size.height);
+        let mut focus_line_row = options.choose_focus_line_row(size.height);
         let (mut upward_printer, focused_line, mut downward_printer) = pretty_print(
             doc,
             printing_width,
@@ -271,29 +274,51 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
             Some(root_style),
         )?;
 
+        let focus_col = focused_line.left_width();
+
+        let mut lines_above = Vec::new();
+        while lines_above.len() < focus_line_row as usize {
+            match upward_printer.next() {
+                Some(line) => lines_above.push(line?),
+                None => break,
+            }
+        }
+        let mut max_lines_below = (size.height - 1 - focus_line_row) as usize;
+        if shrink_to_fit {
+            max_lines_below = size.height as usize - 1 - lines_above.len();
+        }
+        let mut lines_below = Vec::new();
+        while lines_below.len() < max_lines_below {
+            match downward_printer.next() {
+                Some(line) => lines_below.push(line?),
+                None => break,
+            }
+        }
+        if shrink_to_fit {
+            let max_lines_above = size.height as usize - 1 - lines_below.len();
+            while lines_above.len() < max_lines_above {
+                match upward_printer.next() {
+                    Some(line) => lines_above.push(line?),
+                    None => break,
+                }
+            }
+            focus_line_row = lines_above.len() as Row;
+        }
+
         let focus_point = if options.set_focus {
             Some(Pos {
                 row: focus_line_row,
-                col: focused_line.left_width(),
+                col: focus_col,
             })
         } else {
             None
         };
 
-        let mut lines = Vec::new();
-        for _ in 0..focus_line_row {
-            if let Some(line) = upward_printer.next() {
-                lines.push(line?);
-            }
-        }
+        let mut lines = lines_above;
         lines.reverse();
         let focus_line_index = lines.len();
         lines.push(Line::from(focused_line));
-        for _ in (focus_line_row + 1)..size.height {
-            if let Some(line) = downward_printer.next() {
-                lines.push(line?);
-            }
-        }
+        lines.extend(lines_below);
 
         Ok(PrintedDoc {
             lines,
-- 
2.43.0


From 6a682275ebdea4a8a46f304478ecce354eecac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 04/11] fix: do not overflow when text is wider than 65535
 columns

---
 src/geometry.rs     | 10 ++++++++--
 src/pretty_print.rs | 13 +++++++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index b95508c..ae35ba0 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -86,9 +86,15 @@ impl Add<Size> for Pos {
 }
 
 /// The width of a string in columns. May be an overestimate. Not to be confused with the number of
-/// bytes, Unicode code points, or Unicode grapheme clusters.
+/// bytes, Unicode code points, or Unicode grapheme clusters. Widths too large for a [`Width`] are
+/// given as `Width::MAX`.
 pub fn str_width(s: &str) -> Width {
-    unicode_width::UnicodeWidthStr::width(s) as Width
+    unicode_width::UnicodeWidthStr::width(s).min(Width::MAX as usize) as Width
+}
+
+/// The sum of the `widths`, or `Width::MAX` if that's too large for a [`Width`].
+pub(crate) fn sum_widths(widths: impl Iterator<Item = Width>) -> Width {
+    widths.fold(0, Width::saturating_add)
 }
 
 /// Returns true if the char is 2 columns wide and false if its 1 column wide.
diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index b02b1e9..59eca62 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -2,6 +2,7 @@ use crate::{
     consolidated_notation::{
         ConsolidatedNotation, DelayedConsolidatedNotation, IndentNode, Textual,
     },
+    geometry::sum_widths,
     infra::span,
     PrettyDoc, PrintingError, Segment, Width,
 };
@@ -141,22 +142,22 @@ pub struct FocusedLine<'d, D: PrettyDoc<'d>> {
 
 impl<'d, D: PrettyDoc<'d>> Line<'d, D> {
     pub fn width(&self) -> Width {
-        self.segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.segments.iter().map(|seg| seg.width))
     }
 }
 
 impl<'d, D: PrettyDoc<'d>> FocusedLine<'d, D> {
     pub fn left_width(&self) -> Width {
-        self.left_segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.left_segments.iter().map(|seg| seg.width))
     }
 
     pub fn right_width(&self) -> Width {
-        self.right_segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.right_segments.iter().map(|seg| seg.width))
     }
 
     pub fn width(&self) -> Width {
         let segs = self.left_segments.iter().chain(self.right_segments.iter());
-        segs.map(|seg| seg.width).sum()
+        sum_widths(segs.map(|seg| seg.width))
     }
 
     pub fn to_left_string(&self) -> String {
@@ -242,7 +243,7 @@ impl<'d, D: PrettyDoc<'d>> Block<'d, D> {
         indent_segments.reverse();
 
         Block {
-            prefix_len: indent_segments.iter().map(|seg| seg.width).sum(),
+            prefix_len: sum_widths(indent_segments.iter().map(|seg| seg.width)),
             segments: indent_segments,
             at_eol: false,
             chunks,
@@ -258,7 +259,7 @@ impl<'d, D: PrettyDoc<'d>> Block<'d, D> {
             width: textual.width,
             style: textual.style,
         });
-        self.prefix_len += textual.width;
+        self.prefix_len = self.prefix_len.saturating_add(textual.width);
         Ok(())
     }
 
-- 
2.43.0


From db8335e7ad6502fdbb6e5e3dc1c31022960257c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 05/11] fix: do not overflow in panes that reach close to
 column 65535

---
 src/pane/display_pane.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index af2a135..6718cb9 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -64,7 +64,7 @@ where
 
             for row in rect.min_row..rect.max_row {
                 let mut col = rect.min_col;
-                while col + char_width <= rect.max_col {
+                while char_width <= rect.max_col - col {
                     window
                         .display_char(*ch, Pos { row, col }, style, is_full_width)
                         .map_err(PaneError::PrettyWindowError)?;
@@ -357,7 +357,7 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
             window
                 .set_focus(Pos {
                     row: focus_point.row + rect.min_row,
-                    col: focus_point.col + rect.min_col,
+                    col: focus_point.col.saturating_add(rect.min_col),
                 })
                 .map_err(PaneError::PrettyWindowError)?;
         }
@@ -433,7 +433,7 @@ where
         for ch in segment.str.chars() {
             let is_full_width = is_char_full_width(ch);
             let char_width = if is_full_width { 2 } else { 1 };
-            if pos.col + char_width > rect.max_col {
+            if char_width > rect.max_col - pos.col {
                 break 'segments_loop;
             }
             window
-- 
2.43.0


From 9e722f286479f2d5d3ae587801eae2b7447b9f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 06/11] fix: keep the focus line inside of very tall panes

---
 src/pane/printing_options.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pane/printing_options.rs b/src/pane/printing_options.rs
index e43ee97..369483b 100644
--- a/src/pane/printing_options.rs
+++ b/src/pane/printing_options.rs
@@ -37,7 +37,10 @@ impl PrintingOptions {
     pub(crate) fn choose_focus_line_row(&self, pane_height: Height) -> Row {
         assert!(self.focus_height >= 0.0);
         assert!(self.focus_height <= 1.0);
-        f32::round((pane_height - 1) as f32 * self.focus_height) as Row
+        let max_row = pane_height - 1;
+        // An `f32` cannot represent every `u32`, so this may be rounded to more than `max_row`.
+        let row = f32::round(max_row as f32 * self.focus_height) as Row;
+        row.min(max_row)
     }
 
     /// Choose what width to use when pretty-printing the document.
-- 
2.43.0


From e8190aa0291e91660147cb0d02063bab5a5cd6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 07/11] fix: use a style that exists for Json constants

---
 src/doc_examples/json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc_examples/json.rs b/src/doc_examples/json.rs
index f45d2d0..84b5be7 100644
--- a/src/doc_examples/json.rs
+++ b/src/doc_examples/json.rs
@@ -14,7 +14,7 @@ use crate::notation_constructors::{
 use crate::CheckPos;
 use once_cell::sync::Lazy;
 
-const CONSTANT_STYLE: &str = "green_bold";
+const CONSTANT_STYLE: &str = "bold_green";
 const STRING_STYLE: &str = "magenta";
 const NUMBER_STYLE: &str = "blue";
 const COMMENT_STYLE: &str = "yellow";
-- 
2.43.0


From 58de015cd555c0fba4d600b40a1020b0be29bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 08/11] fix: name the index in messages about child indices in
 Count.one

---
 src/valid_notation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valid_notation.rs b/src/valid_notation.rs
index 6ff7402..e799d68 100644
--- a/src/valid_notation.rs
+++ b/src/valid_notation.rs
@@ -31,11 +31,11 @@ pub enum NotationError {
     NestedCount,
     #[error("Notation contains a Child inside Count.zero, but in this case there are guaranteed to be zero children.")]
     CountZeroChild,
-    #[error("Notation contains a Child with index {} inside of Count.one, but in this case there's guaranteed to be only one child.", 0)]
+    #[error("Notation contains a Child with index {0} inside of Count.one, but in this case there's guaranteed to be only one child.")]
     CountOneChildIndex(isize),
     #[error("Notation contains a CheckPos::Child inside Count.zero, but in this case there are guaranteed to be zero children.")]
     CountZeroCheckPosChild,
-    #[error("Notation contains a CheckPos::Child with index {} inside of Count.one, but in this case there's guaranteed to be only one child.", 0)]
+    #[error("Notation contains a CheckPos::Child with index {0} inside of Count.one, but in this case there's guaranteed to be only one child.")]
     CountOneCheckPosChildIndex(isize),
     #[error(
         "Notation contains a Text inside a Count, but a node can't have both text and children."
-- 
2.43.0


From 8eee0771bf79644048d94c31b06ddd23e7f769c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 09/11] fix: clear needs_separator of children that are moved
 to another tree

---
 src/doc_examples/tree.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/doc_examples/tree.rs b/src/doc_examples/tree.rs
index 7c234ff..3eb7709 100644
--- a/src/doc_examples/tree.rs
+++ b/src/doc_examples/tree.rs
@@ -94,13 +94,10 @@ where
 
     /// Create a new node containing the given children.
     pub fn new_branch(notation: &'static TreeNotation, mut children: Vec<Self>) -> Self {
-        for child in children
-            .iter_mut()
-            .rev()
-            .filter(|child| !child.is_comment)
-            .skip(1)
-        {
-            child.needs_separator = true;
+        let mut is_last = true;
+        for child in children.iter_mut().rev() {
+            child.needs_separator = !child.is_comment && !is_last;
+            is_last = is_last && child.is_comment;
         }
 
         Tree {
-- 
2.43.0


From 0da2dc4f6e969f703495db96f8321d62be3d9f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 10/11] fix: testing oracle took zero-width text for the end of
 the line

---
 src/oracle.rs | 85 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 31 deletions(-)

diff --git a/src/oracle.rs b/src/oracle.rs
index 467462a..d99a3fe 100644
--- a/src/oracle.rs
+++ b/src/oracle.rs
@@ -17,6 +17,21 @@ struct Layout {
     ends_with_eol: bool,
 }
 
+/// The part of a line that follows a notation. Text may be zero columns wide, so the width does not
+/// tell whether there is any.
+#[derive(Debug, Clone, Copy)]
+struct Suffix {
+    width: Width,
+    has_text: bool,
+}
+
+impl Suffix {
+    const EMPTY: Suffix = Suffix {
+        width: 0,
+        has_text: false,
+    };
+}
+
 /// Print the document using a simple but slow algorithm; the time is roughly exponential in the
 /// size of the doc. This function should always produce the same output as
 /// [`pretty_print_to_string`](crate::pretty_print_to_string), so it can be used for automated
@@ -27,7 +42,7 @@ pub fn oracular_pretty_print<'d, D: PrettyDoc<'d>>(doc: D, width: Width) -> Stri
         .eval()
         .expect("Notation mismatch in oracle test (root)");
     let layout =
-        pp(Layout::empty(), note, Some(0), width).expect("Notation mismatch in oracle test");
+        pp(Layout::empty(), note, Some(Suffix::EMPTY), width).expect("Notation mismatch in oracle test");
     format!("{}", layout)
 }
 
@@ -36,9 +51,9 @@ fn pp<'d, D: PrettyDoc<'d>>(
     mut prefix: Layout,
     // The next notation to print
     note: ConsolidatedNotation<'d, D>,
-    // The number of columns known to follow `note`, or `None` if it's followed by `EndOfLine +
+    // What is known to follow `note` on its last line, or `None` if it's followed by `EndOfLine +
     // Text`.
-    suffix_len: Option<Width>,
+    suffix: Option<Suffix>,
     // The printing width
     width: Width,
 ) -> Result<Layout, PrintingError<D::Error>> {
@@ -47,7 +62,7 @@ fn pp<'d, D: PrettyDoc<'d>>(
     assert!(width < MAX_WIDTH);
 
     if DEBUG_PRINT {
-        println!("==pp suffix_len:{:?} width:{}", suffix_len, width);
+        println!("==pp suffix:{:?} width:{}", suffix, width);
         println!("{}", prefix);
         println!("{}", note);
         println!("==");
@@ -70,24 +85,27 @@ fn pp<'d, D: PrettyDoc<'d>>(
             indent_strings.reverse();
             Ok(prefix.append_newline(indent_strings.join("")))
         }
-        Child(_, x) => pp(prefix, x.eval()?, suffix_len, width),
+        Child(_, x) => pp(prefix, x.eval()?, suffix, width),
         Concat(x, y) => {
             let x = x.eval()?;
             let y = y.eval()?;
-            let x_suffix_len = first_line_len(y.clone(), suffix_len)?.map(|w| w.min(MAX_WIDTH));
-            let y_prefix = pp(prefix, x, x_suffix_len, width)?;
-            pp(y_prefix, y, suffix_len, width)
+            let x_suffix = first_line(y.clone(), suffix)?.map(|s| Suffix {
+                width: s.width.min(MAX_WIDTH),
+                ..s
+            });
+            let y_prefix = pp(prefix, x, x_suffix, width)?;
+            pp(y_prefix, y, suffix, width)
         }
         Choice(x, y) => {
             let x = x.eval()?;
             let last_len = prefix.last_line_len();
-            let fits = match first_line_len(x.clone(), suffix_len)? {
+            let fits = match first_line(x.clone(), suffix)? {
                 None => false,
-                Some(first_len) => {
-                    if prefix.ends_with_eol && first_len > 0 {
+                Some(first) => {
+                    if prefix.ends_with_eol && first.has_text {
                         false
                     } else {
-                        last_len + first_len <= width
+                        last_len + first.width <= width
                     }
                 }
             };
@@ -95,39 +113,44 @@ fn pp<'d, D: PrettyDoc<'d>>(
                 println!("fits: {:?} + ? <= {} ? {}", last_len, width, fits);
             }
             let z = if fits { x } else { y.eval()? };
-            pp(prefix, z, suffix_len, width)
+            pp(prefix, z, suffix, width)
         }
     }
 }
 
-/// Compute the smallest possible first line length of `note`, given that its last line will have an
-/// additional `suffix_len` columns after it (where `None` means the suffix contains `EndOfLine +
-/// Textual`). Assumes the rule that "in (x | y), if x fits then y fits", and so always chooses y.
-/// Returns `None` if the first line contains `EndOfLine + Textual`.
-fn first_line_len<'d, D: PrettyDoc<'d>>(
+/// Compute the smallest possible first line of `note`, given what follows its last line (where
+/// `None` means the suffix contains `EndOfLine + Textual`). Assumes the rule that "in (x | y), if x
+/// fits then y fits", and so always chooses y. Returns `None` if the first line contains
+/// `EndOfLine + Textual`.
+fn first_line<'d, D: PrettyDoc<'d>>(
     note: ConsolidatedNotation<'d, D>,
-    suffix_len: Option<Width>,
-) -> Result<Option<Width>, PrintingError<D::Error>> {
+    suffix: Option<Suffix>,
+) -> Result<Option<Suffix>, PrintingError<D::Error>> {
     use ConsolidatedNotation::*;
 
     match note {
-        Empty | FocusMark => Ok(suffix_len),
-        Textual(textual) => Ok(suffix_len.map(|w| textual.width + w)),
-        EndOfLine => match suffix_len {
-            None => Ok(None),
-            Some(0) => Ok(Some(0)), // Followed by a newline, good
-            Some(_) => Ok(None),    // Followed by text, bad
+        Empty | FocusMark => Ok(suffix),
+        Textual(textual) => Ok(suffix.map(|s| Suffix {
+            width: textual.width + s.width,
+            has_text: true,
+        })),
+        EndOfLine => match suffix {
+            Some(s) if s.has_text => Ok(None), // Followed by text, bad
+            suffix => Ok(suffix),              // Followed by a newline, good
         },
-        Newline(_) => Ok(Some(0)),
-        Child(_, x) => first_line_len(x.eval()?, suffix_len),
+        Newline(_) => Ok(Some(Suffix::EMPTY)),
+        Child(_, x) => first_line(x.eval()?, suffix),
         Concat(x, y) => {
-            let suffix_len = first_line_len(y.eval()?, suffix_len)?.map(|w| w.min(MAX_WIDTH));
-            first_line_len(x.eval()?, suffix_len)
+            let suffix = first_line(y.eval()?, suffix)?.map(|s| Suffix {
+                width: s.width.min(MAX_WIDTH),
+                ..s
+            });
+            first_line(x.eval()?, suffix)
         }
         Choice(_, y) => {
             // Wouldn't see a choice if we were flat, so use y.
             // Relies on the rule that in (x | y), y's first line is no longer than x's.
-            first_line_len(y.eval()?, suffix_len)
+            first_line(y.eval()?, suffix)
         }
     }
 }
-- 
2.43.0


From 8c917044008ec288e349e8cb0ae14491466f0bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:22 +0000
Subject: [PATCH 11/11] fix: overflow in the testing oracle for text of more
 than 55535 columns

---
 src/oracle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oracle.rs b/src/oracle.rs
index d99a3fe..72590dc 100644
--- a/src/oracle.rs
+++ b/src/oracle.rs
@@ -105,7 +105,7 @@ fn pp<'d, D: PrettyDoc<'d>>(
                     if prefix.ends_with_eol && first.has_text {
                         false
                     } else {
-                        last_len + first.width <= width
+                        last_len.saturating_add(first.width) <= width
                     }
                 }
             };
@@ -131,7 +131,7 @@ fn first_line<'d, D: PrettyDoc<'d>>(
     match note {
         Empty | FocusMark => Ok(suffix),
         Textual(textual) => Ok(suffix.map(|s| Suffix {
-            width: textual.width + s.width,
+            width: textual.width.saturating_add(s.width),
             has_text: true,
         })),
         EndOfLine => match suffix {
-- 
2.43.0

