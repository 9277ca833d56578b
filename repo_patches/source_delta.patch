From 99d0d3b656c93b1c9481fa71ee8cbced7e2ff135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 01/18] fix: FocusTarget::Text must not land in another node's
 text

seek_text stopped at the first Text after the node's start, even if it
belonged to a child or to a later node. Compare ids, like seek_mark does.
---
 src/pretty_print.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index 8a8a846..b02b1e9 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -470,6 +470,7 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
         use ConsolidatedNotation::*;
         span!("seek_text");
 
+        let id = chunk.id;
         let mut first_block = self.next_blocks.pop().unwrap();
         self.expand_focusing_first_block(&mut first_block, chunk)?;
         self.next_blocks.push(first_block);
@@ -483,7 +484,7 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
                     FocusMark => (),
                     EndOfLine => block.at_eol = true,
                     Textual(textual) => {
-                        if textual.is_from_text {
+                        if textual.is_from_text && chunk.id == id {
                             let (left_textual, right_textual) = textual.split_at(text_pos);
                             block.push_text(left_textual)?;
                             block.chunks.push(Chunk {
-- 
2.43.0


From d286eb24058312a634117a18929cf2c1998d099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 02/18] fix: saturate widths instead of wrapping around at
 65536 columns

A text of 65536 columns used to count as zero columns wide, and summing the
widths of a line overflowed (a panic in debug builds).
---
 src/geometry.rs     |  9 +++++++--
 src/pretty_print.rs | 13 +++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index b95508c..604a3e1 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -86,9 +86,14 @@ impl Add<Size> for Pos {
 }
 
 /// The width of a string in columns. May be an overestimate. Not to be confused with the number of
-/// bytes, Unicode code points, or Unicode grapheme clusters.
+/// bytes, Unicode code points, or Unicode grapheme clusters. At most `Width::MAX`.
 pub fn str_width(s: &str) -> Width {
-    unicode_width::UnicodeWidthStr::width(s) as Width
+    unicode_width::UnicodeWidthStr::width(s).min(Width::MAX as usize) as Width
+}
+
+/// The sum of the given widths, or `Width::MAX` if it would be larger than that.
+pub(crate) fn sum_widths(widths: impl Iterator<Item = Width>) -> Width {
+    widths.fold(0, Width::saturating_add)
 }
 
 /// Returns true if the char is 2 columns wide and false if its 1 column wide.
diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index b02b1e9..59eca62 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -2,6 +2,7 @@ use crate::{
     consolidated_notation::{
         ConsolidatedNotation, DelayedConsolidatedNotation, IndentNode, Textual,
     },
+    geometry::sum_widths,
     infra::span,
     PrettyDoc, PrintingError, Segment, Width,
 };
@@ -141,22 +142,22 @@ pub struct FocusedLine<'d, D: PrettyDoc<'d>> {
 
 impl<'d, D: PrettyDoc<'d>> Line<'d, D> {
     pub fn width(&self) -> Width {
-        self.segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.segments.iter().map(|seg| seg.width))
     }
 }
 
 impl<'d, D: PrettyDoc<'d>> FocusedLine<'d, D> {
     pub fn left_width(&self) -> Width {
-        self.left_segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.left_segments.iter().map(|seg| seg.width))
     }
 
     pub fn right_width(&self) -> Width {
-        self.right_segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.right_segments.iter().map(|seg| seg.width))
     }
 
     pub fn width(&self) -> Width {
         let segs = self.left_segments.iter().chain(self.right_segments.iter());
-        segs.map(|seg| seg.width).sum()
+        sum_widths(segs.map(|seg| seg.width))
     }
 
     pub fn to_left_string(&self) -> String {
@@ -242,7 +243,7 @@ impl<'d, D: PrettyDoc<'d>> Block<'d, D> {
         indent_segments.reverse();
 
         Block {
-            prefix_len: indent_segments.iter().map(|seg| seg.width).sum(),
+            prefix_len: sum_widths(indent_segments.iter().map(|seg| seg.width)),
             segments: indent_segments,
             at_eol: false,
             chunks,
@@ -258,7 +259,7 @@ impl<'d, D: PrettyDoc<'d>> Block<'d, D> {
             width: textual.width,
             style: textual.style,
         });
-        self.prefix_len += textual.width;
+        self.prefix_len = self.prefix_len.saturating_add(textual.width);
         Ok(())
     }
 
-- 
2.43.0


From c15e22c6821232e283a9015bc3995d6b6bf65601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 03/18] fix: don't panic on proportional panes whose weights
 are all zero or huge

All-zero weights divided by zero, and large weights overflowed.
---
 src/pane/divvy.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pane/divvy.rs b/src/pane/divvy.rs
index d718004..52c5ac4 100644
--- a/src/pane/divvy.rs
+++ b/src/pane/divvy.rs
@@ -80,12 +80,16 @@ impl Divvier {
                 child_hungers.push(*hunger);
             }
         }
-        let total_hunger: usize = child_hungers.iter().sum();
+        let total_hunger: u128 = child_hungers.iter().map(|hunger| *hunger as u128).sum();
+        if total_hunger == 0 {
+            return;
+        }
+        let cookies = self.cookies as u128;
         // Start by allocating each child a guaranteed minimum number of cookies,
         // found as the floor of the real number of cookies they deserve.
         let mut cookie_allocation: Vec<usize> = child_hungers
             .iter()
-            .map(|hunger| self.cookies * hunger / total_hunger)
+            .map(|hunger| (cookies * *hunger as u128 / total_hunger) as usize)
             .collect();
         // Compute the number of cookies still remaining.
         let allocated_cookies: usize = cookie_allocation.iter().sum();
@@ -93,9 +97,9 @@ impl Divvier {
         // Determine what fraction of a cookie each child still deserves, found as
         // the remainder of the above division. Then hand out the remaining cookies
         // to the children with the largest remainders.
-        let mut remainders: Vec<(usize, usize)> = child_hungers
+        let mut remainders: Vec<(usize, u128)> = child_hungers
             .iter()
-            .map(|hunger| self.cookies * hunger % total_hunger)
+            .map(|hunger| cookies * *hunger as u128 % total_hunger)
             .enumerate()
             .collect();
         remainders.sort_by(|(_, r1), (_, r2)| r2.cmp(r1));
-- 
2.43.0


From 2304654164ca6c0e4df28c59c1506560ddb10a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 04/18] fix: report the real child index in Count.one
 validation errors

The messages always said "index 0", which is the one valid index.
---
 src/valid_notation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valid_notation.rs b/src/valid_notation.rs
index 6ff7402..e799d68 100644
--- a/src/valid_notation.rs
+++ b/src/valid_notation.rs
@@ -31,11 +31,11 @@ pub enum NotationError {
     NestedCount,
     #[error("Notation contains a Child inside Count.zero, but in this case there are guaranteed to be zero children.")]
     CountZeroChild,
-    #[error("Notation contains a Child with index {} inside of Count.one, but in this case there's guaranteed to be only one child.", 0)]
+    #[error("Notation contains a Child with index {0} inside of Count.one, but in this case there's guaranteed to be only one child.")]
     CountOneChildIndex(isize),
     #[error("Notation contains a CheckPos::Child inside Count.zero, but in this case there are guaranteed to be zero children.")]
     CountZeroCheckPosChild,
-    #[error("Notation contains a CheckPos::Child with index {} inside of Count.one, but in this case there's guaranteed to be only one child.", 0)]
+    #[error("Notation contains a CheckPos::Child with index {0} inside of Count.one, but in this case there's guaranteed to be only one child.")]
     CountOneCheckPosChildIndex(isize),
     #[error(
         "Notation contains a Text inside a Count, but a node can't have both text and children."
-- 
2.43.0


From 8a1f1363bcde4ae61476c00c67b50e56efbe2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 05/18] fix: JSON constants are meant to be bold green

"green_bold" is not a label that BasicStyle knows, so it meant plain white.
---
 src/doc_examples/json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc_examples/json.rs b/src/doc_examples/json.rs
index f45d2d0..84b5be7 100644
--- a/src/doc_examples/json.rs
+++ b/src/doc_examples/json.rs
@@ -14,7 +14,7 @@ use crate::notation_constructors::{
 use crate::CheckPos;
 use once_cell::sync::Lazy;
 
-const CONSTANT_STYLE: &str = "green_bold";
+const CONSTANT_STYLE: &str = "bold_green";
 const STRING_STYLE: &str = "magenta";
 const NUMBER_STYLE: &str = "blue";
 const COMMENT_STYLE: &str = "yellow";
-- 
2.43.0


From 0caf688df0db980c0c794fc530b07548097e3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 06/18] fix: focusing inside a text must not change the line's
 width

Splitting a text inside a multi-character emoji changed the total width of
its two halves, so that the document could be laid out differently depending
on where the focus was.
---
 src/consolidated_notation.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index 9f76e9c..dbe7452 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -113,15 +113,18 @@ impl<'d, D: PrettyDoc<'d>> Textual<'d, D> {
             .map(|(byte_pos, _)| byte_pos)
             .unwrap_or(self.str.len());
         let (left_str, right_str) = self.str.split_at(byte_pos);
+        // The width of a string can differ from the sum of the widths of its parts (e.g. for emoji
+        // sequences). Don't let splitting a text change the width of the line it's on.
+        let left_width = str_width(left_str).min(self.width);
         let left_textual = Textual {
             str: left_str,
-            width: str_width(left_str),
+            width: left_width,
             style: self.style.clone(),
             is_from_text: self.is_from_text,
         };
         let right_textual = Textual {
             str: right_str,
-            width: str_width(right_str),
+            width: self.width - left_width,
             style: self.style,
             is_from_text: self.is_from_text,
         };
-- 
2.43.0


From 4d28e9cf55023e2b2612f71638285dad4799e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 07/18] fix: don't overflow at the right edge of a 65535-column
 window

---
 src/pane/display_pane.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index e012d22..3035571 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -64,7 +64,7 @@ where
 
             for row in rect.min_row..rect.max_row {
                 let mut col = rect.min_col;
-                while col + char_width <= rect.max_col {
+                while rect.max_col - col >= char_width {
                     window
                         .display_char(*ch, Pos { row, col }, style, is_full_width)
                         .map_err(PaneError::PrettyWindowError)?;
@@ -332,7 +332,7 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
             window
                 .set_focus(Pos {
                     row: focus_point.row + rect.min_row,
-                    col: focus_point.col + rect.min_col,
+                    col: focus_point.col.saturating_add(rect.min_col),
                 })
                 .map_err(PaneError::PrettyWindowError)?;
         }
@@ -408,7 +408,7 @@ where
         for ch in segment.str.chars() {
             let is_full_width = is_char_full_width(ch);
             let char_width = if is_full_width { 2 } else { 1 };
-            if pos.col + char_width > rect.max_col {
+            if rect.max_col - pos.col < char_width {
                 break 'segments_loop;
             }
             window
-- 
2.43.0


From 39f557bf9bc9c17c0a7b9435cdcc7eb5a0bec1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 08/18] fix: make panes of unbounded height usable

Displaying a document in a PlainText::new_unbounded_height() window polled
its exhausted iterators four billion times, and a focus_height of 1.0 chose
a row past the end of the pane.
---
 src/pane/display_pane.rs     | 13 +++++--------
 src/pane/printing_options.rs |  4 +++-
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index 3035571..a8fd98e 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -281,18 +281,15 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
         };
 
         let mut lines = Vec::new();
-        for _ in 0..focus_line_row {
-            if let Some(line) = upward_printer.next() {
-                lines.push(line?);
-            }
+        for line in upward_printer.by_ref().take(focus_line_row as usize) {
+            lines.push(line?);
         }
         lines.reverse();
         let focus_line_index = lines.len();
         lines.push(Line::from(focused_line));
-        for _ in (focus_line_row + 1)..size.height {
-            if let Some(line) = downward_printer.next() {
-                lines.push(line?);
-            }
+        let num_rows_below = (size.height - focus_line_row - 1) as usize;
+        for line in downward_printer.by_ref().take(num_rows_below) {
+            lines.push(line?);
         }
 
         Ok(PrintedDoc {
diff --git a/src/pane/printing_options.rs b/src/pane/printing_options.rs
index e43ee97..66fd7e3 100644
--- a/src/pane/printing_options.rs
+++ b/src/pane/printing_options.rs
@@ -37,7 +37,9 @@ impl PrintingOptions {
     pub(crate) fn choose_focus_line_row(&self, pane_height: Height) -> Row {
         assert!(self.focus_height >= 0.0);
         assert!(self.focus_height <= 1.0);
-        f32::round((pane_height - 1) as f32 * self.focus_height) as Row
+        let last_row = pane_height - 1;
+        // An f32 can't represent every row, so make sure this doesn't round up past the last one.
+        (f32::round(last_row as f32 * self.focus_height) as Row).min(last_row)
     }
 
     /// Choose what width to use when pretty-printing the document.
-- 
2.43.0


From d36cbf826ff3ffa465710e0b5c3cf140acba2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 09/18] fix: Dynamic-height panes show their document
 regardless of focus_height

The focus row was chosen as if the pane had all of the available height, but
the pane then only got as many rows as there were lines. With a focus_height
above 0 this displayed blank rows instead of (part of) the document. Now a
pane with room for the whole document shows all of it, and otherwise it gets
all of the available height, as PaneSize::Dynamic promises.
---
 src/pane/display_pane.rs | 65 ++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index a8fd98e..8911478 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -79,7 +79,7 @@ where
         }
         PaneNotation::Doc { label } => {
             if let Some((doc, options)) = get_content(label.clone()) {
-                let printed_doc = PrintedDoc::new(doc, &options, rect.size(), style)?;
+                let printed_doc = PrintedDoc::new(doc, &options, rect.size(), false, style)?;
                 printed_doc.display(window, rect)?;
             }
         }
@@ -109,7 +109,7 @@ where
 
                 let (label, doc_style) = extract_doc::<L, D, W>(child_note, style.clone())?;
                 let printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
-                    PrintedDoc::new(doc, &options, available_size, &doc_style)?
+                    PrintedDoc::new(doc, &options, available_size, false, &doc_style)?
                 } else {
                     PrintedDoc::new_empty(&doc_style)
                 };
@@ -161,12 +161,12 @@ where
 
                 let (label, doc_style) = extract_doc::<L, D, W>(child_note, style.clone())?;
                 let printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
-                    PrintedDoc::new(doc, &options, available_size, &doc_style)?
+                    PrintedDoc::new(doc, &options, available_size, true, &doc_style)?
                 } else {
                     PrintedDoc::new_empty(&doc_style)
                 };
 
-                let height = printed_doc.height();
+                let height = printed_doc.height;
                 available_size.height -= height;
                 dynamic_heights.push(height as usize);
                 dynamic_docs.push(printed_doc);
@@ -227,6 +227,8 @@ where
 
 struct PrintedDoc<'d, D: PrettyDoc<'d>> {
     lines: Vec<Line<'d, D>>,
+    /// The number of rows of the pane needed to display the document.
+    height: Height,
     /// Which line in `lines` is the focus line.
     focus_line_index: usize,
     /// Which row of the pane should the focus line be displayed on.
@@ -242,6 +244,7 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
     fn new_empty(root_style: &D::Style) -> Self {
         PrintedDoc {
             lines: Vec::new(),
+            height: 0,
             focus_line_index: 0,
             focus_line_row: 0,
             focus_point: None,
@@ -250,11 +253,13 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
     }
 
     /// Pretty-print the portion of document that would fit in the given `size`,
-    /// storing it as text in the `PrintedDoc`.
+    /// storing it as text in the `PrintedDoc`. If `dynamic_height` is true and the whole document
+    /// fits, print all of it and ignore `options.focus_height`.
     fn new(
         doc: D,
         options: &PrintingOptions,
         size: Size,
+        dynamic_height: bool,
         root_style: &D::Style,
     ) -> Result<Self, PrintingError<D::Error>> {
         if size.height == 0 || size.width == 0 {
@@ -262,7 +267,7 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
         }
 
         let printing_width = options.choose_width(size.width);
-        let focus_line_row = options.choose_focus_line_row(size.height);
+        let mut focus_line_row = options.choose_focus_line_row(size.height);
         let (mut upward_printer, focused_line, mut downward_printer) = pretty_print(
             doc,
             printing_width,
@@ -271,6 +276,38 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
             Some(root_style),
         )?;
 
+        let mut lines_above = Vec::new();
+        for line in upward_printer.by_ref().take(focus_line_row as usize) {
+            lines_above.push(line?);
+        }
+        let mut lines_below = Vec::new();
+        let num_rows_below = (size.height - focus_line_row - 1) as usize;
+        for line in downward_printer.by_ref().take(num_rows_below) {
+            lines_below.push(line?);
+        }
+
+        let mut height = size.height;
+        if dynamic_height {
+            let (num_above, num_below) = (lines_above.len(), lines_below.len());
+            let max_lines = size.height as usize - 1;
+            let num_rows_left = max_lines - lines_above.len() - lines_below.len();
+            for line in upward_printer.by_ref().take(num_rows_left) {
+                lines_above.push(line?);
+            }
+            let num_rows_left = max_lines - lines_above.len() - lines_below.len();
+            for line in downward_printer.by_ref().take(num_rows_left) {
+                lines_below.push(line?);
+            }
+            if upward_printer.next().is_none() && downward_printer.next().is_none() {
+                // The whole document fits!
+                focus_line_row = lines_above.len() as Row;
+                height = (lines_above.len() + 1 + lines_below.len()) as Height;
+            } else {
+                lines_above.truncate(num_above);
+                lines_below.truncate(num_below);
+            }
+        }
+
         let focus_point = if options.set_focus {
             Some(Pos {
                 row: focus_line_row,
@@ -280,20 +317,15 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
             None
         };
 
-        let mut lines = Vec::new();
-        for line in upward_printer.by_ref().take(focus_line_row as usize) {
-            lines.push(line?);
-        }
+        let mut lines = lines_above;
         lines.reverse();
         let focus_line_index = lines.len();
         lines.push(Line::from(focused_line));
-        let num_rows_below = (size.height - focus_line_row - 1) as usize;
-        for line in downward_printer.by_ref().take(num_rows_below) {
-            lines.push(line?);
-        }
+        lines.extend(lines_below);
 
         Ok(PrintedDoc {
             lines,
+            height,
             focus_line_index,
             focus_line_row,
             focus_point,
@@ -301,11 +333,6 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
         })
     }
 
-    /// The number of lines in the document.
-    fn height(&self) -> Height {
-        self.lines.len() as Height
-    }
-
     /// The number of columns in the widest line of the document.
     fn width(&self) -> Width {
         self.lines
-- 
2.43.0


From 275aa59b944c14d41fef2512daba574a0a01e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 10/18] fix: escape strings in Json documents

json_string("say \"hi\"") printed invalid Json. This also affected the strings
and keys of files formatted by examples/json.rs.
---
 src/doc_examples/json.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/doc_examples/json.rs b/src/doc_examples/json.rs
index 84b5be7..ac74e1d 100644
--- a/src/doc_examples/json.rs
+++ b/src/doc_examples/json.rs
@@ -154,9 +154,26 @@ pub fn json_bool(b: bool) -> Json {
     }
 }
 
-/// Create a string.
+/// Create a string. Characters that can't appear in a Json string literal are escaped.
 pub fn json_string(s: &str) -> Json {
-    Tree::new_text(&JSON_STRING_NOTATION, s.to_owned())
+    Tree::new_text(&JSON_STRING_NOTATION, escape_json_string(s))
+}
+
+/// Escape the contents of a Json string literal.
+fn escape_json_string(s: &str) -> String {
+    let mut escaped = String::with_capacity(s.len());
+    for ch in s.chars() {
+        match ch {
+            '"' => escaped.push_str("\\\""),
+            '\\' => escaped.push_str("\\\\"),
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            '\t' => escaped.push_str("\\t"),
+            ch if ch.is_control() => escaped.push_str(&format!("\\u{:04x}", ch as u32)),
+            ch => escaped.push(ch),
+        }
+    }
+    escaped
 }
 
 /// Create a number.
-- 
2.43.0


From 5d85e88caecc56d24c8b446fa68b42ba5aa335c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 11/18] fix: evaluate notations iteratively, so hidden siblings
 don't overflow the stack

---
 src/consolidated_notation.rs | 73 +++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 27 deletions(-)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index dbe7452..1a11bf6 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -223,6 +223,12 @@ pub enum PrintingError<E: std::error::Error + 'static> {
     PrettyDoc(#[from] E),
 }
 
+/// One step of evaluating a `DelayedConsolidatedNotation`.
+enum EvalStep<'d, D: PrettyDoc<'d>> {
+    Done(ConsolidatedNotation<'d, D>),
+    Continue(DelayedConsolidatedNotation<'d, D>),
+}
+
 impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
     pub fn new(doc: D) -> Result<Self, PrintingError<D::Error>> {
         Self::with_optional_style(doc, None)
@@ -251,36 +257,49 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
     }
 
     /// Expand this node to get a usable `ConsolidatedNotation`.
-    pub fn eval(mut self) -> Result<ConsolidatedNotation<'d, D>, PrintingError<D::Error>> {
+    pub fn eval(self) -> Result<ConsolidatedNotation<'d, D>, PrintingError<D::Error>> {
+        // This may take one step per sibling, if a `Fold` doesn't display all of its children. So
+        // loop instead of recurring, so that the stack doesn't overflow.
+        let mut delayed = self;
+        loop {
+            match delayed.eval_step()? {
+                EvalStep::Done(notation) => return Ok(notation),
+                EvalStep::Continue(notation) => delayed = notation,
+            }
+        }
+    }
+
+    fn eval_step(mut self) -> Result<EvalStep<'d, D>, PrintingError<D::Error>> {
+        use EvalStep::{Continue, Done};
         use Notation::*;
 
         match self.notation {
-            Empty => Ok(ConsolidatedNotation::Empty),
-            EndOfLine => Ok(ConsolidatedNotation::EndOfLine),
-            Newline => Ok(ConsolidatedNotation::Newline(self.indent)),
-            Literal(str) => Ok(ConsolidatedNotation::Textual(Textual {
+            Empty => Ok(Done(ConsolidatedNotation::Empty)),
+            EndOfLine => Ok(Done(ConsolidatedNotation::EndOfLine)),
+            Newline => Ok(Done(ConsolidatedNotation::Newline(self.indent))),
+            Literal(str) => Ok(Done(ConsolidatedNotation::Textual(Textual {
                 str,
                 width: str_width(str),
                 style: self.style,
                 is_from_text: false,
-            })),
+            }))),
             Text => {
                 if self.doc.num_children()?.is_some() {
                     Err(PrintingError::TextNotationOnTextlessDoc)
                 } else {
                     let text = self.doc.unwrap_text()?;
-                    Ok(ConsolidatedNotation::Textual(Textual {
+                    Ok(Done(ConsolidatedNotation::Textual(Textual {
                         str: text,
                         width: str_width(text),
                         style: self.style,
                         is_from_text: true,
-                    }))
+                    })))
                 }
             }
             Flat(note) => {
                 self.flat = true;
                 self.notation = note;
-                self.eval()
+                Ok(Continue(self))
             }
             Indent(prefix, style_label, note) => {
                 let style = if let Some(label) = style_label {
@@ -298,25 +317,25 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                 });
                 self.indent = Some(new_indent);
                 self.notation = note;
-                self.eval()
+                Ok(Continue(self))
             }
             Concat(note1, note2) => {
                 let mut cnote1 = self.clone();
                 cnote1.notation = note1;
                 let mut cnote2 = self;
                 cnote2.notation = note2;
-                Ok(ConsolidatedNotation::Concat(cnote1, cnote2))
+                Ok(Done(ConsolidatedNotation::Concat(cnote1, cnote2)))
             }
             Choice(note1, _note2) if self.flat => {
                 self.notation = note1;
-                self.eval()
+                Ok(Continue(self))
             }
             Choice(note1, note2) => {
                 let mut cnote1 = self.clone();
                 cnote1.notation = note1;
                 let mut cnote2 = self;
                 cnote2.notation = note2;
-                Ok(ConsolidatedNotation::Choice(cnote1, cnote2))
+                Ok(Done(ConsolidatedNotation::Choice(cnote1, cnote2)))
             }
             Check(cond, pos, note1, note2) => {
                 let doc_to_inspect = match pos {
@@ -344,10 +363,10 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                 };
                 if doc_to_inspect.condition(cond)? {
                     self.notation = note1;
-                    self.eval()
+                    Ok(Continue(self))
                 } else {
                     self.notation = note2;
-                    self.eval()
+                    Ok(Continue(self))
                 }
             }
             Child(i) => match self.doc.num_children()? {
@@ -358,7 +377,7 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                         self.doc = self.doc.unwrap_child(index)?;
                         self.notation = &self.doc.notation()?.0;
                         self.style = D::Style::combine(&self.style, &self.doc.node_style()?);
-                        Ok(ConsolidatedNotation::Child(index, self))
+                        Ok(Done(ConsolidatedNotation::Child(index, self)))
                     }
                 },
             },
@@ -366,30 +385,30 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                 self.style =
                     D::Style::combine(&self.style, &self.doc.lookup_style(style_label.clone())?);
                 self.notation = note;
-                self.eval()
+                Ok(Continue(self))
             }
-            FocusMark => Ok(ConsolidatedNotation::FocusMark),
+            FocusMark => Ok(Done(ConsolidatedNotation::FocusMark)),
             Count { zero, one, many } => match self.doc.num_children()? {
                 None => Err(PrintingError::CountNotationOnChildlessDoc),
                 Some(0) => {
                     self.notation = zero;
-                    self.eval()
+                    Ok(Continue(self))
                 }
                 Some(1) => {
                     self.notation = one;
-                    self.eval()
+                    Ok(Continue(self))
                 }
                 Some(_) => {
                     self.notation = many;
-                    self.eval()
+                    Ok(Continue(self))
                 }
             },
             Fold { first, join } => match self.doc.num_children()? {
                 None => Err(PrintingError::NumChildrenChanged),
-                Some(0) => Ok(ConsolidatedNotation::Empty),
+                Some(0) => Ok(Done(ConsolidatedNotation::Empty)),
                 Some(1) => {
                     self.notation = first;
-                    self.eval()
+                    Ok(Continue(self))
                 }
                 Some(n) => {
                     self.join_pos = Some(JoinPos {
@@ -400,7 +419,7 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                         join,
                     });
                     self.notation = join;
-                    self.eval()
+                    Ok(Continue(self))
                 }
             },
             Left => match &mut self.join_pos {
@@ -417,12 +436,12 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                     if *index == 1 {
                         self.notation = *first;
                         self.join_pos = None;
-                        self.eval()
+                        Ok(Continue(self))
                     } else {
                         *child = child.unwrap_prev_sibling(*parent, *index - 1)?;
                         *index -= 1;
                         self.notation = *join;
-                        self.eval()
+                        Ok(Continue(self))
                     }
                 }
             },
@@ -436,7 +455,7 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                     self.notation = &child.notation()?.0;
                     self.style = D::Style::combine(&self.style, &self.doc.node_style()?);
                     self.join_pos = None;
-                    Ok(ConsolidatedNotation::Child(index, self))
+                    Ok(Done(ConsolidatedNotation::Child(index, self)))
                 }
             },
         }
-- 
2.43.0


From 27d681ce48f50474e7a0ec4837e73b628131ef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 12/18] fix: don't swallow document errors while measuring a
 Dynamic pane

---
 src/pane/display_pane.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index 8911478..67ba8fe 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -298,7 +298,9 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
             for line in downward_printer.by_ref().take(num_rows_left) {
                 lines_below.push(line?);
             }
-            if upward_printer.next().is_none() && downward_printer.next().is_none() {
+            let more_above = upward_printer.next().transpose()?.is_some();
+            let more_below = downward_printer.next().transpose()?.is_some();
+            if !more_above && !more_below {
                 // The whole document fits!
                 focus_line_row = lines_above.len() as Row;
                 height = (lines_above.len() + 1 + lines_below.len()) as Height;
-- 
2.43.0


From e1ac7ec8b1721f0e27d5b3e31b3e8c4d3928d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 13/18] fix: a reused child must not keep its old need for a
 separator

---
 src/doc_examples/tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/doc_examples/tree.rs b/src/doc_examples/tree.rs
index 7c234ff..d76780d 100644
--- a/src/doc_examples/tree.rs
+++ b/src/doc_examples/tree.rs
@@ -94,6 +94,10 @@ where
 
     /// Create a new node containing the given children.
     pub fn new_branch(notation: &'static TreeNotation, mut children: Vec<Self>) -> Self {
+        // The children may have been part of another branch before.
+        for child in &mut children {
+            child.needs_separator = false;
+        }
         for child in children
             .iter_mut()
             .rev()
-- 
2.43.0


From 2fb5e2c2eba9bb2f496e761ee81940cd4da0fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 14/18] fix: print the words of JSON comments in the comment
 style

---
 src/doc_examples/json.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/doc_examples/json.rs b/src/doc_examples/json.rs
index ac74e1d..9a5963e 100644
--- a/src/doc_examples/json.rs
+++ b/src/doc_examples/json.rs
@@ -117,7 +117,8 @@ static JSON_COMMENT_NOTATION: Lazy<TreeNotation> = Lazy::new(|| {
     notation.validate().unwrap()
 });
 
-static JSON_COMMENT_WORD_NOTATION: Lazy<TreeNotation> = Lazy::new(|| text().validate().unwrap());
+static JSON_COMMENT_WORD_NOTATION: Lazy<TreeNotation> =
+    Lazy::new(|| style(COMMENT_STYLE, text()).validate().unwrap());
 
 static JSON_ROOTS_NOTATION: Lazy<TreeNotation> = Lazy::new(|| {
     let notation = count(Count {
-- 
2.43.0


From 1cecfaf6d25f9cf00c3a0f2432442163127621ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 15/18] fix: show NUL characters drawn to a plain-text window

They were taken for the sentinel that follows a full-width character, and
left out, which moved the rest of the row to the left.
---
 src/pane/plain_text.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/pane/plain_text.rs b/src/pane/plain_text.rs
index 5d5ff80..18b6d93 100644
--- a/src/pane/plain_text.rs
+++ b/src/pane/plain_text.rs
@@ -11,7 +11,7 @@ pub struct PlainText<S: Style> {
     /// A line is stored as a vector of characters. Each element represents one column position, so
     /// a full-width unicode character will be followed by a `SENTINEL` value to indicate that it
     /// takes up the next column as well.
-    lines: Vec<Vec<char>>,
+    lines: Vec<Vec<Option<char>>>,
     /// The size of the window.
     size: Size,
     /// The style is ignored.
@@ -21,15 +21,13 @@ pub struct PlainText<S: Style> {
 }
 
 // Follows each full-width char.
-const SENTINEL: char = '\0';
+const SENTINEL: Option<char> = None;
 
 impl<S: Style> fmt::Display for PlainText<S> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         for line in &self.lines {
-            for ch in line {
-                if *ch != SENTINEL {
-                    write!(f, "{}", ch)?;
-                }
+            for ch in line.iter().flatten() {
+                write!(f, "{}", ch)?;
             }
             writeln!(f)?;
         }
@@ -82,9 +80,9 @@ impl<S: Style> PrettyWindow for PlainText<S> {
 
         let width = if full_width { 2 } else { 1 };
         if line.len() < col + width {
-            line.resize(col + width, ' ');
+            line.resize(col + width, Some(' '));
         }
-        line[col] = ch;
+        line[col] = Some(ch);
         if full_width {
             line[col + 1] = SENTINEL;
         }
-- 
2.43.0


From 588d02239b47612d891212d0ecbc3521998a8799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:40 +0000
Subject: [PATCH 16/18] fix: drop deeply nested indentation without overflowing
 the stack

---
 src/consolidated_notation.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index 1a11bf6..292b035 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -70,6 +70,17 @@ pub struct IndentNode<'d, D: PrettyDoc<'d>> {
     pub parent: Option<Rc<IndentNode<'d, D>>>,
 }
 
+// The default implementation would recur once per level of indentation, and overflow the stack on very
+// deeply indented documents.
+impl<'d, D: PrettyDoc<'d>> Drop for IndentNode<'d, D> {
+    fn drop(&mut self) {
+        let mut parent = self.parent.take();
+        while let Some(mut node) = parent.and_then(|node| Rc::try_unwrap(node).ok()) {
+            parent = node.parent.take();
+        }
+    }
+}
+
 /// A `ConsolidatedNotation` that has not yet been evaluated, to prevent the entire notation tree
 /// from being in memory at once. Call `.eval()` to get a `ConsolidatedNotation`.
 #[derive(Debug)]
-- 
2.43.0


From 41a5903e56314d77b1e5c7ca0a3c416710dd3822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:52 +0000
Subject: [PATCH 17/18] fix: the oracle's widths no longer overflow on very
 wide lines

---
 src/oracle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oracle.rs b/src/oracle.rs
index 467462a..fbfb933 100644
--- a/src/oracle.rs
+++ b/src/oracle.rs
@@ -87,7 +87,7 @@ fn pp<'d, D: PrettyDoc<'d>>(
                     if prefix.ends_with_eol && first_len > 0 {
                         false
                     } else {
-                        last_len + first_len <= width
+                        last_len.saturating_add(first_len) <= width
                     }
                 }
             };
@@ -112,7 +112,7 @@ fn first_line_len<'d, D: PrettyDoc<'d>>(
 
     match note {
         Empty | FocusMark => Ok(suffix_len),
-        Textual(textual) => Ok(suffix_len.map(|w| textual.width + w)),
+        Textual(textual) => Ok(suffix_len.map(|w| textual.width.saturating_add(w))),
         EndOfLine => match suffix_len {
             None => Ok(None),
             Some(0) => Ok(Some(0)), // Followed by a newline, good
-- 
2.43.0


From 01bfe67bed8d80cd3e5d3925b17a6ec304697bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:19 +0000
Subject: [PATCH 18/18] fix: moving the focus to a child takes time linear in
 the length of its line

---
 src/pretty_print.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index 59eca62..4e79320 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -527,6 +527,9 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
         let mut block = self.next_blocks.pop().unwrap();
         self.expand_focusing_first_block(&mut block, parent)?;
         self.next_blocks.push(block);
+        // The position in `next_blocks` of a block that's known to contain a relevant chunk. (It
+        // would be slow to look through a block again for each of its chunks.)
+        let mut relevant_block = None;
         loop {
             // 1. Walk forward to the block containing the nearest `Choice` or `Child`
             // belonging to `parent_doc`.
@@ -534,14 +537,15 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
             // containing it, but we can't tell right now what children a choice might
             // contain.)
             let contains_relevant_chunk = |block: &Block<'d, D>| -> bool {
-                block.chunks.iter().any(|chunk| match chunk.notation {
+                block.chunks.iter().rev().any(|chunk| match chunk.notation {
                     Child(i, _) => chunk.id == parent_id && i == child_index,
                     Choice(_, _) => chunk.id == parent_id,
                     _ => false,
                 })
             };
             while let Some(block) = self.next_blocks.pop() {
-                if contains_relevant_chunk(&block) {
+                if relevant_block == Some(self.next_blocks.len()) || contains_relevant_chunk(&block)
+                {
                     self.next_blocks.push(block);
                     break;
                 } else {
@@ -570,11 +574,17 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
                         return Chunk::new(child);
                     }
                     Child(_i, child) => {
+                        relevant_block = Some(self.next_blocks.len());
                         self.expand_focusing_first_block(&mut block, Chunk::new(child)?)?;
                         self.next_blocks.push(block);
                         break;
                     }
                     Choice(opt1, opt2) => {
+                        relevant_block = if chunk.id == parent_id {
+                            None
+                        } else {
+                            Some(self.next_blocks.len())
+                        };
                         let choice = self.choose(&block, opt1, opt2)?;
                         self.expand_focusing_first_block(&mut block, choice)?;
                         self.next_blocks.push(block);
-- 
2.43.0

