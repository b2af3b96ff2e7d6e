From 3f183156bc69ca1f8036eec6f9c8d819f410554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 01/25] fix: carry a nested position through an edit of a row
 around it

The container that the position is in is the path entry at the depth of
the edited row. The entry above it was changed instead, and an edit of
the root row panicked.
---
 aftermath-core/input_tree/src/focus/row_range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/input_tree/src/focus/row_range.rs b/aftermath-core/input_tree/src/focus/row_range.rs
index 844f831..4b673e4 100644
--- a/aftermath-core/input_tree/src/focus/row_range.rs
+++ b/aftermath-core/input_tree/src/focus/row_range.rs
@@ -178,14 +178,14 @@ impl Editable for MinimalInputRowRange {
                     }
                 } else if edit.is_insert() {
                     // Child row insertion, if the edit is before the container, move the container
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if old_offset.0 <= row_index.0 {
                         let delta = new_offset.0 - old_offset.0;
                         row_index.0 += delta;
                     }
                 } else {
                     // Child row deletion
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if new_offset.0 <= row_index.0 && row_index.0 < old_offset.0 {
                         // I'm inside the deleted range, move to the start of the edit
                         self.start = new_offset;
-- 
2.43.0


From 9ef58745562a0abfe56c66c5dd79b4797afce6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 02/25] fix: drop the deleted rows and columns of a table

Iterator::skip is lazy, so deleting rows or columns kept every cell and
failed the size check.
---
 aftermath-core/input_tree/src/input_tree.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/input_tree/src/input_tree.rs b/aftermath-core/input_tree/src/input_tree.rs
index 9fc4907..696cabc 100644
--- a/aftermath-core/input_tree/src/input_tree.rs
+++ b/aftermath-core/input_tree/src/input_tree.rs
@@ -123,15 +123,22 @@ impl Editable for InputTree {
                     (EditType::Delete, GridDirection::Row) => {
                         assert!(values.width() == old_size.0);
                         new_grid.extend(old_grid.by_ref().take(values.width() * row_or_column.0));
-                        let _ = old_grid.by_ref().skip(values.width() * values.height());
+                        old_grid
+                            .by_ref()
+                            .take(values.width() * values.height())
+                            .for_each(drop);
                         new_grid.extend(old_grid);
                     }
                     (EditType::Delete, GridDirection::Column) => {
                         assert!(values.height() == old_size.1);
                         for _ in 0..values.height() {
                             new_grid.extend(old_grid.by_ref().take(row_or_column.0));
-                            let _ = old_grid.by_ref().skip(values.width());
-                            new_grid.extend(old_grid.by_ref().take(old_size.0 - row_or_column.0));
+                            old_grid.by_ref().take(values.width()).for_each(drop);
+                            new_grid.extend(
+                                old_grid
+                                    .by_ref()
+                                    .take(old_size.0 - row_or_column.0 - values.width()),
+                            );
                         }
                     }
                 }
-- 
2.43.0


From 493811d41cb1f49326056413b8f7b339a4660703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 03/25] fix: leave a table alone when an edit does not fit it

The size checks ran after the grid had been taken out of the document,
which lost the table's content, and row_or_column was never checked.
---
 aftermath-core/input_tree/src/input_tree.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/aftermath-core/input_tree/src/input_tree.rs b/aftermath-core/input_tree/src/input_tree.rs
index 696cabc..5c8f63a 100644
--- a/aftermath-core/input_tree/src/input_tree.rs
+++ b/aftermath-core/input_tree/src/input_tree.rs
@@ -99,7 +99,21 @@ impl Editable for InputTree {
                 assert!(node.has_resizable_grid());
                 let grid = node.grid_mut().unwrap();
                 let old_size = grid.size();
+                // Check everything before taking the grid apart, so that an edit that doesn't fit changes nothing
+                let (length, count) = match direction {
+                    GridDirection::Row => {
+                        assert!(values.width() == old_size.0);
+                        (old_size.1, values.height())
+                    }
+                    GridDirection::Column => {
+                        assert!(values.height() == old_size.1);
+                        (old_size.0, values.width())
+                    }
+                };
+                assert!(row_or_column.0 <= length);
+                assert!(*edit_type == EditType::Insert || count <= length - row_or_column.0);
                 let new_size = edit.new_grid_size(grid);
+                assert!(new_size.0 > 0);
                 let mut old_grid = std::mem::take(grid).into_iter();
                 let mut new_grid = Vec::with_capacity(new_size.0 * new_size.1);
 
-- 
2.43.0


From 7723d3a1d15e28d284a892c635600244333a38e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 04/25] fix: reject a loaded grid whose values do not fill its
 width

Such a grid (for example one of width 0) was accepted and then failed
when it was printed, navigated or edited.
---
 aftermath-core/input_tree/src/grid.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/input_tree/src/grid.rs b/aftermath-core/input_tree/src/grid.rs
index b4ab251..8678392 100644
--- a/aftermath-core/input_tree/src/grid.rs
+++ b/aftermath-core/input_tree/src/grid.rs
@@ -5,7 +5,7 @@ pub use index2d::*;
 
 use std::fmt;
 
-use serde::{Deserialize, Serialize};
+use serde::{de::Error, Deserialize, Deserializer, Serialize};
 
 pub trait Grid<T> {
     fn width(&self) -> usize {
@@ -26,7 +26,7 @@ pub enum GridDirection {
 
 /// A proper grid of values.
 /// Maybe someday I'll be able to use https://docs.rs/ndarray/latest/ndarray/ instead.
-#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
+#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize)]
 #[cfg_attr(
     feature = "wasm",
     derive(tsify::Tsify),
@@ -37,6 +37,23 @@ pub struct GridVec<T> {
     width: usize,
 }
 
+impl<'de, T: Deserialize<'de>> Deserialize<'de> for GridVec<T> {
+    /// Rejects grids whose values do not fill their width
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(rename = "GridVec")]
+        struct Unchecked<T> {
+            values: Vec<T>,
+            width: usize,
+        }
+        let Unchecked { values, width } = Unchecked::deserialize(deserializer)?;
+        if width == 0 || values.len() % width != 0 {
+            return Err(D::Error::custom("the values do not fill the grid's width"));
+        }
+        Ok(GridVec { values, width })
+    }
+}
+
 impl<T> Grid<T> for GridVec<T> {
     fn size(&self) -> (usize, usize) {
         (self.width, self.values.len() / self.width)
-- 
2.43.0


From 0cc63b5b1bbde196e8c4b8d2f02c3d868d799ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 05/25] fix: the root row has no index in a parent

index_in_parent underflowed for the root row.
---
 aftermath-core/input_tree/src/focus.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/input_tree/src/focus.rs b/aftermath-core/input_tree/src/focus.rs
index 576520d..b23003a 100644
--- a/aftermath-core/input_tree/src/focus.rs
+++ b/aftermath-core/input_tree/src/focus.rs
@@ -99,9 +99,8 @@ impl<'a> InputFocusRow<'a> {
     }
 
     pub fn index_in_parent(&self) -> Option<usize> {
-        self.row_indices
-            .at(self.row_indices.len() - 1)
-            .map(|row_index| row_index.1)
+        let last = self.row_indices.len().checked_sub(1)?;
+        self.row_indices.at(last).map(|row_index| row_index.1)
     }
 
     pub fn offset_to_index(&self, offset: Offset, direction: HorizontalDirection) -> Option<usize> {
-- 
2.43.0


From 5a76a7e238aba50563541794c2f49b2a8f72c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 06/25] fix: moving left out of the first cell of a container
 overflowed

---
 aftermath-core/caret/src/primitive/movement.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/caret/src/primitive/movement.rs b/aftermath-core/caret/src/primitive/movement.rs
index a875e21..64f73e4 100644
--- a/aftermath-core/caret/src/primitive/movement.rs
+++ b/aftermath-core/caret/src/primitive/movement.rs
@@ -184,11 +184,11 @@ impl NavigationSettings {
     ) -> Option<InputRowPosition<'a>> {
         let parent = caret.row_focus.clone().parent()?;
 
-        let adjacent_index = caret.row_focus.index_in_parent().map(|v| {
+        let adjacent_index = caret.row_focus.index_in_parent().and_then(|v| {
             if direction == HorizontalDirection::Left {
-                v - 1
+                v.checked_sub(1)
             } else {
-                v + 1
+                Some(v + 1)
             }
         });
         let adjacent_child =
-- 
2.43.0


From 25eab872354ff9fdc522adfab3ab1ea25b4e4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 07/25] fix: splicing put the caret back to a place that may no
 longer exist

---
 aftermath-core/caret/src/math_editor.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index a7c60f5..f8ca023 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -371,7 +371,6 @@ impl MathEditor {
         // Move caret
         // Apply edit
         // Merge edit into undo stack
-        let caret_before = self.caret.clone();
         let mut caret = self.caret.clone();
         let mut builder = EditorActionBuilder::new(self);
         let (basic_edit, _) = BasicEdit::replace_range(
@@ -382,7 +381,6 @@ impl MathEditor {
         caret.end_position.apply_edits(&basic_edit);
         builder.add_edits(basic_edit);
         builder.finish(caret);
-        self.caret = caret_before;
     }
 }
 
-- 
2.43.0


From 993090ed4c7e96a8779ccd0b9d5f8426e3ff55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 08/25] fix: autocorrect compared the rule with the wrong part
 of the row

---
 aftermath-core/caret/src/math_editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index f8ca023..2ffe3af 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -309,7 +309,7 @@ impl MathEditor {
             .rule
             .matches(
                 autocomplete_range.values(),
-                autocomplete_range.left_offset().0,
+                autocomplete_range.values().len(),
                 1,
             )
             .iter()
-- 
2.43.0


From ca99da5d88ef05cb175b407749f8c9a282f940dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 09/25] fix: moving the caret next to a container without cells
 failed

---
 aftermath-core/caret/src/primitive/movement.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/caret/src/primitive/movement.rs b/aftermath-core/caret/src/primitive/movement.rs
index 64f73e4..0e35e17 100644
--- a/aftermath-core/caret/src/primitive/movement.rs
+++ b/aftermath-core/caret/src/primitive/movement.rs
@@ -224,7 +224,7 @@ impl NavigationSettings {
         let adjacent_child = caret.row_focus.clone().child_at(adjacent_index).unwrap();
 
         match adjacent_child.node() {
-            input_tree::node::InputNode::Container(_, grid) => {
+            input_tree::node::InputNode::Container(_, grid) if !grid.is_empty() => {
                 let adjacent_row = if direction == HorizontalDirection::Left {
                     adjacent_child
                         .child_at(grid.width() * grid.height() - 1)
@@ -239,7 +239,8 @@ impl NavigationSettings {
                 };
                 Some(InputRowPosition::new(adjacent_row, offset))
             }
-            input_tree::node::InputNode::Symbol(_) => Some(InputRowPosition::new(
+            // Symbols, and containers without any cells
+            _ => Some(InputRowPosition::new(
                 caret.row_focus.clone(),
                 if direction == HorizontalDirection::Left {
                     Offset(caret.offset.0 - 1)
-- 
2.43.0


From dec1c5ac90a0ee6cb90a0d3b978393c8b0125942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 10/25] fix: finding autocompletes failed for empty and for
 multi-byte symbols

---
 aftermath-core/parser/src/autocomplete.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aftermath-core/parser/src/autocomplete.rs b/aftermath-core/parser/src/autocomplete.rs
index a24121d..d9484d1 100644
--- a/aftermath-core/parser/src/autocomplete.rs
+++ b/aftermath-core/parser/src/autocomplete.rs
@@ -72,10 +72,14 @@ impl AutocompleteRule {
 /// Can return overlapping ranges.
 fn indices_of(needle: &str, haystack: &str) -> Vec<usize> {
     let mut indices = Vec::new();
+    let step = match needle.chars().next() {
+        Some(first_char) => first_char.len_utf8(),
+        None => return indices,
+    };
     let mut i = 0;
     while let Some(index) = haystack[i..].find(needle).map(|v| v + i) {
         indices.push(index);
-        i = index + 1;
+        i = index + step;
     }
     indices
 }
-- 
2.43.0


From 7344ff221527ca8e5262193b40c1ab8034f3b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 11/25] fix: rules ending in a multi-byte symbol were never
 completely matched

---
 aftermath-core/parser/src/autocomplete.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aftermath-core/parser/src/autocomplete.rs b/aftermath-core/parser/src/autocomplete.rs
index d9484d1..c57cd2e 100644
--- a/aftermath-core/parser/src/autocomplete.rs
+++ b/aftermath-core/parser/src/autocomplete.rs
@@ -102,13 +102,13 @@ impl AutocompleteMatcher for AutocompleteRule {
         // Initialize matching_ranges
         if let Some(InputNode::Symbol(starting_symbol)) = input.last() {
             for i in indices_of(starting_symbol.as_str(), &self.parser) {
-                potential_matches.push(i);
+                potential_matches.push((i, i + starting_symbol.len()));
             }
         }
 
         let mut matches = Vec::new();
-        for parser_end_index in potential_matches {
-            let mut parser_current_index = parser_end_index;
+        for (parser_start_index, parser_end_index) in potential_matches {
+            let mut parser_current_index = parser_start_index;
             let mut symbol_count = 1; // The init already matched one symbol
             let mut input_reverse = input.iter().rev().skip(symbol_count);
             while let Some(InputNode::Symbol(symbol)) = input_reverse.next() {
@@ -130,7 +130,7 @@ impl AutocompleteMatcher for AutocompleteRule {
                 // Matched the whole parser
                 matches.push(AutocompleteRuleMatch {
                     rule: self,
-                    rule_match_length: parser_end_index + 1,
+                    rule_match_length: parser_end_index,
                     input_match_length: symbol_count,
                 })
             }
-- 
2.43.0


From ed14184c73c118a903885139c3a3d388e1bb7475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 12/25] fix: one entry per symbol for operators of several
 symbols in the syntax tree

---
 aftermath-core/parser/src/make_parser.rs       | 2 +-
 aftermath-core/parser/src/parser_extensions.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/parser/src/make_parser.rs b/aftermath-core/parser/src/make_parser.rs
index bf2412f..079e73c 100644
--- a/aftermath-core/parser/src/make_parser.rs
+++ b/aftermath-core/parser/src/make_parser.rs
@@ -70,7 +70,7 @@ impl MakeParser for MakeSymbolsParser {
     fn build<'a>(&self, _parser: RcPrattParserType<'a, 'a>) -> BoxedTokenParser<'a, 'a> {
         let node_type = self.node_type;
         just_symbols(&self.symbols)
-            .map(move |v| SyntaxNodeBuilder::new_leaf_node(vec![v], node_type))
+            .map(move |v| SyntaxNodeBuilder::new_leaf_node(v, node_type))
             .with_ctx(())
             .boxed()
     }
diff --git a/aftermath-core/parser/src/parser_extensions.rs b/aftermath-core/parser/src/parser_extensions.rs
index d2f6a51..5a262a6 100644
--- a/aftermath-core/parser/src/parser_extensions.rs
+++ b/aftermath-core/parser/src/parser_extensions.rs
@@ -12,7 +12,7 @@ pub fn just_symbol<'a, E: ParserExtra<'a, &'a [InputNode]>>(
 
 pub fn just_symbols<'a, E: ParserExtra<'a, &'a [InputNode]>>(
     symbols: &[String],
-) -> impl chumsky::Parser<'a, &'a [InputNode], String, E> {
+) -> impl chumsky::Parser<'a, &'a [InputNode], Vec<String>, E> {
     let symbol_nodes = symbols
         .iter()
         .map(|v| InputNode::Symbol(v.clone()))
@@ -23,6 +23,6 @@ pub fn just_symbols<'a, E: ParserExtra<'a, &'a [InputNode]>>(
                 InputNode::Symbol(v) => v,
                 _ => panic!("Expected symbol"),
             })
-            .collect::<String>()
+            .collect::<Vec<_>>()
     })
 }
-- 
2.43.0


From 4ed6dadc2601dea6b68cce8efe28ffd333642048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 13/25] fix: queued text input takes effect before the events
 that follow it

---
 src/component/math-editor.ts | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 9607db6..6cf7803 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -35,7 +35,10 @@ class RenderTaskQueue {
     }, 0);
   }
 
-  private run() {
+  /**
+   * Runs everything that has been queued up, so that events take effect in the order in which they happened
+   */
+  run() {
     while (this.tasks.length > 0) {
       const task = this.tasks.shift()!;
       task();
@@ -142,6 +145,7 @@ export class MathEditor extends HTMLElement {
 
   private addInputEventListeners() {
     this.inputHandler.element.addEventListener("keydown", (ev) => {
+      this.renderTaskQueue.run();
       if (ev.key === "ArrowUp") {
         this.mathEditor.move_caret("Up", "Char");
       } else if (ev.key === "ArrowDown") {
@@ -184,6 +188,7 @@ export class MathEditor extends HTMLElement {
     };
 
     this.inputHandler.element.addEventListener("copy", (ev) => {
+      this.renderTaskQueue.run();
       if (ev.clipboardData === null) {
         console.error("No clipboard data");
         return;
@@ -193,6 +198,7 @@ export class MathEditor extends HTMLElement {
     });
 
     this.inputHandler.element.addEventListener("cut", (ev) => {
+      this.renderTaskQueue.run();
       if (ev.clipboardData === null) {
         console.error("No clipboard data");
         return;
@@ -204,6 +210,7 @@ export class MathEditor extends HTMLElement {
     });
 
     this.inputHandler.element.addEventListener("paste", (ev) => {
+      this.renderTaskQueue.run();
       if (ev.clipboardData === null) {
         console.error("No clipboard data");
         return;
@@ -234,6 +241,7 @@ export class MathEditor extends HTMLElement {
 
     container.addEventListener("pointerdown", (e) => {
       if (!e.isPrimary) return;
+      this.renderTaskQueue.run();
       const newPosition = getPointerPosition(e);
       if (!newPosition) return;
       container.setPointerCapture(e.pointerId);
@@ -244,6 +252,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointerup", (e) => {
       if (!e.isPrimary) return;
+      this.renderTaskQueue.run();
       isPointerDown = false;
       const newPosition = getPointerPosition(e);
       if (newPosition) {
@@ -255,6 +264,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointercancel", (e) => {
       if (!e.isPrimary) return;
+      this.renderTaskQueue.run();
       isPointerDown = false;
 
       const newPosition = getPointerPosition(e);
@@ -270,6 +280,7 @@ export class MathEditor extends HTMLElement {
     // - The mouse event fires *after* the pointer event. And it includes the number of clicks info.
     container.addEventListener("mousedown", (e) => {
       if (!isPointerDown) return;
+      this.renderTaskQueue.run();
 
       const newPosition = getPointerPosition(e);
       if (!newPosition) return;
@@ -288,6 +299,7 @@ export class MathEditor extends HTMLElement {
     container.addEventListener("pointermove", (e) => {
       if (!e.isPrimary) return;
       if (!isPointerDown) return;
+      this.renderTaskQueue.run();
 
       const newPosition = getPointerPosition(e);
       if (!newPosition) return;
@@ -307,6 +319,7 @@ export class MathEditor extends HTMLElement {
 
   attributeChangedCallback(name: string, oldValue: string | null, newValue: string | null) {
     if (name === "mathml") {
+      this.renderTaskQueue.run();
       const mathMlElement = htmlToElement(newValue || "<math></math>");
       assert(mathMlElement instanceof MathMLElement, "Mathml attribute must be a valid mathml element");
 
-- 
2.43.0


From 89ea3b4075b1ad11c74f721deaf0a83d100d6ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:09 +0000
Subject: [PATCH 14/25] fix: releasing a pointer that was pressed elsewhere
 does not select

---
 src/component/math-editor.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 6cf7803..57dc7b0 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -252,6 +252,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointerup", (e) => {
       if (!e.isPrimary) return;
+      if (!isPointerDown) return;
       this.renderTaskQueue.run();
       isPointerDown = false;
       const newPosition = getPointerPosition(e);
@@ -264,6 +265,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointercancel", (e) => {
       if (!e.isPrimary) return;
+      if (!isPointerDown) return;
       this.renderTaskQueue.run();
       isPointerDown = false;
 
-- 
2.43.0


From 11652fb3a178cdb1dca200942289edfeaaf17868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:18 +0000
Subject: [PATCH 15/25] fix: scripts at the start of a cell are not taken for
 the cell when pointing at them

---
 src/mathml/renderer.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index e36f556..9bc1a08 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -85,9 +85,9 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, operatorRowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
-            return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
+            return new RowsContainerMathMLElement(node, operatorRowIndex, "mrow", this);
           },
         });
       });
@@ -95,9 +95,9 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, operatorRowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
-            return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
+            return new RowsContainerMathMLElement(node, operatorRowIndex, "mrow", this);
           },
         });
       });
-- 
2.43.0


From 76a32ea870805c83482d6c3e3756bed1bd3507d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 16/25] fix: a space before a script does not stop the formula
 from being rendered

---
 src/mathml/renderer.ts | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index 9bc1a08..201776b 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -83,7 +83,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sup", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
           newRowsOperatorOverride: (node, operatorRowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
@@ -93,7 +92,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sub", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
           newRowsOperatorOverride: (node, operatorRowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
-- 
2.43.0


From 28df2b1dfac8eb933d8d7bc3ff5d6a12be19669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:28 +0000
Subject: [PATCH 17/25] fix: show corrections that happen while selecting with
 the pointer

---
 src/component/math-editor.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 57dc7b0..cbe5d20 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -261,7 +261,7 @@ export class MathEditor extends HTMLElement {
       }
       this.mathEditor.finish_selection();
       container.releasePointerCapture(e.pointerId);
-      this.renderCarets();
+      this.updateInput();
     });
     container.addEventListener("pointercancel", (e) => {
       if (!e.isPrimary) return;
@@ -275,7 +275,7 @@ export class MathEditor extends HTMLElement {
       }
       this.mathEditor.finish_selection();
       container.releasePointerCapture(e.pointerId);
-      this.renderCarets();
+      this.updateInput();
     });
     // For double clicking
     // - The dblclick event fires too late for text selection (text selection should happen on pointerdown)
@@ -291,11 +291,11 @@ export class MathEditor extends HTMLElement {
       if (clickCount === 2) {
         // double click select
         this.mathEditor.start_selection(newPosition, "Word");
-        this.renderCarets();
+        this.updateInput();
       } else if (clickCount === 3) {
         // triple click select
         this.mathEditor.start_selection(newPosition, "Line");
-        this.renderCarets();
+        this.updateInput();
       }
     });
     container.addEventListener("pointermove", (e) => {
@@ -306,7 +306,7 @@ export class MathEditor extends HTMLElement {
       const newPosition = getPointerPosition(e);
       if (!newPosition) return;
       this.mathEditor.extend_selection(newPosition);
-      this.renderCarets();
+      this.updateInput();
     });
   }
 
-- 
2.43.0


From e6d9825c0356ab53f1dafa471b16756015eb1a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:44 +0000
Subject: [PATCH 18/25] fix: keep what is inside of mstyle elements when
 importing MathML

---
 src/mathml/parsing.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 3574fd6..cf07372 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -78,7 +78,7 @@ function table(values: InputRow[], width: number): InputNode {
 function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode) | (InputRow | InputNode)[] {
   let children = [...element.children];
 
-  if (tagIs(element, "math", "mrow", "mtd")) {
+  if (tagIs(element, "math", "mrow", "mtd", "mstyle")) {
     // Uses flatMap so that msub can return two elements...
     return wrapInRow(children.flatMap((c) => toMathLayout(c, errors)));
   } else if (tagIs(element, "semantics") && children.length > 0) {
@@ -163,8 +163,6 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
     );
 
     return table(tableCells, tableWidth);
-  } else if (tagIs(element, "mstyle")) {
-    return [];
   } else {
     errors.push(new Error("Unknown element " + element.tagName));
     return symbol("Error");
-- 
2.43.0


From 3d9fb31f52206e34bf7f8cb6b32a1e4473bf8c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 19/25] fix: whitespace inside of imported MathML text counts
 as one space

---
 src/mathml/parsing.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index cf07372..1c87200 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -179,7 +179,8 @@ function expectNChildren(element: Element, n: number, errors: Error[]): InputNod
 
 function getText(element: Element) {
   // Good enough for now
-  return (element.textContent + "").trim();
+  // Inside of MathML token elements, any amount of whitespace counts as one space
+  return (element.textContent + "").trim().replace(/[ \t\n\f\r]+/g, " ");
 }
 
 const intlSegmenter = globalThis?.Intl?.Segmenter ? new Intl.Segmenter("en", { granularity: "grapheme" }) : null;
-- 
2.43.0


From 0c76c6f0fb45dbc0fbd72db8e4155c524d920955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:19 +0000
Subject: [PATCH 20/25] fix: paste without a data type no longer stops the
 editor

---
 aftermath-core/serialization/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/aftermath-core/serialization/src/lib.rs b/aftermath-core/serialization/src/lib.rs
index bf2e4af..cb709ba 100644
--- a/aftermath-core/serialization/src/lib.rs
+++ b/aftermath-core/serialization/src/lib.rs
@@ -43,14 +43,11 @@ pub fn deserialize_input_nodes(
     data_type: Option<SerializedDataType>,
 ) -> Result<Vec<InputNode>, SerializationError> {
     match data_type {
-        Some(SerializedDataType::JsonInputTree) => {
+        // There is only one data type so far, so that's what auto-detecting the data type results in
+        Some(SerializedDataType::JsonInputTree) | None => {
             let data: SerializedData<Vec<InputNode>> = serde_json::from_str(&data)?;
             // TODO: Migrate data to latest version?
             Ok(data.data)
         }
-        None => {
-            // Auto-detect the data type
-            todo!();
-        }
     }
 }
-- 
2.43.0


From afdfe737d488dcc74064e0328205360687170de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 21/25] fix: moving an editor in the page keeps its document

---
 src/component/math-editor.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index cbe5d20..e006f73 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -311,8 +311,8 @@ export class MathEditor extends HTMLElement {
   }
 
   connectedCallback() {
-    // Try to initialize the math element
-    this.attributeChangedCallback("mathml", "", this.getAttribute("mathml") ?? "");
+    // The formula is set by the attribute. Now that there is a place to draw it, also draw the caret.
+    this.updateInput();
   }
 
   disconnectedCallback() {
-- 
2.43.0


From c454aa4fbe069ad9339f781de1fc613d176e9b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:38 +0000
Subject: [PATCH 22/25] fix: a selection of table cells is drawn over all of
 its cells

---
 src/component/math-editor.ts | 42 ++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index e006f73..74dd156 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -22,7 +22,7 @@ import { AutocompleteElement } from "./autocomplete/autocomplete-element";
 import { CaretDomElement } from "./caret/single-caret-element";
 import { createNode, htmlToElement } from "../utils/dom-utils";
 import { keyIn } from "../utils/pattern-matching-utils";
-import { ViewportMath } from "../rendering/viewport-coordinate";
+import { ViewportMath, type ViewportRect } from "../rendering/viewport-coordinate";
 
 class RenderTaskQueue {
   tasks: (() => void)[] = [];
@@ -412,30 +412,24 @@ export class MathEditor extends HTMLElement {
         const range = caret.Grid;
         // Assumes a lot of internal details about the grid range
         // (Start index, exclusive end index)
-        const startIndices = new RowIndices([...range.row_indices, [range.index, range.range.start]]);
-        const renderedStart = this.renderResult.getViewportRowBounds(startIndices);
-        const endIndices = new RowIndices([
-          ...range.row_indices,
-          [range.index, Math.max(range.range.end - 1, range.range.start)],
-        ]);
-        const renderedEnd = this.renderResult.getViewportRowBounds(endIndices);
+        const width = range.range.width;
+        const first = range.range.start;
+        const last = Math.max(range.range.end - 1, first);
+        const startColumn = Math.min(first % width, last % width);
+        const endColumn = Math.max(first % width, last % width);
+        // A cell in the middle can be bigger than the ones in the corners
+        let selectedRect: ViewportRect | null = null;
+        for (let row = Math.floor(first / width); row <= Math.floor(last / width); row++) {
+          for (let column = startColumn; column <= endColumn; column++) {
+            const cellIndices = new RowIndices([...range.row_indices, [range.index, row * width + column]]);
+            const cellRect = this.renderResult.getViewportRowBounds(cellIndices);
+            selectedRect = selectedRect === null ? cellRect : ViewportMath.joinRectangles(selectedRect, cellRect);
+          }
+        }
         element.clearSelections();
-        element.addSelection(
-          ViewportMath.joinRectangles(
-            {
-              x: Math.min(renderedStart.x, renderedEnd.x),
-              y: Math.min(renderedStart.y, renderedEnd.y),
-              width: 0,
-              height: 0,
-            },
-            {
-              x: Math.max(renderedStart.x + renderedStart.width, renderedEnd.x + renderedEnd.width),
-              y: Math.max(renderedStart.y + renderedStart.height, renderedEnd.y + renderedEnd.height),
-              width: 0,
-              height: 0,
-            }
-          )
-        );
+        if (selectedRect !== null) {
+          element.addSelection(selectedRect);
+        }
         element.setHeight(0);
       } else {
         assertUnreachable(caret);
-- 
2.43.0


From cf22c4da36344c82c8bd5c49c2764d16c35a532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:47 +0000
Subject: [PATCH 23/25] fix: a script without a base does not keep the rest of
 the formula from being imported

---
 src/mathml/parsing.ts | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 1c87200..5ce467c 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -102,29 +102,33 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
       root([wrapInRow(toMathLayout(children[1], errors)), wrapInRow(toMathLayout(children[0], errors))])
     );
   } else if (tagIs(element, "msub")) {
+    const error = expectNChildren(element, 2, errors);
+    if (error) return error;
     let base = toMathLayout(children[0], errors);
     if (!Array.isArray(base)) {
       base = [base];
     }
-    return expectNChildren(element, 2, errors) ?? [...base, sub(wrapInRow(toMathLayout(children[1], errors)))];
+    return [...base, sub(wrapInRow(toMathLayout(children[1], errors)))];
   } else if (tagIs(element, "msup")) {
+    const error = expectNChildren(element, 2, errors);
+    if (error) return error;
     let base = toMathLayout(children[0], errors);
     if (!Array.isArray(base)) {
       base = [base];
     }
-    return expectNChildren(element, 2, errors) ?? [...base, sup(wrapInRow(toMathLayout(children[1], errors)))];
+    return [...base, sup(wrapInRow(toMathLayout(children[1], errors)))];
   } else if (tagIs(element, "msubsup")) {
+    const error = expectNChildren(element, 3, errors);
+    if (error) return error;
     let base = toMathLayout(children[0], errors);
     if (!Array.isArray(base)) {
       base = [base];
     }
-    return (
-      expectNChildren(element, 3, errors) ?? [
-        ...base,
-        sub(wrapInRow(toMathLayout(children[1], errors))),
-        sup(wrapInRow(toMathLayout(children[2], errors))),
-      ]
-    );
+    return [
+      ...base,
+      sub(wrapInRow(toMathLayout(children[1], errors))),
+      sup(wrapInRow(toMathLayout(children[2], errors))),
+    ];
   } else if (tagIs(element, "munder")) {
     // It's usually a sub/sup
     return (
-- 
2.43.0


From c15d3e71e07de615fe9419474718cb91705d5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:47 +0000
Subject: [PATCH 24/25] fix: a table without cells does not keep the rest of
 the formula from being imported

---
 src/mathml/parsing.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 5ce467c..de72b5c 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -159,6 +159,10 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
     }
 
     const tableWidth = children.map((c) => c.children.length).reduce((a, b) => Math.max(a, b), 0);
+    if (tableWidth === 0) {
+      errors.push(new Error("Table without cells"));
+      return symbol("Error");
+    }
 
     const tableCells = children.flatMap((c) =>
       Array.from({ length: tableWidth }, (_, i) =>
-- 
2.43.0


From 7921e14e5245ed0665e01254cb5423da5c9353d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:57 +0000
Subject: [PATCH 25/25] fix: spaces in texts of a formula that are no MathML
 white space are kept

---
 src/mathml/parsing.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index de72b5c..3a78ed1 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -188,7 +188,7 @@ function expectNChildren(element: Element, n: number, errors: Error[]): InputNod
 function getText(element: Element) {
   // Good enough for now
   // Inside of MathML token elements, any amount of whitespace counts as one space
-  return (element.textContent + "").trim().replace(/[ \t\n\f\r]+/g, " ");
+  return (element.textContent + "").replace(/[ \t\n\f\r]+/g, " ").replace(/^ | $/g, "");
 }
 
 const intlSegmenter = globalThis?.Intl?.Segmenter ? new Intl.Segmenter("en", { granularity: "grapheme" }) : null;
-- 
2.43.0

