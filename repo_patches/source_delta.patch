From 765780bb4345781357f85220df1335d9cddd13a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 01/15] fix: forget every row freed by
 DancingMatrix::add_solution

Only the rows of one of the covered columns were cleared, so adding a row
that conflicts in another column dereferenced freed nodes.
---
 src/structures/dancing_links/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index 7a81f5e..68582bf 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -66,8 +66,10 @@ impl DancingMatrix {
             return Err(DancingLinksError::InvalidRow);
         }
 
-        for node in unsafe { Node::iter_down(Node::header(row)).skip(1) } {
-            self.rows[unsafe { Node::row(node) }] = null_mut();
+        for node in unsafe { Node::iter_right(row) } {
+            for node in unsafe { Node::iter_down(Node::header(node)).skip(1) } {
+                self.rows[unsafe { Node::row(node) }] = null_mut();
+            }
         }
 
         for node in unsafe { Node::iter_right(row) } {
-- 
2.43.0


From a32a6de6f35d4d0b1ea35780f5a6c234dcc48d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 02/15] fix: keep a rejected row out of the dancing links
 solution

---
 src/structures/dancing_links/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index 68582bf..8958cad 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -59,13 +59,15 @@ impl DancingMatrix {
             return Err(DancingLinksError::IndexError);
         }
 
-        self.partial_solution.push(row);
-        let row = self.rows[row];
+        let index = row;
+        let row = self.rows[index];
 
         if row.is_null() {
             return Err(DancingLinksError::InvalidRow);
         }
 
+        self.partial_solution.push(index);
+
         for node in unsafe { Node::iter_right(row) } {
             for node in unsafe { Node::iter_down(Node::header(node)).skip(1) } {
                 self.rows[unsafe { Node::row(node) }] = null_mut();
-- 
2.43.0


From 8ea7c00944d5efe6655fe3f58a2b015aa48b1220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 03/15] fix: reject givens above 9 in solve_sudoku

Such a value selected a row of a later cell, so the puzzle was answered
with a grid that does not contain the givens.
---
 src/puzzles/sudoku/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/sudoku/mod.rs b/src/puzzles/sudoku/mod.rs
index f1f9509..e21a3ec 100644
--- a/src/puzzles/sudoku/mod.rs
+++ b/src/puzzles/sudoku/mod.rs
@@ -78,6 +78,10 @@ pub fn solve_sudoku(puzzle: &[u8]) -> Result<Vec<u8>, SudokuError> {
             continue;
         }
 
+        if value as usize > GRID_SIZE {
+            return Err(SudokuError::NoSolution);
+        }
+
         let result = matrix.add_solution(index * 9 + (value as usize) - 1);
 
         if matches!(result, Err(DancingLinksError::InvalidRow)) {
-- 
2.43.0


From 8fbfa3c7ed07f2af8e280ed9b5185b06500c161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 04/15] fix: report vertical steps in the solution of a maze
 one cell wide

With a width of 1 the cell above is also the previous cell, so every step
down was reported as a step right.
---
 src/puzzles/maze/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index dae2c03..6d0c1ac 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -86,14 +86,14 @@ pub fn create_maze(
 
                 let mut solution = Vec::new();
                 while let PathNode::Path(parent) = path_tree[current] {
-                    solution.push(if parent == current + 1 {
-                        MazeDirection::Left
-                    } else if parent == current + width {
+                    solution.push(if parent == current + width {
                         MazeDirection::Up
-                    } else if parent == current - 1 {
-                        MazeDirection::Right
-                    } else {
+                    } else if parent + width == current {
                         MazeDirection::Down
+                    } else if parent == current + 1 {
+                        MazeDirection::Left
+                    } else {
+                        MazeDirection::Right
                     });
 
                     current = parent;
-- 
2.43.0


From d6f4949b7c5b71fb61ad733bbf2acd1b72faf5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 05/15] fix: accept correct paths in print_maze_solution

The last step out of the maze asked for a row of cells below the maze, so
every maze's own solution was refused, and a step into the first column or
row was refused as well.
---
 src/puzzles/maze/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index 6d0c1ac..6c90aad 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -207,7 +207,7 @@ pub fn print_maze_solution(
                 y += 1;
             }
             MazeDirection::Left => {
-                if x * 10 < 15 || unsolved.height() < y * 10 + 6 {
+                if x == 0 || unsolved.height() < y * 10 + 6 {
                     return Err(MazeError::InvalidSolution);
                 }
 
@@ -218,7 +218,7 @@ pub fn print_maze_solution(
                 x -= 1;
             }
             MazeDirection::Up => {
-                if unsolved.width() < x * 10 + 6 || y * 10 < 15 {
+                if unsolved.width() < x * 10 + 6 || y == 0 {
                     return Err(MazeError::InvalidSolution);
                 }
 
@@ -231,7 +231,7 @@ pub fn print_maze_solution(
         }
     }
 
-    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 16 {
+    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 11 {
         return Err(MazeError::InvalidSolution);
     }
 
-- 
2.43.0


From 0893baf6d3613a08b03708522e5ac3aad3d6f48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 06/15] fix: do not overflow when adding up the values of a
 nonogram rule

---
 src/puzzles/nonogram/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 977a1ec..8630ee5 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -44,13 +44,13 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
                         .parse::<usize>()
                         .or(Err(NonogramError::InvalidRule(x.into())))?;
 
-                    size += value;
+                    size = value.saturating_add(size);
 
                     Ok(value)
                 })
                 .collect::<Result<Vec<usize>, NonogramError>>()?;
 
-            size += values.len() - 1;
+            size = size.saturating_add(values.len() - 1);
 
             if values.is_empty() || size > bound {
                 return Err(NonogramError::InvalidRuleDimension);
-- 
2.43.0


From 759931494b113fa262e9f7422b730b2c90619e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 07/15] fix: solve nonogram lines whose rule is 0

The parser accepts the rule 0 of an empty line, but the solver panicked on it.
---
 src/puzzles/nonogram/right_left.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/right_left.rs b/src/puzzles/nonogram/right_left.rs
index f872a6f..fe5735f 100644
--- a/src/puzzles/nonogram/right_left.rs
+++ b/src/puzzles/nonogram/right_left.rs
@@ -19,7 +19,7 @@ impl RuleMachine {
     pub fn new(rule: &[usize]) -> Self {
         let mut left_states = vec![Node::Start, Node::End];
 
-        for &value in rule {
+        for &value in rule.iter().filter(|&&value| value > 0) {
             left_states.extend(vec![Node::Fill; value].into_iter());
             left_states.push(Node::Space);
         }
@@ -28,7 +28,7 @@ impl RuleMachine {
 
         let mut right_states = vec![Node::Start, Node::End];
 
-        for &value in rule.iter().rev() {
+        for &value in rule.iter().rev().filter(|&&value| value > 0) {
             right_states.extend(vec![Node::Fill; value].into_iter());
             right_states.push(Node::Space);
         }
-- 
2.43.0


From 98e3832221ff45f3af3f2cfed65421e88bed359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 08/15] fix: return EmptyPuzzle for a nonogram without columns
 or rows

Two or more columns and no rows panicked.
---
 src/puzzles/nonogram/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 8630ee5..a7cf11e 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -72,6 +72,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let width = col.len();
     let height = row.len();
 
+    if width == 0 || height == 0 {
+        return Err(NonogramError::EmptyPuzzle);
+    }
+
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-- 
2.43.0


From 0c739b224bad450a65e0b134a5fa3208ff36c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 09/15] fix: report NoSolution for nonogram rules longer than
 their line

The solver allocated a state per square of the rule, so a huge value
panicked or exhausted memory.
---
 src/puzzles/nonogram/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index a7cf11e..0f17275 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -76,6 +76,12 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
         return Err(NonogramError::EmptyPuzzle);
     }
 
+    if !col.iter().all(|rule| rule_fits(rule, height))
+        || !row.iter().all(|rule| rule_fits(rule, width))
+    {
+        return Err(NonogramError::NoSolution);
+    }
+
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
@@ -87,6 +93,13 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
         .collect())
 }
 
+fn rule_fits(rule: &[usize], length: usize) -> bool {
+    let filled = rule
+        .iter()
+        .fold(0, |sum: usize, &value| sum.saturating_add(value));
+    filled <= length
+}
+
 fn right_left(
     grid: &mut [Square],
     col: &[Vec<usize>],
-- 
2.43.0


From 68943e1536d9eecd3672fdf6027b337d6845f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 10/15] fix: backtrack over the squares that nonogram line
 solving leaves blank

The backtracking step was empty, so such squares were returned as not
filled and the answer did not match the rules.
---
 src/puzzles/nonogram/mod.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 0f17275..487a107 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -85,7 +85,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-    recursive_backtrack(&mut grid, col, row);
+
+    if !recursive_backtrack(&mut grid, col, row) {
+        return Err(NonogramError::NoSolution);
+    }
 
     Ok(grid
         .iter()
@@ -133,7 +136,24 @@ fn right_left(
     Ok(())
 }
 
-fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) {}
+fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) -> bool {
+    let Some(index) = grid.iter().position(|square| *square == Square::Blank) else {
+        return true;
+    };
+
+    for guess in [Square::Filled, Square::Blocked] {
+        let mut attempt = grid.to_vec();
+        attempt[index] = guess;
+
+        if right_left(&mut attempt, col, row).is_ok() && recursive_backtrack(&mut attempt, col, row)
+        {
+            grid.clone_from_slice(&attempt);
+            return true;
+        }
+    }
+
+    false
+}
 
 pub fn print_nonogram(
     width: u32,
-- 
2.43.0


From 206d5d8a53f781d0ba1e410de75e7def07c59a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 11/15] fix: do not overflow on huge dimensions in
 print_nonogram_solution

---
 src/puzzles/nonogram/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 487a107..3b5fc46 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -243,12 +243,12 @@ pub fn print_nonogram_solution(
     mut image: RgbBuffer,
     grid: &[bool],
 ) -> Result<RgbBuffer, NonogramError> {
-    let rule_width = max(150, width * 10);
-    let rule_height = max(150, height * 10);
+    let rule_width = max(150, u64::from(width) * 10);
+    let rule_height = max(150, u64::from(height) * 10);
 
     if grid.len() != width as usize * height as usize
-        || image.width() != width * 50 + rule_width
-        || image.height() != height * 50 + rule_height
+        || u64::from(image.width()) != u64::from(width) * 50 + rule_width
+        || u64::from(image.height()) != u64::from(height) * 50 + rule_height
     {
         return Err(NonogramError::InvalidDimensions);
     }
-- 
2.43.0


From 1ecb479eb2a0595c988e50840d50d0ed65686b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 12/15] hooks: expose private structures under cfg(verif_hooks)

---
 Cargo.lock |  2 +-
 src/lib.rs | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/Cargo.lock b/Cargo.lock
index 5876083..2c22af1 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -724,7 +724,7 @@ dependencies = [
 
 [[package]]
 name = "puzzle-utils"
-version = "0.2.0"
+version = "0.3.0"
 dependencies = [
  "ab_glyph",
  "image",
diff --git a/src/lib.rs b/src/lib.rs
index a473200..e1d8802 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// The `verif_hooks` flag is only set by the verification harness.
+#![allow(unexpected_cfgs)]
+
 pub mod puzzles;
 mod structures;
 mod util;
@@ -14,6 +17,15 @@ pub use crate::puzzles::nonogram::{
 };
 pub use crate::puzzles::sudoku::{parse_sudoku, print_sudoku, solve_sudoku, SudokuError};
 
+/// Private parts exposed to the verification harness only.
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::structures::dancing_links::{DancingLinksError, DancingMatrix};
+    pub use crate::structures::disjoint_set::DisjointSet;
+    pub use crate::util::choose_random;
+}
+
 pub type RgbBuffer = ImageBuffer<Rgb<u8>, Vec<u8>>;
 
 /// Converts a RgbBuffer to a Vec of bytes representing a PNG
-- 
2.43.0


From b38f3d0591042620745cc1c56c016d744b73a656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 13/15] fix: refuse nonogram rules whose size exceeds the
 integer range

---
 src/puzzles/nonogram/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 3b5fc46..45d5211 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -35,7 +35,7 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
     rules
         .split(';')
         .map(|rule| {
-            let mut size = 0;
+            let mut size = Some(0_usize);
 
             let values = rule
                 .split(',')
@@ -44,15 +44,15 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
                         .parse::<usize>()
                         .or(Err(NonogramError::InvalidRule(x.into())))?;
 
-                    size = value.saturating_add(size);
+                    size = size.and_then(|size| size.checked_add(value));
 
                     Ok(value)
                 })
                 .collect::<Result<Vec<usize>, NonogramError>>()?;
 
-            size = size.saturating_add(values.len() - 1);
+            let size = size.and_then(|size| size.checked_add(values.len() - 1));
 
-            if values.is_empty() || size > bound {
+            if values.is_empty() || size.map_or(true, |size| size > bound) {
                 return Err(NonogramError::InvalidRuleDimension);
             }
 
-- 
2.43.0


From 03880ee7af47c5c9afd9b84e4a246a3ba5d796a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 14/15] fix: shrink nonogram clues that do not fit their margin

---
 src/puzzles/nonogram/mod.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 45d5211..51102be 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -5,7 +5,7 @@ use std::cmp::max;
 use ab_glyph::FontRef;
 use image::ImageBuffer;
 use imageproc::{
-    drawing::{draw_filled_rect_mut, draw_text_mut},
+    drawing::{draw_filled_rect_mut, draw_text_mut, text_size},
     rect::Rect,
 };
 use thiserror::Error;
@@ -155,6 +155,12 @@ fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize
     false
 }
 
+/// The scale at which `text` is drawn so that it is at most `width` pixels wide.
+fn fit_text(font: &FontRef, text: &str, width: u32) -> f32 {
+    let (text_width, _) = text_size(30.0, font, text);
+    30.0 * (width as f32 / text_width as f32).min(1.0)
+}
+
 pub fn print_nonogram(
     width: u32,
     height: u32,
@@ -179,15 +185,21 @@ pub fn print_nonogram(
     for (x, rule) in col.iter().enumerate() {
         let x = (x as u32) * 50 + rule_width + 15;
 
+        let scale = rule
+            .iter()
+            .map(|value| fit_text(&font, &value.to_string(), 33))
+            .fold((rule_height - 10) as f32 / rule.len() as f32, f32::min)
+            .min(30.0);
+
         for (y, rule) in rule.iter().enumerate() {
-            let y = (y as u32) * 30 + 10;
+            let y = (y as f32 * scale) as u32 + 10;
 
             draw_text_mut(
                 &mut image,
                 BLACK_PIXEL,
                 x as i32,
                 y as i32,
-                30.0,
+                scale,
                 &font,
                 &rule.to_string(),
             );
@@ -197,18 +209,20 @@ pub fn print_nonogram(
     for (y, rule) in row.iter().enumerate() {
         let y = (y as u32) * 50 + rule_height + 10;
 
+        let text = rule
+            .iter()
+            .map(|x| x.to_string())
+            .collect::<Vec<_>>()
+            .join("  ");
+
         draw_text_mut(
             &mut image,
             BLACK_PIXEL,
             10,
             y as i32,
-            30.0,
+            fit_text(&font, &text, rule_width - 12),
             &font,
-            &rule
-                .iter()
-                .map(|x| x.to_string())
-                .collect::<Vec<_>>()
-                .join("  "),
+            &text,
         );
     }
 
-- 
2.43.0


From e37c4d5edc0f9204e4bac27385bb624883d4fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 15/15] hooks: leave Cargo.lock as it was

---
 Cargo.lock | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cargo.lock b/Cargo.lock
index 2c22af1..5876083 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -724,7 +724,7 @@ dependencies = [
 
 [[package]]
 name = "puzzle-utils"
-version = "0.3.0"
+version = "0.2.0"
 dependencies = [
  "ab_glyph",
  "image",
-- 
2.43.0

