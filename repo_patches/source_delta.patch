From d6fa49d3c1c1a345775fff0c83497e5aa5f0cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 01/11] fix: report downward steps as Down in one-column mazes

With width 1 the cell above is also "current - 1", so every step of the
solution was reported as Right.
---
 src/puzzles/maze/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index dae2c03..6d0c1ac 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -86,14 +86,14 @@ pub fn create_maze(
 
                 let mut solution = Vec::new();
                 while let PathNode::Path(parent) = path_tree[current] {
-                    solution.push(if parent == current + 1 {
-                        MazeDirection::Left
-                    } else if parent == current + width {
+                    solution.push(if parent == current + width {
                         MazeDirection::Up
-                    } else if parent == current - 1 {
-                        MazeDirection::Right
-                    } else {
+                    } else if parent + width == current {
                         MazeDirection::Down
+                    } else if parent == current + 1 {
+                        MazeDirection::Left
+                    } else {
+                        MazeDirection::Right
                     });
 
                     current = parent;
-- 
2.43.0


From 80f68093a584c2d210169872330e088db24c1adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 02/11] fix: accept the solutions of generated mazes in
 print_maze_solution

The final half step needs rows up to y * 10 + 10, so the check for
y * 10 + 16 rows rejected every solution that ends in the bottom row, and
steps left or up into the first column or row were rejected as well.
---
 src/puzzles/maze/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index 6d0c1ac..50eeff5 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -207,7 +207,7 @@ pub fn print_maze_solution(
                 y += 1;
             }
             MazeDirection::Left => {
-                if x * 10 < 15 || unsolved.height() < y * 10 + 6 {
+                if x < 1 || unsolved.height() < y * 10 + 6 {
                     return Err(MazeError::InvalidSolution);
                 }
 
@@ -218,7 +218,7 @@ pub fn print_maze_solution(
                 x -= 1;
             }
             MazeDirection::Up => {
-                if unsolved.width() < x * 10 + 6 || y * 10 < 15 {
+                if unsolved.width() < x * 10 + 6 || y < 1 {
                     return Err(MazeError::InvalidSolution);
                 }
 
@@ -231,7 +231,7 @@ pub fn print_maze_solution(
         }
     }
 
-    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 16 {
+    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 11 {
         return Err(MazeError::InvalidSolution);
     }
 
-- 
2.43.0


From efd4f56f5816201f9b77bebf73bd7b164a62ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 03/11] fix: forget every row freed by
 DancingMatrix::add_solution

Only the rows sharing one of the added row's constraints were cleared, so
adding a row that conflicts through another constraint (a digit given twice
in a sudoku row, column or cell) dereferenced freed nodes.
---
 src/structures/dancing_links/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index 7a81f5e..0a6272f 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -66,12 +66,12 @@ impl DancingMatrix {
             return Err(DancingLinksError::InvalidRow);
         }
 
-        for node in unsafe { Node::iter_down(Node::header(row)).skip(1) } {
-            self.rows[unsafe { Node::row(node) }] = null_mut();
-        }
-
         for node in unsafe { Node::iter_right(row) } {
             unsafe { Node::cover_column(node) };
+
+            for node in unsafe { Node::iter_down(Node::header(node)).skip(1) } {
+                self.rows[unsafe { Node::row(node) }] = null_mut();
+            }
         }
 
         for node in unsafe { Node::iter_right(row).skip(1) } {
-- 
2.43.0


From 49a1614086de6635456184323272f32ce975958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 04/11] fix: keep rejected rows out of the partial solution

A row refused with InvalidRow was still returned as part of the solution
found by a later solve().
---
 src/structures/dancing_links/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index 0a6272f..47d7103 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -59,13 +59,15 @@ impl DancingMatrix {
             return Err(DancingLinksError::IndexError);
         }
 
-        self.partial_solution.push(row);
-        let row = self.rows[row];
+        let index = row;
+        let row = self.rows[index];
 
         if row.is_null() {
             return Err(DancingLinksError::InvalidRow);
         }
 
+        self.partial_solution.push(index);
+
         for node in unsafe { Node::iter_right(row) } {
             unsafe { Node::cover_column(node) };
 
-- 
2.43.0


From 5fd6ccfd9737db0176352576df54c1a4c73f6a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 05/11] fix: report failed node allocations instead of writing
 through null

---
 src/structures/dancing_links/node.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/structures/dancing_links/node.rs b/src/structures/dancing_links/node.rs
index c3e601a..cc26c3e 100644
--- a/src/structures/dancing_links/node.rs
+++ b/src/structures/dancing_links/node.rs
@@ -1,5 +1,5 @@
 use std::{
-    alloc::{alloc, dealloc, Layout},
+    alloc::{alloc, dealloc, handle_alloc_error, Layout},
     ptr::{null_mut, read},
 };
 
@@ -27,6 +27,10 @@ impl Node {
         row: usize,
     ) -> *mut Self {
         let ptr = unsafe { alloc(NODE_LAYOUT) } as *mut Node;
+        if ptr.is_null() {
+            handle_alloc_error(NODE_LAYOUT);
+        }
+
         let mut node = Node {
             header,
             left: ptr,
@@ -66,6 +70,10 @@ impl Node {
     /// 'previous' must be a valid pointer (possibly null) to a header Node
     pub unsafe fn new_header(previous: *mut Node, num_rows: usize) -> *mut Self {
         let ptr = unsafe { alloc(NODE_LAYOUT) } as *mut Node;
+        if ptr.is_null() {
+            handle_alloc_error(NODE_LAYOUT);
+        }
+
         let mut node = Node {
             header: null_mut(),
             left: ptr,
-- 
2.43.0


From ecb2e5f95eaecdb2b8ba878bee63f6aef1c6aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 06/11] fix: reject sudoku values above 9 in solve_sudoku

Such a value was taken as a digit of a later cell, or ignored, and the
solution returned contradicted the puzzle.
---
 src/puzzles/sudoku/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/sudoku/mod.rs b/src/puzzles/sudoku/mod.rs
index f1f9509..e21a3ec 100644
--- a/src/puzzles/sudoku/mod.rs
+++ b/src/puzzles/sudoku/mod.rs
@@ -78,6 +78,10 @@ pub fn solve_sudoku(puzzle: &[u8]) -> Result<Vec<u8>, SudokuError> {
             continue;
         }
 
+        if value as usize > GRID_SIZE {
+            return Err(SudokuError::NoSolution);
+        }
+
         let result = matrix.add_solution(index * 9 + (value as usize) - 1);
 
         if matches!(result, Err(DancingLinksError::InvalidRow)) {
-- 
2.43.0


From 2df0d54eef2ceb83b2ba2c299d565f020152b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 07/11] fix: solve nonogram lines whose rule is 0

The parser accepts 0 for an empty line (an empty rule is refused), but the
solver reached unreachable!() on it.
---
 src/puzzles/nonogram/right_left.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/right_left.rs b/src/puzzles/nonogram/right_left.rs
index f872a6f..fe5735f 100644
--- a/src/puzzles/nonogram/right_left.rs
+++ b/src/puzzles/nonogram/right_left.rs
@@ -19,7 +19,7 @@ impl RuleMachine {
     pub fn new(rule: &[usize]) -> Self {
         let mut left_states = vec![Node::Start, Node::End];
 
-        for &value in rule {
+        for &value in rule.iter().filter(|&&value| value > 0) {
             left_states.extend(vec![Node::Fill; value].into_iter());
             left_states.push(Node::Space);
         }
@@ -28,7 +28,7 @@ impl RuleMachine {
 
         let mut right_states = vec![Node::Start, Node::End];
 
-        for &value in rule.iter().rev() {
+        for &value in rule.iter().rev().filter(|&&value| value > 0) {
             right_states.extend(vec![Node::Fill; value].into_iter());
             right_states.push(Node::Space);
         }
-- 
2.43.0


From b820b475e261dba0cc204c597bf8f3a7fdaa2603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 08/11] fix: refuse empty nonograms with EmptyPuzzle

With columns but no rows the solver could index past the end of the grid.
---
 src/puzzles/nonogram/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 977a1ec..40bbe52 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -72,6 +72,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let width = col.len();
     let height = row.len();
 
+    if width == 0 || height == 0 {
+        return Err(NonogramError::EmptyPuzzle);
+    }
+
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-- 
2.43.0


From 9288c1afbd53c358a8c5d55480d82a1da91c1d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 09/11] fix: do not overflow when summing nonogram rules

Huge values panicked in debug builds, and in release builds wrapped around
and passed the bound check.
---
 src/puzzles/nonogram/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 40bbe52..a7cf11e 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -44,13 +44,13 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
                         .parse::<usize>()
                         .or(Err(NonogramError::InvalidRule(x.into())))?;
 
-                    size += value;
+                    size = value.saturating_add(size);
 
                     Ok(value)
                 })
                 .collect::<Result<Vec<usize>, NonogramError>>()?;
 
-            size += values.len() - 1;
+            size = size.saturating_add(values.len() - 1);
 
             if values.is_empty() || size > bound {
                 return Err(NonogramError::InvalidRuleDimension);
-- 
2.43.0


From b18c4b5bdb64069ea20c09f4b90e037aac32f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 10/11] fix: search for the squares nonogram line solving
 leaves open

recursive_backtrack was empty, so every undecided square was returned as
unfilled and the result did not satisfy the rules.
---
 src/puzzles/nonogram/mod.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index a7cf11e..9b56147 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -79,7 +79,7 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-    recursive_backtrack(&mut grid, col, row);
+    recursive_backtrack(&mut grid, col, row)?;
 
     Ok(grid
         .iter()
@@ -120,7 +120,33 @@ fn right_left(
     Ok(())
 }
 
-fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) {}
+fn recursive_backtrack(
+    grid: &mut [Square],
+    col: &[Vec<usize>],
+    row: &[Vec<usize>],
+) -> Result<(), NonogramError> {
+    let Some(blank) = grid
+        .iter()
+        .position(|square| matches!(square, Square::Blank))
+    else {
+        return Ok(());
+    };
+
+    for guess in [Square::Filled, Square::Blocked] {
+        let mut attempt = grid.to_vec();
+        attempt[blank] = guess;
+
+        if right_left(&mut attempt, col, row)
+            .and_then(|()| recursive_backtrack(&mut attempt, col, row))
+            .is_ok()
+        {
+            grid.clone_from_slice(&attempt);
+            return Ok(());
+        }
+    }
+
+    Err(NonogramError::NoSolution)
+}
 
 pub fn print_nonogram(
     width: u32,
-- 
2.43.0


From 0848f5961aa541ccc64ca29c9bff4eb5921e770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 11/11] hook: expose the exact cover engine under --cfg vp_sim

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a473200..19396e8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,7 +1,15 @@
+#![allow(unexpected_cfgs)]
+
 pub mod puzzles;
 mod structures;
 mod util;
 
+/// Access to internals for the simulator (built only with `--cfg vp_sim`)
+#[cfg(vp_sim)]
+pub mod vp_sim {
+    pub use crate::structures::dancing_links::{DancingLinksError, DancingMatrix};
+}
+
 use std::io::Cursor;
 
 use image::{ImageBuffer, ImageError, ImageFormat, Rgb};
-- 
2.43.0

