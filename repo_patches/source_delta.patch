From bea4aa155440b2f433e357110aa271728e772b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:55 +0000
Subject: [PATCH 1/9] sim: yield points inside searches, guarded by
 cfg(sudoku_sim)

---
 src/board/canonicalization.rs |  2 ++
 src/generator.rs              |  2 ++
 src/lib.rs                    |  5 +++++
 src/sim.rs                    | 21 +++++++++++++++++++++
 src/solver.rs                 |  2 ++
 src/strategy/solver.rs        |  2 ++
 6 files changed, 34 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/board/canonicalization.rs b/src/board/canonicalization.rs
index 66c3f44..36a5f92 100644
--- a/src/board/canonicalization.rs
+++ b/src/board/canonicalization.rs
@@ -187,6 +187,8 @@ pub(crate) fn find_minlex_band_transformation(
     band.copy_from_slice(&sudoku.0[first_cell as usize..][..27]);
 
     for first_box in 0..3 {
+        #[cfg(sudoku_sim)]
+        crate::sim::yield_point("canonicalization");
         let mut band = band;
         swap_stack_in_band(&mut band, 0, first_box);
 
diff --git a/src/generator.rs b/src/generator.rs
index f5bb4a4..d65637c 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -245,6 +245,8 @@ impl SudokuGenerator {
         // do a random guess when no more deductions are found
         // backtrack on error (via recursion)
         loop {
+            #[cfg(sudoku_sim)]
+            crate::sim::yield_point("generator");
             self.insert_entries(stack)?;
             if self.is_solved() {
                 return Ok(self.grid);
diff --git a/src/lib.rs b/src/lib.rs
index d9e552d..556927c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,6 +9,8 @@
     clippy::unusual_byte_groupings,
     clippy::too_many_arguments
 )]
+// `sudoku_sim` is only set by simulators
+#![allow(unknown_lints, unexpected_cfgs)]
 //! Utilities for classical 9x9 sudokus.
 //!
 //! This library currently offers extremely fast sudoku solving and a basic sudoku
@@ -47,6 +49,9 @@ mod consts;
 pub mod errors;
 mod generator;
 mod helper;
+#[cfg(sudoku_sim)]
+#[allow(missing_docs)]
+pub mod sim;
 mod solver;
 pub mod strategy;
 
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..cabd331
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,21 @@
+//! Hook for deterministic simulation. Only compiled with `--cfg sudoku_sim`.
+//!
+//! A simulator that owns the scheduling of its threads can install a callback,
+//! which is then called at points inside of long running searches. That makes
+//! it possible to switch to another simulated caller in the middle of a search.
+
+use std::sync::OnceLock;
+
+static YIELD: OnceLock<fn(&'static str)> = OnceLock::new();
+
+/// Install the callback. The first call wins.
+pub fn install(callback: fn(&'static str)) {
+    let _ = YIELD.set(callback);
+}
+
+#[inline]
+pub(crate) fn yield_point(site: &'static str) {
+    if let Some(callback) = YIELD.get() {
+        callback(site);
+    }
+}
diff --git a/src/solver.rs b/src/solver.rs
index b2d3165..4502993 100644
--- a/src/solver.rs
+++ b/src/solver.rs
@@ -341,6 +341,8 @@ impl SudokuSolver {
 
     // jczsolve equivalent: Guess
     fn guess(&mut self, limit: usize, solutions: &mut Solutions) {
+        #[cfg(sudoku_sim)]
+        crate::sim::yield_point("solver");
         if self.is_solved() {
             debug_assert!(solutions.len() < limit);
             match solutions {
diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 27f8630..5cb13cb 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -257,6 +257,8 @@ impl StrategySolver {
         };
         let lens = (self.deduced_entries.len(), self.eliminated_entries.len());
         'outer: loop {
+            #[cfg(sudoku_sim)]
+            crate::sim::yield_point("strategy");
             if self.is_solved() {
                 break;
             }
-- 
2.43.0


From f21890c95106791fee7a888f684bea3179ff8cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:56 +0000
Subject: [PATCH 2/9] fix: return sudokus without a unique solution unchanged
 from generate_from

Removing clues from a contradictory sudoku can make it uniquely solvable,
so generate_with_symmetry_and_rng_from returned a changed puzzle instead of
its input as documented.
---
 src/board/sudoku.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/board/sudoku.rs b/src/board/sudoku.rs
index 2656e94..e4916e1 100644
--- a/src/board/sudoku.rs
+++ b/src/board/sudoku.rs
@@ -236,6 +236,11 @@ impl Sudoku {
         // after each deletion check for unique solvability
         // and backtrack on error
 
+        // removing clues from an unsolvable sudoku could make it uniquely solvable
+        if !sudoku.is_uniquely_solvable() {
+            return sudoku;
+        }
+
         // generate random order
         let mut cell_order = [0; N_CELLS];
         cell_order
-- 
2.43.0


From f6c4132d8334c4d82ae0b7e7ad8895679e782024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:56 +0000
Subject: [PATCH 3/9] fix: report the number of rows found in NotEnoughRows of
 from_str_block

n_line_sud already counts the rows read, it is not the index of the last one.
---
 src/board/sudoku.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/board/sudoku.rs b/src/board/sudoku.rs
index e4916e1..d8390c2 100644
--- a/src/board/sudoku.rs
+++ b/src/board/sudoku.rs
@@ -525,7 +525,7 @@ impl Sudoku {
             n_line_sud += 1;
         }
         if n_line_sud != 9 {
-            return Err(BlockParseError::NotEnoughRows(n_line_sud + 1)); // number of rows = index of last + 1
+            return Err(BlockParseError::NotEnoughRows(n_line_sud));
         }
         Ok(Sudoku(grid))
     }
-- 
2.43.0


From 678a0ee25ebc870da53e0a8ab4a548c345aa6f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:17 +0000
Subject: [PATCH 4/9] fix: let StrategySolver::is_solved consider entries that
 weren't processed yet

n_solved only counts entries after they've been propagated, so is_solved()
was false for solvers of solved sudokus and solve() failed for them, if the
strategies did not happen to propagate the last entries.
---
 src/strategy/solver.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 5cb13cb..9c62762 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -259,7 +259,7 @@ impl StrategySolver {
         'outer: loop {
             #[cfg(sudoku_sim)]
             crate::sim::yield_point("strategy");
-            if self.is_solved() {
+            if self.n_solved == 81 {
                 break;
             }
 
@@ -287,7 +287,12 @@ impl StrategySolver {
 
     /// Check whether the sudoku has been completely solved.
     pub fn is_solved(&self) -> bool {
-        self.n_solved == 81
+        // entries are added to the grid lazily
+        let mut grid = self.grid.state;
+        for &Candidate { cell, digit } in &self.deduced_entries {
+            grid.0[cell.as_index()] = digit.get();
+        }
+        grid.is_solved()
     }
 
     fn update_cell_poss_house_solved(&mut self) -> Result<(), Unsolvable> {
-- 
2.43.0


From 296bb942cb55fc5143275f90579f3fbcff807939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:17 +0000
Subject: [PATCH 5/9] fix: leave the caches alone in StrategySolver::cell_state

Advancing the caches here without looking for naked singles hid those from a
later solve().
---
 src/strategy/solver.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 9c62762..4cabec2 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -192,16 +192,7 @@ impl StrategySolver {
 
     /// Returns the current state of the given `cell`
     pub fn cell_state(&mut self, cell: Cell) -> CellState {
-        self.update_grid();
-        let _ = self._update_cell_poss_house_solved(false, false);
-
-        let digit = self.grid.state.0[cell.as_index()];
-        if digit != 0 {
-            CellState::Digit(Digit::new(digit))
-        } else {
-            let digits = self.cell_poss_digits.state[cell];
-            CellState::Candidates(digits)
-        }
+        self.grid_state()[cell.as_index()]
     }
 
     /// Try to insert the given candidate. Fails, if the cell already contains a digit.
-- 
2.43.0


From 9f0d48b647667bc1f162030129f9a681018ad8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:31 +0000
Subject: [PATCH 6/9] fix: show all candidates in StrategySolver::grid_state of
 impossible sudokus

The caches stop being updated at the first contradiction, so grid_state()
listed candidates that conflict with entries.
---
 src/strategy/solver.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 4cabec2..2b2c7dc 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -166,26 +166,30 @@ impl StrategySolver {
 
     /// Returns the current state of the Sudoku including potential candidates
     pub fn grid_state(&self) -> [CellState; 81] {
-        // cloning so .update_grid() can be called which updates caches
-        let mut solver = self.clone();
+        // computed from scratch, because the caches stop updating at the first contradiction
+        let mut candidates = [Set::ALL; 81];
+        for &Candidate { cell, digit } in &self.eliminated_entries {
+            candidates[cell.as_index()].remove(digit.as_set());
+        }
+        let mut sudoku = self.grid.state;
+        for &Candidate { cell, digit } in &self.deduced_entries {
+            sudoku.0[cell.as_index()] = digit.get();
+        }
 
         let mut grid = [CellState::Candidates(Set::NONE); 81];
-
-        solver.update_grid();
-        let _ = solver._update_cell_poss_house_solved(false, false);
-
-        for (cell, &digits) in solver.cell_poss_digits.state.iter().enumerate() {
-            grid[cell] = CellState::Candidates(digits);
-        }
-        for (cell, &digit) in solver
-            .grid
-            .state
-            .0
-            .iter()
-            .enumerate()
-            .filter(|(_, &digit)| digit != 0)
-        {
-            grid[cell] = CellState::Digit(Digit::new(digit));
+        for cell in Cell::all() {
+            let digit = sudoku.0[cell.as_index()];
+            if digit != 0 {
+                grid[cell.as_index()] = CellState::Digit(Digit::new(digit));
+                continue;
+            }
+            let mut digits = candidates[cell.as_index()];
+            for neighbor in cell.neighbors() {
+                if let Some(digit) = Digit::new_checked(sudoku.0[neighbor.as_index()]) {
+                    digits.remove(digit.as_set());
+                }
+            }
+            grid[cell.as_index()] = CellState::Candidates(digits);
         }
         grid
     }
-- 
2.43.0


From e14d85f9cffb4cf99fdf2752d55b7af5a5e778d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:30 +0000
Subject: [PATCH 7/9] fix: find naked singles left behind by other strategies

If another strategy propagated an entry or an elimination first, naked singles
it produced were never looked at by the eager search for naked singles and
solve() gave up early. The comparison meant to detect this was always false.
---
 src/strategy/solver.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 2b2c7dc..7f2e2ba 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -299,10 +299,8 @@ impl StrategySolver {
         find_naked_singles: bool,
         early_return_on_error: bool,
     ) -> Result<(), Unsolvable> {
-        let new_eliminations;
         {
             let (_, le_cp, cell_poss) = self.cell_poss_digits.get_mut();
-            new_eliminations = *le_cp as usize > self.eliminated_entries.len();
 
             for &candidate in &self.eliminated_entries[*le_cp as _..] {
                 let impossibles = candidate.digit_set();
@@ -325,7 +323,7 @@ impl StrategySolver {
             *le_cp = self.eliminated_entries.len() as _;
         }
 
-        self.insert_entries(find_naked_singles, new_eliminations)
+        self.insert_entries(find_naked_singles)
     }
 
     fn update_house_poss_positions(&mut self) {
@@ -385,12 +383,12 @@ impl StrategySolver {
     }
 
     #[inline(always)]
-    fn insert_entries(&mut self, find_naked_singles: bool, new_eliminations: bool) -> Result<(), Unsolvable> {
+    fn insert_entries(&mut self, find_naked_singles: bool) -> Result<(), Unsolvable> {
         // code hereafter depends on this
         // but it's not necessary in general
         assert!(self.cell_poss_digits.next_deduced == self.house_solved_digits.next_deduced);
 
-        if new_eliminations {
+        if find_naked_singles {
             // start off with batch insertion so every cell is visited at least once
             // because other strategies may have touched their possibilities which singly_insertion may miss
             self.batch_insert_entries(find_naked_singles)?;
@@ -496,7 +494,8 @@ impl StrategySolver {
             // is candidate still possible?
             // have to check house possibilities, because cell possibility
             // is temporarily out of date
-            if house_solved_digits[candidate.row()].overlaps(candidate_mask)
+            if !cell_poss_digits[candidate.cell].overlaps(candidate_mask)
+                || house_solved_digits[candidate.row()].overlaps(candidate_mask)
                 || house_solved_digits[candidate.col()].overlaps(candidate_mask)
                 || house_solved_digits[candidate.block()].overlaps(candidate_mask)
             {
-- 
2.43.0


From 9ee7dc66b9dea5ba3fe513ef016b1843160b768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:20 +0000
Subject: [PATCH 8/9] fix: check the range of positions in every build

The constructors of cells, rows and the other positions document that they
panic outside of the allowed range, but only did so in builds with debug
assertions. In other builds they returned e.g. a cell 81 or 200, and with the
unchecked_indexing feature such a cell made StrategySolver read and write out
of bounds.
---
 src/board/positions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/board/positions.rs b/src/board/positions.rs
index 81c4fd9..5a62193 100644
--- a/src/board/positions.rs
+++ b/src/board/positions.rs
@@ -179,7 +179,7 @@ macro_rules! define_types(
             /// # Panics
             /// Panics, if the argument is outside the allowed range.
             pub fn new(num: u8) -> Self {
-                debug_assert!(num < $limit);
+                assert!(num < $limit);
                 $name(num)
             }
 
-- 
2.43.0


From d4f96e4e82940a9794a6c335770897c3933e0593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:15 +0000
Subject: [PATCH 9/9] fix: look for naked singles only after all eliminations
 are applied

---
 src/strategy/solver.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 7f2e2ba..1278628 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -305,8 +305,9 @@ impl StrategySolver {
             for &candidate in &self.eliminated_entries[*le_cp as _..] {
                 let impossibles = candidate.digit_set();
 
-                // deductions made here may conflict with entries already in the queue
-                // in the queue. In that case the sudoku is impossible.
+                // don't look for naked singles before all eliminations are done,
+                // the last remaining digit may be eliminated next.
+                // If requested, they are found by the batch insertion below.
                 let res = Self::remove_impossibilities(
                     &mut self.grid.state,
                     cell_poss,
@@ -314,7 +315,7 @@ impl StrategySolver {
                     impossibles,
                     &mut self.deduced_entries,
                     &mut self.deductions,
-                    find_naked_singles,
+                    false,
                 );
                 if early_return_on_error {
                     res?;
-- 
2.43.0

