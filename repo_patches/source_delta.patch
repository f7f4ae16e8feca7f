From 473deaa26736aed29a1112440d9d6f99eaa1300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 01/36] fix: LU decomposition of bases with a single or no row

---
 .../carry/lower_upper/decomposition/mod.rs            |  7 +++----
 .../inverse_maintenance/carry/lower_upper/mod.rs      | 11 +++++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
index 27abed3..03e0f4a 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
@@ -29,14 +29,13 @@ where
 
         // The number of columns gets smaller over time.
         let m = rows.len();
-        debug_assert!(m > 1);
 
         // These values will be returned.
         // They stay the same size, although nothing will be changed in the last indices once they
         // have been processed.
         let mut row_permutation = (0..m).collect::<Vec<_>>();
         let mut column_permutation = (0..m).collect::<Vec<_>>();
-        let mut lower_triangular_row_major = vec![Vec::new(); m - 1];
+        let mut lower_triangular_row_major = vec![Vec::new(); m.saturating_sub(1)];
 
         // These values get smaller over time.
         let (mut nnz_row, mut nnz_column) = count_non_zeros(&rows);
@@ -106,7 +105,7 @@ where
         }
 
         // We collected row-major but need column major, so transpose
-        let mut upper_triangular = vec![Vec::new(); m - 1];
+        let mut upper_triangular = vec![Vec::new(); m.saturating_sub(1)];
         let mut upper_diagonal = Vec::with_capacity(m);
         for (i, row) in rows.into_iter().enumerate() {
             let mut iter = row.into_iter();
@@ -117,7 +116,7 @@ where
                 upper_triangular[j - 1].push((i, value));
             }
         }
-        let mut lower_triangular = vec![Vec::new(); m - 1];
+        let mut lower_triangular = vec![Vec::new(); m.saturating_sub(1)];
         for (i, row) in lower_triangular_row_major.into_iter().enumerate()
             // We collected starting at row 1, but the lowest row index was 1.
             .map(|(i, v)| (i + 1, v)) {
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
index 6ac98e0..8856284 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
@@ -68,8 +68,8 @@ where
         Self {
             row_permutation: FullPermutation::identity(m),
             column_permutation: FullPermutation::identity(m),
-            lower_triangular: vec![vec![]; m - 1],
-            upper_triangular: vec![vec![]; m - 1],
+            lower_triangular: vec![vec![]; m.saturating_sub(1)],
+            upper_triangular: vec![vec![]; m.saturating_sub(1)],
             upper_diagonal: vec![F::one(); m],
             updates: vec![],
         }
@@ -138,6 +138,13 @@ where
             "This value should be present to avoid singularity because it will be the bottom corner value.",
         );
 
+        if m == 1 {
+            // Nothing is stored outside of the diagonal, so there is nothing to be rotated either.
+            let (_, value) = spike.pop().unwrap();
+            self.upper_diagonal[0] = value;
+            return column;
+        }
+
         let disappearing_column_index = if pivot_column_index == 0 {
             // The first column is replaced, but this column is not explicitly represented in the
             // `upper_triangular` field. The non-diagonal item of the second column, if it exists,
-- 
2.43.0


From c353af57c1df2cfe986ca6a75724304f5afc80a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 02/36] fix: range constraint whose minimum activity equals its
 upper side fixes its variables

---
 .../general_form/presolve/rule/domain_propagation.rs     | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index e481b45..f7eee43 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -255,8 +255,8 @@ where
                 Err(LinearProgramType::Infeasible)
             },
 
-            // `l <= <a, x> (== <=) b == l`
-            (BoundDirection::Lower, Equal | Less, Ordering::Equal) |
+            // `l <= <a, x> (== =r= <=) b == l`
+            (BoundDirection::Lower, Equal | Range(_) | Less, Ordering::Equal) |
             // `u >= <a, x> (== >=) b = u`
             (BoundDirection::Upper, Equal | Greater, Ordering::Equal) => {
                 Ok(Some(ConstraintUpdate::SetVariablesToBound))
@@ -306,11 +306,6 @@ where
                 Ok(None)
             },
 
-            // `l <= <a, x> =r= b == l`
-            (BoundDirection::Lower, Range(_), Ordering::Equal) => {
-                unreachable!("Would require the range to be zero, in which case it should be an \
-                              equality bound instead.")
-            },
         }
     }
 
-- 
2.43.0


From f447aeec99c2ade25e51dd0bc057307af7fdfe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 03/36] fix: skip outdated entries in the presolve substitution
 queue

---
 src/data/linear_program/general_form/presolve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 76cebc2..742d1e4 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -126,7 +126,7 @@ where
     /// `Err` type.
     pub(super) fn presolve_step(&mut self) -> Result<Change, LinearProgramType<OF>> {
         // Rules that are guaranteed to make the problem smaller
-        if let Some(variable) = self.queues.substitution.pop() {
+        while let Some(variable) = self.queues.substitution.pop() {
             if self.counters.is_variable_still_active(variable) {
                 return self.presolve_fixed_variable(variable)
                     // always removes a variable
-- 
2.43.0


From acf10a535164f2168f0b188c0157e2c019a82444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 04/36] fix: keep computed activity bounds up to date when
 presolve changes a row

---
 .../presolve/rule/domain_propagation.rs       | 14 +++++++++--
 .../presolve/rule/fixed_variable.rs           | 10 +++++++-
 .../general_form/presolve/rule/slack.rs       | 23 +++++++++++++++++++
 3 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index f7eee43..a33afe6 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -176,6 +176,7 @@ where
                 },
                 ConstraintUpdate::SetVariablesToBound => {
                     let mut activity_counters_to_update = Vec::new();
+                    let mut activity_bounds_to_update = Vec::new();
                     for (variable, coefficient) in self.counters.iter_active_row(constraint) {
                         let variable_direction = direction * coefficient.non_zero_signum();
                         let bound = self.updates.variable_bound(variable, variable_direction)
@@ -190,8 +191,14 @@ where
                         }
                         // Update the other bound to be the same
                         let change = self.updates.update_bound(variable, !variable_direction, bound.clone());
-                        if change == BoundChange::NewBound {
-                            activity_counters_to_update.push((variable, !variable_direction));
+                        match change {
+                            BoundChange::None => {}
+                            BoundChange::NewBound => {
+                                activity_counters_to_update.push((variable, !variable_direction));
+                            }
+                            BoundChange::BoundShift(shift) => {
+                                activity_bounds_to_update.push((variable, !variable_direction, shift));
+                            }
                         }
                         debug_assert!(self.updates.is_variable_fixed(variable).is_some());
 
@@ -201,6 +208,9 @@ where
                     for (variable, direction) in activity_counters_to_update {
                         self.update_activity_counters(variable, direction);
                     }
+                    for (variable, direction, shift) in activity_bounds_to_update {
+                        self.update_activity_bounds(variable, direction, shift);
+                    }
 
                     (true, false)
                 }
diff --git a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
index 76ecda9..0e10ba8 100644
--- a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
+++ b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
@@ -29,7 +29,15 @@ where
         let value = self.updates.is_variable_fixed(variable).unwrap().clone();
 
         for (constraint, coefficient) in self.counters.iter_active_column(variable) {
-            self.updates.change_b(constraint, -coefficient * &value);
+            let contribution = coefficient * &value;
+            // The variable no longer contributes to the activity of this constraint
+            let (lower, upper) = &mut self.activity_bounds[constraint];
+            for activity_bound in [lower, upper] {
+                if let Some(activity_bound) = activity_bound {
+                    *activity_bound -= &contribution;
+                }
+            }
+            self.updates.change_b(constraint, -contribution);
         }
         self.updates.fixed_cost += &self.general_form.variables[variable].cost * &value;
 
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 0c96df4..59e2158 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -88,6 +88,14 @@ where
         // We see whether these are `None` here already such that `bounds` can be moved in the match
         let bounds_is_none = (lower.is_none(), upper.is_none());
         let coefficient_sign = coefficient.non_zero_signum();
+        // Contribution of this variable to the (lower, upper) activity bound of the constraint
+        let contributions = {
+            let by_bound = (lower.map(|bound| &coefficient * bound), upper.map(|bound| &coefficient * bound));
+            match coefficient_sign {
+                Positive => by_bound,
+                Negative => (by_bound.1, by_bound.0),
+            }
+        };
 
         // Patterns are ordered left to right, top to bottom and then by coefficient (positive to
         // negative)
@@ -169,6 +177,7 @@ where
         self.remove_variable(variable, removed);
 
         self.update_activity_queues_if_needed(constraint, bounds_is_none, coefficient_sign);
+        self.remove_from_activity_bounds(constraint, contributions);
         self.counters.constraint[constraint] -= 1;
         self.queue_constraint_by_counter(constraint).map(|_| ())?;
 
@@ -199,6 +208,20 @@ where
         }
     }
 
+    /// Remove a variable's contributions from the activity bounds that were already computed.
+    fn remove_from_activity_bounds(
+        &mut self,
+        constraint: usize,
+        (lower, upper): (Option<OF>, Option<OF>),
+    ) {
+        if let (Some(bound), Some(contribution)) = (&mut self.activity_bounds[constraint].0, lower) {
+            *bound -= contribution;
+        }
+        if let (Some(bound), Some(contribution)) = (&mut self.activity_bounds[constraint].1, upper) {
+            *bound -= contribution;
+        }
+    }
+
     fn compute_removed_variable_solution(
         &self,
         constraint: usize,
-- 
2.43.0


From 27d6e196f16ded64c43579f0a68ad7d3605577eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:37 +0000
Subject: [PATCH 05/36] fix: right-hand side when presolve keeps only the lower
 side of a range

---
 .../general_form/presolve/rule/slack.rs             | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 59e2158..22548c9 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -45,7 +45,7 @@ where
     /// <=  || <a, x> <= b - cl |                  |      <a, x> <= b - cl      |      |
     /// ==  || <a, x> <= b - cl | <a, x> >= b - cu |   <a, x> =c(u-l)= b - cl   |      |
     /// >=  ||                  | <a, x> >= b - cu |      <a, x> >= b - cu      |      |
-    /// =r= || <a, x> <= b - cl | <a, x> >= b - cu | <a, x> =r + c(u-l)= b - cl |      |
+    /// =r= || <a, x> <= b - cl | (1)              | <a, x> =r + c(u-l)= b - cl |      |
     ///
     /// When c < 0:
     ///     ||      s >= l      |      s <= u      |         l <= s <= u        | free |
@@ -53,7 +53,10 @@ where
     /// <=  ||                  | <a, x> <= b - cu |      <a, x> <= b - cu      |      |
     /// ==  || <a, x> >= b - cl | <a, x> <= b - cu |   <a, x> =c(l-u)= b - cu   |      |
     /// >=  || <a, x> >= b - cl |                  |      <a, x> >= b - cl      |      |
-    /// =r= || <a, x> >= b - cl | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |      |
+    /// =r= || (2)              | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |      |
+    ///
+    /// (1) <a, x> >= b - r - cu
+    /// (2) <a, x> >= b - r - cl
     ///
     /// Note that nothing changes when the constraint is of type == and s has both a lower and
     /// upper bound (regardless of the sign of c). If a bound is adapted, the column is removed
@@ -165,7 +168,11 @@ where
             },
         };
 
-        let change = -&coefficient * &bound;
+        let mut change = -&coefficient * &bound;
+        if let (Range(range), Greater) = (constraint_type, &new_constraint_type) {
+            // Only the lower side of the range remains, that is the new right-hand side
+            change -= range;
+        }
 
         let removed = match constraint_type {
             Equal | Range(_) => {
-- 
2.43.0


From 35f15b92a7befdbdbd03e95151becafd8b8f18cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:46 +0000
Subject: [PATCH 06/36] fix: report the objective value of maximization
 problems in their own direction

---
 src/data/linear_program/elements.rs                |  5 +++++
 src/data/linear_program/general_form/mod.rs        | 14 ++++++++++----
 .../general_form/presolve/updates.rs               |  4 ++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/data/linear_program/elements.rs b/src/data/linear_program/elements.rs
index 7bc1291..5724539 100644
--- a/src/data/linear_program/elements.rs
+++ b/src/data/linear_program/elements.rs
@@ -191,6 +191,11 @@ pub enum LinearProgramType<F> {
 pub enum Objective {
     Maximize,
     Minimize,
+    /// A maximization problem that is solved as a minimization problem.
+    ///
+    /// The cost coefficients of the variables were negated, the fixed cost was not. Obtain the
+    /// value in terms of the original problem by negating the cost of the variables.
+    MinimizeNegated,
 }
 impl Default for Objective {
     fn default() -> Self {
diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index c3b1019..4ca3f3b 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -619,10 +619,12 @@ where
         debug_assert!(is_consistent(self));
     }
 
-    /// Make this a minimization problem by multiplying the cost function by `-1`.
+    /// Make this a minimization problem by multiplying the costs of the variables by `-1`.
+    ///
+    /// The fixed cost is not a part of what gets minimized, it keeps its sign.
     fn make_minimization_problem(&mut self) {
         if self.objective == Objective::Maximize {
-            self.objective = Objective::Minimize;
+            self.objective = Objective::MinimizeNegated;
 
             for variable in &mut self.variables {
                 variable.cost *= -OF::one();
@@ -849,9 +851,13 @@ where
     {
         debug_assert_eq!(reduced_solution.len(), self.variables.len());
 
-        let cost = reduced_solution.iter()
+        let variable_cost = reduced_solution.iter()
             .map(|(j, v)| v * &self.variables[j].cost)
-            .sum::<G>() + &self.fixed_cost;
+            .sum::<G>();
+        let cost = match self.objective {
+            Objective::Minimize | Objective::Maximize => variable_cost,
+            Objective::MinimizeNegated => -variable_cost,
+        } + &self.fixed_cost;
         self.reshift_solution(&mut reduced_solution);
 
         // To avoid recomputations, we store all computed intermediate values in this collection.
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index 90bf812..a1987e6 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -549,10 +549,10 @@ where
     let cost_sign = cost.cmp(&OF::zero());
 
     match (objective, cost_sign) {
-        (Objective::Minimize, Ordering::Greater) | (Objective::Maximize, Ordering::Less) => {
+        (Objective::Minimize | Objective::MinimizeNegated, Ordering::Greater) | (Objective::Maximize, Ordering::Less) => {
             lower_bound.ok_or(LinearProgramType::Unbounded)
         },
-        (Objective::Maximize, Ordering::Greater) | (Objective::Minimize, Ordering::Less) => {
+        (Objective::Maximize, Ordering::Greater) | (Objective::Minimize | Objective::MinimizeNegated, Ordering::Less) => {
             upper_bound.ok_or(LinearProgramType::Unbounded)
         },
         (_, Ordering::Equal) => panic!("Should not be called if there is no cost"),
-- 
2.43.0


From 6645e4d5bab55de2d2fe415ad6f90762db6e28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 07/36] fix: presolve reports an unbounded problem only if it
 is feasible

---
 src/data/linear_program/general_form/mod.rs   |  6 ++
 .../general_form/presolve/mod.rs              | 10 ++-
 .../general_form/presolve/updates.rs          | 64 ++++++++++---------
 3 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 4ca3f3b..86c5414 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -405,6 +405,12 @@ where
             }
         }
 
+        if index.updates.nr_constraints_remaining() == 0 && index.updates.nr_variables_remaining() > 0 {
+            // All constraints can be satisfied and only variables that can be improved without
+            // limit are left.
+            return Err(LinearProgramType::Unbounded);
+        }
+
         Ok(index.updates.into_changes())
     }
 
diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 742d1e4..8896a66 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -309,11 +309,15 @@ where
                 debug_assert!(self.updates.variable_feasible_value(variable).is_some());
 
                 let value = if self.general_form.variables[variable].cost.is_zero() {
-                    RemovedVariable::Solved(self.updates.variable_feasible_value(variable).unwrap())
+                    Some(RemovedVariable::Solved(self.updates.variable_feasible_value(variable).unwrap()))
                 } else {
-                    self.updates.optimize_column_independently(variable)?
+                    self.updates.optimize_column_independently(variable)
                 };
-                self.remove_variable(variable, value);
+                // If there is no best value, the problem is unbounded only if the other constraints
+                // can be satisfied, so the variable stays in the problem.
+                if let Some(value) = value {
+                    self.remove_variable(variable, value);
+                }
             },
             1 => if self.general_form.variables[variable].cost.is_zero() {
                 self.queues.slack.push(variable);
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index a1987e6..63b65ec 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -108,28 +108,32 @@ where
         counters: &Counters<OF>,
     ) -> Result<Self, LinearProgramType<OF>> {
         let mut fixed_cost = OF::zero();
-        let removed_variables = counters.variable.iter().enumerate()
-            .filter(|&(_, &count)| count == 0)
-            .map(|(j, _)| {
-                let variable = &general_form.variables[j];
-                // There should be a feasible value, otherwise, reading of the problem should have
-                // been ended due to a trivial infeasibility.
-                debug_assert!(variable.has_feasible_value());
-
-                let value = if variable.cost.is_zero() {
-                    variable.get_feasible_value().unwrap()
-                } else {
-                    let value = optimize_independent_column(
-                        general_form.objective,
-                        &variable.cost,
-                        (variable.lower_bound.as_ref(), variable.upper_bound.as_ref()),
-                    )?;
+        let mut removed_variables = Vec::new();
+        for (j, _) in counters.variable.iter().enumerate().filter(|&(_, &count)| count == 0) {
+            let variable = &general_form.variables[j];
+            // There should be a feasible value, otherwise, reading of the problem should have
+            // been ended due to a trivial infeasibility.
+            debug_assert!(variable.has_feasible_value());
+
+            let value = if variable.cost.is_zero() {
+                variable.get_feasible_value()
+            } else {
+                optimize_independent_column(
+                    general_form.objective,
+                    &variable.cost,
+                    (variable.lower_bound.as_ref(), variable.upper_bound.as_ref()),
+                ).map(|value| {
                     fixed_cost += &variable.cost * &value;
                     value
-                };
+                })
+            };
 
-                Ok((j, RemovedVariable::Solved(value)))
-            }).collect::<Result<_, _>>()?;
+            // If there is no best value, the problem is unbounded only if the constraints can be
+            // satisfied, so the variable stays in the problem.
+            if let Some(value) = value {
+                removed_variables.push((j, RemovedVariable::Solved(value)));
+            }
+        }
 
         let constraints_marked_removed = counters.constraint.iter().enumerate()
             .filter(|&(_, &count)| count == 0)
@@ -365,20 +369,24 @@ where
     }
 
     /// Sets variables that can be optimized independently of all others to their optimal values.
+    ///
+    /// # Return value
+    ///
+    /// `None` if the variable can be improved without limit.
     pub(super) fn optimize_column_independently(
         &mut self,
         variable: usize,
-    ) -> Result<RemovedVariable<OF>, LinearProgramType<OF>> {
+    ) -> Option<RemovedVariable<OF>> {
         debug_assert_ne!(self.general_form.variables[variable].cost, OF::zero());
 
         let new_value = self.get_optimized_value(variable)?;
         self.fixed_cost += &self.general_form.variables[variable].cost * &new_value;
 
-        Ok(RemovedVariable::Solved(new_value))
+        Some(RemovedVariable::Solved(new_value))
     }
 
     /// Gets the value that maximizes a column's contribution in the objective direction.
-    fn get_optimized_value(&self, variable: usize) -> Result<OF, LinearProgramType<OF>> {
+    fn get_optimized_value(&self, variable: usize) -> Option<OF> {
         let objective = self.general_form.objective;
         let cost = &self.general_form.variables[variable].cost;
         let lower_bound = self.variable_bound(variable, BoundDirection::Lower);
@@ -534,14 +542,12 @@ where
 /// The optimal value if the variable appears in the objective function. Otherwise, any feasible
 /// value.
 ///
-/// # Errors
-///
-/// The problem might be unbounded.
+/// `None` if there is no optimal value, because the variable can be improved without limit.
 fn optimize_independent_column<OF>(
     objective: Objective,
     cost: &OF,
     (lower_bound, upper_bound): (Option<&OF>, Option<&OF>),
-) -> Result<OF, LinearProgramType<OF>>
+) -> Option<OF>
 where
     OF: OrderedField,
     for<'r> &'r OF: OrderedFieldRef<OF>,
@@ -550,11 +556,11 @@ where
 
     match (objective, cost_sign) {
         (Objective::Minimize | Objective::MinimizeNegated, Ordering::Greater) | (Objective::Maximize, Ordering::Less) => {
-            lower_bound.ok_or(LinearProgramType::Unbounded)
+            lower_bound
         },
         (Objective::Maximize, Ordering::Greater) | (Objective::Minimize | Objective::MinimizeNegated, Ordering::Less) => {
-            upper_bound.ok_or(LinearProgramType::Unbounded)
+            upper_bound
         },
         (_, Ordering::Equal) => panic!("Should not be called if there is no cost"),
-    }.map(OF::clone)
+    }.cloned()
 }
-- 
2.43.0


From e21026c44524cbee7eb3b35e06c83595c7ab63da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:15 +0000
Subject: [PATCH 08/36] fix: variables removed as slack of an inequality or
 range stay within their bounds

---
 src/data/linear_program/general_form/mod.rs   | 69 ++++++++++++++++---
 .../general_form/presolve/rule/slack.rs       |  7 ++
 .../general_form/presolve/updates.rs          | 13 +++-
 3 files changed, 76 insertions(+), 13 deletions(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 86c5414..bf2f2c4 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -102,6 +102,41 @@ enum OriginalVariable<F> {
     ///
     /// Probably by a presolve operation. An explicit value might not be known.
     Removed(RemovedVariable<F>),
+
+    /// Variable was removed as a function of others and should stay within its own bounds.
+    ///
+    /// The constraint it was removed from can typically be satisfied by many values of this
+    /// variable. The value closest to `constant - <coefficients, x>` that is within the bounds is
+    /// one of those.
+    RemovedBounded {
+        /// See `RemovedVariable::FunctionOfOthers`.
+        constant: F,
+        /// See `RemovedVariable::FunctionOfOthers`.
+        coefficients: SparseTupleVec<F>,
+        /// Lower bound of the variable when it was removed.
+        lower_bound: Option<F>,
+        /// Upper bound of the variable when it was removed.
+        upper_bound: Option<F>,
+    },
+}
+
+impl<F: Clone> OriginalVariable<F> {
+    /// The closest value that respects the bounds the variable had when it was removed, if any.
+    fn within_bounds<G: From<F> + Ord>(&self, value: G) -> G {
+        match self {
+            OriginalVariable::RemovedBounded { lower_bound, upper_bound, .. } => {
+                let value = match lower_bound {
+                    Some(bound) => value.max(G::from(bound.clone())),
+                    None => value,
+                };
+                match upper_bound {
+                    Some(bound) => value.min(G::from(bound.clone())),
+                    None => value,
+                }
+            }
+            _ => value,
+        }
+    }
 }
 
 /// A variable from the original problem that was removed.
@@ -444,10 +479,6 @@ where
 
         self.fixed_cost += fixed_cost;
 
-        for (j, variable) in solved_variables {
-            self.original_variables[j].1 = OriginalVariable::Removed(variable);
-        }
-
         for ((j, direction), value) in bounds {
             let variable = &mut self.variables[j];
             *match direction {
@@ -455,6 +486,17 @@ where
                 BoundDirection::Upper => &mut variable.upper_bound,
             } = Some(value);
         }
+
+        for (j, variable) in solved_variables {
+            let bounds = (self.variables[j].lower_bound.clone(), self.variables[j].upper_bound.clone());
+            self.original_variables[j].1 = match (variable, bounds) {
+                (FunctionOfOthers { constant, coefficients }, (lower_bound, upper_bound))
+                    if lower_bound.is_some() || upper_bound.is_some() => {
+                    OriginalVariable::RemovedBounded { constant, coefficients, lower_bound, upper_bound }
+                },
+                (variable, _) => OriginalVariable::Removed(variable),
+            };
+        }
     }
 
     /// Remove a set of rows and columns from the constraint data.
@@ -729,7 +771,7 @@ where
         let mut new_solutions = vec![None; self.original_variables.len()];
         let mut changed = Vec::new();
         for (j, (_, variable)) in self.original_variables.iter().enumerate() {
-            if let OriginalVariable::Removed(FunctionOfOthers { .. }) = variable {
+            if let OriginalVariable::Removed(FunctionOfOthers { .. }) | OriginalVariable::RemovedBounded { .. } = variable {
                 if self.compute_solution_value(j, &mut new_solutions).is_some() {
                     changed.push(j);
                 }
@@ -769,13 +811,15 @@ where
             OriginalVariable::Active(_) => None,
             OriginalVariable::ActiveFree(_, _) => None,
             OriginalVariable::Removed(Solved(value)) => Some(value),
-            OriginalVariable::Removed(FunctionOfOthers { constant, coefficients }) => {
+            OriginalVariable::Removed(FunctionOfOthers { constant, coefficients })
+            | OriginalVariable::RemovedBounded { constant, coefficients, .. } => {
                 if new_solutions[variable].is_none() {
                     new_solutions[variable] = coefficients.iter().map(|(j, coefficient)| {
                         self.compute_solution_value(*j, new_solutions).map(|v| coefficient * v)
                     })
                         .sum::<Option<OF>>()
-                        .map(|inner_product| constant - inner_product);
+                        .map(|inner_product| constant - inner_product)
+                        .map(|value| self.original_variables[variable].1.within_bounds(value));
                 }
 
                 new_solutions[variable].as_ref()
@@ -905,7 +949,7 @@ where
         reduced_solution: &SparseVector<G, G>,
     ) -> &'a G
     where
-        G: LinearAlgebraElement<G> + Zero + From<OF> + Sum + Neg<Output=G> + NonZero,
+        G: LinearAlgebraElement<G> + Zero + From<OF> + Sum + Neg<Output=G> + NonZero + Ord,
         for<'r> G: Add<&'r OF, Output=G>,
         for<'r> &'r G: Neg<Output=G> + Mul<&'r OF, Output=G> + Add<&'r OF, Output=G> + Sub<&'r G, Output=G>,
     {
@@ -931,12 +975,15 @@ where
                 }
             },
             OriginalVariable::Removed(Solved(v)) => v.clone().into(),
-            OriginalVariable::Removed(FunctionOfOthers { constant, coefficients }) => {
-                -coefficients.iter()
+            original @ (OriginalVariable::Removed(FunctionOfOthers { constant, coefficients })
+            | OriginalVariable::RemovedBounded { constant, coefficients, .. }) => {
+                let value = -coefficients.iter()
                     .map(|(j, coefficient)| {
                         self.compute_solution_value_with_bfs::<G>(*j, new_solutions, reduced_solution) * coefficient
                     })
-                    .sum::<G>() + constant
+                    .sum::<G>() + constant;
+
+                original.within_bounds(value)
             }
         };
 
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 22548c9..342cd83 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -91,6 +91,7 @@ where
         // We see whether these are `None` here already such that `bounds` can be moved in the match
         let bounds_is_none = (lower.is_none(), upper.is_none());
         let coefficient_sign = coefficient.non_zero_signum();
+        let needs_bounds = !matches!(constraint_type, Equal);
         // Contribution of this variable to the (lower, upper) activity bound of the constraint
         let contributions = {
             let by_bound = (lower.map(|bound| &coefficient * bound), upper.map(|bound| &coefficient * bound));
@@ -124,6 +125,9 @@ where
                     }
                 }
 
+                if needs_bounds {
+                    self.updates.slacks_with_bounds.insert(variable);
+                }
                 self.remove_variable(variable, solution);
                 self.remove_constraint(constraint);
 
@@ -181,6 +185,9 @@ where
             Greater | Less => RemovedVariable::Solved(bound),
         };
         self.counters.variable[variable] -= 1;
+        if needs_bounds {
+            self.updates.slacks_with_bounds.insert(variable);
+        }
         self.remove_variable(variable, removed);
 
         self.update_activity_queues_if_needed(constraint, bounds_is_none, coefficient_sign);
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index 63b65ec..0ae2c61 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -48,6 +48,12 @@ pub struct Updates<'a, F> {
     /// This collection is here only to avoid an extra scan over the `column_counters`.
     pub constraints_marked_removed: Vec<usize>,
 
+    /// Slack variables that were removed from an inequality or range constraint.
+    ///
+    /// Their value follows from the value of other variables only up to their bounds, so these
+    /// bounds are still needed.
+    pub slacks_with_bounds: HashSet<usize>,
+
     // Changes during presolving, might be discarded when computing final changes
     /// Activity variable bounds.
     ///
@@ -156,6 +162,7 @@ where
             // Variables that don't appear in any constraint are removed right away.
             removed_variables,
             constraints_marked_removed,
+            slacks_with_bounds: HashSet::new(),
 
             activity_bounds: HashMap::new(),
 
@@ -410,8 +417,10 @@ where
             self.constraints.remove(constraint);
         }
         for variable in self.removed_variables.iter().map(|&(j, _)| j) {
-            self.bounds.remove(&(variable, BoundDirection::Lower));
-            self.bounds.remove(&(variable, BoundDirection::Upper));
+            if !self.slacks_with_bounds.contains(&variable) {
+                self.bounds.remove(&(variable, BoundDirection::Lower));
+                self.bounds.remove(&(variable, BoundDirection::Upper));
+            }
 
             self.activity_bounds.remove(&(variable, BoundDirection::Lower));
             self.activity_bounds.remove(&(variable, BoundDirection::Upper));
-- 
2.43.0


From 8e925631a60ac48795782661414a630e62891c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:59 +0000
Subject: [PATCH 09/36] fix: record variables removed by a repeated presolve
 under their original index

---
 src/data/linear_program/general_form/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index bf2f2c4..6efbbad 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -489,7 +489,7 @@ where
 
         for (j, variable) in solved_variables {
             let bounds = (self.variables[j].lower_bound.clone(), self.variables[j].upper_bound.clone());
-            self.original_variables[j].1 = match (variable, bounds) {
+            self.original_variables[self.from_active_to_original[j]].1 = match (variable, bounds) {
                 (FunctionOfOthers { constant, coefficients }, (lower_bound, upper_bound))
                     if lower_bound.is_some() || upper_bound.is_some() => {
                     OriginalVariable::RemovedBounded { constant, coefficients, lower_bound, upper_bound }
-- 
2.43.0


From dc182eada231c8d7ed296087f00b376d53d02a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:59 +0000
Subject: [PATCH 10/36] fix: presolve keeps the derived bounds that made a
 constraint redundant

---
 .../presolve/rule/domain_propagation.rs           | 10 ++++++----
 .../general_form/presolve/updates.rs              | 15 +++++++++++++++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index a33afe6..e05eb37 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -166,6 +166,12 @@ where
     ) -> Result<(bool, bool), LinearProgramType<OF>> {
         let constraint_update = self.constraint_update(constraint, bound, direction)?;
         if let Some(change) = constraint_update {
+            // The change relies on the bounds used for the activity bound: without them, it might
+            // not be valid. They should be kept.
+            for (variable, coefficient) in self.counters.iter_active_row(constraint) {
+                self.updates.keep_activity_bound(variable, direction * coefficient.non_zero_signum());
+            }
+
             let (remove_constraint, apply_variable_part) = match change {
                 ConstraintUpdate::Remove => (true, true), // TODO(CORRECTNESS): Should the second value be changed to `false`?
                 ConstraintUpdate::Replace(new_inequality, right_hand_side_shift) => {
@@ -185,10 +191,6 @@ where
                             // TODO(ARCHITECTURE): Try to avoid this clone.
                             .clone();
 
-                        // Move the bound over to the "permanent" bound changes
-                        if let Some(bound_value) = self.updates.activity_bounds.remove(&(variable, variable_direction)) {
-                            self.updates.bounds.insert((variable, variable_direction), bound_value);
-                        }
                         // Update the other bound to be the same
                         let change = self.updates.update_bound(variable, !variable_direction, bound.clone());
                         match change {
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index 0ae2c61..acbc525 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -375,6 +375,21 @@ where
         }
     }
 
+    /// Make sure that the bound of a variable is exported.
+    ///
+    /// If the bound was derived from an activity bound, it is moved over to the "permanent" bound
+    /// changes.
+    ///
+    /// # Arguments
+    ///
+    /// * `variable`: Index of the variable whose bound is used.
+    /// * `direction`: Whether the lower or upper bound is used.
+    pub(super) fn keep_activity_bound(&mut self, variable: usize, direction: BoundDirection) {
+        if let Some(value) = self.activity_bounds.remove(&(variable, direction)) {
+            self.bounds.insert((variable, direction), value);
+        }
+    }
+
     /// Sets variables that can be optimized independently of all others to their optimal values.
     ///
     /// # Return value
-- 
2.43.0


From 585f051c3a2e1318d493076d53df36bb072346d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 11/36] fix: negate the constant of a maximization problem
 along with its costs

Replaces 35f15b9: the objective value of a maximization problem that was
standardized is that of the minimization problem (as tests/cook expects),
but its constant kept the opposite sign.
---
 src/data/linear_program/elements.rs               |  5 -----
 src/data/linear_program/general_form/mod.rs       | 15 ++++++---------
 .../general_form/presolve/updates.rs              |  4 ++--
 3 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/data/linear_program/elements.rs b/src/data/linear_program/elements.rs
index 5724539..7bc1291 100644
--- a/src/data/linear_program/elements.rs
+++ b/src/data/linear_program/elements.rs
@@ -191,11 +191,6 @@ pub enum LinearProgramType<F> {
 pub enum Objective {
     Maximize,
     Minimize,
-    /// A maximization problem that is solved as a minimization problem.
-    ///
-    /// The cost coefficients of the variables were negated, the fixed cost was not. Obtain the
-    /// value in terms of the original problem by negating the cost of the variables.
-    MinimizeNegated,
 }
 impl Default for Objective {
     fn default() -> Self {
diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 6efbbad..6d3ff9f 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -667,16 +667,17 @@ where
         debug_assert!(is_consistent(self));
     }
 
-    /// Make this a minimization problem by multiplying the costs of the variables by `-1`.
+    /// Make this a minimization problem by multiplying the cost function by `-1`.
     ///
-    /// The fixed cost is not a part of what gets minimized, it keeps its sign.
+    /// The fixed cost is a part of the cost function.
     fn make_minimization_problem(&mut self) {
         if self.objective == Objective::Maximize {
-            self.objective = Objective::MinimizeNegated;
+            self.objective = Objective::Minimize;
 
             for variable in &mut self.variables {
                 variable.cost *= -OF::one();
             }
+            self.fixed_cost *= -OF::one();
         }
     }
 
@@ -901,13 +902,9 @@ where
     {
         debug_assert_eq!(reduced_solution.len(), self.variables.len());
 
-        let variable_cost = reduced_solution.iter()
+        let cost = reduced_solution.iter()
             .map(|(j, v)| v * &self.variables[j].cost)
-            .sum::<G>();
-        let cost = match self.objective {
-            Objective::Minimize | Objective::Maximize => variable_cost,
-            Objective::MinimizeNegated => -variable_cost,
-        } + &self.fixed_cost;
+            .sum::<G>() + &self.fixed_cost;
         self.reshift_solution(&mut reduced_solution);
 
         // To avoid recomputations, we store all computed intermediate values in this collection.
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index acbc525..484f038 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -579,10 +579,10 @@ where
     let cost_sign = cost.cmp(&OF::zero());
 
     match (objective, cost_sign) {
-        (Objective::Minimize | Objective::MinimizeNegated, Ordering::Greater) | (Objective::Maximize, Ordering::Less) => {
+        (Objective::Minimize, Ordering::Greater) | (Objective::Maximize, Ordering::Less) => {
             lower_bound
         },
-        (Objective::Maximize, Ordering::Greater) | (Objective::Minimize | Objective::MinimizeNegated, Ordering::Less) => {
+        (Objective::Maximize, Ordering::Greater) | (Objective::Minimize, Ordering::Less) => {
             upper_bound
         },
         (_, Ordering::Equal) => panic!("Should not be called if there is no cost"),
-- 
2.43.0


From 06eaa1e97db8538de0a198ce31bb6f0abe8e21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 12/36] fix: debug assertions allow problems without rows or
 variables left

---
 .../tableau/inverse_maintenance/carry/basis_inverse_rows.rs    | 2 +-
 .../inverse_maintenance/carry/lower_upper/decomposition/mod.rs | 1 -
 .../inverse_maintenance/carry/lower_upper/permutation/full.rs  | 2 +-
 src/data/linear_algebra/vector/sparse.rs                       | 3 +--
 4 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
index dfb2547..4b29106 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
@@ -215,7 +215,7 @@ where
 {
     fn remove_basis_part(&mut self, indices: &[usize]) {
         let old_m = self.m();
-        debug_assert!(indices.len() < old_m);
+        debug_assert!(indices.len() <= old_m);
 
         remove_indices(&mut self.rows, indices);
         // Remove the columns
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
index 03e0f4a..2f0a37b 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
@@ -276,7 +276,6 @@ fn swap<T>(
 /// Requires iterating over all values once.
 fn count_non_zeros<T>(rows: &[Vec<(usize, T)>]) -> (Vec<usize>, Vec<usize>) {
     let n = rows.len();
-    debug_assert!(n > 0);
     debug_assert!(rows.iter().all(|row| row.iter().all(|&(i, _)| i < n)));
 
     let nnz_row = rows.iter()
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
index c6c653e..30baebd 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
@@ -25,7 +25,7 @@ impl Full {
     /// Computes the inverse by sorting.
     pub fn new(forward: Vec<usize>) -> Self {
         debug_assert_eq!(forward.iter().collect::<HashSet<_>>().len(), forward.len());
-        debug_assert!(*forward.iter().max().unwrap() < forward.len());
+        debug_assert!(forward.iter().all(|&i| i < forward.len()));
 
         let mut backward = forward.iter()
             .enumerate()
diff --git a/src/data/linear_algebra/vector/sparse.rs b/src/data/linear_algebra/vector/sparse.rs
index 77b0fd5..11b4430 100644
--- a/src/data/linear_algebra/vector/sparse.rs
+++ b/src/data/linear_algebra/vector/sparse.rs
@@ -91,7 +91,6 @@ where
         debug_assert!(data.iter().all(|&(i, _)| i < len));
         debug_assert!(data.is_sorted_by_key(|&(i, _)| i));
         debug_assert!(data.iter().all(|(_, v)| v.borrow().is_not_zero()));
-        debug_assert_ne!(len, 0);
         debug_assert!(data.len() <= len);
 
         Self {
@@ -151,7 +150,7 @@ where
         // All values are unique
         debug_assert!(indices.iter().collect::<HashSet<_>>().len() == indices.len());
         debug_assert!(indices.iter().all(|&i| i < self.len));
-        debug_assert!(indices.len() < self.len);
+        debug_assert!(indices.len() <= self.len);
 
         remove_sparse_indices(&mut self.data, indices);
         self.len -= indices.len();
-- 
2.43.0


From 6a080c94791d3249be9214345bceb8072b0a196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 13/36] fix: scaling a problem without any prime factors

---
 .../general_form/presolve/scale/rational/mod.rs        | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
index 9209629..35c2acd 100644
--- a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
+++ b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
@@ -52,10 +52,11 @@ where
     fn scale(&mut self) -> Scaling<R> {
         // Factorize all numbers at once
         let factorization = self.factorize();
+        let (nr_rows, nr_columns) = (factorization.nr_constraints(), factorization.nr_variables());
         // Optimize per factor
         let scale_per_factor = factorization.solve();
         // Aggregate scaling per factor
-        let scaling = combine_factors(scale_per_factor);
+        let scaling = combine_factors(scale_per_factor, nr_rows, nr_columns);
         // Apply the computed scaling
         scale(self, &scaling, |x, y| *x *= y, |x, y| *x /= y);
 
@@ -651,16 +652,13 @@ where
 /// The scaling is computed per factor but is applied at once. Combine the scaling of all factors.
 fn combine_factors<R>(
     scale_per_factor: Vec<(R::Factor, ((R::Power, Vec<R::Power>), Vec<R::Power>))>,
+    nr_rows: usize,
+    nr_columns: usize,
 ) -> Scaling<R>
 where
     R: NonZeroFactorizable<Power: Abs> + One,
     for<'r> R: MulAssign<&'r R::Factor> + DivAssign<&'r R::Factor>,
 {
-    debug_assert!(!scale_per_factor.is_empty());
-
-    let nr_rows = scale_per_factor[0].1.0.1.len();
-    let nr_columns = scale_per_factor[0].1.1.len();
-
     let mut cost_factor = R::one();
     let mut constraint_row_factors = vec![R::one(); nr_rows];
     let mut constraint_column_factors = vec![R::one(); nr_columns];
-- 
2.43.0


From 0a19f17c56701fd9003f22da5863aff3df3e53e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 14/36] fix: scaling a problem without variables

---
 .../linear_program/general_form/presolve/scale/rational/mod.rs   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
index 35c2acd..bce416e 100644
--- a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
+++ b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
@@ -227,6 +227,7 @@ impl<R: NonZeroFactorizable<Power=i32>> GeneralFormFactorization<R> {
     ) -> Option<NextSide> {
         match (row_queue.len(), column_queue.len()) {
             (0, 0) => None,
+            (_, 0) => Some(NextSide::Row(row_queue.pop().unwrap())),
             (constraints, variables) => Some({
                 match (constraints * self.nr_variables()).cmp(&(variables * self.nr_constraints())) {
                     Ordering::Less => NextSide::Column(column_queue.pop().unwrap()),
-- 
2.43.0


From fb1d43b0054680be71fe5fa746ba49d994af1af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 15/36] Guarded access to phase one for verification (cfg
 relp_verif)

---
 src/algorithm/two_phase/phase_one.rs | 35 ++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/algorithm/two_phase/phase_one.rs b/src/algorithm/two_phase/phase_one.rs
index 62b19e0..f069a2b 100644
--- a/src/algorithm/two_phase/phase_one.rs
+++ b/src/algorithm/two_phase/phase_one.rs
@@ -277,6 +277,41 @@ where
     rows_to_remove
 }
 
+/// Access to phase one step by step, for verification only.
+#[cfg(relp_verif)]
+pub mod verif {
+    use super::*;
+
+    /// Tableau in which every row has an artificial variable.
+    pub fn fully<IM, MP>(provider: &MP) -> Tableau<IM, FullyArtificial<'_, MP>>
+    where
+        IM: InverseMaintainer<F: im_ops::Rhs<MP::Rhs>>,
+        MP: MatrixProvider,
+    {
+        Tableau::<IM, FullyArtificial<'_, MP>>::new(provider)
+    }
+
+    /// Tableau in which rows without initial pivot have an artificial variable.
+    pub fn partially<IM, MP>(provider: &MP) -> Tableau<IM, PartiallyArtificial<'_, MP>>
+    where
+        IM: InverseMaintainer<F: im_ops::Column<<MP::Column as Column>::F> + im_ops::Rhs<MP::Rhs>>,
+        MP: PartialInitialBasis,
+    {
+        Tableau::<IM, PartiallyArtificial<'_, MP>>::new(provider)
+    }
+
+    /// Phase one with a pivot rule of choice.
+    pub fn run<IM, K, MP, PR>(tableau: Tableau<IM, K>) -> RankedFeasibilityResult<IM>
+    where
+        IM: InverseMaintainer<F: im_ops::FieldHR + im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>>,
+        K: Artificial,
+        MP: MatrixProvider,
+        PR: PivotRule<IM::F>,
+    {
+        primal::<IM, K, MP, PR>(tableau)
+    }
+}
+
 #[cfg(test)]
 mod test {
     use relp_num::{Rational64, RationalBig};
-- 
2.43.0


From c8cd751d688104150bd98e20995975e3133a0663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 16/36] fix: phase one on a problem without rows and without
 initial basis

---
 src/data/linear_algebra/vector/dense.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/data/linear_algebra/vector/dense.rs b/src/data/linear_algebra/vector/dense.rs
index 10d638a..b5c772d 100644
--- a/src/data/linear_algebra/vector/dense.rs
+++ b/src/data/linear_algebra/vector/dense.rs
@@ -37,8 +37,6 @@ impl<F> Dense<F> {
     where
         F: Clone,
     {
-        debug_assert_ne!(len, 0);
-
         Self { data: vec![value; len], }
     }
 
-- 
2.43.0


From 89c7e5f6a76c7dfce1c8c64e17106e91c949e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 17/36] fix: relative cost of artificial columns that left the
 basis

---
 src/algorithm/two_phase/tableau/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/two_phase/tableau/mod.rs b/src/algorithm/two_phase/tableau/mod.rs
index ba52393..ef30242 100644
--- a/src/algorithm/two_phase/tableau/mod.rs
+++ b/src/algorithm/two_phase/tableau/mod.rs
@@ -108,7 +108,8 @@ where
 
         let initial = self.kind.initial_cost_value(j);
         let difference = self.inverse_maintainer.cost_difference(&self.kind.original_column(j));
-        difference + initial
+        // Multiply first: adding a constant one to a negative number isn't always exact in `relp_num`
+        difference + IM::F::one() * initial
     }
 
     /// Column of original problem with respect to the current basis.
-- 
2.43.0


From ac1443dbc52d28020b6e2f77649f3c03fc669327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 18/36] fix: multiplying a row of zeros with the explicit basis
 inverse

---
 .../tableau/inverse_maintenance/carry/basis_inverse_rows.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
index 4b29106..0af49f0 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
@@ -165,8 +165,10 @@ where
     where
         Self::F: ops::Column<I::F>,
     {
-        let (index, factor) = row.next().unwrap();
-        let items = self.rows[index].iter().map(|(j, value)| (j, value * factor)).collect();
+        let items = match row.next() {
+            Some((index, factor)) => self.rows[index].iter().map(|(j, value)| (j, value * factor)).collect(),
+            None => Vec::new(),
+        };
         let mut total = SparseVector::new(items, self.m());
 
         for (index, factor) in row {
-- 
2.43.0


From 450ee8a1ea4e6dedf41b53c66cd4bf0da3059a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:21 +0000
Subject: [PATCH 19/36] fix: deleting a row that wasn't deleted yet is allowed

---
 .../two_phase/matrix_provider/filter/generic_wrapper.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
index 62c6973..0afdd57 100644
--- a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
+++ b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
@@ -147,7 +147,7 @@ where
         debug_assert!(i < self.provider.nr_rows() - self.rows_to_skip.len());
 
         let in_original_problem = self.get_underlying_row_index(i);
-        debug_assert!(self.rows_to_skip.contains(&in_original_problem));
+        debug_assert!(!self.rows_to_skip.contains(&in_original_problem));
         let insertion_index = match self.rows_to_skip.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting a row that already was deleted!"),
             Err(nr) => nr,
@@ -211,7 +211,7 @@ where
     /// * `i`: Index in the reduced version of the problem to be deleted from the original problem.
     fn delete_index(skip_indices_array: &mut Vec<usize>, i: usize) {
         let in_original_problem = RemoveRows::<MP>::get_underlying_index(skip_indices_array, i);
-        debug_assert!(skip_indices_array.contains(&in_original_problem));
+        debug_assert!(!skip_indices_array.contains(&in_original_problem));
 
         let insertion_index = match skip_indices_array.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting an index that already was deleted."),
-- 
2.43.0


From e09d4befc859bfa42bc3c3f00a59d315d9c20a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 20/36] fix: displaying an inconsistency and walking its source
 chain ends

---
 src/io/error.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/io/error.rs b/src/io/error.rs
index 0176ae7..b2b987b 100644
--- a/src/io/error.rs
+++ b/src/io/error.rs
@@ -226,12 +226,9 @@ impl Inconsistency {
 
 impl Display for Inconsistency {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "ProgramError: {}", self)
+        write!(f, "ProgramError: {}", self.description)
     }
 }
 
 impl Error for Inconsistency {
-    fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
-    }
 }
-- 
2.43.0


From e1489c9dd58fe72e3bef87561670bf09bad3c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:16 +0000
Subject: [PATCH 21/36] fix: range of an MPS row with no or several right-hand
 side values

---
 src/io/mps/convert.rs | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index bf1b103..a5eaad5 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -6,6 +6,7 @@ use std::cmp::Ordering;
 use std::collections::HashSet;
 use std::convert::TryInto;
 use std::fmt::{Debug, Display};
+use std::mem::replace;
 use std::ops::{Add, Neg, Sub};
 
 use num_traits::{One, Zero};
@@ -464,27 +465,8 @@ where
     let mut b: Vec<Option<OFO>> = vec![None; rows.len()];
     for (i, value) in rhss.into_iter().flat_map(|rhs| rhs.values.into_iter()) {
         match &mut b[i] {
-            None => match &mut constraints[i] {
-                RangedConstraintRelation::Range(range) => {
-                    let range_sign = range.cmp(&&mut OFO::zero());
-                    if range < &mut OFO::zero() {
-                        *range = -&*range;
-                    }
-                    let value = value.into();
-                    let bound  = match (rows[i].constraint_type, range_sign) {
-                        (ConstraintRelation::Greater, _) => value + &*range,
-                        (ConstraintRelation::Less, _) => value,
-                        (ConstraintRelation::Equal, Ordering::Greater | Ordering::Equal) => value + &*range,
-                        (ConstraintRelation::Equal, Ordering::Less | Ordering::Equal) => value,
-                    };
-                    b[i] = Some(bound);
-                },
-                _ => b[i] = Some(value.into()),
-            }
+            None => b[i] = Some(value.into()),
             Some(current) => {
-                // There can be at most one rhs value for each row that has a range.
-                debug_assert!(!matches!(constraints[i], RangedConstraintRelation::Range(_)));
-
                 let converted: OFO = value.into();
                 match rows[i].constraint_type {
                     ConstraintRelation::Equal => if &converted != current {
@@ -504,7 +486,24 @@ where
     }
 
     // Substitute the default value.
-    let b = b.into_iter().map(|value| value.unwrap_or_else(OFO::zero)).collect();
+    let mut b = b.into_iter().map(|value| value.unwrap_or_else(OFO::zero)).collect::<Vec<_>>();
+
+    // Make all ranges nonnegative and relative to the upper bound.
+    for (i, constraint) in constraints.iter_mut().enumerate() {
+        if let RangedConstraintRelation::Range(range) = constraint {
+            let range_is_negative = *range < OFO::zero();
+            if range_is_negative {
+                *range = -&*range;
+            }
+            match (rows[i].constraint_type, range_is_negative) {
+                (ConstraintRelation::Greater, _) | (ConstraintRelation::Equal, false) => {
+                    b[i] = replace(&mut b[i], OFO::zero()) + &*range;
+                },
+                (ConstraintRelation::Less, _) | (ConstraintRelation::Equal, true) => {},
+            }
+        }
+    }
+
     Ok(DenseVector::new(b, nr_rows))
 }
 
-- 
2.43.0


From 381b5b780b29dd0e93ef5a5f4241d22c24f0e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:17 +0000
Subject: [PATCH 22/36] fix: columns and costs that are listed twice in an MPS
 file are rejected

---
 src/io/mps/parse/mod.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index ee371c3..1ed012f 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -59,7 +59,7 @@ fn parse<'a, F: Parse, CR: ColumnRetriever<'a>>(
 
     let (columns, cost_values, next_section) =
         parse_column_section::<_, CR, _>(&mut lines, &cost_row_name, &row_index)?;
-    let column_index = build_column_index(&columns);
+    let column_index = build_column_index(&columns)?;
 
     let (rhss, next_section) = if next_section == Section::Rhs {
         parse_optional_section::<_, CR, _, _, 2>(&mut lines, [Section::Ranges, Section::Bounds], &row_index)?
@@ -418,6 +418,11 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                         match row_map.get(row_name) {
                             None => if row_name == cost_row_name {
                                 let column_index = collector.len();
+                                if matches!(cost_values_collector.last(), Some(&(j, _)) if j == column_index) {
+                                    return Err(Inconsistency::new(format!(
+                                        "Duplicate cost for column \"{}\"", column_name,
+                                    )).into());
+                                }
                                 cost_values_collector.push((column_index, value))
                             } else {
                                 return Err(Inconsistency::new(format!("Row \"{}\" not known.", row_name)).into());
@@ -499,19 +504,22 @@ fn save_to_column_collector<F>(
 ///
 /// A map assigning to each column name a value.
 ///
+/// # Errors
+///
+/// If the lines of a column are not consecutive, or columns share a name.
+///
 /// # Note
 ///
 /// This assignment is not a specific order.
-fn build_column_index<F>(columns: &[Column<F>]) -> HashMap<&str, usize> {
-    debug_assert_eq!(
-        columns.iter().map(|column| column.name.as_str()).collect::<HashSet<_>>().len(),
-        columns.len(),
-    );
+fn build_column_index<F>(columns: &[Column<F>]) -> Result<HashMap<&str, usize>, Inconsistency> {
+    let mut column_index = HashMap::with_capacity(columns.len());
+    for (index, column) in columns.iter().enumerate() {
+        if column_index.insert(column.name.as_str(), index).is_some() {
+            return Err(Inconsistency::new(format!("Column \"{}\" is listed twice.", column.name)));
+        }
+    }
 
-    columns.iter()
-        .enumerate()
-        .map(|(index, column)| (column.name.as_str(), index))
-        .collect()
+    Ok(column_index)
 }
 
 trait ListedInGroup {
-- 
2.43.0


From 53320ed1771423fb013cc9a205096b0dbde72653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:18 +0000
Subject: [PATCH 23/36] fix: reject markers that don't change the variable type

---
 src/io/mps/parse/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 1ed012f..98b7a10 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -386,7 +386,6 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                         &mut column_to_be_saved, &mut column_collector, &mut collector, active_variable_type,
                     )?;
 
-                    // TODO(CORRECTNESS): Err when the type doesn't actually change?
                     let previous_variable_type = active_variable_type;
                     active_variable_type = match marker_text {
                         START_OF_INTEGER => VariableType::Integer,
@@ -395,7 +394,11 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                             format!("Marker type \"{}\" unknown.", marker_text), (number, line),
                         ).into()),
                     };
-                    debug_assert_ne!(previous_variable_type, active_variable_type);
+                    if previous_variable_type == active_variable_type {
+                        return Err(ParseError::with_location(
+                            "Marker doesn't change the variable type.", (number, line),
+                        ).into());
+                    }
                 },
                 ColumnLineContent::Data([column_name, row_name, value_text], rest_of_line) => {
                     // Read the name of the group and save the group if necessary
-- 
2.43.0


From 5b1724b52b52cbfdfe8baefcf7e5c1ee9695e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:19 +0000
Subject: [PATCH 24/36] fix: unsupported semicontinuous bounds are an error
 instead of a panic

---
 src/io/mps/convert.rs   | 4 +++-
 src/io/mps/parse/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index a5eaad5..ecc40ef 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -257,7 +257,9 @@ fn process_bound<FI, FO: From<FI> + Ord + Zero + One + Clone>(
             variable.variable_type = VariableType::Integer;
             Ok((true, false))
         },
-        BoundType::SemiContinuous(_, _) => unimplemented!(),
+        BoundType::SemiContinuous(_, _) => {
+            Err(Inconsistency::new("Semicontinuous variables are not supported."))
+        },
     }
 }
 
diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 98b7a10..b14c286 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -752,7 +752,7 @@ fn parse_bound_line<'a, F: Parse, CR: ColumnRetriever<'a>>(
                 _ => unreachable!(),
             }
         },
-        "SC" => unimplemented!(),
+        "SC" => return Err(ParseError::new("Semicontinuous bounds are not supported.").into()),
         _ => return Err(ParseError::new(format!("Bound type \"{}\" unknown.", bound_type_text)).into()),
     };
 
-- 
2.43.0


From db5b3e4cb5ae9e22e7b5e86df0659d0da5504ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:40 +0000
Subject: [PATCH 25/36] fix: don't store zeros listed in the columns of an MPS
 file

---
 src/io/mps/convert.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index ecc40ef..d59440c 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -123,7 +123,13 @@ fn compute_variable_info<FI, FO: From<FI> + NonZero + Zero + One + Ord + Display
     process_bounds(&mut info, bounds)?;
     let (values, names): (Vec<_>, Vec<_>) = values_names.into_iter()
         .map(|(collection, names)| {
-            (collection.into_iter().map(|(i, v)| (i, v.into())).collect(), names)
+            // Zeros might be listed explicitly in a file, but are never stored
+            let values = collection.into_iter()
+                .map(|(i, v)| (i, v.into()))
+                .filter(|(_, v): &(_, FO)| v.is_not_zero())
+                .collect();
+
+            (values, names)
         })
         .unzip();
 
-- 
2.43.0


From c0f87fec0f7c14f5e7851ead8d19a748960d2e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 26/36] fix: report conflicting variable bounds as
 inconsistent, as documented

---
 src/io/mps/convert.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index d59440c..b081a30 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -185,6 +185,13 @@ fn process_bounds<FI, FO: From<FI> + Zero + One + Ord + Clone>(
 
     fill_in_default_lower_bounds(variable_info, needs_default_lower_bound);
 
+    let any_infeasible = variable_info.iter().any(|variable| {
+        matches!((&variable.lower_bound, &variable.upper_bound), (Some(lower), Some(upper)) if lower > upper)
+    });
+    if any_infeasible {
+        return Err(Inconsistency::new("A variable has a lower bound that is larger than its upper bound."));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 9baa65bd7df1cce16f1c83c335889eda9f2019b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:51 +0000
Subject: [PATCH 27/36] fix: numbers are read exactly or rejected with an error

---
 src/io/mps/number/parse.rs | 48 +++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/io/mps/number/parse.rs b/src/io/mps/number/parse.rs
index 60e3a58..96c3406 100644
--- a/src/io/mps/number/parse.rs
+++ b/src/io/mps/number/parse.rs
@@ -78,36 +78,36 @@ impl TryFrom<&str> for Raw {
     type Error = ParseError;
 
     fn try_from(text: &str) -> Result<Self, Self::Error> {
-        let (has_minus, text) = match &text[0..1] {
-            "-" => (true, &text[1..]),
-            _ => (false, text),
+        let (has_minus, digits) = match text.strip_prefix('-') {
+            Some(digits) => (true, digits),
+            None => (false, text.strip_prefix('+').unwrap_or(text)),
         };
 
-        let parse = |text: &str, number_part| {
-            if text.is_empty() {
-                Ok(0)
-            } else {
-                text.parse()
-                    .map_err(|error| ParseError::wrap_other(
-                        error,
-                        format!("Failed to parse {} \"{}\" as u64.", number_part, text),
-                    ))
-            }
+        let (integer_part, mantissa_part) = match digits.find('.') {
+            None => (digits, ""),
+            Some(index) => (&digits[..index], &digits[(index + 1)..]),
         };
+        let is_number = integer_part.bytes().chain(mantissa_part.bytes()).all(|b| b.is_ascii_digit())
+            && !(integer_part.is_empty() && mantissa_part.is_empty());
+        if !is_number {
+            return Err(ParseError::new(format!("Value text \"{}\" is not a decimal number.", text)));
+        }
 
-        let (integer, decimal_steps_from_right): (u64, _) = match text.find('.') {
-            None => (parse(text, "entire value")?, 0),
-            Some(index) => {
-                let from_right = u32::try_from(text.len() - index - 1)
-                    .expect("It wouldn't make sense for the number text to be so large.");
-
-                let integer_part = parse(&text[0..index], "integer part")?;
-                let mantissa_part = parse(&text[(index + 1)..], "mantissa part")?;
+        let combine = |mantissa_part: &str| {
+            let integer = integer_part.bytes().chain(mantissa_part.bytes())
+                .try_fold(0_u64, |total, digit| {
+                    total.checked_mul(10)?.checked_add(u64::from(digit - b'0'))
+                })?;
+            let decimal_steps_from_right = u32::try_from(mantissa_part.len()).ok()?;
+            // The denominator should fit as well
+            10_u64.checked_pow(decimal_steps_from_right)?;
 
-                (integer_part * 10_u64.pow(from_right) + mantissa_part, from_right)
-            },
+            Some((integer, decimal_steps_from_right))
         };
-        
+        let (integer, decimal_steps_from_right) = combine(mantissa_part)
+            .or_else(|| combine(mantissa_part.trim_end_matches('0')))
+            .ok_or_else(|| ParseError::new(format!("Value text \"{}\" has too many digits.", text)))?;
+
         let sign = match (has_minus, integer) {
             (_, 0) => Sign::Zero,
             (false, _) => Sign::Positive,
-- 
2.43.0


From febd2adb7dcacdd12a58aa26742b452431dd44b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 28/36] fix: fixed MPS reader handles lines that end within or
 before a field

---
 src/io/mps/parse/fixed.rs | 116 +++++++++++++++++---------------------
 1 file changed, 51 insertions(+), 65 deletions(-)

diff --git a/src/io/mps/parse/fixed.rs b/src/io/mps/parse/fixed.rs
index 32f08d2..ba647f0 100644
--- a/src/io/mps/parse/fixed.rs
+++ b/src/io/mps/parse/fixed.rs
@@ -41,98 +41,84 @@ impl<'a> ColumnRetriever<'a> for Fixed {
     }
 
     fn one_and_two(line: &str) -> ParseResult<[&str; 2]> {
-        if line.len() > FIELDS[2].start {
-            let type_text = &line[FIELDS[1].clone()];
-
-            let name_field_end = FIELDS[2].end.min(line.len());
-            let name = line[FIELDS[2].start..name_field_end].trim_end();
-            if name.is_empty() {
-                Err(ParseError::new("Empty row name."))
-            } else {
-                Ok([type_text, name])
-            }
+        let name = field(line, 2, 0)?.trim_end();
+        if name.is_empty() {
+            Err(ParseError::new("Empty row name."))
         } else {
-            Err(ParseError::new("Line is too short."))
+            Ok([field(line, 1, 0)?.trim(), name])
         }
     }
 
     fn is_column_marker_line(line: &'a str) -> ParseResult<ColumnLineContent<'a, Self::RestOfLine>> {
-        if line.len() >= FIELDS[4].end {
-            if &line[FIELDS[3].clone()] == COLUMN_SECTION_MARKER {
-                if line.len() >= FIELDS[5].end {
-                    Ok(ColumnLineContent::Marker([&line[FIELDS[5].clone()]]))
-                } else {
-                    Err(ParseError::new("Line is too short to be a marker line."))
-                }
-            } else {
-                Ok(ColumnLineContent::Data([
-                    line[FIELDS[2].clone()].trim_end(),
-                    line[FIELDS[3].clone()].trim_end(),
-                    line[FIELDS[4].clone()].trim_start(),
-                ], &line[FIELDS[4].end..]))
-            }
+        if field(line, 3, 0)? == COLUMN_SECTION_MARKER {
+            Ok(ColumnLineContent::Marker([field(line, 5, 0)?.trim_end()]))
         } else {
-            Err(ParseError::new("Line is too short."))
+            let (fields, rest_of_line) = Self::two_through_four(line)?;
+            Ok(ColumnLineContent::Data(fields, rest_of_line))
         }
     }
 
     fn two_through_four(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
-        if line.len() >= FIELDS[4].end {
-            Ok(([
-                line[FIELDS[2].clone()].trim_end(),
-                line[FIELDS[3].clone()].trim_end(),
-                line[FIELDS[4].clone()].trim_start(),
-            ], &line[FIELDS[4].end..]))
-        } else {
+        let fields = [
+            field(line, 2, 0)?.trim_end(),
+            field(line, 3, 0)?.trim_end(),
+            field(line, 4, 0)?.trim(),
+        ];
+        if fields[2].is_empty() {
             Err(ParseError::new("Line is too short."))
+        } else {
+            Ok((fields, line.get(FIELDS[4].end..).unwrap_or("")))
         }
     }
 
     fn five_and_six(line_after_first_four: Self::RestOfLine) -> ParseResult<Option<[&'a str; 2]>> {
-        let relative_field_six_end = FIELDS[6].end - FIELDS[4].end;
-        let result = if line_after_first_four.len() >= relative_field_six_end {
-            let (five_start, five_end) = (FIELDS[5].start - FIELDS[4].end, FIELDS[5].end - FIELDS[4].end);
-            let (six_start, six_end) = (FIELDS[6].start - FIELDS[4].end, FIELDS[6].end - FIELDS[4].end);
-
-            let five = line_after_first_four[five_start..five_end].trim_end();
-            let six = line_after_first_four[six_start..six_end].trim_start();
-            if !five.is_empty() && !six.is_empty() {
-                Some([
-                    five,
-                    six,
-                ])
-            } else { None }
-        } else { None };
+        let five = field(line_after_first_four, 5, FIELDS[4].end)?.trim_end();
+        let six = field(line_after_first_four, 6, FIELDS[4].end)?.trim();
 
-        Ok(result)
+        match (five.is_empty(), six.is_empty()) {
+            (false, false) => Ok(Some([five, six])),
+            (true, true) => Ok(None),
+            _ => Err(ParseError::new("Line has only one of the fifth and sixth element.")),
+        }
     }
 
     fn one_through_three(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
-        if line.len() >= FIELDS[3].start {
-            let type_text = &line[FIELDS[1].clone()];
-            let name = line[FIELDS[2].clone()].trim_end();
-            let column = line[FIELDS[3].clone()].trim_end();
-
-            let rest = &line[FIELDS[3].end..];
-
-            Ok(([type_text, name, column], rest))
-        } else {
-            Err(ParseError::new("Line is too short."))
-        }
+        Ok(([
+            field(line, 1, 0)?.trim(),
+            field(line, 2, 0)?.trim_end(),
+            field(line, 3, 0)?.trim_end(),
+        ], line.get(FIELDS[3].end..).unwrap_or("")))
     }
 
     fn four(rest_of_line: Self::RestOfLine) -> ParseResult<[&'a str; 1]> {
-        let end_of_column = FIELDS[4].end - FIELDS[3].end;
-        if rest_of_line.len() >= end_of_column {
-            let start_of_column = FIELDS[4].start - FIELDS[3].end;
-            let value_text = rest_of_line[start_of_column..end_of_column].trim_start();
-            Ok([value_text])
-        } else {
+        let value_text = field(rest_of_line, 4, FIELDS[3].end)?.trim();
+        if value_text.is_empty() {
             Err(ParseError::new("Line doesn't contain another value, it's too short."))
+        } else {
+            Ok([value_text])
         }
     }
 }
 
+/// Get the contents of a field, which might be cut short by the end of the line.
+///
+/// # Arguments
+///
+/// * `text`: Line, or the rest of it.
+/// * `index`: Which of the fields to get.
+/// * `offset`: Position on the line where `text` starts.
+///
+/// # Errors
+///
+/// When the field starts or ends halfway a (non ASCII) character.
+fn field(text: &str, index: usize, offset: usize) -> ParseResult<&str> {
+    let start = (FIELDS[index].start - offset).min(text.len());
+    let end = (FIELDS[index].end - offset).min(text.len());
+
+    text.get(start..end)
+        .ok_or_else(|| ParseError::new("Fields are not at the character columns of the fixed format."))
+}
+
 /// Character ranges for the different fields of the column.
 const FIELDS: [Range<usize>; 7] = [
     0..1,
-- 
2.43.0


From bd73a2a0e561dbcf317471b512f9ab386b13bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:49 +0000
Subject: [PATCH 29/36] fix: spaces on blank lines and after MPS section
 headers are ignored

---
 src/io/mps/parse/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index b14c286..959601e 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -106,7 +106,7 @@ fn into_lines<'a>(text: &'a str) -> impl Iterator<Item = FileLocation<'a>> + 'a
         .enumerate()
         .map(|(number, line)| (number + 1, line)) // Count from 1
         .filter(|(_, line)| !line.trim_start().starts_with(COMMENT_INDICATOR))
-        .filter(|(_, line)| !line.is_empty())
+        .filter(|(_, line)| !line.trim().is_empty())
 }
 
 trait ColumnRetriever<'a> {
@@ -225,7 +225,7 @@ fn parse_objsense_section<'a, L: Iterator<Item = FileLocation<'a>>>(
                         None => Err(ParseError::new("Program can't end in the OBJSENSE section.")),
                         Some((number, line)) => {
                             // Throw away the next line, who's contents are "ROWS", check to be sure
-                            if !matches!(lines.next(), Some((_, line)) if line.starts_with("ROWS")) {
+                            if !matches!(lines.next(), Some((_, line)) if line.trim_end() == "ROWS") {
                                 return Err(ParseError::new("Expected the ROWS section next."));
                             }
 
@@ -799,7 +799,7 @@ impl FromStr for Section {
     ///
     /// A `()` error if no `Section` is recognized.
     fn from_str(text: &str) -> Result<Self, Self::Err> {
-        match text {
+        match text.trim_end() {
             "ROWS"     => Ok(Section::Rows),
             "COLUMNS"  => Ok(Section::Columns),
             "RHS"      => Ok(Section::Rhs),
-- 
2.43.0


From fcf69c169b1dfa3c39f2d8353782b2189cf8f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:59 +0000
Subject: [PATCH 30/36] fix: reading the first line and row types of non ASCII
 MPS files doesn't panic

---
 src/io/mps/parse/mod.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 959601e..9c9723f 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -175,21 +175,14 @@ fn parse_program_name<'a, CR: ColumnRetriever<'a>>(
     match location {
         None => Err(ParseError::new("No line to read, is the file empty?")),
         Some((number, line)) => {
-            if line.len() < NAME.len() {
-                return Err(ParseError::with_location("Line too short.", (number, line)));
-            }
-
-            let expected_name_string = &line[0..NAME.len()];
-            if expected_name_string == NAME {
-                let name = CR::two_or_three(&line[NAME.len()..])
+            if let Some(line_after_name) = line.strip_prefix(NAME) {
+                let name = CR::two_or_three(line_after_name)
                     .map_err(|e| e.wrap(format!("Could not read program name \
                     from line {}. Ths line looked like \"{}\"", number, line)))?[0];
                 Ok(name.to_string())
             } else {
                 Err(ParseError::with_location(
-                    format!(
-                        "Expected a \"{}\" indicator, found \"{}\" instead", NAME, expected_name_string,
-                    ),
+                    format!("Expected a \"{}\" indicator", NAME),
                     (number, line),
                 ))
             }
@@ -832,7 +825,7 @@ impl FromStr for RowType {
     ///
     /// Any `String` slices not equal to either `N`, `L`, `E` or `G` will fair to be parsed.
     fn from_str(word: &str) -> Result<RowType, Self::Err> {
-        match &word[0..1] {
+        match word {
             "N" => Ok(RowType::Cost),
             "L" => Ok(RowType::Constraint(ConstraintRelation::Less)),
             "E" => Ok(RowType::Constraint(ConstraintRelation::Equal)),
-- 
2.43.0


From b9c094f4d2732fdcb8aac37e3c6dd8e27154f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:00 +0000
Subject: [PATCH 31/36] fix: any indentation is accepted for the MPS objective
 sense

---
 src/io/mps/parse/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 9c9723f..6c9da8e 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -222,9 +222,9 @@ fn parse_objsense_section<'a, L: Iterator<Item = FileLocation<'a>>>(
                                 return Err(ParseError::new("Expected the ROWS section next."));
                             }
 
-                            match line.trim_end() {
-                                "  MINIMIZE" | "  MIN" => Ok(Objective::Minimize),
-                                "  MAXIMIZE" | "  MAX" => Ok(Objective::Maximize),
+                            match line.trim() {
+                                "MINIMIZE" | "MIN" => Ok(Objective::Minimize),
+                                "MAXIMIZE" | "MAX" => Ok(Objective::Maximize),
                                 _ => Err(ParseError::with_location(
                                     format!("Can't read objective {}", line.trim_end()),
                                     (number, line),
-- 
2.43.0


From 933d7131926fc9df51181008412b3e3f1742fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:20 +0000
Subject: [PATCH 32/36] fix: ENDATA instead of the COLUMNS section of an MPS
 file is rejected

---
 src/io/mps/parse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 6c9da8e..0a2fd44 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -276,7 +276,9 @@ fn parse_row_section<'a, CR: ColumnRetriever<'a>, L: Iterator<Item = FileLocatio
             }
         } else {
             // Section has ended.
-            try_parse_next_section(line, [Section::Columns])?;
+            if try_parse_next_section(line, [Section::Columns])? == Section::Endata {
+                return Err(ParseError::with_location("There is no COLUMNS section.", (number, line)));
+            }
             return Ok((cost_row_name, collector));
         }
     }
-- 
2.43.0


From 1bd3c371d4ba893309968762ed0bf8426fa8edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 33/36] fix: adding an arc direction to a negative number is
 exact

Adding relp_num's constant one to a negative RationalBig gives zero when the numerator or the
denominator is one.
---
 src/data/linear_program/network/representation.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/data/linear_program/network/representation.rs b/src/data/linear_program/network/representation.rs
index 3a2d5b3..ef4124c 100644
--- a/src/data/linear_program/network/representation.rs
+++ b/src/data/linear_program/network/representation.rs
@@ -5,7 +5,7 @@ use std::fmt;
 use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};
 
 use index_utils::remove_sparse_indices;
-use relp_num::{Field, Negateable, One};
+use relp_num::{Field, Negateable};
 use relp_num::NonZero;
 use relp_num::RationalBig;
 
@@ -210,8 +210,8 @@ impl AddAssign<&ArcDirection> for RationalBig {
     #[inline]
     fn add_assign(&mut self, rhs: &ArcDirection) {
         match rhs {
-            ArcDirection::Incoming => *self += One,
-            ArcDirection::Outgoing => *self -= One,
+            ArcDirection::Incoming => *self += RationalBig::one(),
+            ArcDirection::Outgoing => *self -= RationalBig::one(),
         }
     }
 }
@@ -249,8 +249,8 @@ impl SubAssign<&ArcDirection> for RationalBig {
     #[inline]
     fn sub_assign(&mut self, rhs: &ArcDirection) {
         match rhs {
-            ArcDirection::Incoming => *self -= One,
-            ArcDirection::Outgoing => *self += One,
+            ArcDirection::Incoming => *self -= RationalBig::one(),
+            ArcDirection::Outgoing => *self += RationalBig::one(),
         }
     }
 }
-- 
2.43.0


From ea0a2ef669a63d4fa060b8736ed63639846a2723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:02 +0000
Subject: [PATCH 34/36] fix: printing a tableau or inverse without rows no
 longer panics

---
 .../tableau/inverse_maintenance/carry/basis_inverse_rows.rs   | 2 +-
 src/algorithm/two_phase/tableau/mod.rs                        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
index 0af49f0..3d1ec5f 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
@@ -252,7 +252,7 @@ where
             }).collect::<Vec<_>>()
         }).collect::<Vec<_>>();
 
-        let row_counter_width = (self.m() - 1).to_string().len();
+        let row_counter_width = self.m().saturating_sub(1).to_string().len();
         let column_width = (0..self.m()).map(|j| {
             max(j.to_string().len(), (0..self.m()).map(|i| rows[i][j].len()).max().unwrap())
         }).collect::<Vec<_>>();
diff --git a/src/algorithm/two_phase/tableau/mod.rs b/src/algorithm/two_phase/tableau/mod.rs
index ef30242..f4e2185 100644
--- a/src/algorithm/two_phase/tableau/mod.rs
+++ b/src/algorithm/two_phase/tableau/mod.rs
@@ -386,13 +386,13 @@ where
         let row_counter_width = "cost".len();
         let column_width = columns.iter().enumerate().map(|(j, column)| {
             [
-                column.iter().map(String::len).max().unwrap(),
+                column.iter().map(String::len).max().unwrap_or(0),
                 j.to_string().len(),
                 cost[j].len(),
             ].iter().max().copied().unwrap()
         }).collect::<Vec<_>>();
 
-        let b_inner_width = max(b.iter().map(String::len).max().unwrap(), objective.len());
+        let b_inner_width = max(b.iter().map(String::len).max().unwrap_or(0), objective.len());
 
         // Column counters
         write!(f, "{0:>width$} |", "", width = row_counter_width)?;
-- 
2.43.0


From 934a5823782a26912fc27005a42fd71ac34065e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:25 +0000
Subject: [PATCH 35/36] Guarded access to the permutations for verification
 (cfg relp_verif)

---
 .../tableau/inverse_maintenance/carry/lower_upper/mod.rs    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
index 8856284..de98b47 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
@@ -20,6 +20,12 @@ mod decomposition;
 mod permutation;
 mod eta_file;
 
+/// Access to the permutations, for verification only.
+#[cfg(relp_verif)]
+pub mod verif {
+    pub use super::permutation::*;
+}
+
 /// Decompose a matrix `B` into `PBQ = LU` where
 ///
 /// * `P` is a row permutation
-- 
2.43.0


From fa9d9ee569f33a6f2d0ac9c2aede8f12b0f2ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:04 +0000
Subject: [PATCH 36/36] fix: rotating part of a full permutation keeps its
 inverse correct

---
 .../inverse_maintenance/carry/lower_upper/permutation/full.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
index 30baebd..9f02395 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
@@ -87,7 +87,9 @@ impl Full {
         debug_assert!(i < self.len());
 
         self.forward[i..].rotate_right(1);
-        self.backward[i..].rotate_left(1);
+        for (k, &target) in self.forward.iter().enumerate().skip(i) {
+            self.backward[target] = k;
+        }
     }
 }
 
-- 
2.43.0

