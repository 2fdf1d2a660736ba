From d02226fc9d7f7d099cdf7cb3e32af132476b18c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 01/12] fix: kill_worst kills exactly the worst live
 individuals

The cached best fitness of the kill list was not updated while the list was being filled,
so better individuals (even the best one) could be killed instead of worse ones. The first
individual was always put into the list, even if it was already dead or nothing had to be
killed, and NaN fitness was never treated as the worst.
---
 optlib/src/genetic/selection/mod.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/optlib/src/genetic/selection/mod.rs b/optlib/src/genetic/selection/mod.rs
index 4c05858..f155fb2 100644
--- a/optlib/src/genetic/selection/mod.rs
+++ b/optlib/src/genetic/selection/mod.rs
@@ -5,6 +5,8 @@
 
 pub mod vec_float;
 
+use std::cmp::Ordering;
+
 use crate::genetic::{Population, Selection};
 
 /// Kill individuals if value of theirs fitness (goal function) is NaN.
@@ -55,35 +57,35 @@ impl<T: Clone> Selection<T> for LimitPopulation {
 /// Function to kill worst individuals in population.
 /// `count` - how many individuals must be killed.
 pub fn kill_worst<T: Clone>(population: &mut Population<T>, count: usize) {
+    if count == 0 {
+        return;
+    }
+
     // List of indexes of individuals in population to be kill
     let mut kill_list: Vec<usize> = Vec::with_capacity(count);
-    kill_list.push(0);
 
     // Index of the items in kill_list with best fitness
     let mut best_index = 0;
-    let mut best_fitness = population[kill_list[best_index]].get_fitness();
 
-    for n in 1..population.len() {
+    for n in 0..population.len() {
         if !population[n].is_alive() {
             continue;
         }
 
         if kill_list.len() < count {
             kill_list.push(n);
-            if population[n].get_fitness() < best_fitness {
+            if is_better(population, n, kill_list[best_index]) {
                 best_index = kill_list.len() - 1;
             }
         } else {
-            if population[n].get_fitness() > best_fitness {
+            if is_better(population, kill_list[best_index], n) {
                 kill_list[best_index] = n;
 
                 // Find new best item
                 best_index = 0;
-                best_fitness = population[kill_list[best_index]].get_fitness();
                 for m in 1..kill_list.len() {
-                    if population[kill_list[m]].get_fitness() < best_fitness {
+                    if is_better(population, kill_list[m], kill_list[best_index]) {
                         best_index = m;
-                        best_fitness = population[kill_list[best_index]].get_fitness();
                     }
                 }
             }
@@ -94,3 +96,9 @@ pub fn kill_worst<T: Clone>(population: &mut Population<T>, count: usize) {
         population[n].kill();
     }
 }
+
+/// Returns true if the fitness of the first individual is better (less) than the fitness of the
+/// second one. NaN fitness is the worst.
+fn is_better<T: Clone>(population: &Population<T>, index_1: usize, index_2: usize) -> bool {
+    population.individuals_min_cmp(&population[index_1], &population[index_2]) == Ordering::Less
+}
-- 
2.43.0


From 9c4df399cc5081baaed2ac0c1aeb40743e911a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 02/12] fix: pairing of an empty population does not panic

If all individuals are killed (for example the goal function returns NaN for every point)
find_min panicked inside of the pairing instead of going on without children and returning
None.
---
 optlib/src/genetic/pairing/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index e7d8204..4d7af1d 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -14,6 +14,9 @@ pub struct RandomPairing {
 impl<T> Pairing<T> for RandomPairing {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = vec![];
+        if population.len() == 0 {
+            return pairs;
+        }
 
         let between = Uniform::new(0, population.len());
         let count = population.len() / 2;
@@ -77,6 +80,10 @@ impl Tournament {
 impl<T> Pairing<T> for Tournament {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = Vec::with_capacity(self.families_count);
+        if population.len() == 0 {
+            return pairs;
+        }
+
         let between = Uniform::new(0, population.len());
 
         // Loop for families count
-- 
2.43.0


From 51bd01b89cb36a45287a0ee01263ac7b584d144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:28 +0000
Subject: [PATCH 03/12] fix: an individual with NaN fitness never wins a
 tournament

A NaN individual drawn as the first one could not be beaten by any challenger, because every
comparison with NaN is false.
---
 optlib/src/genetic/pairing/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index 4d7af1d..f2d6554 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -1,9 +1,10 @@
 //! The module with pairing algorithm traits. The pairing algorithm selects individuals for crossing.
 
+use std::cmp::Ordering;
+
 use rand::distributions::{Distribution, Uniform};
 use rand::rngs::ThreadRng;
 
-use crate::Agent;
 use crate::genetic:: {Pairing, Population};
 
 /// Pairing algorithm which select random individuals for crossing.
@@ -97,7 +98,10 @@ impl<T> Pairing<T> for Tournament {
                 // Loop for tournaments rounds
                 for _ in 0..self.rounds_count {
                     let challenger = between.sample(&mut self.random);
-                    if population[challenger].get_goal() < population[best_ind_index].get_goal() {
+                    if population
+                        .individuals_min_cmp(&population[challenger], &population[best_ind_index])
+                        == Ordering::Less
+                    {
                         best_ind_index = challenger;
                     }
                 }
-- 
2.43.0


From b75ff7104b3a471dea74f38e23623b66def1c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:28 +0000
Subject: [PATCH 04/12] fix: GoalNotChange can be used for several runs of an
 optimizer

The checker kept the goal value and the iteration of the last change from the previous run:
`get_iteration() - change_iter` overflowed (panic in debug, immediate stop in release) when the
new run started with almost the same goal value, otherwise the new run was compared with the
goal value of the old one.
---
 optlib/src/tools/stopchecker/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 476eb40..7c6b238 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -88,6 +88,7 @@ pub struct GoalNotChange {
 
     old_goal: f64,
     change_iter: usize,
+    last_iter: usize,
 }
 
 impl GoalNotChange {
@@ -104,12 +105,20 @@ impl GoalNotChange {
             delta,
             old_goal: f64::MAX,
             change_iter: 0,
+            last_iter: 0,
         }
     }
 }
 
 impl<T> StopChecker<T> for GoalNotChange {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        if state.get_iteration() < self.last_iter {
+            // The algorithm was started anew, forget the previous run
+            self.old_goal = f64::MAX;
+            self.change_iter = 0;
+        }
+        self.last_iter = state.get_iteration();
+
         match state.get_best_solution() {
             None => false,
             Some((_, best_goal)) => {
-- 
2.43.0


From 6ee43742ee3d29a8e384720bece32a0c64b6faa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:28 +0000
Subject: [PATCH 05/12] fix: composite stop checkers ask all their checkers on
 every iteration

The composites stopped asking at the first decisive answer, so a checker with a history
(GoalNotChange) did not see the skipped iterations and the verdict depended on the order of the
checkers: CompositeAll of MaxIterations(100) and GoalNotChange(10) did not stop on iteration 100
even if the goal function had not been changing since the first iteration.
---
 optlib/src/tools/stopchecker/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 7c6b238..12bad44 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -25,13 +25,15 @@ impl<T> CompositeAny<T> {
 
 impl<T> StopChecker<T> for CompositeAny<T> {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        // All checkers must see every iteration, because they may keep the history of the run
+        let mut result = false;
         for checker in &mut self.stop_checkers {
             if checker.can_stop(state) {
-                return true;
+                result = true;
             }
         }
 
-        false
+        result
     }
 }
 
@@ -50,13 +52,15 @@ impl<T> CompositeAll<T> {
 
 impl<T> StopChecker<T> for CompositeAll<T> {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        // All checkers must see every iteration, because they may keep the history of the run
+        let mut result = true;
         for checker in &mut self.stop_checkers {
             if !checker.can_stop(state) {
-                return false;
+                result = false;
             }
         }
 
-        true
+        result
     }
 }
 
-- 
2.43.0


From 31386f95e2cd68c57f61a2d6cf12a2d02206c851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 06/12] fix: a solution with NaN coordinates is not a success

The predicate of get_predicate_success_vec_solution accepted NaN coordinates, because the
comparison `NaN > delta` is false.
---
 optlib/src/tools/statistics/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 9867a05..5f7b913 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -94,7 +94,8 @@ pub fn get_predicate_success_vec_solution<T: Float>(
 
     move |(answer, _): &(Vec<T>, GoalValue)| {
         for (x, (e, d)) in answer.iter().zip(expected.iter().zip(delta.iter())) {
-            if (*x - *e).abs() > *d {
+            // NaN is never a success
+            if !((*x - *e).abs() <= *d) {
                 return false;
             }
         }
-- 
2.43.0


From 10224540fa5f81f2e1314bbb9404077d711bcd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:46 +0000
Subject: [PATCH 07/12] fix: statistics of a paused and resumed run are the
 statistics of one run

After next_iterations the result of the same run was added once more, so the run count was wrong
and results[i] did not correspond to convergence[i]. The logger panicked if it was added to
an optimizer between find_min and next_iterations.
---
 optlib/src/tools/statistics/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 5f7b913..4afa28e 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -173,6 +173,10 @@ impl<T: Clone> Statistics<T> {
     }
 
     fn add_result(&mut self, state: &dyn AlgorithmState<T>) {
+        if self.results.len() == self.convergence.len() {
+            // The run was resumed after a pause, it has a result already
+            self.results.pop();
+        }
         self.results.push(state.get_best_solution().clone());
     }
 
@@ -396,7 +400,12 @@ impl<'a, T: Clone> Logger<T> for StatisticsLogger<'a, T> {
     }
 
     /// Will be called before run algorithm (possibly after result algorithm after pause).
-    fn resume(&mut self, _state: &dyn AlgorithmState<T>) {}
+    fn resume(&mut self, _state: &dyn AlgorithmState<T>) {
+        if self.statistics.convergence.is_empty() {
+            // The logger was added after the start of the run
+            self.statistics.convergence.push(vec![]);
+        }
+    }
 
     /// Will be called in the end of iteration.
     fn next_iteration(&mut self, state: &dyn AlgorithmState<T>) {
-- 
2.43.0


From 56e036214d6ecdd53c3de25b1c0ef1a301572854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:46 +0000
Subject: [PATCH 08/12] fix: LinearInertia does not go below w_min after t_max
 iterations

The coefficient must decrease from w_max to w_min, but it went on decreasing (and became
negative) when the algorithm worked longer than t_max iterations.
---
 optlib/src/particleswarm/velocitycalc/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optlib/src/particleswarm/velocitycalc/mod.rs b/optlib/src/particleswarm/velocitycalc/mod.rs
index 90615e8..818852b 100644
--- a/optlib/src/particleswarm/velocitycalc/mod.rs
+++ b/optlib/src/particleswarm/velocitycalc/mod.rs
@@ -277,6 +277,8 @@ impl<T: Float> LinearInertia<T> {
 
 impl<T: Float> Inertia<T> for LinearInertia<T> {
     fn get(&mut self, iteration: usize) -> T {
+        // The coefficient does not change after t_max
+        let iteration = iteration.min(self.t_max);
         self.w_max
             - (self.w_max - self.w_min) * T::from(iteration).unwrap() / T::from(self.t_max).unwrap()
     }
-- 
2.43.0


From d7aa9baf123bc23f30ba4ed61478b90e0286e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:33 +0000
Subject: [PATCH 09/12] fix: modulus velocity limit of very large and very
 small velocities

The sum of squares overflowed (or vanished) although the modulus itself is
representable: a large velocity was set to zero and a small one not limited.
---
 optlib/src/particleswarm/postvelocitycalc/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/optlib/src/particleswarm/postvelocitycalc/mod.rs b/optlib/src/particleswarm/postvelocitycalc/mod.rs
index 5635753..ca7854c 100644
--- a/optlib/src/particleswarm/postvelocitycalc/mod.rs
+++ b/optlib/src/particleswarm/postvelocitycalc/mod.rs
@@ -48,12 +48,11 @@ impl<T: Float> PostVelocityCalc<T> for MaxVelocityAbs<T> {
     fn correct_velocity(&mut self, velocity: Vec<T>) -> Vec<T> {
         let current_velocity_abs = velocity
             .iter()
-            .fold(T::zero(), |acc, vi| acc + (*vi) * (*vi))
-            .sqrt();
+            .fold(T::zero(), |acc, vi| acc.hypot(*vi));
         if current_velocity_abs > self.max_velocity {
             let new_velocity = velocity
                 .iter()
-                .map(|vi| (*vi) * self.max_velocity / current_velocity_abs)
+                .map(|vi| (*vi) / current_velocity_abs * self.max_velocity)
                 .collect();
             new_velocity
         } else {
-- 
2.43.0


From 37ba9c899fe5aae682f6f58c388c3e215959032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:31 +0000
Subject: [PATCH 10/12] fix: GoalNotChange after a run without completed
 iterations

A run that was stopped before its first iteration left its goal value behind:
the next run was judged against it.
---
 optlib/src/tools/stopchecker/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 12bad44..1607c2f 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -116,7 +116,7 @@ impl GoalNotChange {
 
 impl<T> StopChecker<T> for GoalNotChange {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
-        if state.get_iteration() < self.last_iter {
+        if state.get_iteration() == 0 || state.get_iteration() < self.last_iter {
             // The algorithm was started anew, forget the previous run
             self.old_goal = f64::MAX;
             self.change_iter = 0;
-- 
2.43.0


From c2da691448d03b0a23b95f0fc25164441f045511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:39 +0000
Subject: [PATCH 11/12] fix: GoalNotChange counts a first goal value of
 f64::MAX as a change

f64::MAX stood for "no value yet", so a run whose first goal value is f64::MAX (a usual
penalty) was stopped too early, as was every run if delta is infinite.
---
 optlib/src/tools/stopchecker/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 1607c2f..a141ccb 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -107,7 +107,7 @@ impl GoalNotChange {
         GoalNotChange {
             max_iter,
             delta,
-            old_goal: f64::MAX,
+            old_goal: f64::NAN,
             change_iter: 0,
             last_iter: 0,
         }
@@ -118,7 +118,7 @@ impl<T> StopChecker<T> for GoalNotChange {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
         if state.get_iteration() == 0 || state.get_iteration() < self.last_iter {
             // The algorithm was started anew, forget the previous run
-            self.old_goal = f64::MAX;
+            self.old_goal = f64::NAN;
             self.change_iter = 0;
         }
         self.last_iter = state.get_iteration();
@@ -127,7 +127,9 @@ impl<T> StopChecker<T> for GoalNotChange {
             None => false,
             Some((_, best_goal)) => {
                 let delta = (best_goal - self.old_goal).abs();
-                if delta > self.delta {
+                // NaN is "there was no value yet"
+                let first = self.old_goal.is_nan() && !best_goal.is_nan();
+                if first || delta > self.delta {
                     self.old_goal = best_goal;
                     self.change_iter = state.get_iteration();
                 }
-- 
2.43.0


From 293b4aeafdd7d24a566654869fb1b6d25d20ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:01 +0000
Subject: [PATCH 12/12] fix: rosenbrock of a point without coordinates is an
 empty sum

x.len() - 1 overflowed, the function panicked, unlike the other ones, which return 0.
---
 optlib-testfunc/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optlib-testfunc/src/lib.rs b/optlib-testfunc/src/lib.rs
index b4b96ad..02c8379 100644
--- a/optlib-testfunc/src/lib.rs
+++ b/optlib-testfunc/src/lib.rs
@@ -82,6 +82,10 @@ pub fn rastrigin<G: Float>(x: &Vec<G>) -> f64 {
 /// assert!(value.abs() < 1e-7);
 /// ```
 pub fn rosenbrock<G: Float>(x: &Vec<G>) -> f64 {
+    if x.is_empty() {
+        return 0.0;
+    }
+
     let mut sum = G::from(0.0).unwrap();
     for n in 0..x.len() - 1 {
         sum = sum + G::from(100.0).unwrap() * ((x[n + 1] - x[n] * x[n]).powi(2)) + (G::from(1.0).unwrap() - x[n]).powi(2);
-- 
2.43.0

