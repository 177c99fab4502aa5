From 682a037b8a3c0dd5a7add57feb9a6a72bc00de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 01/10] fix: pairing of an empty population must not panic

RandomPairing and Tournament built an empty Uniform range when the
selection had removed the whole population.
---
 optlib/src/genetic/pairing/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index e7d8204..4d7af1d 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -14,6 +14,9 @@ pub struct RandomPairing {
 impl<T> Pairing<T> for RandomPairing {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = vec![];
+        if population.len() == 0 {
+            return pairs;
+        }
 
         let between = Uniform::new(0, population.len());
         let count = population.len() / 2;
@@ -77,6 +80,10 @@ impl Tournament {
 impl<T> Pairing<T> for Tournament {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = Vec::with_capacity(self.families_count);
+        if population.len() == 0 {
+            return pairs;
+        }
+
         let between = Uniform::new(0, population.len());
 
         // Loop for families count
-- 
2.43.0


From 58768c67a3d57ac1e8aade52c8f9749a33c73081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 02/10] fix: an individual with a NaN goal must not win a
 tournament

The comparison with NaN is always false, so a NaN individual drawn first
won against every challenger.
---
 optlib/src/genetic/pairing/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index 4d7af1d..d6e633f 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -97,7 +97,10 @@ impl<T> Pairing<T> for Tournament {
                 // Loop for tournaments rounds
                 for _ in 0..self.rounds_count {
                     let challenger = between.sample(&mut self.random);
-                    if population[challenger].get_goal() < population[best_ind_index].get_goal() {
+                    if population[challenger].get_goal() < population[best_ind_index].get_goal()
+                        || (population[best_ind_index].get_goal().is_nan()
+                            && !population[challenger].get_goal().is_nan())
+                    {
                         best_ind_index = challenger;
                     }
                 }
-- 
2.43.0


From 26a4157b5b6acc40160194d89bd2cf28d73622bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 03/10] fix: kill_worst must kill the worst living individuals

Individual 0 was always put on the kill list, even when already dead or
when nobody had to be killed, best_fitness was not updated while the list
was filled, and NaN was neither better nor worse than anything. So the
best individual could be killed and the wrong number was killed.
---
 optlib/src/genetic/selection/mod.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/optlib/src/genetic/selection/mod.rs b/optlib/src/genetic/selection/mod.rs
index 4c05858..8254bf8 100644
--- a/optlib/src/genetic/selection/mod.rs
+++ b/optlib/src/genetic/selection/mod.rs
@@ -55,33 +55,40 @@ impl<T: Clone> Selection<T> for LimitPopulation {
 /// Function to kill worst individuals in population.
 /// `count` - how many individuals must be killed.
 pub fn kill_worst<T: Clone>(population: &mut Population<T>, count: usize) {
+    if count == 0 {
+        return;
+    }
+
+    // NaN is the worst fitness
+    let worse = |x: f64, y: f64| x > y || (x.is_nan() && !y.is_nan());
+
     // List of indexes of individuals in population to be kill
-    let mut kill_list: Vec<usize> = Vec::with_capacity(count);
-    kill_list.push(0);
+    let mut kill_list: Vec<usize> = Vec::with_capacity(count.min(population.len()));
 
     // Index of the items in kill_list with best fitness
     let mut best_index = 0;
-    let mut best_fitness = population[kill_list[best_index]].get_fitness();
+    let mut best_fitness = std::f64::NAN;
 
-    for n in 1..population.len() {
+    for n in 0..population.len() {
         if !population[n].is_alive() {
             continue;
         }
 
         if kill_list.len() < count {
             kill_list.push(n);
-            if population[n].get_fitness() < best_fitness {
+            if worse(best_fitness, population[n].get_fitness()) {
                 best_index = kill_list.len() - 1;
+                best_fitness = population[n].get_fitness();
             }
         } else {
-            if population[n].get_fitness() > best_fitness {
+            if worse(population[n].get_fitness(), best_fitness) {
                 kill_list[best_index] = n;
 
                 // Find new best item
                 best_index = 0;
                 best_fitness = population[kill_list[best_index]].get_fitness();
                 for m in 1..kill_list.len() {
-                    if population[kill_list[m]].get_fitness() < best_fitness {
+                    if worse(best_fitness, population[kill_list[m]].get_fitness()) {
                         best_index = m;
                         best_fitness = population[kill_list[best_index]].get_fitness();
                     }
-- 
2.43.0


From 5274113eb16122658fe97cfaad2ee64536d162e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 04/10] fix: GoalNotChange must forget the previous run

The iteration number starts again from zero in every run, so the counter
underflowed (or the plateau of the previous run was continued) when an
optimizer with this stop checker was started again.
---
 optlib/src/tools/stopchecker/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 476eb40..5333e90 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -110,6 +110,12 @@ impl GoalNotChange {
 
 impl<T> StopChecker<T> for GoalNotChange {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        // A new run was started
+        if state.get_iteration() == 0 || state.get_iteration() < self.change_iter {
+            self.old_goal = f64::MAX;
+            self.change_iter = 0;
+        }
+
         match state.get_best_solution() {
             None => false,
             Some((_, best_goal)) => {
-- 
2.43.0


From 87928574c65cffde38732dc74da667da47dfe17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 05/10] fix: composite stop checkers must show every state to
 every member

CompositeAll and CompositeAny left the loop early, so a GoalNotChange
member did not see the iterations before the other members agreed and
started counting too late.
---
 optlib/src/tools/stopchecker/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 5333e90..80a852a 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -25,13 +25,14 @@ impl<T> CompositeAny<T> {
 
 impl<T> StopChecker<T> for CompositeAny<T> {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        let mut stop = false;
         for checker in &mut self.stop_checkers {
             if checker.can_stop(state) {
-                return true;
+                stop = true;
             }
         }
 
-        false
+        stop
     }
 }
 
@@ -50,13 +51,14 @@ impl<T> CompositeAll<T> {
 
 impl<T> StopChecker<T> for CompositeAll<T> {
     fn can_stop(&mut self, state: &dyn AlgorithmState<T>) -> bool {
+        let mut stop = true;
         for checker in &mut self.stop_checkers {
             if !checker.can_stop(state) {
-                return false;
+                stop = false;
             }
         }
 
-        true
+        stop
     }
 }
 
-- 
2.43.0


From f4b198d84449cdd1f88ef18604b9b95f43f3c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 06/10] fix: StatisticsLogger must record one result for every
 run

finish() is called after every resumed part of a run and each call added
one more result, so results and convergence no longer described the same
runs.
---
 optlib/src/tools/statistics/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 9867a05..50401af 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -172,6 +172,10 @@ impl<T: Clone> Statistics<T> {
     }
 
     fn add_result(&mut self, state: &dyn AlgorithmState<T>) {
+        // The run was resumed: the new result replaces the previous one
+        if self.results.len() == self.convergence.len() {
+            self.results.pop();
+        }
         self.results.push(state.get_best_solution().clone());
     }
 
-- 
2.43.0


From 4372a22de4851f1df26e8b67e0d029a413bcc13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 07/10] fix: a NaN coordinate is not a successful solution

The comparison with NaN is always false, so a solution with NaN
coordinates was accepted.
---
 optlib/src/tools/statistics/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 50401af..e0ac6ac 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -94,7 +94,7 @@ pub fn get_predicate_success_vec_solution<T: Float>(
 
     move |(answer, _): &(Vec<T>, GoalValue)| {
         for (x, (e, d)) in answer.iter().zip(expected.iter().zip(delta.iter())) {
-            if (*x - *e).abs() > *d {
+            if !((*x - *e).abs() <= *d) {
                 return false;
             }
         }
-- 
2.43.0


From 2b0e039d9be15c93be5c9dd781b303973333fa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 08/10] fix: LinearInertia must not leave the interval [w_min,
 w_max]

After t_max iterations the coefficient went on decreasing below w_min and
became negative.
---
 optlib/src/particleswarm/velocitycalc/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optlib/src/particleswarm/velocitycalc/mod.rs b/optlib/src/particleswarm/velocitycalc/mod.rs
index 90615e8..2ce85ea 100644
--- a/optlib/src/particleswarm/velocitycalc/mod.rs
+++ b/optlib/src/particleswarm/velocitycalc/mod.rs
@@ -277,6 +277,7 @@ impl<T: Float> LinearInertia<T> {
 
 impl<T: Float> Inertia<T> for LinearInertia<T> {
     fn get(&mut self, iteration: usize) -> T {
+        let iteration = iteration.min(self.t_max);
         self.w_max
             - (self.w_max - self.w_min) * T::from(iteration).unwrap() / T::from(self.t_max).unwrap()
     }
-- 
2.43.0


From d368a6667daee55eea934885e85844c0c6a25f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 09/10] fix: MaxVelocityAbs must not overflow on large
 velocities

The sum of squares overflowed to infinity (the particle stopped) and
underflowed to zero (the limit was not applied).
---
 optlib/src/particleswarm/postvelocitycalc/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/optlib/src/particleswarm/postvelocitycalc/mod.rs b/optlib/src/particleswarm/postvelocitycalc/mod.rs
index 5635753..7704cc0 100644
--- a/optlib/src/particleswarm/postvelocitycalc/mod.rs
+++ b/optlib/src/particleswarm/postvelocitycalc/mod.rs
@@ -48,12 +48,11 @@ impl<T: Float> PostVelocityCalc<T> for MaxVelocityAbs<T> {
     fn correct_velocity(&mut self, velocity: Vec<T>) -> Vec<T> {
         let current_velocity_abs = velocity
             .iter()
-            .fold(T::zero(), |acc, vi| acc + (*vi) * (*vi))
-            .sqrt();
+            .fold(T::zero(), |acc: T, vi| acc.hypot(*vi));
         if current_velocity_abs > self.max_velocity {
             let new_velocity = velocity
                 .iter()
-                .map(|vi| (*vi) * self.max_velocity / current_velocity_abs)
+                .map(|vi| (*vi) / current_velocity_abs * self.max_velocity)
                 .collect();
             new_velocity
         } else {
-- 
2.43.0


From ea67c27a31e254ce12c0561ba469b527152e59d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:16 +0000
Subject: [PATCH 10/10] fix: StatisticsLogger set during a paused run must not
 panic

start() is not called for such a logger, so the first iteration was added
to a run that does not exist (or to the last run of somebody else).
---
 optlib/src/tools/statistics/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index e0ac6ac..6f765db 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -384,11 +384,15 @@ fn vectorize<T>(v1: &Vec<T>, v2: &Vec<T>, func: fn(&T, &T) -> T) -> Vec<T> {
 
 pub struct StatisticsLogger<'a, T> {
     statistics: &'a mut Statistics<T>,
+    run_started: bool,
 }
 
 impl<'a, T> StatisticsLogger<'a, T> {
     pub fn new(statistics: &'a mut Statistics<T>) -> Self {
-        Self { statistics }
+        Self {
+            statistics,
+            run_started: false,
+        }
     }
 }
 
@@ -396,10 +400,17 @@ impl<'a, T: Clone> Logger<T> for StatisticsLogger<'a, T> {
     /// Will be called after algorithm initializing.
     fn start(&mut self, _state: &dyn AlgorithmState<T>) {
         self.statistics.convergence.push(vec![]);
+        self.run_started = true;
     }
 
     /// Will be called before run algorithm (possibly after result algorithm after pause).
-    fn resume(&mut self, _state: &dyn AlgorithmState<T>) {}
+    fn resume(&mut self, _state: &dyn AlgorithmState<T>) {
+        // The logger was set while the run was paused
+        if !self.run_started {
+            self.statistics.convergence.push(vec![]);
+            self.run_started = true;
+        }
+    }
 
     /// Will be called in the end of iteration.
     fn next_iteration(&mut self, state: &dyn AlgorithmState<T>) {
-- 
2.43.0

