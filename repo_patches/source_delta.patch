From cbce55c0a454553df6015f465cfc87d3653856ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:33 +0000
Subject: [PATCH 01/26] fix: keep cached objectives paired with their points
 when shuffling the reference set

Stage 2 shuffled the reference points but not the objectives cached for them,
so the merit filter compared the objective of some other point.
---
 src/oqnlp.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index fedebe2..14080c2 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -699,7 +699,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         }
 
         // If we resumed from checkpoint, skip Stage 1 and jump to Stage 2
-        let (mut ref_set, mut unchanged_cycles, ref_objectives) = if resumed_from_checkpoint {
+        let (mut ref_set, mut unchanged_cycles, mut ref_objectives) = if resumed_from_checkpoint {
             #[cfg(feature = "checkpointing")]
             {
                 if self.verbose {
@@ -919,9 +919,17 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         #[cfg(not(feature = "checkpointing"))]
         let mut rng: StdRng = StdRng::seed_from_u64(self.params.seed);
 
-        // Shuffle reference set if starting fresh
+        // Shuffle reference set if starting fresh, keeping each objective paired with its point
         if !resumed_from_checkpoint {
-            ref_set.shuffle(&mut rng);
+            if let Some(objectives) = ref_objectives.take() {
+                let mut paired: Vec<(Array1<f64>, f64)> =
+                    ref_set.into_iter().zip(objectives).collect();
+                paired.shuffle(&mut rng);
+
+                let (points, objectives): (Vec<Array1<f64>>, Vec<f64>) = paired.into_iter().unzip();
+                ref_set = points;
+                ref_objectives = Some(objectives);
+            }
         }
 
         let start_timer: Option<std::time::Instant> =
-- 
2.43.0


From 5eec87624e00b85da0d43eafd147f23b2e359410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:14 +0000
Subject: [PATCH 02/26] fix: checkpoint the reference set in the order in which
 Stage 2 processes it

The reference set was stored before the shuffle, and a resumed run does not
shuffle, so it repeated points that were already processed and skipped others.
---
 src/oqnlp.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 14080c2..ebb988f 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -836,12 +836,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     .ok_or(OQNLPError::NoFeasibleSolution { candidates_evaluated: 0 });
             }
 
-            // Store reference set for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_reference_set = Some(ref_set.clone());
-            }
-
             // Observer: End Stage 1
             if let Some(ref mut observer) = self.observer {
                 if observer.should_observe_stage1() {
@@ -930,6 +924,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 ref_set = points;
                 ref_objectives = Some(objectives);
             }
+
+            // Store the reference set for checkpointing in the order in which it is processed,
+            // so that a resumed run continues with the points that are still pending
+            #[cfg(feature = "checkpointing")]
+            {
+                self.current_reference_set = Some(ref_set.clone());
+            }
         }
 
         let start_timer: Option<std::time::Instant> =
-- 
2.43.0


From f2a3219f936adf9b3db294ffd96575bccb9abd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 03/26] fix: resume from a checkpoint with the first iteration
 that is still pending

A checkpoint recorded the iteration just processed (with the state from before
it), so resuming processed that iteration twice; with batches, rejected
candidates were checkpointed ahead of local searches with lower iteration
numbers, which a resumed run then skipped. Record the number of completed
iterations instead, at batch boundaries, and do not continue a run that
already reached its target.
---
 src/oqnlp.rs | 114 ++++++++++++++++++++++++---------------------------
 1 file changed, 54 insertions(+), 60 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index ebb988f..f99c79d 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -904,10 +904,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             // Use the saved seed when resuming from checkpoint
             StdRng::seed_from_u64(self.current_seed)
         } else {
-            // Start fresh with base seed + current iteration
-            let seed = self.params.seed + self.current_iteration as u64;
-            self.current_seed = seed;
-            StdRng::seed_from_u64(seed)
+            // Start fresh with the base seed
+            self.mark_iterations_complete(0, 0);
+            StdRng::seed_from_u64(self.current_seed)
         };
 
         #[cfg(not(feature = "checkpointing"))]
@@ -969,6 +968,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             ref_set.iter().take(self.params.iterations).enumerate().skip(start_iter).collect();
 
         for batch in trials_to_process.chunks(effective_batch_size) {
+            // A run that is resumed after reaching its target has nothing left to do
+            if resumed_from_checkpoint && self.target_objective_reached() {
+                break;
+            }
+
             // Check timeout before processing each batch
             if let (Some(max_secs), Some(start)) = (self.max_time, start_timer) {
                 if start.elapsed().as_secs_f64() > max_secs {
@@ -1594,11 +1598,22 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         }
     }
 
-    /// Save a checkpoint if checkpointing is enabled and conditions are met
+    /// Record that every iteration before `next_iteration` has been processed, so that a
+    /// checkpoint taken now resumes with the first iteration that is still pending
     #[cfg(feature = "checkpointing")]
-    fn maybe_save_checkpoint(&self) -> Result<(), OQNLPError> {
+    fn mark_iterations_complete(&mut self, next_iteration: usize, unchanged_cycles: usize) {
+        self.current_iteration = next_iteration;
+        self.unchanged_cycles = unchanged_cycles;
+        self.current_seed = self.params.seed.wrapping_add(next_iteration as u64);
+    }
+
+    /// Save a checkpoint if checkpointing is enabled and a multiple of `save_frequency`
+    /// iterations was completed since `previous_iteration`
+    #[cfg(feature = "checkpointing")]
+    fn maybe_save_checkpoint(&self, previous_iteration: usize) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
-            if self.current_iteration % manager.config().save_frequency == 0 {
+            let save_frequency = manager.config().save_frequency;
+            if self.current_iteration / save_frequency > previous_iteration / save_frequency {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
 
@@ -1649,18 +1664,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 continue;
             }
 
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-            }
-
-            // Update the current seed for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_seed = self.params.seed + self.current_iteration as u64;
-            }
-
             let trial = trial.clone();
 
             // Observer: Update iteration
@@ -1738,6 +1741,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     println!("x0 = {}", local_trial.point);
                 }
 
+                #[cfg(feature = "checkpointing")]
+                self.mark_iterations_complete(local_iter + 1, *unchanged_cycles);
+
                 // Check if target objective has been reached
                 if self.target_objective_reached() {
                     if self.verbose {
@@ -1776,7 +1782,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
             // Save checkpoint if enabled and conditions are met
             #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
+            {
+                self.mark_iterations_complete(local_iter + 1, *unchanged_cycles);
+                self.maybe_save_checkpoint(local_iter)?;
+            }
         }
         Ok(())
     }
@@ -1803,6 +1812,14 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             return Ok(());
         }
 
+        // Iterations of a batch are not processed in order, so the whole batch is the unit of
+        // progress recorded in checkpoints
+        #[cfg(feature = "checkpointing")]
+        let (first_iter, next_iter) = {
+            let iters = filtered_batch.iter().map(|&(local_iter, _)| local_iter);
+            (iters.clone().min().unwrap_or(start_iter), iters.max().map_or(start_iter, |i| i + 1))
+        };
+
         // For parallel processing, we need to collect the objective evaluations first
         let batch_results: Result<Vec<(usize, Array1<f64>, f64)>, OQNLPError> = filtered_batch
             .par_iter()
@@ -1846,13 +1863,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
         // Process quick candidates (no local search needed) sequentially for efficiency
         for (local_iter, _trial, _obj) in quick_candidates {
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-                self.current_seed = self.params.seed + self.current_iteration as u64;
-            }
-
             *unchanged_cycles += 1;
             if *unchanged_cycles >= self.params.wait_cycle {
                 if self.verbose {
@@ -1884,9 +1894,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     observer.invoke_callback();
                 }
             }
-
-            #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
         }
 
         // Process local search candidates in parallel when there are enough to justify overhead
@@ -1926,13 +1933,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
                 // Process local results sequentially to maintain state consistency
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let added = self.process_local_solution(local_solution.clone())?;
 
@@ -1979,6 +1979,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     }
 
                     if self.target_objective_reached() {
+                        #[cfg(feature = "checkpointing")]
+                        self.mark_iterations_complete(next_iter, *unchanged_cycles);
+
                         if self.verbose {
                             println!(
                                 "Stage 2, iteration {}: Target objective {:.8} reached. Stopping optimization.",
@@ -1988,20 +1991,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             } else {
                 // Single local search - process directly without parallel overhead
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
 
                     // Only track evaluations if observer is active
@@ -2060,6 +2053,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     }
 
                     if self.target_objective_reached() {
+                        #[cfg(feature = "checkpointing")]
+                        self.mark_iterations_complete(next_iter, *unchanged_cycles);
+
                         if self.verbose {
                             println!(
                                 "Stage 2, iteration {}: Target objective {:.8} reached. Stopping optimization.",
@@ -2069,9 +2065,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
 
@@ -2079,13 +2072,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             {
                 // Sequential processing when Rayon is not available
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let local_trial = self
                         .local_solver
@@ -2102,6 +2088,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     }
 
                     if self.target_objective_reached() {
+                        #[cfg(feature = "checkpointing")]
+                        self.mark_iterations_complete(next_iter, *unchanged_cycles);
+
                         if self.verbose {
                             println!(
                                 "Stage 2, iteration {}: Target objective {:.8} reached. Stopping optimization.",
@@ -2111,12 +2100,17 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
         }
+
+        // Save checkpoint if enabled and conditions are met
+        #[cfg(feature = "checkpointing")]
+        {
+            self.mark_iterations_complete(next_iter, *unchanged_cycles);
+            self.maybe_save_checkpoint(first_iter)?;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 298aa3b9542dc44b42eba9a0da961b0ce630ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 04/26] fix: run continues a checkpoint that was restored with
 modified parameters

run() reloaded the checkpoint with its old parameters (auto_resume) or started
over (no auto_resume), and the local solver and distance filter kept the
parameters given to the constructor.
---
 src/oqnlp.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index f99c79d..bc2a920 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -400,6 +400,10 @@ pub struct OQNLP<P: Problem + Clone> {
     #[cfg(feature = "checkpointing")]
     unchanged_cycles: usize,
 
+    /// Whether a checkpoint restored with modified parameters is still to be continued by `run`.
+    #[cfg(feature = "checkpointing")]
+    resume_pending: bool,
+
     /// Optimization start timestamp for elapsed time tracking.
     #[cfg(feature = "checkpointing")]
     start_time: Option<std::time::Instant>,
@@ -488,6 +492,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             #[cfg(feature = "checkpointing")]
             unchanged_cycles: 0,
             #[cfg(feature = "checkpointing")]
+            resume_pending: false,
+            #[cfg(feature = "checkpointing")]
             start_time: None,
             #[cfg(feature = "checkpointing")]
             current_seed: params.seed,
@@ -686,9 +692,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             }
         }
 
-        // Try to resume from checkpoint if enabled
+        // Continue a checkpoint restored with modified parameters, or try to resume from the
+        // latest checkpoint if enabled
         #[cfg(feature = "checkpointing")]
-        let resumed_from_checkpoint = self.try_resume_from_checkpoint()?;
+        let resumed_from_checkpoint =
+            std::mem::take(&mut self.resume_pending) || self.try_resume_from_checkpoint()?;
         #[cfg(not(feature = "checkpointing"))]
         let resumed_from_checkpoint = false;
 
@@ -1439,6 +1447,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 checkpoint.params = new_params.clone();
 
                 self.restore_from_checkpoint(checkpoint)?;
+                self.resume_pending = true;
 
                 if self.verbose {
                     println!(
@@ -1507,6 +1516,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             checkpoint.params = new_params.clone();
 
             self.restore_from_checkpoint(checkpoint)?;
+            self.resume_pending = true;
 
             if self.verbose {
                 println!(
@@ -1526,6 +1536,19 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let solution_count = checkpoint.solution_set.as_ref().map_or(0, |s| s.len());
 
         self.params = checkpoint.params;
+
+        // The local solver and the distance filter follow the restored parameters
+        self.local_solver = LocalSolver::new(
+            self.problem.clone(),
+            self.params.local_solver_type.clone(),
+            self.params.local_solver_config.clone(),
+        );
+        self.distance_filter = DistanceFilter::new(FilterParams {
+            distance_factor: self.params.distance_factor,
+            wait_cycle: self.params.wait_cycle,
+            threshold_factor: self.params.threshold_factor,
+        })?;
+
         self.current_iteration = checkpoint.current_iteration;
         self.merit_filter.update_threshold(checkpoint.merit_threshold);
         self.solution_set = checkpoint.solution_set;
-- 
2.43.0


From 7e33158aaff3f2e6843e6d60595b0620584aef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:58 +0000
Subject: [PATCH 05/26] fix: do not panic on a zero batch size, save frequency
 or callback frequency

Also let seeds close to the maximum wrap instead of overflowing.
---
 src/observers/mod.rs | 2 +-
 src/oqnlp.rs         | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/observers/mod.rs b/src/observers/mod.rs
index f56b83f..bd8c139 100644
--- a/src/observers/mod.rs
+++ b/src/observers/mod.rs
@@ -1096,7 +1096,7 @@ impl Observer {
     /// True if a callback is configured and the iteration is a multiple of
     /// the callback frequency.
     pub(crate) fn should_invoke_callback(&self, iteration: usize) -> bool {
-        self.callback.is_some() && (iteration % self.callback_frequency == 0)
+        self.callback.is_some() && (iteration % self.callback_frequency.max(1) == 0)
     }
 }
 
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index bc2a920..63ee625 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -975,7 +975,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let trials_to_process: Vec<_> =
             ref_set.iter().take(self.params.iterations).enumerate().skip(start_iter).collect();
 
-        for batch in trials_to_process.chunks(effective_batch_size) {
+        for batch in trials_to_process.chunks(effective_batch_size.max(1)) {
             // A run that is resumed after reaching its target has nothing left to do
             if resumed_from_checkpoint && self.target_objective_reached() {
                 break;
@@ -1480,7 +1480,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Create a temporary ScatterSearch instance to reuse its methods
         let temp_params = OQNLPParams {
             population_size: new_size,
-            seed: self.current_seed + ref_set.len() as u64,
+            seed: self.current_seed.wrapping_add(ref_set.len() as u64),
             ..self.params.clone()
         };
 
@@ -1635,7 +1635,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     #[cfg(feature = "checkpointing")]
     fn maybe_save_checkpoint(&self, previous_iteration: usize) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
-            let save_frequency = manager.config().save_frequency;
+            // A frequency of zero is treated as saving after every iteration
+            let save_frequency = manager.config().save_frequency.max(1);
             if self.current_iteration / save_frequency > previous_iteration / save_frequency {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
-- 
2.43.0


From 480ee396669c5718dfb3058de54efbdea86b9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:00 +0000
Subject: [PATCH 06/26] fix: find the checkpoint of iteration 0 when all
 checkpoints are kept

---
 src/checkpoint.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 5d7e878..e7d80a6 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -312,8 +312,7 @@ impl CheckpointManager {
             })?;
         let pattern = format!("{}_", self.config.checkpoint_name);
 
-        let mut latest_iteration = 0;
-        let mut latest_path = None;
+        let mut latest: Option<(usize, PathBuf)> = None;
 
         for entry in entries {
             let entry = entry.map_err(|e| CheckpointError::IoError {
@@ -327,16 +326,15 @@ impl CheckpointManager {
                 if filename.starts_with(&pattern) && filename.ends_with(".bin") {
                     let iteration_str = &filename[pattern.len()..filename.len() - 4];
                     if let Ok(iteration) = iteration_str.parse::<usize>() {
-                        if iteration > latest_iteration {
-                            latest_iteration = iteration;
-                            latest_path = Some(path);
+                        if latest.as_ref().is_none_or(|(newest, _)| iteration > *newest) {
+                            latest = Some((iteration, path));
                         }
                     }
                 }
             }
         }
 
-        latest_path.ok_or_else(|| CheckpointError::CheckpointNotFound {
+        latest.map(|(_, path)| path).ok_or_else(|| CheckpointError::CheckpointNotFound {
             path: self.config.checkpoint_dir.clone(),
         })
     }
-- 
2.43.0


From 6b1f93e29577a61e1439a20fe7d9015c3d1b9e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 07/26] fix: replace checkpoints atomically

Overwriting the file in place meant that a crash during a save lost the only
checkpoint when keep_all is off.
---
 src/checkpoint.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index e7d80a6..fb1d97f 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -245,11 +245,17 @@ impl CheckpointManager {
                 path: filepath.clone(),
                 source: e,
             })?;
-        fs::write(&filepath, encoded).map_err(|e| CheckpointError::IoError {
-            operation: "write".to_string(),
-            path: filepath.clone(),
-            source: e,
-        })?;
+
+        // Write to a temporary file and rename it, so that an interrupted save never leaves a
+        // truncated checkpoint in place of the previous one
+        let temp_path = filepath.with_extension("bin.tmp");
+        fs::write(&temp_path, encoded).and_then(|_| fs::rename(&temp_path, &filepath)).map_err(
+            |e| CheckpointError::IoError {
+                operation: "write".to_string(),
+                path: filepath.clone(),
+                source: e,
+            },
+        )?;
 
         Ok(filepath)
     }
-- 
2.43.0


From fb78ea2b2c48a05c64124980b060505cd592412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 08/26] fix: report a corrupted checkpoint length as an error

Decoding had no limit, so a corrupted string length aborted the process while
allocating memory.
---
 src/checkpoint.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index fb1d97f..cc69c76 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -287,7 +287,7 @@ impl CheckpointManager {
             source: e,
         })?;
         let (checkpoint, _): (OQNLPCheckpoint, usize) =
-            bincode::serde::decode_from_slice(&encoded, bincode::config::legacy())
+            bincode::serde::decode_from_slice(&encoded, decode_config())
                 .map_err(BincodeError::DecodeError)
                 .map_err(|e| CheckpointError::SerializationError {
                     operation: "decode".to_string(),
@@ -397,6 +397,14 @@ impl CheckpointManager {
     }
 }
 
+/// Configuration used to decode checkpoints
+///
+/// The limit turns a corrupted length into a decode error instead of an attempt to allocate
+/// that amount of memory.
+fn decode_config() -> impl bincode::config::Config {
+    bincode::config::legacy().with_limit::<{ i32::MAX as usize }>()
+}
+
 impl Default for CheckpointManager {
     fn default() -> Self {
         Self::new(CheckpointConfig::default()).unwrap()
@@ -431,7 +439,7 @@ pub fn read_checkpoint_file(path: &Path) -> Result<OQNLPCheckpoint, CheckpointEr
         source: e,
     })?;
     let (checkpoint, _): (OQNLPCheckpoint, usize) =
-        bincode::serde::decode_from_slice(&encoded, bincode::config::legacy())
+        bincode::serde::decode_from_slice(&encoded, decode_config())
             .map_err(BincodeError::DecodeError)
             .map_err(|e| CheckpointError::SerializationError {
                 operation: "decode".to_string(),
-- 
2.43.0


From 99a9a811ad06c644f0f262975e38ccd910d7e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 09/26] fix: apply the Newton-CG tolerance and curvature
 threshold with Hager-Zhang line search

Both settings were dropped in that branch, and line search errors of Newton-CG
were reported as errors of the steepest descent configuration.
---
 src/local_solver/runner.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 88a08b3..0bfc9fa 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -843,15 +843,15 @@ impl<P: Problem> LocalSolver<P> {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                     let linesearch = MoreThuenteLineSearch::new()
                         .with_c(*c1, *c2)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_bounds(bounds[0], bounds[1])
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_width_tolerance(*width_tolerance)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?;
 
@@ -897,31 +897,36 @@ impl<P: Problem> LocalSolver<P> {
                 } => {
                     let linesearch = HagerZhangLineSearch::new()
                         .with_delta_sigma(*delta, *sigma)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_epsilon(*epsilon)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_theta(*theta)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_gamma(*gamma)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_eta(*eta)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_bounds(bounds[0], bounds[1])
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?;
 
-                    let solver = NewtonCG::new(linesearch);
+                    let solver = NewtonCG::new(linesearch)
+                        .with_curvature_threshold(*curvature_threshold)
+                        .with_tolerance(*tolerance)
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
+                            reason: e.to_string(),
+                        })?;
 
                     let res = Executor::new(cost, solver)
                         .configure(|state| state.param(initial_point).max_iters(*max_iter))
-- 
2.43.0


From 65d3328caeb926e742ac2c7be7dcbe460d89a304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 10/26] fix: never rank NaN objectives above numbers or keep
 infinite ones as peers

total_cmp orders negative NaN (what 0/0 and ln(-1) give on x86) before every
number, so a NaN point became the best candidate, and a NaN first solution or
merit threshold rejected every later one. With an infinite first solution the
relative tolerance was infinite and any solution was added next to it.
---
 src/oqnlp.rs          | 23 ++++++++++++++++++-----
 src/scatter_search.rs | 23 ++++++++++++++---------
 src/types.rs          |  7 ++++++-
 3 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 63ee625..35ab0b0 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -130,7 +130,7 @@ use crate::local_solver::runner::LocalSolver;
 use crate::observers::Observer;
 use crate::problem::Problem;
 use crate::scatter_search::ScatterSearch;
-use crate::types::{FilterParams, LocalSolution, OQNLPParams, SolutionSet};
+use crate::types::{FilterParams, LocalSolution, OQNLPParams, SolutionSet, cmp_objectives};
 #[cfg(feature = "checkpointing")]
 use crate::{
     checkpoint::{CheckpointError, CheckpointManager},
@@ -761,11 +761,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         stage1.enter_substage("scatter_search_complete");
                         stage1.set_reference_set_size(ref_set.len());
                         // Find the best solution and its coordinates
-                        // Use total_cmp which provides total ordering (NaN > all values)
+                        // Use a total ordering in which NaN is worse than all values
                         if let Some((best_idx, &best_obj)) = ref_objectives
                             .iter()
                             .enumerate()
-                            .min_by(|(_, a), (_, b)| a.total_cmp(b))
+                            .min_by(|&(_, &a), &(_, &b)| cmp_objectives(a, b))
                         {
                             stage1.set_best_solution(best_obj, &ref_set[best_idx]);
                         }
@@ -791,7 +791,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     (sol, 0)
                 };
 
-            self.merit_filter.update_threshold(local_sol.objective);
+            if !local_sol.objective.is_nan() {
+                self.merit_filter.update_threshold(local_sol.objective);
+            }
 
             if self.verbose {
                 println!(
@@ -1096,6 +1098,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let abs_tol = self.abs_tol;
         let rel_tol = self.rel_tol;
 
+        // A solution that is not a number is never a solution, nor a reference for distances
+        if solution.objective.is_nan() || solution.point.iter().any(|x| x.is_nan()) {
+            return Ok(false);
+        }
+
         // If exclude_out_of_bounds is enabled, check if the solution is within bounds
         if self.exclude_out_of_bounds && !self.is_within_bounds(&solution.point) {
             if self.verbose {
@@ -1134,7 +1141,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let obj2 = current_best.objective;
 
         let obj_diff = (obj1 - obj2).abs();
-        let tol = abs_tol.max(rel_tol * obj1.abs().max(obj2.abs()));
+        // The tolerance is only meaningful between finite values: relative to an infinite one,
+        // every value would be close to it
+        let tol = if obj1.is_finite() && obj2.is_finite() {
+            abs_tol.max(rel_tol * obj1.abs().max(obj2.abs()))
+        } else {
+            0.0
+        };
 
         let added: bool = if obj1 < obj2 - tol {
             // Found new best solution
diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index e3787af..39a6c8f 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -44,7 +44,7 @@
 
 use crate::observers::Observer;
 use crate::problem::Problem;
-use crate::types::OQNLPParams;
+use crate::types::{OQNLPParams, cmp_objectives};
 use ndarray::Array1;
 use rand::rngs::StdRng;
 use rand::{Rng, SeedableRng};
@@ -411,7 +411,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // Sort reference set by objective value (best first) for k-selection
         let mut points_with_objectives: Vec<(Array1<f64>, f64)> =
             ref_set.into_iter().zip(objectives).collect();
-        points_with_objectives.sort_unstable_by(|a, b| a.1.total_cmp(&b.1));
+        points_with_objectives.sort_unstable_by(|a, b| cmp_objectives(a.1, b.1));
 
         let (sorted_points, sorted_objectives): (Vec<Array1<f64>>, Vec<f64>) =
             points_with_objectives.into_iter().unzip();
@@ -726,7 +726,12 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
         // Reference set is already sorted (from previous iteration or initialize_reference_set)
         // so we can directly use the cached objectives without re-sorting
-        let worst_obj = self.reference_set_objectives.last().copied().unwrap_or(f64::INFINITY);
+        let worst_obj = self
+            .reference_set_objectives
+            .last()
+            .copied()
+            .filter(|obj| !obj.is_nan())
+            .unwrap_or(f64::INFINITY);
 
         // Compute a minimum distance threshold (once) based on reference set diversity
         let min_dist_threshold = {
@@ -832,13 +837,13 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         let k = ((pop_size as f64).sqrt() as usize).max(2).min(pop_size);
 
         // Partition so the k best elements are at the front (these will be the global best k)
-        all_points.select_nth_unstable_by(k - 1, |a, b| a.1.total_cmp(&b.1));
+        all_points.select_nth_unstable_by(k - 1, |a, b| cmp_objectives(a.1, b.1));
 
         // Now sort only the first k elements (these are guaranteed to be the k best globally)
-        all_points[..k].sort_unstable_by(|a, b| a.1.total_cmp(&b.1));
+        all_points[..k].sort_unstable_by(|a, b| cmp_objectives(a.1, b.1));
 
         // Partition the remaining to get the pop_size best overall
-        all_points.select_nth_unstable_by(pop_size - 1, |a, b| a.1.total_cmp(&b.1));
+        all_points.select_nth_unstable_by(pop_size - 1, |a, b| cmp_objectives(a.1, b.1));
 
         // Truncate to keep only pop_size points
         all_points.truncate(pop_size);
@@ -855,14 +860,14 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             self.reference_set_objectives
                 .par_iter()
                 .enumerate()
-                .min_by(|(_, a), (_, b)| a.total_cmp(b))
+                .min_by(|&(_, &a), &(_, &b)| cmp_objectives(a, b))
                 .map(|(idx, _)| idx)
                 .ok_or(ScatterSearchError::NoCandidates)?
         } else {
             self.reference_set_objectives
                 .iter()
                 .enumerate()
-                .min_by(|(_, a), (_, b)| a.total_cmp(b))
+                .min_by(|&(_, &a), &(_, &b)| cmp_objectives(a, b))
                 .map(|(idx, _)| idx)
                 .ok_or(ScatterSearchError::NoCandidates)?
         };
@@ -872,7 +877,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             .reference_set_objectives
             .iter()
             .enumerate()
-            .min_by(|(_, a), (_, b)| a.total_cmp(b))
+            .min_by(|&(_, &a), &(_, &b)| cmp_objectives(a, b))
             .map(|(idx, _)| idx)
             .ok_or(ScatterSearchError::NoCandidates)?;
 
diff --git a/src/types.rs b/src/types.rs
index d8c2af4..509ddc7 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -287,6 +287,11 @@ pub struct SolutionSet {
     pub solutions: Array1<LocalSolution>,
 }
 
+/// Compare two objective values, ordering NaN (of either sign) after every number
+pub(crate) fn cmp_objectives(a: f64, b: f64) -> std::cmp::Ordering {
+    a.is_nan().cmp(&b.is_nan()).then(a.total_cmp(&b))
+}
+
 impl SolutionSet {
     /// Returns the number of solutions stored in the set.
     pub fn len(&self) -> usize {
@@ -300,7 +305,7 @@ impl SolutionSet {
 
     /// Returns the best solution in the set based on the objective function value.
     pub fn best_solution(&self) -> Option<&LocalSolution> {
-        self.solutions.iter().min_by(|a, b| a.objective.total_cmp(&b.objective))
+        self.solutions.iter().min_by(|a, b| cmp_objectives(a.objective, b.objective))
     }
 
     /// Returns an iterator over the solutions in the set.
-- 
2.43.0


From f1aeefd13e1900070cf1312daa4a84466b7dfb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 11/26] fix: reject NaN parameters, NaN custom points and
 bounds without a finite width

NaN passed every validation, and NaN or infinite bounds panicked while
sampling.
---
 src/filters.rs        | 2 +-
 src/oqnlp.rs          | 6 +++---
 src/scatter_search.rs | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/filters.rs b/src/filters.rs
index d15fcd2..010a145 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -208,7 +208,7 @@ impl DistanceFilter {
     ///
     /// Returns an error if the distance factor is negative
     pub fn new(params: FilterParams) -> Result<Self, FiltersErrors> {
-        if params.distance_factor < 0.0 {
+        if params.distance_factor.is_nan() || params.distance_factor < 0.0 {
             return Err(FiltersErrors::NegativeDistanceFactor { value: params.distance_factor });
         }
 
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 35ab0b0..e314b7e 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -448,7 +448,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             return Err(OQNLPError::InvalidIterations(params.iterations, params.population_size));
         }
 
-        if params.threshold_factor <= 0.0 {
+        if params.threshold_factor.is_nan() || params.threshold_factor <= 0.0 {
             return Err(OQNLPError::InvalidThresholdFactor(params.threshold_factor));
         }
 
@@ -668,7 +668,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             for (j, &value) in point.iter().enumerate() {
                 let lower = bounds[[j, 0]];
                 let upper = bounds[[j, 1]];
-                if value < lower || value > upper {
+                if value.is_nan() || value < lower || value > upper {
                     return Err(OQNLPError::CustomPointOutOfBounds { index: i });
                 }
             }
@@ -1085,7 +1085,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             let lower_bound = bounds[[i, 0]];
             let upper_bound = bounds[[i, 1]];
 
-            if value < lower_bound || value > upper_bound {
+            if value.is_nan() || value < lower_bound || value > upper_bound {
                 return false;
             }
         }
diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 39a6c8f..5a926cb 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -163,7 +163,9 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
         // Validate bounds
         for i in 0..bounds.lower.len() {
-            if bounds.lower[i] >= bounds.upper[i] {
+            // The width has to be finite too, since points are sampled uniformly in the range
+            let width = bounds.upper[i] - bounds.lower[i];
+            if !width.is_finite() || width <= 0.0 {
                 return Err(ScatterSearchError::InvalidBounds {
                     dimension: i,
                     lower: bounds.lower[i],
-- 
2.43.0


From 3d87b24991cbd61cf4d8fe10f817c42559fdeda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:54 +0000
Subject: [PATCH 12/26] fix: diversify tightly bounded domains the same way
 with and without parallelism

The sequential minimum distance collapsed squared distances below 1e-14 to
zero, so domains narrower than about 1e-7 lost their diversity and differed
from the parallel result.
---
 src/scatter_search.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 5a926cb..16b185a 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -609,14 +609,14 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                     .map(|p| euclidean_distance_squared(point, p))
                     .reduce(|| f64::INFINITY, f64::min)
             } else {
-                // Sequential with early termination for near-zero distances
+                // Sequential with early termination for zero distances
                 let mut min_dist = f64::INFINITY;
                 for p in ref_set {
                     let dist = euclidean_distance_squared(point, p);
                     if dist < min_dist {
                         min_dist = dist;
-                        // Early termination if points are essentially identical
-                        if dist < 1e-14 {
+                        // Early termination if points are identical
+                        if dist == 0.0 {
                             return 0.0;
                         }
                     }
@@ -631,8 +631,8 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 let dist = euclidean_distance_squared(point, p);
                 if dist < min_dist {
                     min_dist = dist;
-                    // Early termination if points are essentially identical
-                    if dist < 1e-14 {
+                    // Early termination if points are identical
+                    if dist == 0.0 {
                         return 0.0;
                     }
                 }
-- 
2.43.0


From b5123e24bbc56a979bf4c5a6077d6844266bebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:36 +0000
Subject: [PATCH 13/26] fix: count trial point evaluations in the Stage 1
 function evaluations

---
 src/scatter_search.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 16b185a..b6a3d6f 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -49,6 +49,7 @@ use ndarray::Array1;
 use rand::rngs::StdRng;
 use rand::{Rng, SeedableRng};
 use std::sync::Mutex;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use thiserror::Error;
 
 #[cfg(feature = "rayon")]
@@ -140,6 +141,7 @@ pub struct ScatterSearch<'a, P: Problem> {
     params: OQNLPParams,
     reference_set: Vec<Array1<f64>>,
     reference_set_objectives: Vec<f64>,
+    trial_evaluations: usize,
     bounds: VariableBounds,
     rng: Mutex<StdRng>,
     #[cfg(feature = "progress_bar")]
@@ -180,6 +182,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             params: params.clone(),
             reference_set: Vec::new(),
             reference_set_objectives: Vec::new(),
+            trial_evaluations: 0,
             bounds,
             rng: Mutex::new(StdRng::seed_from_u64(seed)),
             #[cfg(feature = "progress_bar")]
@@ -299,6 +302,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 if let Some(stage1) = obs.stage1_mut() {
                     stage1.enter_substage("intensification_complete");
                     stage1.add_trial_points(trial_points.len());
+                    stage1.add_function_evaluations(self.trial_evaluations);
                     stage1.set_reference_set_size(self.reference_set.len());
                 }
             }
@@ -786,6 +790,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // 1. Constraint feasibility check (if constraints exist)
         // 2. Cheap distance filter to skip near-duplicates (up to 5 distance computations)
         // 3. Expensive objective evaluation only for diverse, feasible points
+        let evaluations = AtomicUsize::new(0);
         let evaluate_trial = |point: &Array1<f64>| -> Option<(Array1<f64>, f64)> {
             if !constraints.is_empty() && !is_feasible(point, &constraints) {
                 return None;
@@ -800,6 +805,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 return None;
             }
 
+            evaluations.fetch_add(1, Ordering::Relaxed);
             let obj = self.problem.objective(point).ok()?;
             if obj < worst_obj { Some((point.clone(), obj)) } else { None }
         };
@@ -815,6 +821,8 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         let trial_evaluated: Vec<(Array1<f64>, f64)> =
             trials.iter().filter_map(evaluate_trial).collect();
 
+        self.trial_evaluations += evaluations.into_inner();
+
         // If no trials passed filtering, keep current reference set unchanged
         if trial_evaluated.is_empty() {
             return;
-- 
2.43.0


From 662ba9eb1416b95382845b89a283629ade7d9e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:54 +0000
Subject: [PATCH 14/26] fix: count a local search that finds a new best
 solution as improved

A solution that replaces the whole set is not reported as added, so the
observer did not count exactly the calls that improved the best objective.
---
 src/oqnlp.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index e314b7e..fb511e0 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1060,6 +1060,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         Ok(passes_merit && passes_distance)
     }
 
+    /// Objective value of the best solution found so far
+    fn best_objective(&self) -> Option<f64> {
+        self.solution_set.as_ref().and_then(|s| s.best_solution()).map(|s| s.objective)
+    }
+
     /// Check if the target objective has been reached
     fn target_objective_reached(&self) -> bool {
         if let (Some(target), Some(solution_set)) = (self.target_objective, &self.solution_set) {
@@ -1752,13 +1757,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     (sol, 0)
                 };
 
+                let previous_best = self.best_objective();
                 let added: bool = self.process_local_solution(local_trial.clone())?;
+                let improved = added || self.best_objective() != previous_best;
 
                 // Observer: Track local solver call and results
                 if let Some(ref mut observer) = self.observer {
                     if observer.should_observe_stage2() {
                         if let Some(stage2) = observer.stage2_mut() {
-                            stage2.add_local_solver_call(added);
+                            stage2.add_local_solver_call(improved);
                             stage2.add_function_evaluations(eval_count as usize);
                             if let Some(ref sol_set) = self.solution_set {
                                 if let Some(best) = sol_set.best_solution() {
@@ -1971,13 +1978,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 // Process local results sequentially to maintain state consistency
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
                     self.merit_filter.update_threshold(obj);
+                    let previous_best = self.best_objective();
                     let added = self.process_local_solution(local_solution.clone())?;
+                    let improved = added || self.best_objective() != previous_best;
 
                     // Observer: Track local solver call and results (parallel case)
                     if let Some(ref mut observer) = self.observer {
                         if observer.should_observe_stage2() {
                             if let Some(stage2) = observer.stage2_mut() {
-                                stage2.add_local_solver_call(added);
+                                stage2.add_local_solver_call(improved);
                                 stage2.add_function_evaluations(eval_count as usize);
                                 if let Some(ref sol_set) = self.solution_set {
                                     if let Some(best) = sol_set.best_solution() {
@@ -2047,13 +2056,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         (sol, 0)
                     };
 
+                    let previous_best = self.best_objective();
                     let added = self.process_local_solution(local_trial.clone())?;
+                    let improved = added || self.best_objective() != previous_best;
 
                     // Observer: Track local solver call and results (single local search case)
                     if let Some(ref mut observer) = self.observer {
                         if observer.should_observe_stage2() {
                             if let Some(stage2) = observer.stage2_mut() {
-                                stage2.add_local_solver_call(added);
+                                stage2.add_local_solver_call(improved);
                                 stage2.add_function_evaluations(eval_count as usize);
                                 if let Some(ref sol_set) = self.solution_set {
                                     if let Some(best) = sol_set.best_solution() {
-- 
2.43.0


From 3a2ad46b6c218021b8fcd6e862ab10a7cb0a2c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 15/26] fix: honour the callback frequency for the only local
 search of a batch

---
 src/oqnlp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index fb511e0..832ecc7 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -2087,9 +2087,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                     }
 
-                    // Invoke observer callback for stage 2 progress
+                    // Invoke observer callback if set and frequency matches
                     if let Some(ref mut observer) = self.observer {
-                        observer.invoke_callback();
+                        if observer.should_invoke_callback(local_iter) {
+                            observer.invoke_callback();
+                        }
                     }
 
                     if self.verbose && added {
-- 
2.43.0


From a65251cbfb07094f5faccedad7c0047ef398e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 16/26] fix: stop the stage timers when their stage ends

total_time() kept growing after the end of the stage, although it is documented
to return the total time spent in it.
---
 src/observers/stage1.rs | 7 ++-----
 src/observers/stage2.rs | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/observers/stage1.rs b/src/observers/stage1.rs
index 8799967..ac8203d 100644
--- a/src/observers/stage1.rs
+++ b/src/observers/stage1.rs
@@ -121,6 +121,7 @@ impl Stage1State {
     /// Start Stage 1 timing
     pub fn start(&mut self) {
         self.stage_start = Some(Instant::now());
+        self.total_time = None;
     }
 
     /// End Stage 1 and calculate total time
@@ -262,11 +263,7 @@ impl Stage1State {
     /// - `Some(f64)`: Elapsed time in seconds
     /// - `None`: If Stage 1 timing was not started
     pub fn total_time(&self) -> Option<f64> {
-        if let Some(start) = self.stage_start {
-            Some(start.elapsed().as_secs_f64())
-        } else {
-            self.total_time
-        }
+        self.total_time.or_else(|| self.stage_start.map(|start| start.elapsed().as_secs_f64()))
     }
 
     /// Get total number of function evaluations
diff --git a/src/observers/stage2.rs b/src/observers/stage2.rs
index 9e6cfc0..3c15ec1 100644
--- a/src/observers/stage2.rs
+++ b/src/observers/stage2.rs
@@ -122,6 +122,7 @@ impl Stage2State {
     /// Start Stage 2 timing
     pub fn start(&mut self) {
         self.stage_start = Some(Instant::now());
+        self.total_time = None;
     }
 
     /// End Stage 2 and calculate total time
@@ -348,11 +349,7 @@ impl Stage2State {
     /// - `Some(f64)`: Elapsed time in seconds
     /// - `None`: If Stage 2 timing was not started
     pub fn total_time(&self) -> Option<f64> {
-        if let Some(start) = self.stage_start {
-            Some(start.elapsed().as_secs_f64())
-        } else {
-            self.total_time
-        }
+        self.total_time.or_else(|| self.stage_start.map(|start| start.elapsed().as_secs_f64()))
     }
 
     /// Get the best solution coordinates found so far
-- 
2.43.0


From c6df6769f672fa77904d407fca1536d332b30118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:47 +0000
Subject: [PATCH 17/26] fix: check Stage 1 constraints on the thread that
 requested them

---
 src/scatter_search.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index b6a3d6f..5cb1ed8 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -361,10 +361,17 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 #[cfg(feature = "rayon")]
                 let feasible_custom: Vec<Array1<f64>> =
                     if self.enable_parallel && custom_points.len() >= 100 {
+                        // Each worker asks for the constraints itself, since problems may
+                        // bind them to the thread that evaluates them
                         custom_points
                             .par_iter()
-                            .filter(|point| is_feasible(point, &constraints))
-                            .cloned()
+                            .map_init(
+                                || self.problem.constraints(),
+                                |constraints, point| {
+                                    is_feasible(point, constraints).then(|| point.clone())
+                                },
+                            )
+                            .flatten_iter()
                             .collect()
                     } else {
                         custom_points
@@ -791,8 +798,10 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // 2. Cheap distance filter to skip near-duplicates (up to 5 distance computations)
         // 3. Expensive objective evaluation only for diverse, feasible points
         let evaluations = AtomicUsize::new(0);
-        let evaluate_trial = |point: &Array1<f64>| -> Option<(Array1<f64>, f64)> {
-            if !constraints.is_empty() && !is_feasible(point, &constraints) {
+        let evaluate_trial = |constraints: &[fn(&[f64], &mut ()) -> f64],
+                              point: &Array1<f64>|
+         -> Option<(Array1<f64>, f64)> {
+            if !constraints.is_empty() && !is_feasible(point, constraints) {
                 return None;
             }
 
@@ -812,14 +821,23 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
         #[cfg(feature = "rayon")]
         let trial_evaluated: Vec<(Array1<f64>, f64)> = if self.enable_parallel {
-            trials.par_iter().filter_map(evaluate_trial).collect()
+            // Each worker asks for the constraints itself, since problems may bind them to the
+            // thread that evaluates them
+            trials
+                .par_iter()
+                .map_init(
+                    || self.problem.constraints(),
+                    |constraints, point| evaluate_trial(constraints, point),
+                )
+                .flatten_iter()
+                .collect()
         } else {
-            trials.iter().filter_map(evaluate_trial).collect()
+            trials.iter().filter_map(|point| evaluate_trial(&constraints, point)).collect()
         };
 
         #[cfg(not(feature = "rayon"))]
         let trial_evaluated: Vec<(Array1<f64>, f64)> =
-            trials.iter().filter_map(evaluate_trial).collect();
+            trials.iter().filter_map(|point| evaluate_trial(&constraints, point)).collect();
 
         self.trial_evaluations += evaluations.into_inner();
 
-- 
2.43.0


From 96c93fde5956acea584075fbb185c28feb685a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 18/26] fix: keep constraints usable after a Python constraint
 raised

---
 python/src/lib.rs | 51 ++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 485eaf2..0b984ba 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -54,26 +54,30 @@ fn get_current_problem_id() -> usize {
 
 // Helper function to evaluate all constraints for a given problem ID
 fn evaluate_constraints_for_id(problem_id: usize, x: &[f64]) -> Vec<f64> {
-    let registry = get_constraint_registry();
-    let registry_lock = registry.lock().expect("Constraint registry mutex poisoned");
+    Python::attach(|py| {
+        // Release the registry before calling into Python: a constraint may raise, which would
+        // poison the registry for every later problem
+        let constraints: Vec<Py<pyo3::PyAny>> = {
+            let registry_lock =
+                get_constraint_registry().lock().expect("Constraint registry mutex poisoned");
+            registry_lock
+                .get(&problem_id)
+                .map(|constraints| constraints.iter().map(|c| c.clone_ref(py)).collect())
+                .unwrap_or_default()
+        };
 
-    if let Some(constraints) = registry_lock.get(&problem_id) {
-        Python::attach(|py| {
-            constraints
-                .iter()
-                .map(|constraint| {
-                    let args = (x.to_vec(),);
-                    constraint
-                        .call1(py, args)
-                        .expect("Failed to call constraint function")
-                        .extract::<f64>(py)
-                        .expect("Constraint function must return a float")
-                })
-                .collect()
-        })
-    } else {
-        Vec::new()
-    }
+        constraints
+            .iter()
+            .map(|constraint| {
+                let args = (x.to_vec(),);
+                constraint
+                    .call1(py, args)
+                    .expect("Failed to call constraint function")
+                    .extract::<f64>(py)
+                    .expect("Constraint function must return a float")
+            })
+            .collect()
+    })
 }
 
 // Generate constraint functions dynamically using macro (up to 1000 constraints)
@@ -660,10 +664,6 @@ impl Problem for PyProblem {
 
     fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
         if let Some(constraint_funcs) = &self.constraints {
-            // Register Python constraints in the global registry
-            let registry = get_constraint_registry();
-            let mut registry_lock = registry.lock().unwrap();
-
             Python::attach(|py| {
                 // Extract individual constraint functions from the Python list/tuple
                 let constraint_list: Vec<Py<pyo3::PyAny>> = if let Ok(list) =
@@ -678,8 +678,9 @@ impl Problem for PyProblem {
                 };
 
                 let num_constraints = constraint_list.len();
-                registry_lock.insert(self.problem_id, constraint_list);
-                drop(registry_lock); // Release the lock
+
+                // Register Python constraints in the global registry
+                get_constraint_registry().lock().unwrap().insert(self.problem_id, constraint_list);
 
                 // Set the current problem ID for constraint evaluation
                 set_current_problem_id(self.problem_id);
-- 
2.43.0


From 7c6349ff52f535cde1b9b92b60f4fbc96007335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:11 +0000
Subject: [PATCH 19/26] fix: do not mistake another checkpoint name for an
 iteration of this one

---
 src/checkpoint.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index cc69c76..734a05e 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -331,7 +331,7 @@ impl CheckpointManager {
             if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
                 if filename.starts_with(&pattern) && filename.ends_with(".bin") {
                     let iteration_str = &filename[pattern.len()..filename.len() - 4];
-                    if let Ok(iteration) = iteration_str.parse::<usize>() {
+                    if let Some(iteration) = parse_iteration(iteration_str) {
                         if latest.as_ref().is_none_or(|(newest, _)| iteration > *newest) {
                             latest = Some((iteration, path));
                         }
@@ -372,7 +372,7 @@ impl CheckpointManager {
             if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
                 if filename.starts_with(&pattern) && filename.ends_with(".bin") {
                     let iteration_str = &filename[pattern.len()..filename.len() - 4];
-                    if let Ok(iteration) = iteration_str.parse::<usize>() {
+                    if let Some(iteration) = parse_iteration(iteration_str) {
                         checkpoints.push((iteration, path));
                     }
                 }
@@ -397,6 +397,13 @@ impl CheckpointManager {
     }
 }
 
+/// Parse the iteration of a checkpoint file name, which is written with at least six digits.
+///
+/// Anything else belongs to another checkpoint name, such as `run_2` for the name `run`.
+fn parse_iteration(iteration_str: &str) -> Option<usize> {
+    iteration_str.parse().ok().filter(|iteration| format!("{iteration:06}") == iteration_str)
+}
+
 /// Configuration used to decode checkpoints
 ///
 /// The limit turns a corrupted length into a decode error instead of an attempt to allocate
-- 
2.43.0


From ffff33b734039295c9171d54f3c91e54c177ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:11 +0000
Subject: [PATCH 20/26] fix: reject a COBYLA xtol_abs of the wrong length
 instead of panicking

---
 src/local_solver/runner.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 0bfc9fa..9eae578 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -985,6 +985,16 @@ impl<P: Problem> LocalSolver<P> {
             // Convert initial point to Vec<f64> as required by COBYLA
             let x0: Vec<f64> = initial_point.to_vec();
 
+            if !xtol_abs.is_empty() && xtol_abs.len() != x0.len() {
+                return Err(LocalSolverError::InvalidCOBYLAConfig {
+                    reason: format!(
+                        "`xtol_abs` should have one value per variable: expected {}, got {}",
+                        x0.len(),
+                        xtol_abs.len()
+                    ),
+                });
+            }
+
             // Conditionally track function evaluations
             let eval_count =
                 if track_evaluations { Some(Arc::new(AtomicU64::new(0))) } else { None };
-- 
2.43.0


From 7190154ff3742aecc951f5a9532608447cbd4348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:53 +0000
Subject: [PATCH 21/26] fix: reject line search bounds with fewer than two
 values instead of panicking

---
 src/local_solver/runner.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 9eae578..2be2f3c 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -65,7 +65,7 @@
 
 use crate::local_solver::builders::LocalSolverConfig;
 #[cfg(feature = "argmin")]
-use crate::local_solver::builders::{LineSearchMethod, TrustRegionRadiusMethod};
+use crate::local_solver::builders::{LineSearchMethod, LineSearchParams, TrustRegionRadiusMethod};
 use crate::problem::Problem;
 use crate::types::{LocalSolution, LocalSolverType};
 #[cfg(feature = "argmin")]
@@ -240,6 +240,9 @@ impl<P: Problem> LocalSolver<P> {
         } = solver_config
         {
             // Match line search method
+            check_line_search_bounds(line_search_params)
+                .map_err(|reason| LocalSolverError::InvalidLBFGSConfig { reason })?;
+
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                     let linesearch = MoreThuenteLineSearch::new()
@@ -525,6 +528,9 @@ impl<P: Problem> LocalSolver<P> {
 
         if let LocalSolverConfig::SteepestDescent { max_iter, line_search_params } = solver_config {
             // Match line search method
+            check_line_search_bounds(line_search_params)
+                .map_err(|reason| LocalSolverError::InvalidSteepestDescentConfig { reason })?;
+
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                     let linesearch = MoreThuenteLineSearch::new()
@@ -839,6 +845,9 @@ impl<P: Problem> LocalSolver<P> {
             line_search_params,
         } = solver_config
         {
+            check_line_search_bounds(line_search_params)
+                .map_err(|reason| LocalSolverError::InvalidNewtonCG { reason })?;
+
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                     let linesearch = MoreThuenteLineSearch::new()
@@ -1063,6 +1072,19 @@ impl<P: Problem> LocalSolver<P> {
     }
 }
 
+/// The line search methods take a lower and an upper bound for the step length
+#[cfg(feature = "argmin")]
+fn check_line_search_bounds(params: &LineSearchParams) -> Result<(), String> {
+    let (LineSearchMethod::MoreThuente { bounds, .. }
+    | LineSearchMethod::HagerZhang { bounds, .. }) = &params.method;
+
+    if bounds.len() < 2 {
+        return Err(format!("Line search bounds should have 2 values, got {}", bounds.len()));
+    }
+
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests_local_solvers {
     use super::*;
-- 
2.43.0


From f78cc1374206dc28f5705677a4644161a274ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:52 +0000
Subject: [PATCH 22/26] fix: report an objective error in the initial
 Nelder-Mead simplex instead of panicking

---
 src/local_solver/runner.rs | 43 ++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 2be2f3c..6c26846 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -391,13 +391,17 @@ impl<P: Problem> LocalSolver<P> {
         track_evaluations: bool,
     ) -> Result<(LocalSolution, u64), LocalSolverError> {
         use std::sync::{
-            Arc,
-            atomic::{AtomicU64, Ordering},
+            Arc, Mutex,
+            atomic::{AtomicU64, AtomicUsize, Ordering},
         };
 
         struct ProblemCost<'a, P: Problem> {
             problem: &'a P,
             eval_count: Option<Arc<AtomicU64>>,
+            // argmin panics on an error at a vertex of the initial simplex, so such an error
+            // is kept here and reported after the initialization
+            vertices_left: AtomicUsize,
+            simplex_error: Arc<Mutex<Option<String>>>,
         }
 
         impl<P: Problem> CostFunction for ProblemCost<'_, P> {
@@ -405,15 +409,39 @@ impl<P: Problem> LocalSolver<P> {
             type Output = f64;
 
             fn cost(&self, param: &Self::Param) -> std::result::Result<Self::Output, Error> {
+                let mut simplex_error = self.simplex_error.lock().unwrap();
+                let is_vertex = self.vertices_left.load(Ordering::Relaxed) > 0;
+                if is_vertex {
+                    self.vertices_left.fetch_sub(1, Ordering::Relaxed);
+                }
+                if let Some(reason) = simplex_error.as_ref() {
+                    return if is_vertex {
+                        Ok(f64::INFINITY)
+                    } else {
+                        Err(Error::msg(reason.clone()))
+                    };
+                }
                 if let Some(counter) = &self.eval_count {
                     counter.fetch_add(1, Ordering::Relaxed);
                 }
-                self.problem.objective(param).map_err(|e| Error::msg(e.to_string()))
+                match self.problem.objective(param) {
+                    Err(e) if is_vertex => {
+                        *simplex_error = Some(e.to_string());
+                        Ok(f64::INFINITY)
+                    }
+                    result => result.map_err(|e| Error::msg(e.to_string())),
+                }
             }
         }
 
         let eval_count = if track_evaluations { Some(Arc::new(AtomicU64::new(0))) } else { None };
-        let cost = ProblemCost { problem: &self.problem, eval_count: eval_count.clone() };
+        let simplex_error = Arc::new(Mutex::new(None));
+        let cost = ProblemCost {
+            problem: &self.problem,
+            eval_count: eval_count.clone(),
+            vertices_left: AtomicUsize::new(initial_point.len() + 1),
+            simplex_error: simplex_error.clone(),
+        };
 
         if let LocalSolverConfig::NelderMead {
             simplex_delta,
@@ -463,6 +491,13 @@ impl<P: Problem> LocalSolver<P> {
                     reason: e.to_string(),
                 })?;
 
+            if let Some(reason) = simplex_error.lock().unwrap().take() {
+                return Err(LocalSolverError::RunFailed {
+                    solver_type: "unknown".to_string(),
+                    reason,
+                });
+            }
+
             let solution = LocalSolution {
                 point: res
                     .state()
-- 
2.43.0


From 06978c87778bb6e4b40de5e2549d08f34d1ccbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:54 +0000
Subject: [PATCH 23/26] fix: let a Python objective run a nested optimization

---
 python/src/lib.rs | 59 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 0b984ba..b327385 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -13,10 +13,10 @@ use ndarray::{Array1, Array2};
 use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use seq_macro::seq;
-use std::cell::Cell;
+use std::cell::{Cell, RefCell};
 use std::collections::HashMap;
 use std::sync::atomic::{AtomicUsize, Ordering};
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Mutex, MutexGuard, PoisonError};
 
 // Global constraint registry for COBYLA constraints
 type ConstraintRegistry = Arc<Mutex<HashMap<usize, Vec<Py<pyo3::PyAny>>>>>;
@@ -30,12 +30,57 @@ static PYTHON_CALL_MUTEX: std::sync::OnceLock<Mutex<()>> = std::sync::OnceLock::
 thread_local! {
     static CURRENT_PROBLEM_ID: Cell<usize> = const { Cell::new(0) };
     static CURRENT_CONSTRAINT_INDEX: Cell<usize> = const { Cell::new(0) };
+    // Guard of the Python call mutex while this thread evaluates an objective
+    static PYTHON_CALL_GUARD: RefCell<Option<MutexGuard<'static, ()>>> = const { RefCell::new(None) };
 }
 
 fn get_python_call_mutex() -> &'static Mutex<()> {
     PYTHON_CALL_MUTEX.get_or_init(|| Mutex::new(()))
 }
 
+// Serializes the Python call of this thread until it is dropped
+struct PythonCall;
+
+impl PythonCall {
+    fn begin() -> Self {
+        let guard = get_python_call_mutex().lock().unwrap_or_else(PoisonError::into_inner);
+        PYTHON_CALL_GUARD.with(|held| *held.borrow_mut() = Some(guard));
+        PythonCall
+    }
+
+    // Returns whether this thread was inside a Python call
+    fn end() -> bool {
+        PYTHON_CALL_GUARD.with(|held| held.borrow_mut().take()).is_some()
+    }
+}
+
+impl Drop for PythonCall {
+    fn drop(&mut self) {
+        Self::end();
+    }
+}
+
+// Runs an optimization. It may be requested by an objective that is being evaluated on this thread,
+// so the Python call and the problem ID of the outer optimization are set aside for its duration.
+fn run_nested<T>(run: impl FnOnce() -> T) -> T {
+    struct Outer {
+        problem_id: usize,
+        python_call: bool,
+    }
+
+    impl Drop for Outer {
+        fn drop(&mut self) {
+            set_current_problem_id(self.problem_id);
+            if self.python_call {
+                std::mem::forget(PythonCall::begin());
+            }
+        }
+    }
+
+    let _outer = Outer { problem_id: get_current_problem_id(), python_call: PythonCall::end() };
+    run()
+}
+
 fn get_constraint_registry() -> &'static ConstraintRegistry {
     CONSTRAINT_REGISTRY.get_or_init(|| Arc::new(Mutex::new(HashMap::new())))
 }
@@ -574,7 +619,7 @@ impl PyProblem {
 impl Problem for PyProblem {
     fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
         // Serialize Python calls from parallel threads to avoid GIL deadlocks
-        let _guard = get_python_call_mutex().lock().unwrap();
+        let _call = PythonCall::begin();
         Python::attach(|py| {
             let x_py = x
                 .to_vec()
@@ -951,10 +996,14 @@ fn optimize(
         // but ensure Python calls are properly synchronized
         let solution_set = if parallel_enabled {
             // Allow threads during parallel computation
-            py.detach(|| optimizer.run())
+            py.detach(|| run_nested(|| optimizer.run()))
         } else {
             // For serial execution, detach GIL as before
-            if should_detach_gil { py.detach(|| optimizer.run()) } else { optimizer.run() }
+            if should_detach_gil {
+                py.detach(|| run_nested(|| optimizer.run()))
+            } else {
+                run_nested(|| optimizer.run())
+            }
         };
 
         let binding = solution_set.map_err(|e| PyValueError::new_err(e.to_string()))?;
-- 
2.43.0


From dc58fd7ca28f4e67a9877750c45244182eef588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 24/26] fix: keep the best points in front when the reference
 set is truncated

---
 src/scatter_search.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 5cb1ed8..ac59793 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -870,8 +870,11 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // Now sort only the first k elements (these are guaranteed to be the k best globally)
         all_points[..k].sort_unstable_by(|a, b| cmp_objectives(a.1, b.1));
 
-        // Partition the remaining to get the pop_size best overall
-        all_points.select_nth_unstable_by(pop_size - 1, |a, b| cmp_objectives(a.1, b.1));
+        // Partition the remaining to get the pop_size best overall, leaving the k best in place
+        if pop_size > k {
+            all_points[k..]
+                .select_nth_unstable_by(pop_size - 1 - k, |a, b| cmp_objectives(a.1, b.1));
+        }
 
         // Truncate to keep only pop_size points
         all_points.truncate(pop_size);
-- 
2.43.0


From d621240080c24ab60372f8a51202c9a6eed9305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 25/26] fix: sum the near-duplicate distances in order in
 parallel runs too

---
 src/scatter_search.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index ac59793..4f06c0d 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -767,6 +767,9 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                                 &ref_set[(i + 1) % ref_set.len()],
                             )
                         })
+                        // A parallel sum would round differently from the sequential one
+                        .collect::<Vec<f64>>()
+                        .into_iter()
                         .sum::<f64>()
                 } else {
                     (0..sample_size)
-- 
2.43.0


From 13623912a29ad8237924b0b254c937c129e84f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 26/26] fix: check constraints of points with any memory layout

---
 src/scatter_search.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 4f06c0d..328dc66 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -950,7 +950,9 @@ fn is_feasible(point: &Array1<f64>, constraints: &[fn(&[f64], &mut ()) -> f64])
         return true;
     }
 
-    let x_slice = point.as_slice().expect("Failed to convert point to slice");
+    // Points given by the user keep the memory layout of the array they came from
+    let contiguous = point.as_standard_layout();
+    let x_slice = contiguous.as_slice().expect("Failed to convert point to slice");
 
     // Early exit on first violation for performance
     for constraint_fn in constraints {
-- 
2.43.0

