From 18b2fa128510dd2c7d4d45dd9a6f04951fc43cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 01/37] fix: size the evaluation buffer to the batch in
 s_r_cycle

With batching enabled and batch_size != n_rows, evaluating a mutated member
asserted on the output length and panicked.
---
 symbolic_regression/src/single_iteration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolic_regression/src/single_iteration.rs b/symbolic_regression/src/single_iteration.rs
index dedb956..67ef397 100644
--- a/symbolic_regression/src/single_iteration.rs
+++ b/symbolic_regression/src/single_iteration.rs
@@ -38,6 +38,7 @@ where
     let min_temp = if ctx.options.annealing { 0.0 } else { 1.0 };
     let ncycles = ctx.options.ncycles_per_iteration.max(1);
     let mut num_evals = 0.0;
+    ctx.evaluator.ensure_n_rows(eval_dataset.n_rows);
     let mut best_seen = HallOfFame::new(ctx.options.maxsize);
     best_seen.update_from_members(&pop.members, ctx.options, ctx.curmaxsize);
 
-- 
2.43.0


From a814773ad36b124234c48fa5fc2a71bfada9551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 02/37] fix: re-score best-seen members on the full dataset
 when batching

The hall of fame compared and reported losses measured on a random batch.
---
 symbolic_regression/src/single_iteration.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbolic_regression/src/single_iteration.rs b/symbolic_regression/src/single_iteration.rs
index 67ef397..58dd6a6 100644
--- a/symbolic_regression/src/single_iteration.rs
+++ b/symbolic_regression/src/single_iteration.rs
@@ -66,6 +66,15 @@ where
         );
         best_seen.update_from_members(&pop.members, ctx.options, ctx.curmaxsize);
     }
+
+    if ctx.options.batching {
+        // The losses above were measured on a batch; report full-dataset losses.
+        ctx.evaluator.ensure_n_rows(ctx.full_dataset.n_rows);
+        for m in best_seen.best_by_complexity.iter_mut().flatten() {
+            let _ = m.evaluate(&ctx.full_dataset, ctx.options, ctx.evaluator);
+            num_evals += 1.0;
+        }
+    }
     (num_evals, best_seen)
 }
 
-- 
2.43.0


From ac12b28c4b56ca52cefa783ac8c8d8132cfee281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 03/37] fix: propagate a worker panic instead of waiting
 forever for its result

The orchestrator keeps a sender alive, so a task that panicked before sending
left recv() blocked for ever.
---
 symbolic_regression/src/search_utils.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index f819038..d1e1b83 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -1,5 +1,6 @@
 use std::fmt::Display;
 use std::ops::AddAssign;
+use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
 
 use fastrand::Rng;
 use num_traits::Float;
@@ -515,7 +516,7 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
     let full_dataset = state.full_dataset;
     let options = state.options;
 
-    let (result_tx, result_rx) = std::sync::mpsc::channel::<SearchTaskResult<T, Ops, D>>();
+    let (result_tx, result_rx) = std::sync::mpsc::channel::<std::thread::Result<SearchTaskResult<T, Ops, D>>>();
 
     for _iter in 0..options.niterations {
         let mut task_order: Vec<usize> = (0..state.pools.pops.len()).collect();
@@ -540,13 +541,18 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
 
                 let result_tx = result_tx.clone();
                 scope.spawn(move |_| {
-                    let res = execute_task(full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st);
+                    let res = catch_unwind(AssertUnwindSafe(|| {
+                        execute_task(full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st)
+                    }));
                     let _ = result_tx.send(res);
                 });
                 in_flight += 1;
             }
 
-            let res = result_rx.recv().expect("worker result channel closed early");
+            let res = result_rx
+                .recv()
+                .expect("worker result channel closed early")
+                .unwrap_or_else(|panic| resume_unwind(panic));
             in_flight -= 1;
             apply_task_result(
                 options,
-- 
2.43.0


From bf78c6fd69b57cc25de18d55b55830c51fe4e33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 04/37] fix: do not orchestrate the search on a pool worker

rayon::scope moved the orchestrator into the pool, so with a single Rayon
thread the blocking recv() left nobody to run the tasks and the search hung.
---
 symbolic_regression/src/search_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index d1e1b83..e6e86c1 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -207,7 +207,9 @@ where
         order_rng,
     };
 
-    rayon::scope(|scope| {
+    // Orchestrate on the calling thread: `rayon::scope` would move this closure onto a pool worker,
+    // which then blocks waiting for results (and a single-threaded pool could never run a task).
+    rayon::in_place_scope(|scope| {
         run_scoped_search(scope, &mut state);
     });
     state.progress.finish();
-- 
2.43.0


From 56b1c36f070a29cdf08cee3aaf5d0be7c37d541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 05/37] fix: avoid starving concurrent searches orchestrated
 from one Rayon pool

Each orchestrator blocked its pool worker in recv(); as many concurrent
searches as threads deadlocked.
---
 symbolic_regression/src/search_utils.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index e6e86c1..8b093ff 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -1,6 +1,7 @@
 use std::fmt::Display;
 use std::ops::AddAssign;
 use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
+use std::sync::mpsc::Receiver;
 
 use fastrand::Rng;
 use num_traits::Float;
@@ -507,6 +508,19 @@ fn apply_task_result<T, Ops, const D: usize>(
     progress.on_cycle_complete(hall, pools.total_evals, cycles_remaining);
 }
 
+/// Receive the next task result. On a pool worker, run queued jobs before blocking: searches
+/// orchestrated concurrently from one pool could otherwise block all of its workers.
+fn recv_result<R>(result_rx: &Receiver<R>) -> R {
+    loop {
+        if let Ok(res) = result_rx.try_recv() {
+            return res;
+        }
+        if rayon::yield_now() != Some(rayon::Yield::Executed) {
+            return result_rx.recv().expect("worker result channel closed early");
+        }
+    }
+}
+
 fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
     scope: &rayon::Scope<'scope>,
     state: &mut EquationSearchState<'env, T, Ops, D>,
@@ -551,10 +565,7 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
                 in_flight += 1;
             }
 
-            let res = result_rx
-                .recv()
-                .expect("worker result channel closed early")
-                .unwrap_or_else(|panic| resume_unwind(panic));
+            let res = recv_result(&result_rx).unwrap_or_else(|panic| resume_unwind(panic));
             in_flight -= 1;
             apply_task_result(
                 options,
-- 
2.43.0


From 7fa4c2c4730973b4fbed9eea47a7b124e562ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 06/37] fix: keep the warmup size limit within maxsize when
 maxsize < 3

maxsize - 3 underflowed (panic in debug, an unbounded limit in release).
---
 symbolic_regression/src/warmup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/warmup.rs b/symbolic_regression/src/warmup.rs
index 1e24daf..b79e9f9 100644
--- a/symbolic_regression/src/warmup.rs
+++ b/symbolic_regression/src/warmup.rs
@@ -12,7 +12,8 @@ pub fn get_cur_maxsize<T: Float, const D: usize>(
     let in_warmup = fraction_elapsed <= options.warmup_maxsize_by;
 
     if options.warmup_maxsize_by > 0.0 && in_warmup {
-        3 + (((options.maxsize - 3) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
+        let min_size = options.maxsize.min(3);
+        min_size + (((options.maxsize - min_size) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
     } else {
         options.maxsize
     }
-- 
2.43.0


From 7e2296f50427de3d15f9afcfab223ba41db2f881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 07/37] fix: let a feasible member replace an infeasible
 initial best

When no initial member satisfies the constraints, best falls back to an
infeasible one; its loss could then shut out every feasible member.
---
 symbolic_regression/src/search_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 8b093ff..48f38a5 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -470,7 +470,9 @@ fn apply_task_result<T, Ops, const D: usize>(
     }
     for m in &st.pop.members {
         hall.consider(m, options, curmaxsize);
-        if check_constraints(&m.expr, options, curmaxsize) && m.loss < pools.best.loss {
+        if check_constraints(&m.expr, options, curmaxsize)
+            && (m.loss < pools.best.loss || !check_constraints(&pools.best.expr, options, options.maxsize))
+        {
             pools.best = m.clone();
         }
     }
-- 
2.43.0


From 222ef3db1211a3a185a6b1f9e33308a9c3e2878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 08/37] fix: do not combine subtraction with a non-binary
 operator of the same id

Operator ids are per arity: with the builtin set, 2 - atanh(x) simplified to 4 - x.
---
 dynamic_expressions/src/simplify.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynamic_expressions/src/simplify.rs b/dynamic_expressions/src/simplify.rs
index 35ef764..35b59f2 100644
--- a/dynamic_expressions/src/simplify.rs
+++ b/dynamic_expressions/src/simplify.rs
@@ -188,7 +188,7 @@ fn combine_node<T: Float, const D: usize>(
 
         // Pattern 1 / 2: left is const, right is (sub ...).
         if let Some(a_idx) = is_const(arena, left) {
-            if let Some((_r_arity, r_children)) = is_op(arena, right, op) {
+            if let Some((2, r_children)) = is_op(arena, right, op) {
                 let r0 = r_children[0];
                 let r1 = r_children[1];
                 let a_v = consts[a_idx as usize];
@@ -237,7 +237,7 @@ fn combine_node<T: Float, const D: usize>(
 
         // Pattern 3 / 4: right is const, left is (sub ...).
         if let Some(b_idx) = is_const(arena, right) {
-            if let Some((_l_arity, l_children)) = is_op(arena, left, op) {
+            if let Some((2, l_children)) = is_op(arena, left, op) {
                 let l0 = l_children[0];
                 let l1 = l_children[1];
                 let b_v = consts[b_idx as usize];
-- 
2.43.0


From a7ac25406c5577a52f6611c6856aefcbf73c1d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 09/37] fix: give simplified and re-optimized members a fresh
 id

They kept the id of the expression they replaced, so two different equations
in the hall of fame could share an id (and be evaluated as one another by id).
---
 symbolic_regression/src/single_iteration.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/symbolic_regression/src/single_iteration.rs b/symbolic_regression/src/single_iteration.rs
index 58dd6a6..8f3fb5f 100644
--- a/symbolic_regression/src/single_iteration.rs
+++ b/symbolic_regression/src/single_iteration.rs
@@ -8,7 +8,7 @@ use crate::constant_optimization::{OptimizeConstantsCtx, optimize_constants};
 use crate::dataset::TaggedDataset;
 use crate::hall_of_fame::HallOfFame;
 use crate::options::Options;
-use crate::pop_member::Evaluator;
+use crate::pop_member::{Evaluator, MemberId};
 use crate::population::Population;
 use crate::regularized_evolution::{RegEvolCtx, reg_evol_cycle};
 
@@ -94,6 +94,9 @@ where
             let changed = dynamic_expressions::simplify_in_place(&mut m.expr, &ctx.evaluator.eval_opts);
             if changed {
                 m.rebuild_plan(ctx.full_dataset.n_features);
+                m.parent = Some(m.id);
+                m.id = MemberId(*ctx.next_id);
+                *ctx.next_id += 1;
             }
         }
     }
@@ -114,7 +117,11 @@ where
                         next_birth: ctx.next_birth,
                     },
                 );
-                let _ = improved;
+                if improved {
+                    m.parent = Some(m.id);
+                    m.id = MemberId(*ctx.next_id);
+                    *ctx.next_id += 1;
+                }
                 num_evals += evals;
             }
         }
-- 
2.43.0


From 113859d15236475d355c49da81f7ad98ced02e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 10/37] fix: never put every row in the validation split

With few rows, rounding (e.g. 0.9 of 5) left no training data at all.
---
 web/wasm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index d8f6467..df11e89 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -651,7 +651,7 @@ fn make_split_indices(n_rows: usize, validation_fraction: f64, seed: u64) -> Was
     }
 
     let vf = validation_fraction.clamp(0.0, 0.9);
-    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows);
+    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows - 1);
     if n_val == 0 {
         return WasmSplitIndices {
             train: (0..n_rows).collect(),
-- 
2.43.0


From 99113ce7146cc7b07658bb6623d87fcd77aeda4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 11/37] fix: center y on its unweighted mean in the unweighted
 correlation

With weights, the weighted mean inflated the variance of y, so even a perfect
prediction had a correlation below 1.
---
 web/wasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index df11e89..2cd790c 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -508,6 +508,7 @@ fn r2_and_corr(yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> (f64, f64) {
 
     // Unweighted Pearson correlation.
     let yh_mean = yhat.iter().sum::<f64>() / (yhat.len() as f64);
+    let y_mean = y.iter().sum::<f64>() / (y.len() as f64);
     let mut cov = 0.0;
     let mut vy = 0.0;
     let mut vyh = 0.0;
-- 
2.43.0


From 7dcc81fb8ec92c273346ef1c3e11b6aabd8038f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 12/37] fix: stop a sleeping run loop from reviving after pause
 or reset

A loop asleep between batches saw running=true again when pause (or reset and
init) was quickly followed by start, so two loops stepped the same search; after
a reset it also posted a stale "paused".
---
 web/ui/src/worker/srWorker.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/web/ui/src/worker/srWorker.ts b/web/ui/src/worker/srWorker.ts
index 2c8dda4..65e5316 100644
--- a/web/ui/src/worker/srWorker.ts
+++ b/web/ui/src/worker/srWorker.ts
@@ -5,6 +5,9 @@ import type { WorkerFromWorkerMsg, WorkerToWorkerMsg } from "./protocol";
 
 let search: WasmSearch | null = null;
 let running = false;
+// Identifies the current run loop: a loop that is still asleep when a pause or reset is followed
+// by a new start must not come back to life.
+let loopId = 0;
 
 const SNAPSHOT_INTERVAL_MS = 200;
 const FRONT_INTERVAL_MS = 250;
@@ -27,10 +30,11 @@ async function runLoop(): Promise<void> {
   }
 
   running = true;
+  const id = ++loopId;
   let lastSnap = 0;
   let lastFront = 0;
 
-  while (running && !search.is_finished()) {
+  while (running && id === loopId && !search.is_finished()) {
     search.step(STEP_CYCLES);
 
     const now = performance.now();
@@ -48,8 +52,7 @@ async function runLoop(): Promise<void> {
     await sleep0();
   }
 
-  if (!running) {
-    post({ type: "paused" });
+  if (!running || id !== loopId) {
     return;
   }
 
-- 
2.43.0


From 46d2f590168024a8be75fa95c8396a311b31659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 13/37] fix: report an error thrown by the running search to
 the UI

The loop's rejection was dropped and running stayed true, so the UI showed a
running search for ever and start was ignored.
---
 web/ui/src/worker/srWorker.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/ui/src/worker/srWorker.ts b/web/ui/src/worker/srWorker.ts
index 65e5316..c492008 100644
--- a/web/ui/src/worker/srWorker.ts
+++ b/web/ui/src/worker/srWorker.ts
@@ -129,7 +129,10 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
         return;
       }
       if (!running) {
-        void runLoop();
+        runLoop().catch((err) => {
+          running = false;
+          post({ type: "error", error: String(err) });
+        });
       }
       return;
     }
-- 
2.43.0


From 9583021992921c74f4adcc92900a2d57e1ab5a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 14/37] hooks: event sink and re-exports for the verification
 harness (cfg sr_verif)

---
 symbolic_regression/src/lib.rs          |   4 +
 symbolic_regression/src/search_utils.rs | 145 ++++++++++++++++++++++-
 symbolic_regression/src/verif_hooks.rs  | 150 ++++++++++++++++++++++++
 web/wasm/src/lib.rs                     |  57 +++++++++
 4 files changed, 353 insertions(+), 3 deletions(-)
 create mode 100644 symbolic_regression/src/verif_hooks.rs

diff --git a/symbolic_regression/src/lib.rs b/symbolic_regression/src/lib.rs
index 0eaab57..60cb18c 100644
--- a/symbolic_regression/src/lib.rs
+++ b/symbolic_regression/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // `sr_verif`, set by the verification harness only
+
 #[cfg(all(target_arch = "wasm32", not(target_feature = "atomics")))]
 compile_error!(
     "symbolic_regression requires wasm threads/atomics when targeting wasm32. \
@@ -31,6 +33,8 @@ pub(crate) mod warmup;
 
 #[cfg(feature = "bench")]
 pub mod bench;
+#[cfg(sr_verif)]
+pub mod verif_hooks;
 
 pub use check_constraints::{NestedConstraints, OpConstraints};
 pub use complexity::compute_complexity;
diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 48f38a5..9271cfc 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -364,6 +364,8 @@ where
 
         let mut stats_snapshot = self.stats.clone();
         stats_snapshot.normalize();
+        #[cfg(sr_verif)]
+        verif::on_dispatch(pop_idx, curmaxsize, &stats_snapshot, &self.counters, &self.stats, &self.hall, &self.pools);
 
         let full_dataset = self.full_dataset_tagged();
         let res = execute_task(
@@ -419,6 +421,9 @@ where
     T: Float + num_traits::FromPrimitive + num_traits::ToPrimitive + AddAssign,
     Ops: dynamic_expressions::OperatorSet<T = T>,
 {
+    #[cfg(sr_verif)]
+    verif::on_task_start(pop_idx, curmaxsize, &pop_state);
+
     let (evals1, best_seen) =
         pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, eval_dataset| {
             single_iteration::s_r_cycle(pop, ctx, eval_dataset)
@@ -431,14 +436,17 @@ where
 
     let best_sub_pop = migration::best_sub_pop(&pop_state.pop, options.topn);
 
-    SearchTaskResult {
+    let res = SearchTaskResult {
         pop_idx,
         curmaxsize,
         evals,
         best_seen,
         best_sub_pop,
         pop_state,
-    }
+    };
+    #[cfg(sr_verif)]
+    verif::on_task_end(&res);
+    res
 }
 
 fn apply_task_result<T, Ops, const D: usize>(
@@ -453,6 +461,9 @@ fn apply_task_result<T, Ops, const D: usize>(
     T: Float + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + AddAssign,
     Ops: dynamic_expressions::OperatorSet<T = T>,
 {
+    #[cfg(sr_verif)]
+    verif::on_apply_start(&res);
+
     pools.total_evals = pools.total_evals.saturating_add(res.evals);
 
     let pop_idx = res.pop_idx;
@@ -508,6 +519,9 @@ fn apply_task_result<T, Ops, const D: usize>(
 
     let cycles_remaining = counters.mark_completed();
     progress.on_cycle_complete(hall, pools.total_evals, cycles_remaining);
+
+    #[cfg(sr_verif)]
+    verif::on_apply_end(pop_idx, counters, stats, hall, pools);
 }
 
 /// Receive the next task result. On a pool worker, run queued jobs before blocking: searches
@@ -556,6 +570,16 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
                 let curmaxsize = warmup::get_cur_maxsize(options, state.counters.total_cycles, cycles_remaining_start);
                 let mut stats_snapshot = state.stats.clone();
                 stats_snapshot.normalize();
+                #[cfg(sr_verif)]
+                verif::on_dispatch(
+                    pop_idx,
+                    curmaxsize,
+                    &stats_snapshot,
+                    &state.counters,
+                    &state.stats,
+                    &state.hall,
+                    &state.pools,
+                );
 
                 let result_tx = result_tx.clone();
                 scope.spawn(move |_| {
@@ -665,10 +689,125 @@ where
         best_sub_pops[i] = migration::best_sub_pop(&st.pop, options.topn);
     }
 
-    PopPools {
+    let pools = PopPools {
         pops,
         best_sub_pops,
         best,
         total_evals,
+    };
+    #[cfg(sr_verif)]
+    verif::on_init(&pools, hall);
+    pools
+}
+
+#[cfg(sr_verif)]
+mod verif {
+    use super::*;
+    use crate::verif_hooks::{Event, StateView, emit, hall_views, member_view, member_views};
+
+    fn state_view<T: Float + AddAssign, Ops, const D: usize>(
+        counters: &SearchCounters,
+        stats: &RunningSearchStatistics,
+        hall: &HallOfFame<T, Ops, D>,
+        pools: &PopPools<T, Ops, D>,
+    ) -> StateView {
+        StateView {
+            total_cycles: counters.total_cycles,
+            cycles_started: counters.cycles_started,
+            cycles_completed: counters.cycles_completed,
+            total_evals: pools.total_evals,
+            present: pools.pops.iter().map(|p| p.is_some()).collect(),
+            hall: hall_views(hall),
+            best: member_view(&pools.best),
+            best_sub_pops: pools.best_sub_pops.iter().map(|v| member_views(v)).collect(),
+            frequencies: stats.frequencies.clone(),
+        }
+    }
+
+    pub(super) fn on_init<T: Float + AddAssign, Ops, const D: usize>(
+        pools: &PopPools<T, Ops, D>,
+        hall: &HallOfFame<T, Ops, D>,
+    ) {
+        emit(|| Event::Init {
+            pops: pools.pops.iter().flatten().map(|p| member_views(&p.pop.members)).collect(),
+            hall: hall_views(hall),
+            best: member_view(&pools.best),
+            best_sub_pops: pools.best_sub_pops.iter().map(|v| member_views(v)).collect(),
+            total_evals: pools.total_evals,
+        });
+    }
+
+    pub(super) fn on_dispatch<T: Float + AddAssign, Ops, const D: usize>(
+        pop: usize,
+        curmaxsize: usize,
+        snapshot: &RunningSearchStatistics,
+        counters: &SearchCounters,
+        stats: &RunningSearchStatistics,
+        hall: &HallOfFame<T, Ops, D>,
+        pools: &PopPools<T, Ops, D>,
+    ) {
+        emit(|| Event::Dispatch {
+            pop,
+            curmaxsize,
+            normalized_frequencies: snapshot.normalized_frequencies.clone(),
+            state: state_view(counters, stats, hall, pools),
+        });
+    }
+
+    pub(super) fn on_task_start<T: Float + AddAssign, Ops, const D: usize>(
+        pop: usize,
+        curmaxsize: usize,
+        st: &PopState<T, Ops, D>,
+    ) {
+        emit(|| Event::TaskStart {
+            pop,
+            curmaxsize,
+            members: member_views(&st.pop.members),
+            next_id: st.next_id,
+            next_birth: st.next_birth,
+        });
+    }
+
+    pub(super) fn on_task_end<T: Float + AddAssign, Ops, const D: usize>(res: &SearchTaskResult<T, Ops, D>) {
+        emit(|| Event::TaskEnd {
+            pop: res.pop_idx,
+            curmaxsize: res.curmaxsize,
+            evals: res.evals,
+            best_seen: hall_views(&res.best_seen),
+            best_sub_pop: member_views(&res.best_sub_pop),
+            members: member_views(&res.pop_state.pop.members),
+        });
+    }
+
+    pub(super) fn on_apply_start<T: Float + AddAssign, Ops, const D: usize>(res: &SearchTaskResult<T, Ops, D>) {
+        emit(|| Event::ApplyStart {
+            pop: res.pop_idx,
+            curmaxsize: res.curmaxsize,
+            evals: res.evals,
+            best_seen: hall_views(&res.best_seen),
+            best_sub_pop: member_views(&res.best_sub_pop),
+            members: member_views(&res.pop_state.pop.members),
+            next_id: res.pop_state.next_id,
+            next_birth: res.pop_state.next_birth,
+        });
+    }
+
+    pub(super) fn on_apply_end<T: Float + AddAssign, Ops, const D: usize>(
+        pop: usize,
+        counters: &SearchCounters,
+        stats: &RunningSearchStatistics,
+        hall: &HallOfFame<T, Ops, D>,
+        pools: &PopPools<T, Ops, D>,
+    ) {
+        emit(|| {
+            let st = pools.pops[pop].as_ref().expect("applied population is present");
+            Event::ApplyEnd {
+                pop,
+                members: member_views(&st.pop.members),
+                next_id: st.next_id,
+                next_birth: st.next_birth,
+                state: state_view(counters, stats, hall, pools),
+            }
+        });
     }
 }
diff --git a/symbolic_regression/src/verif_hooks.rs b/symbolic_regression/src/verif_hooks.rs
new file mode 100644
index 0000000..f980775
--- /dev/null
+++ b/symbolic_regression/src/verif_hooks.rs
@@ -0,0 +1,150 @@
+//! Verification hooks, compiled only with `--cfg sr_verif`.
+//!
+//! Re-exports the internals a verification harness drives directly and emits one event per
+//! transition of the search orchestrator. Nothing here changes the behaviour of the search.
+
+use std::sync::{Arc, RwLock};
+
+use dynamic_expressions::node::PNode;
+use num_traits::Float;
+
+pub use crate::adaptive_parsimony::RunningSearchStatistics;
+pub use crate::check_constraints::check_constraints;
+pub use crate::constant_optimization::{OptimizeConstantsCtx, optimize_constants};
+use crate::hall_of_fame::HallOfFame;
+pub use crate::loss_functions::{LossFn, LossObject, baseline_loss_from_zero_expression, loss_to_cost};
+pub use crate::migration::{best_sub_pop, migrate_into};
+pub use crate::mutate::{CrossoverCtx, NextGenerationCtx, crossover_generation, next_generation};
+pub use crate::mutation_functions::{random_expr, random_expr_append_ops};
+pub use crate::pop_member::Evaluator;
+use crate::pop_member::PopMember;
+pub use crate::population::Population;
+pub use crate::regularized_evolution::{RegEvolCtx, reg_evol_cycle};
+pub use crate::selection::best_of_sample;
+pub use crate::single_iteration::{IterationCtx, optimize_and_simplify_population, s_r_cycle};
+pub use crate::warmup::get_cur_maxsize;
+
+/// Type-erased view of a population member.
+#[derive(Clone, Debug)]
+pub struct MemberView {
+    pub id: u64,
+    pub parent: Option<u64>,
+    pub birth: u64,
+    pub complexity: usize,
+    pub loss: f64,
+    pub cost: f64,
+    pub nodes: Vec<PNode>,
+    pub consts: Vec<f64>,
+}
+
+pub fn member_view<T: Float, Ops, const D: usize>(m: &PopMember<T, Ops, D>) -> MemberView {
+    let f = |v: &T| v.to_f64().unwrap_or(f64::NAN);
+    MemberView {
+        id: m.id.0,
+        parent: m.parent.map(|p| p.0),
+        birth: m.birth,
+        complexity: m.complexity,
+        loss: f(&m.loss),
+        cost: f(&m.cost),
+        nodes: m.expr.nodes.clone(),
+        consts: m.expr.consts.iter().map(f).collect(),
+    }
+}
+
+pub fn member_views<T: Float, Ops, const D: usize>(ms: &[PopMember<T, Ops, D>]) -> Vec<MemberView> {
+    ms.iter().map(member_view).collect()
+}
+
+/// `(slot, member)` for every occupied slot.
+pub fn hall_views<T: Float, Ops, const D: usize>(h: &HallOfFame<T, Ops, D>) -> Vec<(usize, MemberView)> {
+    h.best_by_complexity
+        .iter()
+        .enumerate()
+        .filter_map(|(i, m)| m.as_ref().map(|m| (i, member_view(m))))
+        .collect()
+}
+
+/// State of the orchestrator that every event can observe.
+#[derive(Clone, Debug)]
+pub struct StateView {
+    pub total_cycles: usize,
+    pub cycles_started: usize,
+    pub cycles_completed: usize,
+    pub total_evals: u64,
+    /// Which populations are currently held by the orchestrator (not in flight).
+    pub present: Vec<bool>,
+    pub hall: Vec<(usize, MemberView)>,
+    pub best: MemberView,
+    pub best_sub_pops: Vec<Vec<MemberView>>,
+    pub frequencies: Vec<f64>,
+}
+
+#[derive(Clone, Debug)]
+pub enum Event {
+    Init {
+        pops: Vec<Vec<MemberView>>,
+        hall: Vec<(usize, MemberView)>,
+        best: MemberView,
+        best_sub_pops: Vec<Vec<MemberView>>,
+        total_evals: u64,
+    },
+    Dispatch {
+        pop: usize,
+        curmaxsize: usize,
+        normalized_frequencies: Vec<f64>,
+        state: StateView,
+    },
+    TaskStart {
+        pop: usize,
+        curmaxsize: usize,
+        members: Vec<MemberView>,
+        next_id: u64,
+        next_birth: u64,
+    },
+    /// The task is done but its result is not visible to the orchestrator yet.
+    TaskEnd {
+        pop: usize,
+        curmaxsize: usize,
+        evals: u64,
+        best_seen: Vec<(usize, MemberView)>,
+        best_sub_pop: Vec<MemberView>,
+        members: Vec<MemberView>,
+    },
+    ApplyStart {
+        pop: usize,
+        curmaxsize: usize,
+        evals: u64,
+        best_seen: Vec<(usize, MemberView)>,
+        best_sub_pop: Vec<MemberView>,
+        members: Vec<MemberView>,
+        next_id: u64,
+        next_birth: u64,
+    },
+    ApplyEnd {
+        pop: usize,
+        members: Vec<MemberView>,
+        next_id: u64,
+        next_birth: u64,
+        state: StateView,
+    },
+}
+
+type Sink = Arc<dyn Fn(Event) + Send + Sync>;
+static SINK: RwLock<Option<Sink>> = RwLock::new(None);
+
+/// Install (or remove) the event sink. It runs on the thread where the event happens and may block
+/// (to force a schedule) or panic (to inject a fault).
+pub fn set_sink(sink: Option<Sink>) {
+    *SINK.write().unwrap_or_else(|e| e.into_inner()) = sink;
+}
+
+pub(crate) fn emit(event: impl FnOnce() -> Event) {
+    let sink = SINK.read().unwrap_or_else(|e| e.into_inner()).clone();
+    if let Some(sink) = sink {
+        sink(event());
+    }
+}
+
+pub fn sample_weighted(rng: &mut fastrand::Rng, weights: &[f64]) -> usize {
+    crate::selection::weighted_index(rng, weights)
+}
diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 2cd790c..1bf6919 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // `sr_verif`, set by the verification harness only
+
 use std::io::Cursor;
 
 use csv::ReaderBuilder;
@@ -716,6 +718,61 @@ fn select_rows(
     Ok((xo, yo, wo))
 }
 
+/// Verification hooks, compiled only with `--cfg sr_verif`.
+#[cfg(sr_verif)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub type Engine = SearchEngine<f64, BuiltinOpsF64, 3>;
+    pub type Member = symbolic_regression::PopMember<f64, BuiltinOpsF64, 3>;
+
+    pub fn parse_csv(csv_text: &str, has_headers: bool) -> Result<(Vec<String>, Vec<Vec<f64>>), String> {
+        parse_csv_to_rows(csv_text, has_headers)
+    }
+
+    pub fn full_dataset(
+        headers: &[String],
+        rows: &[Vec<f64>],
+        opts: &WasmSearchOptions,
+    ) -> Result<FullDatasetParts, String> {
+        build_full_dataset(headers, rows, opts)
+    }
+
+    pub fn split_indices(n_rows: usize, validation_fraction: f64, seed: u64) -> WasmSplitIndices {
+        make_split_indices(n_rows, validation_fraction, seed)
+    }
+
+    pub fn split(
+        all: &Dataset<f64>,
+        weights: Option<&Array1<f64>>,
+        names: &[String],
+        split: &WasmSplitIndices,
+    ) -> Result<(Dataset<f64>, Option<Dataset<f64>>), String> {
+        split_train_val(all, weights, names, split)
+    }
+
+    pub fn metrics(yhat: &[f64], dataset: &Dataset<f64>) -> WasmMetrics {
+        compute_metrics(yhat, dataset)
+    }
+
+    pub fn find_member(engine: &Engine, id: u64) -> Option<Member> {
+        find_member_by_id(engine, id)
+    }
+
+    pub fn engine_snapshot(engine: &Engine, pareto_k: usize) -> SearchSnapshot {
+        snapshot(engine, pareto_k)
+    }
+
+    pub fn summary(engine: &Engine, m: &Member) -> EquationSummary {
+        summary_from_member(engine, m)
+    }
+
+    /// Only call with options that are accepted: the error path needs a JS host.
+    pub fn options(opts: &WasmSearchOptions, operators: Operators<3>) -> Options<f64, 3> {
+        options_from_wasm(opts, operators).unwrap_or_else(|_| panic!("options rejected"))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::WasmSearchOptions;
-- 
2.43.0


From 2a1bcfbb128b4749bac1c46bf6e558bb9091b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 15/37] fix: let the best members seen during a cycle compete
 for the overall best

best only looked at members still in the population at the end of the cycle, so
it could be worse than an equation already in the hall of fame.
---
 symbolic_regression/src/search_utils.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 9271cfc..16cf2e9 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -476,10 +476,7 @@ fn apply_task_result<T, Ops, const D: usize>(
     stats.update_from_population(st.pop.members.iter().map(|m| m.complexity));
     stats.move_window();
 
-    for m in res.best_seen.members() {
-        hall.consider(m, options, curmaxsize);
-    }
-    for m in &st.pop.members {
+    for m in res.best_seen.members().chain(&st.pop.members) {
         hall.consider(m, options, curmaxsize);
         if check_constraints(&m.expr, options, curmaxsize)
             && (m.loss < pools.best.loss || !check_constraints(&pools.best.expr, options, options.maxsize))
-- 
2.43.0


From ef90fd36b57928f12b0ae84d1efb6a563e1c3b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 16/37] fix: do not reuse a compiled plan for a different
 expression with the same hash

---
 dynamic_expressions/src/evaluate.rs            | 13 +++++++------
 dynamic_expressions/src/evaluate_derivative.rs | 16 ++++++++++++----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index 4e53990..37965b1 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -1,10 +1,10 @@
 use ndarray::{Array2, ArrayView2};
 use num_traits::Float;
 
-use crate::compile::{EvalPlan, build_node_hash, compile_plan};
+use crate::compile::{EvalPlan, compile_plan};
 use crate::dispatch::{EvalKernelCtx, GradRef, SrcRef};
 use crate::expression::PostfixExpr;
-use crate::node::Src;
+use crate::node::{PNode, Src};
 use crate::traits::{OpId, OperatorSet};
 
 #[derive(Copy, Clone, Debug)]
@@ -27,6 +27,7 @@ pub struct EvalContext<T: Float, const D: usize> {
     pub scratch: Option<Array2<T>>,
     pub n_rows: usize,
     pub plan: Option<EvalPlan<D>>,
+    pub plan_nodes: Vec<PNode>,
     pub plan_nodes_len: usize,
     pub plan_n_consts: usize,
     pub plan_n_features: usize,
@@ -38,6 +39,7 @@ impl<T: Float, const D: usize> EvalContext<T, D> {
             scratch: None,
             n_rows,
             plan: None,
+            plan_nodes: Vec::new(),
             plan_nodes_len: 0,
             plan_n_consts: 0,
             plan_n_features: 0,
@@ -47,6 +49,7 @@ impl<T: Float, const D: usize> EvalContext<T, D> {
     pub fn setup<Ops>(&mut self, expr: &PostfixExpr<T, Ops, D>, x_columns: ArrayView2<'_, T>) {
         if self.needs_recompile(expr, x_columns) {
             self.plan = Some(compile_plan::<D>(&expr.nodes, x_columns.nrows(), expr.consts.len()));
+            self.plan_nodes.clone_from(&expr.nodes);
             self.plan_nodes_len = expr.nodes.len();
             self.plan_n_consts = expr.consts.len();
             self.plan_n_features = x_columns.nrows();
@@ -63,10 +66,8 @@ impl<T: Float, const D: usize> EvalContext<T, D> {
         {
             return true;
         }
-        let Some(plan) = &self.plan else {
-            return true;
-        };
-        plan.hash != build_node_hash(&expr.nodes)
+        // A hash of the nodes is not enough here: different expressions can share it.
+        self.plan_nodes != expr.nodes
     }
 
     fn ensure_scratch(&mut self, n_slots: usize) {
diff --git a/dynamic_expressions/src/evaluate_derivative.rs b/dynamic_expressions/src/evaluate_derivative.rs
index 3d1b21f..ddba064 100644
--- a/dynamic_expressions/src/evaluate_derivative.rs
+++ b/dynamic_expressions/src/evaluate_derivative.rs
@@ -1,11 +1,11 @@
 use ndarray::{Array2, ArrayView2};
 use num_traits::Float;
 
-use crate::compile::{EvalPlan, build_node_hash, compile_plan};
+use crate::compile::{EvalPlan, compile_plan};
 use crate::dispatch::{DiffKernelCtx, GradKernelCtx, GradRef, SrcRef};
 use crate::evaluate::{EvalOptions, resolve_der_src, resolve_grad_src, resolve_val_src};
 use crate::expression::PostfixExpr;
-use crate::node::Src;
+use crate::node::{PNode, Src};
 use crate::traits::{OpId, OperatorSet};
 use crate::utils::ZipEq;
 
@@ -15,6 +15,7 @@ pub struct DiffContext<T: Float, const D: usize> {
     pub der_scratch: Array2<T>,
     pub n_rows: usize,
     pub plan: Option<EvalPlan<D>>,
+    pub plan_nodes: Vec<PNode>,
     pub plan_nodes_len: usize,
     pub plan_n_consts: usize,
     pub plan_n_features: usize,
@@ -27,6 +28,7 @@ impl<T: Float, const D: usize> DiffContext<T, D> {
             der_scratch: Array2::zeros((0, 0)),
             n_rows,
             plan: None,
+            plan_nodes: Vec::new(),
             plan_nodes_len: 0,
             plan_n_consts: 0,
             plan_n_features: 0,
@@ -49,6 +51,7 @@ pub struct GradContext<T: Float, const D: usize> {
     pub grad_scratch: Array2<T>, // slot-major, each len n_dir*n_rows
     pub n_rows: usize,
     pub plan: Option<EvalPlan<D>>,
+    pub plan_nodes: Vec<PNode>,
     pub plan_nodes_len: usize,
     pub plan_n_consts: usize,
     pub plan_n_features: usize,
@@ -61,6 +64,7 @@ impl<T: Float, const D: usize> GradContext<T, D> {
             grad_scratch: Array2::zeros((0, 0)),
             n_rows,
             plan: None,
+            plan_nodes: Vec::new(),
             plan_nodes_len: 0,
             plan_n_consts: 0,
             plan_n_features: 0,
@@ -117,9 +121,11 @@ where
     let needs_recompile = ctx.plan_nodes_len != expr.nodes.len()
         || ctx.plan_n_consts != expr.consts.len()
         || ctx.plan_n_features != n_features
-        || ctx.plan.as_ref().is_none_or(|p| p.hash != build_node_hash(&expr.nodes));
+        || ctx.plan.is_none()
+        || ctx.plan_nodes != expr.nodes;
     if needs_recompile {
         ctx.plan = Some(compile_plan::<D>(&expr.nodes, n_features, expr.consts.len()));
+        ctx.plan_nodes.clone_from(&expr.nodes);
         ctx.plan_nodes_len = expr.nodes.len();
         ctx.plan_n_consts = expr.consts.len();
         ctx.plan_n_features = n_features;
@@ -245,10 +251,12 @@ where
     let needs_recompile = ctx.plan_nodes_len != expr.nodes.len()
         || ctx.plan_n_consts != expr.consts.len()
         || ctx.plan_n_features != x_columns.nrows()
-        || ctx.plan.as_ref().is_none_or(|p| p.hash != build_node_hash(&expr.nodes));
+        || ctx.plan.is_none()
+        || ctx.plan_nodes != expr.nodes;
 
     if needs_recompile {
         ctx.plan = Some(compile_plan::<D>(&expr.nodes, x_columns.nrows(), expr.consts.len()));
+        ctx.plan_nodes.clone_from(&expr.nodes);
         ctx.plan_nodes_len = expr.nodes.len();
         ctx.plan_n_consts = expr.consts.len();
         ctx.plan_n_features = x_columns.nrows();
-- 
2.43.0


From ec7fa1ad10a843727a476853f0e70f9f8d244407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 17/37] fix: report non-finite inputs returned directly as
 incomplete under check_finite

---
 dynamic_expressions/src/evaluate.rs           |  9 ++++++++-
 .../src/evaluate_derivative.rs                | 19 +++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index 37965b1..4c8eb72 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -255,7 +255,14 @@ where
 
     match plan.root {
         Src::Var(f) => {
-            out.copy_from_slice(&x_data[f as usize * n_rows..(f as usize + 1) * n_rows]);
+            let col = &x_data[f as usize * n_rows..(f as usize + 1) * n_rows];
+            if opts.check_finite && col.iter().any(|v| !v.is_finite()) {
+                complete = false;
+                if opts.early_exit {
+                    return false;
+                }
+            }
+            out.copy_from_slice(col);
         }
         Src::Const(c) => {
             let v = expr.consts[c as usize];
diff --git a/dynamic_expressions/src/evaluate_derivative.rs b/dynamic_expressions/src/evaluate_derivative.rs
index ddba064..d06405e 100644
--- a/dynamic_expressions/src/evaluate_derivative.rs
+++ b/dynamic_expressions/src/evaluate_derivative.rs
@@ -203,7 +203,15 @@ where
         Src::Var(f) => {
             let start = f as usize * n_rows;
             let end = start + n_rows;
-            out.copy_from_slice(&x_data[start..end]);
+            let col = &x_data[start..end];
+            if opts.check_finite && col.iter().any(|v| !v.is_finite()) {
+                complete = false;
+                if opts.early_exit {
+                    let nan = T::nan();
+                    return (vec![nan; n_rows], vec![nan; n_rows], false);
+                }
+            }
+            out.copy_from_slice(col);
             for v in &mut der {
                 *v = if f as usize == direction { T::one() } else { T::zero() };
             }
@@ -337,7 +345,14 @@ where
         Src::Var(f) => {
             let start = f as usize * n_rows;
             let end = start + n_rows;
-            out_val.copy_from_slice(&x_data[start..end]);
+            let col = &x_data[start..end];
+            if opts.check_finite && col.iter().any(|v| !v.is_finite()) {
+                complete = false;
+                if opts.early_exit {
+                    return nan_grad_return(n_rows, n_dir);
+                }
+            }
+            out_val.copy_from_slice(col);
             if variable {
                 for (dir, grad_dir) in out_grad.chunks_mut(n_rows).enumerate() {
                     if dir == f as usize {
-- 
2.43.0


From a7e6e96cf127b19d1fc4309f5a09acd4ff277f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 18/37] fix: drop chain-rule terms of arguments that do not
 move

---
 dynamic_expressions/src/evaluate.rs | 33 +++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index 4c8eb72..9e37354 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -386,6 +386,13 @@ pub mod kernels {
         }
     }
 
+    /// One chain-rule term. An argument that does not move contributes nothing, even where the
+    /// partial derivative with respect to it is undefined (`x^2` at `x < 0` has no `d/dy x^y`).
+    #[inline]
+    fn chain_term<T: Float>(partial: impl FnOnce() -> T, d: T) -> T {
+        if d.is_zero() { T::zero() } else { partial() * d }
+    }
+
     #[inline]
     fn grad_unary_loop<T: Float, F, const A: usize>(out: &mut [T], x: ArgView<'_, T>, dx: ArgView<'_, T>, partial: F)
     where
@@ -396,13 +403,13 @@ pub mod kernels {
             (ArgView::Slice(x_s), ArgView::Slice(dx_s)) => {
                 for ((outg, &xv), &dxv) in out.iter_mut().zip_eq(x_s).zip_eq(dx_s) {
                     let vals = vals1(xv);
-                    *outg = partial(&vals, 0) * dxv;
+                    *outg = chain_term(|| partial(&vals, 0), dxv);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Const(dx_c)) => {
                 for (outg, &xv) in out.iter_mut().zip_eq(x_s) {
                     let vals = vals1(xv);
-                    *outg = partial(&vals, 0) * dx_c;
+                    *outg = chain_term(|| partial(&vals, 0), dx_c);
                 }
             }
             (ArgView::Const(x_c), ArgView::Const(dx_c)) => {
@@ -430,58 +437,58 @@ pub mod kernels {
                 let data = (x_s.iter().zip_eq(y_s)).zip_eq(dx_s.iter().zip_eq(dy_s));
                 for (outv, ((&xv, &yv), (&dxv, &dyv))) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dyv;
+                    *outv = chain_term(|| partial(&vals, 0), dxv) + chain_term(|| partial(&vals, 1), dyv);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Slice(dx_s), ArgView::Const(dy_c)) => {
                 let data = x_s.iter().zip_eq(y_s).zip_eq(dx_s);
                 for (outv, ((&xv, &yv), &dxv)) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(|| partial(&vals, 0), dxv) + chain_term(|| partial(&vals, 1), dy_c);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Slice(dy_s)) => {
                 let data = x_s.iter().zip_eq(y_s).zip_eq(dy_s);
                 for (outv, ((&xv, &yv), &dyv)) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dyv;
+                    *outv = chain_term(|| partial(&vals, 0), dx_c) + chain_term(|| partial(&vals, 1), dyv);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, (&xv, &yv)) in out.iter_mut().zip_eq(x_s.iter().zip_eq(y_s)) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(|| partial(&vals, 0), dx_c) + chain_term(|| partial(&vals, 1), dy_c);
                 }
             }
 
             (ArgView::Slice(x_s), ArgView::Const(y_c), ArgView::Slice(dx_s), ArgView::Const(dy_c)) => {
                 for (outv, (&xv, &dxv)) in out.iter_mut().zip_eq(x_s.iter().zip_eq(dx_s)) {
                     let vals = vals2(xv, y_c);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(|| partial(&vals, 0), dxv) + chain_term(|| partial(&vals, 1), dy_c);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Const(y_c), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, &xv) in out.iter_mut().zip_eq(x_s) {
                     let vals = vals2(xv, y_c);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(|| partial(&vals, 0), dx_c) + chain_term(|| partial(&vals, 1), dy_c);
                 }
             }
 
             (ArgView::Const(x_c), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Slice(dy_s)) => {
                 for (outv, (&yv, &dyv)) in out.iter_mut().zip_eq(y_s.iter().zip_eq(dy_s)) {
                     let vals = vals2(x_c, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dyv;
+                    *outv = chain_term(|| partial(&vals, 0), dx_c) + chain_term(|| partial(&vals, 1), dyv);
                 }
             }
             (ArgView::Const(x_c), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, &yv) in out.iter_mut().zip_eq(y_s) {
                     let vals = vals2(x_c, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(|| partial(&vals, 0), dx_c) + chain_term(|| partial(&vals, 1), dy_c);
                 }
             }
             (ArgView::Const(x_c), ArgView::Const(y_c), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 let vals = vals2(x_c, y_c);
-                out.fill(partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c);
+                out.fill(chain_term(|| partial(&vals, 0), dx_c) + chain_term(|| partial(&vals, 1), dy_c));
             }
             _ => unreachable!("malformed expression"),
         }
@@ -635,7 +642,7 @@ pub mod kernels {
 
                 let mut dv_out = T::zero();
                 for (j, dvj) in dvals.iter().copied().enumerate() {
-                    dv_out += Op::partial(&vals, j) * dvj;
+                    dv_out += chain_term(|| Op::partial(&vals, j), dvj);
                 }
                 *outd = dv_out;
 
@@ -725,7 +732,7 @@ pub mod kernels {
                     }
                     let mut g = T::zero();
                     for (j, ag) in ctx.arg_grads.iter().copied().enumerate() {
-                        g += Op::partial(&vals, j) * grad_at(ag, dir, row, ctx.n_rows);
+                        g += chain_term(|| Op::partial(&vals, j), grad_at(ag, dir, row, ctx.n_rows));
                     }
                     *outg = g;
                 }
-- 
2.43.0


From 891b5d631ad15b3aa614fed70575d8c184598bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 19/37] fix: store y and weights contiguously whatever the
 layout passed in

---
 symbolic_regression/src/dataset.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolic_regression/src/dataset.rs b/symbolic_regression/src/dataset.rs
index 527c57f..1976596 100644
--- a/symbolic_regression/src/dataset.rs
+++ b/symbolic_regression/src/dataset.rs
@@ -47,6 +47,9 @@ impl<T: Float> Dataset<T> {
         avg_y: Option<T>,
     ) -> Self {
         let x = x.as_standard_layout().to_owned();
+        // The losses read `y` and the weights as slices, which needs contiguous storage.
+        let y = y.as_standard_layout().to_owned();
+        let weights = weights.map(|w| w.as_standard_layout().to_owned());
         let (n_features, n_rows) = x.dim();
         assert_eq!(y.len(), n_rows);
         if let Some(ref w) = weights {
-- 
2.43.0


From 3267fb038021f73c3b35b582633d671ac0d61810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 20/37] fix: keep the log-cosh loss finite where cosh overflows

---
 symbolic_regression/src/loss_functions.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/loss_functions.rs b/symbolic_regression/src/loss_functions.rs
index bcde517..f0bd3d2 100644
--- a/symbolic_regression/src/loss_functions.rs
+++ b/symbolic_regression/src/loss_functions.rs
@@ -248,7 +248,13 @@ pub struct LogCoshLoss;
 impl<T: Float> PointwiseLoss<T> for LogCoshLoss {
     fn point_loss(&self, yhat: T, y: T) -> T {
         let r = yhat - y;
-        r.cosh().ln()
+        let c = r.cosh();
+        if c.is_finite() {
+            c.ln()
+        } else {
+            // `cosh` overflows long before its logarithm does; there, ln(cosh(r)) = |r| - ln(2).
+            r.abs() - T::from(core::f64::consts::LN_2).unwrap()
+        }
     }
 
     fn point_dloss_dyhat(&self, yhat: T, y: T) -> T {
-- 
2.43.0


From 6a06ff1c389abc9bb7eefc9d3846aa852a482d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 21/37] fix: bring the size statistics down to the window
 despite rounding residues

---
 symbolic_regression/src/adaptive_parsimony.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symbolic_regression/src/adaptive_parsimony.rs b/symbolic_regression/src/adaptive_parsimony.rs
index 9be35d7..4c41094 100644
--- a/symbolic_regression/src/adaptive_parsimony.rs
+++ b/symbolic_regression/src/adaptive_parsimony.rs
@@ -34,6 +34,8 @@ impl RunningSearchStatistics {
 
     pub fn move_window(&mut self) {
         let smallest_allowed = 1.0;
+        // Subtracting may leave an entry a rounding error above the floor; it must not stall the others.
+        let rounding = 1e-9;
         let max_loops = 1000;
 
         let cur_sum: f64 = self.frequencies.iter().sum();
@@ -48,7 +50,7 @@ impl RunningSearchStatistics {
                 .frequencies
                 .iter()
                 .enumerate()
-                .filter_map(|(i, &v)| (v > smallest_allowed).then_some(i))
+                .filter_map(|(i, &v)| (v > smallest_allowed + rounding).then_some(i))
                 .collect();
             if indices.is_empty() {
                 break;
@@ -68,7 +70,7 @@ impl RunningSearchStatistics {
             let total = amount * num_remaining;
             remaining -= total;
             loops += 1;
-            if loops > max_loops || total < 1e-6 {
+            if loops > max_loops || remaining < 1e-6 {
                 break;
             }
         }
-- 
2.43.0


From 78147d8647a19cfe783b047cba03a580b3234583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:53 +0000
Subject: [PATCH 22/37] hooks: score a member on a dataset in the browser front
 end (cfg sr_verif)

---
 web/wasm/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 1bf6919..65da089 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -767,6 +767,12 @@ pub mod verif_hooks {
         summary_from_member(engine, m)
     }
 
+    /// Panics when the evaluation fails: the error path needs a JS host.
+    pub fn evaluate(dataset: &Dataset<f64>, m: &Member) -> (WasmMetrics, Vec<f64>) {
+        let yhat = eval_member_on_dataset(dataset, m).unwrap_or_else(|_| panic!("evaluation failed"));
+        (compute_metrics(&yhat, dataset), yhat)
+    }
+
     /// Only call with options that are accepted: the error path needs a JS host.
     pub fn options(opts: &WasmSearchOptions, operators: Operators<3>) -> Options<f64, 3> {
         options_from_wasm(opts, operators).unwrap_or_else(|_| panic!("options rejected"))
-- 
2.43.0


From 2a5246b8e7d26f491efbc047fd95b4eb6998905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 23/37] fix: drop an initialization that a reset overtakes

---
 web/ui/src/worker/srWorker.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/web/ui/src/worker/srWorker.ts b/web/ui/src/worker/srWorker.ts
index c492008..dd06e41 100644
--- a/web/ui/src/worker/srWorker.ts
+++ b/web/ui/src/worker/srWorker.ts
@@ -8,6 +8,8 @@ let running = false;
 // Identifies the current run loop: a loop that is still asleep when a pause or reset is followed
 // by a new start must not come back to life.
 let loopId = 0;
+// Counts resets: an initialization that is still waiting when a reset arrives must not complete.
+let resets = 0;
 
 const SNAPSHOT_INTERVAL_MS = 200;
 const FRONT_INTERVAL_MS = 250;
@@ -64,10 +66,12 @@ async function runLoop(): Promise<void> {
 
 self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
   const msg = e.data;
+  const resetsBefore = resets;
   try {
     if (msg.type === "init") {
       running = false;
       const wasmExports = await init();
+      if (resetsBefore !== resets) return;
       const sharedArrayBufferAvailable = typeof SharedArrayBuffer !== "undefined";
       const hasSharedMemory = sharedArrayBufferAvailable && wasmExports?.memory?.buffer instanceof SharedArrayBuffer;
       if (self.crossOriginIsolated && hasSharedMemory) {
@@ -82,6 +86,7 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
         // eslint-disable-next-line no-console
         console.warn("SharedArrayBuffer unavailable; running single-threaded.");
       }
+      if (resetsBefore !== resets) return;
       search = new WasmSearch(msg.csvText, msg.options as any, msg.unary as any, msg.binary as any, msg.ternary as any);
       search.set_pareto_k(PARETO_K);
       const split = search.get_split_indices();
@@ -91,6 +96,7 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
 
     if (msg.type === "reset") {
       running = false;
+      resets += 1;
       search = null;
       post({ type: "reset_done" });
       return;
@@ -137,6 +143,7 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
       return;
     }
   } catch (err) {
+    if (msg.type === "init" && resetsBefore !== resets) return;
     post({ type: "error", error: String(err) });
   }
 };
-- 
2.43.0


From c71f575c6c6a8f5142707a65caa26b8dc2eb3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 24/37] fix: rank a tournament by the logarithm of the adjusted
 cost, which does not overflow

---
 symbolic_regression/src/selection.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symbolic_regression/src/selection.rs b/symbolic_regression/src/selection.rs
index 8d79c46..c6e6802 100644
--- a/symbolic_regression/src/selection.rs
+++ b/symbolic_regression/src/selection.rs
@@ -43,7 +43,9 @@ pub fn best_of_sample<T: Float, Ops, const D: usize>(
     let mut scored: Vec<(f64, usize)> = Vec::with_capacity(n);
     for idx in indices {
         let m = &pop.members[idx];
-        let mut adjusted = m.cost.to_f64().unwrap_or(f64::INFINITY);
+        // Compare logarithms: the factor exp(scaling * freq) overflows once one complexity dominates,
+        // which would tie all of its members (and turn a perfect cost of zero into NaN).
+        let mut adjusted = m.cost.to_f64().unwrap_or(f64::INFINITY).ln();
         if options.use_frequency_in_tournament {
             let size = m.complexity;
             let freq = if size > 0 && size <= options.maxsize {
@@ -51,7 +53,7 @@ pub fn best_of_sample<T: Float, Ops, const D: usize>(
             } else {
                 0.0
             };
-            adjusted *= (options.adaptive_parsimony_scaling * freq).exp();
+            adjusted += options.adaptive_parsimony_scaling * freq;
         }
         scored.push((adjusted, idx));
     }
-- 
2.43.0


From 9e153dfd063b047116b400c0671284c960b392c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 25/37] fix: do not optimize a lone constant when constant
 optimization is off

---
 symbolic_regression/src/mutate.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolic_regression/src/mutate.rs b/symbolic_regression/src/mutate.rs
index 0fa1a8e..bbaff96 100644
--- a/symbolic_regression/src/mutate.rs
+++ b/symbolic_regression/src/mutate.rs
@@ -89,6 +89,9 @@ pub fn condition_mutation_weights<T: Float + AddAssign, Ops, const D: usize>(
         } else {
             weights.mutate_feature = 0.0;
         }
+        if !options.should_optimize_constants || options.optimizer_probability == 0.0 {
+            weights.optimize = 0.0;
+        }
         return;
     }
 
-- 
2.43.0


From a7177b4d3bd906fb507f09be1bdd24a7401d4566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:36 +0000
Subject: [PATCH 26/37] fix: a newly initialized search does not inherit a
 running loop

---
 web/ui/src/worker/srWorker.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/ui/src/worker/srWorker.ts b/web/ui/src/worker/srWorker.ts
index dd06e41..68a340f 100644
--- a/web/ui/src/worker/srWorker.ts
+++ b/web/ui/src/worker/srWorker.ts
@@ -88,6 +88,8 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
       }
       if (resetsBefore !== resets) return;
       search = new WasmSearch(msg.csvText, msg.options as any, msg.unary as any, msg.binary as any, msg.ternary as any);
+      // A loop started on the previous search meanwhile must not go on with this one.
+      running = false;
       search.set_pareto_k(PARETO_K);
       const split = search.get_split_indices();
       post({ type: "ready", split });
-- 
2.43.0


From 9869cb93517d649f23fab2cfbdcb75b003cec051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 27/37] fix: a search that becomes ready does not show the
 previous one's results

---
 .../panes/searchSolutions/useSearchController.ts | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/web/ui/src/app/panes/searchSolutions/useSearchController.ts b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
index 565829e..83fef48 100644
--- a/web/ui/src/app/panes/searchSolutions/useSearchController.ts
+++ b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
@@ -108,7 +108,21 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
     clientRef.current = c;
     c.setHandlers({
       onReady: (splitMaybe) => {
-        setRuntime({ status: "ready", error: null, split: splitMaybe as WasmSplitIndices });
+        // Messages of the previous search may have arrived while this one was being initialized.
+        lastSnapTimeRef.current = null;
+        lastEvalsRef.current = null;
+        cpsEmaRef.current = null;
+        setRuntime({
+          status: "ready",
+          error: null,
+          split: splitMaybe as WasmSplitIndices,
+          snapshot: null,
+          evalsPerSecond: null,
+          front: [],
+          selectedId: null,
+          selectedComplexity: null,
+          evalByKey: {}
+        });
       },
       onSnapshot: (snapMaybe) => {
         const s = snapMaybe as SearchSnapshot;
-- 
2.43.0


From 3a872fff29d402b7056293a9393e846c220d1b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 28/37] fix: leaving the Run pane ends the life cycle of the
 search its worker ran

---
 .../src/app/panes/searchSolutions/useSearchController.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/web/ui/src/app/panes/searchSolutions/useSearchController.ts b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
index 83fef48..871b266 100644
--- a/web/ui/src/app/panes/searchSolutions/useSearchController.ts
+++ b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
@@ -180,7 +180,14 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
         setRuntime({ status: "error", error: err });
       }
     });
-    return () => c.terminate();
+    return () => {
+      c.terminate();
+      // The search went away with its worker: it can be neither awaited nor resumed.
+      const { status } = useSessionStore.getState().runtime;
+      if (status === "initializing" || status === "ready" || status === "running" || status === "paused") {
+        setRuntime({ status: "idle" });
+      }
+    };
   }, [Client, setEvalResult, setFront, setRuntime, setSnapshot]);
 
   const canInit = Boolean(options) && unaryOps.length + binaryOps.length + ternaryOps.length > 0;
-- 
2.43.0


From 2c7df061ed4dfd5d9836b484ffb7d3f3266cdfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:59 +0000
Subject: [PATCH 29/37] fix: rows parsed from another text or header setting
 are dropped

---
 web/ui/src/state/sessionStore.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index 1d32ad7..a729636 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -178,7 +178,8 @@ export const useSessionStore = create<SessionState>((set, get) => ({
     }
   },
 
-  setCsvText: (csvText) => set({ csvText }),
+  // Rows parsed from another text must not be paired with a search on this one.
+  setCsvText: (csvText) => set({ csvText, parsed: null }),
 
   parseCsv: () => {
     const { csvText, options } = get();
@@ -225,7 +226,8 @@ export const useSessionStore = create<SessionState>((set, get) => ({
 
   setOptionsPatch: (patch) =>
     set((s) => ({
-      options: s.options ? { ...s.options, ...patch } : s.options
+      options: s.options ? { ...s.options, ...patch } : s.options,
+      parsed: patch.has_headers !== undefined && patch.has_headers !== s.options?.has_headers ? null : s.parsed
     })),
 
   toggleOp: (arity, name) =>
-- 
2.43.0


From 81256ed2c211eb9798fd9c990530e07b40f6f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:59 +0000
Subject: [PATCH 30/37] fix: columns chosen for other data are kept only if the
 new data have them

---
 web/ui/src/state/sessionStore.ts | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index a729636..481820a 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -194,11 +194,17 @@ export const useSessionStore = create<SessionState>((set, get) => ({
     const nCols = rows[0]?.length ?? 0;
 
     // Defaults: y is last col, X is all others.
-    const y = options.y_column ?? (nCols - 1);
-    const weights = options.weights_column ?? null;
-    const x =
-      options.x_columns ??
-      Array.from({ length: nCols }, (_, i) => i).filter((i) => i !== y && i !== weights);
+    let y = options.y_column ?? (nCols - 1);
+    let weights = options.weights_column ?? null;
+    let x = options.x_columns;
+    // Columns chosen for other data are kept only if they also make sense for this data.
+    const fits = (c: number) => c < nCols && c !== y && c !== weights;
+    if (y >= nCols || weights === y || (weights != null && weights >= nCols) || (x != null && !x.every(fits))) {
+      y = nCols - 1;
+      weights = null;
+      x = null;
+    }
+    x ??= Array.from({ length: nCols }, (_, i) => i).filter((i) => i !== y && i !== weights);
 
     set({
       parsed: parsedRes.parsed,
-- 
2.43.0


From ab09ffe7af864f3bc63a2fce5feb2d4afc24148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:59 +0000
Subject: [PATCH 31/37] fix: the X boxes show the columns a search uses when
 none were chosen

---
 web/ui/src/app/panes/EnterData.tsx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/ui/src/app/panes/EnterData.tsx b/web/ui/src/app/panes/EnterData.tsx
index 79dec2c..f035c39 100644
--- a/web/ui/src/app/panes/EnterData.tsx
+++ b/web/ui/src/app/panes/EnterData.tsx
@@ -29,10 +29,10 @@ export function EnterData(): React.ReactElement {
 
   const yCol = options?.y_column ?? null;
   const wCol = options?.weights_column ?? null;
-  const xCols = options?.x_columns ?? null;
-
   const yColIdx = options?.y_column ?? (headers.length > 0 ? headers.length - 1 : 0);
-  const xColsForPlot = options?.x_columns ?? [];
+  // Unless chosen, X is every other column (as in the search).
+  const xCols = options?.x_columns ?? colOptions.map((c) => c.idx).filter((i) => i !== yColIdx && i !== wCol);
+  const xColsForPlot = xCols;
   const xColsForPlotKey = xColsForPlot.join(",");
   const [inspectX, setInspectX] = useState<number>(() => (xColsForPlot.length > 0 ? xColsForPlot[0] : 0));
 
-- 
2.43.0


From 3cf10531026935bd793baccd65b7d21477a71ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:39 +0000
Subject: [PATCH 32/37] fix: default_search_options returned a Map, so
 spreading it into the options copied nothing

---
 web/wasm/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 65da089..24ed793 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -10,7 +10,7 @@ use dynamic_expressions::{EvalOptions, OpId, OperatorSet, eval_plan_array_into};
 use fastrand::Rng;
 use ndarray::{Array1, Array2};
 use serde::{Deserialize, Serialize};
-use serde_wasm_bindgen::{from_value, to_value};
+use serde_wasm_bindgen::{Serializer, from_value, to_value};
 use symbolic_regression::{Dataset, LossKind, Operators, Options, SearchEngine, WasmOptionsShim};
 use wasm_bindgen::prelude::*;
 
@@ -64,8 +64,10 @@ pub fn builtin_operator_registry() -> Result<JsValue, JsValue> {
 
 #[wasm_bindgen]
 pub fn default_search_options() -> Result<JsValue, JsValue> {
-    let opts = WasmSearchOptions::default();
-    to_value(&opts).map_err(|e| JsValue::from_str(&e.to_string()))
+    // The flattened struct serializes as a map: make it a plain object, as callers spread it.
+    WasmSearchOptions::default()
+        .serialize(&Serializer::json_compatible())
+        .map_err(|e| JsValue::from_str(&e.to_string()))
 }
 
 #[wasm_bindgen]
-- 
2.43.0


From 118b8f56b319e80ac0897c3d02082844048c356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:23 +0000
Subject: [PATCH 33/37] fix: WasmSearch replaced all options by defaults, or
 dropped operators, when one value was unreadable

---
 web/wasm/src/lib.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 24ed793..2ab8f25 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -9,6 +9,7 @@ use dynamic_expressions::utils::ZipEq;
 use dynamic_expressions::{EvalOptions, OpId, OperatorSet, eval_plan_array_into};
 use fastrand::Rng;
 use ndarray::{Array1, Array2};
+use serde::de::DeserializeOwned;
 use serde::{Deserialize, Serialize};
 use serde_wasm_bindgen::{Serializer, from_value, to_value};
 use symbolic_regression::{Dataset, LossKind, Operators, Options, SearchEngine, WasmOptionsShim};
@@ -193,13 +194,10 @@ impl WasmSearch {
         binary_tokens: JsValue,
         ternary_tokens: JsValue,
     ) -> Result<WasmSearch, JsValue> {
-        let opts: WasmSearchOptions = from_value(opts)
-            .or_else(|_| Ok::<WasmSearchOptions, serde_wasm_bindgen::Error>(WasmSearchOptions::default()))
-            .map_err(|e| JsValue::from_str(&e.to_string()))?;
-
-        let unary: Vec<String> = from_value(unary_tokens).unwrap_or_default();
-        let binary: Vec<String> = from_value(binary_tokens).unwrap_or_default();
-        let ternary: Vec<String> = from_value(ternary_tokens).unwrap_or_default();
+        let opts: WasmSearchOptions = value_or_default(opts)?;
+        let unary: Vec<String> = value_or_default(unary_tokens)?;
+        let binary: Vec<String> = value_or_default(binary_tokens)?;
+        let ternary: Vec<String> = value_or_default(ternary_tokens)?;
         let unary_refs: Vec<&str> = unary.iter().map(|s| s.as_str()).collect();
         let binary_refs: Vec<&str> = binary.iter().map(|s| s.as_str()).collect();
         let ternary_refs: Vec<&str> = ternary.iter().map(|s| s.as_str()).collect();
@@ -280,6 +278,14 @@ impl WasmSearch {
     }
 }
 
+/// A missing value means the default; one that cannot be read is an error.
+fn value_or_default<T: DeserializeOwned + Default>(value: JsValue) -> Result<T, JsValue> {
+    if value.is_undefined() || value.is_null() {
+        return Ok(T::default());
+    }
+    from_value(value).map_err(|e| JsValue::from_str(&e.to_string()))
+}
+
 fn options_from_wasm(opts: &WasmSearchOptions, operators: Operators<3>) -> Result<Options<f64, 3>, JsValue> {
     let loss_kind = match opts.loss_kind.trim().to_ascii_lowercase().as_str() {
         "mse" => LossKind::Mse,
-- 
2.43.0


From 1be63d9fad04240ba856e3a8feb324c8096a7cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:29 +0000
Subject: [PATCH 34/37] fix: a failed step of the constant optimizer threw away
 what the earlier steps had gained

---
 symbolic_regression/src/optim.rs | 44 ++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/symbolic_regression/src/optim.rs b/symbolic_regression/src/optim.rs
index 79ee624..5bf793a 100644
--- a/symbolic_regression/src/optim.rs
+++ b/symbolic_regression/src/optim.rs
@@ -298,7 +298,8 @@ pub(crate) fn bfgs_minimize(
             if v.is_finite() { Some(v) } else { None }
         };
 
-        let (_alpha, _) = backtracking_linesearch(
+        // A failed step ends the minimization, but keeps what the earlier steps gained.
+        let Some((_alpha, phi)) = backtracking_linesearch(
             &ls,
             LineSearchInput {
                 x: &x,
@@ -309,15 +310,18 @@ pub(crate) fn bfgs_minimize(
             },
             &mut x_ls,
             &mut phi_at,
-        )?;
+        ) else {
+            break;
+        };
 
         x_prev.copy_from_slice(&x);
         g_prev.copy_from_slice(&g);
         x.copy_from_slice(&x_ls);
+        fx = phi;
 
-        fx = obj.fg(&x, &mut g, &mut budget)?;
-        if !fx.is_finite() {
-            break;
+        match obj.fg(&x, &mut g, &mut budget) {
+            Some(f) if f.is_finite() => fx = f,
+            _ => break,
         }
 
         // BFGS update (inverse Hessian):
@@ -384,15 +388,17 @@ pub(crate) fn newton_1d_minimize(
             break;
         }
         let x_vec = [x];
-        let f = obj.fg(&x_vec, &mut g_tmp, &mut budget)?;
+        let Some(f) = obj.fg(&x_vec, &mut g_tmp, &mut budget) else {
+            break;
+        };
         let g = g_tmp[0];
-        if !f.is_finite() || !g.is_finite() {
-            return None;
-        }
-        if f < best_f {
+        if f.is_finite() && f < best_f {
             best_f = f;
             best_x = x;
         }
+        if !f.is_finite() || !g.is_finite() {
+            break;
+        }
         if g.abs() <= opts.g_abstol {
             break;
         }
@@ -401,9 +407,13 @@ pub(crate) fn newton_1d_minimize(
         let eps = f64::EPSILON.sqrt() * (x.abs() + 1.0);
         let x_plus = [x + eps];
         let x_minus = [x - eps];
-        let _ = obj.fg(&x_plus, &mut g_tmp, &mut budget)?;
+        if obj.fg(&x_plus, &mut g_tmp, &mut budget).is_none() {
+            break;
+        }
         let g_plus = g_tmp[0];
-        let _ = obj.fg(&x_minus, &mut g_tmp, &mut budget)?;
+        if obj.fg(&x_minus, &mut g_tmp, &mut budget).is_none() {
+            break;
+        }
         let g_minus = g_tmp[0];
         let h = (g_plus - g_minus) / (2.0 * eps);
         let mut h_mod = h.abs().max(1e-12);
@@ -433,7 +443,7 @@ pub(crate) fn newton_1d_minimize(
         let x_vec = [x];
         let s_vec = [s];
         let mut x_new = [x];
-        let (alpha, _) = backtracking_linesearch(
+        let Some((alpha, phi)) = backtracking_linesearch(
             &ls,
             LineSearchInput {
                 x: &x_vec,
@@ -444,8 +454,14 @@ pub(crate) fn newton_1d_minimize(
             },
             &mut x_new,
             &mut phi_at,
-        )?;
+        ) else {
+            break;
+        };
         x += alpha * s;
+        if phi < best_f {
+            best_f = phi;
+            best_x = x;
+        }
     }
 
     Some(OptimResult {
-- 
2.43.0


From 9c4313beac35018bb40c68dc178a9a09bd6b6a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:36 +0000
Subject: [PATCH 35/37] fix: the Ansi style of the hall-of-fame table follows
 the option, not the colour setting of stdout

---
 symbolic_regression/src/progress_bars.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic_regression/src/progress_bars.rs b/symbolic_regression/src/progress_bars.rs
index bc64f7b..478658f 100644
--- a/symbolic_regression/src/progress_bars.rs
+++ b/symbolic_regression/src/progress_bars.rs
@@ -211,7 +211,7 @@ mod imp {
 
         let border = raw_border;
         let header = if render.ansi {
-            let s = console::Style::new().bold().underlined();
+            let s = console::Style::new().for_stderr().bold().underlined();
 
             let complexity_plain = "Complexity";
             let loss_plain = "Loss";
-- 
2.43.0


From d28f6cafaa7d0c7556ad72834e8bf2ae60a6daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:29 +0000
Subject: [PATCH 36/37] fix: sr_ops! needs OperatorsBuilder::nary, which did
 not exist

---
 symbolic_regression/src/operators.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/symbolic_regression/src/operators.rs b/symbolic_regression/src/operators.rs
index d33558a..3752e1d 100644
--- a/symbolic_regression/src/operators.rs
+++ b/symbolic_regression/src/operators.rs
@@ -312,6 +312,20 @@ impl<Ops, const D: usize> OperatorsBuilder<Ops, D> {
         self.push_op::<Op>()
     }
 
+    pub fn nary<const A: usize, Op>(self) -> Self
+    where
+        Ops: HasOp<Op> + OperatorSet,
+        Op: dynamic_expressions::OpTag,
+    {
+        let op = <Ops as HasOp<Op>>::op_id();
+        assert_eq!(
+            op.arity as usize, A,
+            "nary() requires arity={A} (got {})",
+            op.arity
+        );
+        self.push_op::<Op>()
+    }
+
     fn push_op<Op>(mut self) -> Self
     where
         Ops: HasOp<Op> + OperatorSet,
-- 
2.43.0


From d4b4d74d4532e5fb3492b3e8a630611e407450d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:29 +0000
Subject: [PATCH 37/37] fix: a search counts operators with the complexity
 their set declares

---
 symbolic_regression/src/options.rs      | 11 +++++++++++
 symbolic_regression/src/search_utils.rs |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/symbolic_regression/src/options.rs b/symbolic_regression/src/options.rs
index f6a0be7..8e48cbb 100644
--- a/symbolic_regression/src/options.rs
+++ b/symbolic_regression/src/options.rs
@@ -261,4 +261,15 @@ impl<T: Float, const D: usize> Options<T, D> {
             && self.variable_complexities.is_none()
             && self.operator_complexity_overrides.is_empty()
     }
+
+    /// Fills in the complexities declared by the operator set, for selected operators without an override.
+    pub(crate) fn with_declared_complexities<Ops: dynamic_expressions::OperatorSet>(mut self) -> Self {
+        for &op in self.operators.ops_by_arity.iter().flatten() {
+            let declared = Ops::complexity(op);
+            if declared != 1 {
+                self.operator_complexity_overrides.entry(op).or_insert(declared);
+            }
+        }
+        self
+    }
 }
diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 16cf2e9..0f86c6d 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -156,6 +156,7 @@ where
     T: Float + AddAssign + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + Send + Sync,
     Ops: dynamic_expressions::OperatorSet<T = T> + Send + Sync,
 {
+    let options = &options.clone().with_declared_complexities::<Ops>();
     let baseline_loss = if options.use_baseline {
         baseline_loss_from_zero_expression::<T, Ops, D>(dataset, options.loss.as_ref())
     } else {
@@ -243,6 +244,7 @@ where
     Ops: dynamic_expressions::OperatorSet<T = T>,
 {
     pub fn new(dataset: Dataset<T>, options: Options<T, D>) -> Self {
+        let options = options.with_declared_complexities::<Ops>();
         let baseline_loss = if options.use_baseline {
             baseline_loss_from_zero_expression::<T, Ops, D>(&dataset, options.loss.as_ref())
         } else {
-- 
2.43.0

