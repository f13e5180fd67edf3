From 56d590945ea6d17079d7f4b3d99af4bbd1a8ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 1/8] fix: keep the better result when a parallel task merges

A task learns better bounds from the other tasks. When merging, its results were
inserted whenever its (possibly learned) bound was at least as good as the shared one,
so that an old result replaced the better one of the task the bound came from.
---
 mbqc_scheduling/src/search/threaded.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 57f0448..8175a92 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -149,9 +149,14 @@ fn task(
             // we cannot just unwrap, because when we do the
             // Step::Backward, we also update the best_memory for all
             // paths with a longer path length, but we might not have
-            // collected a result for them (which is okay there)
-            if let Some(mem) = new_results.remove(&time) {
-                results.insert(time, mem);
+            // collected a result for them (which is okay there);
+            // also, this_mem might be a bound that we got from another task, which
+            // is better than our own result for that time
+            match new_results.remove(&time) {
+                Some(result) if result.0 == this_mem => {
+                    results.insert(time, result);
+                },
+                _ => {},
             }
         }
     }
-- 
2.43.0


From 119911abebb2a2f10c1192c8dd2636f700ed578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 2/8] fix: reject an instruction that is longer than the
 measurable set

It is an invalid instruction like any other, but the capacity calculation underflowed
and panicked before it could be reported as NotMeasurable.
---
 mbqc_scheduling/src/scheduler/time.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbqc_scheduling/src/scheduler/time.rs b/mbqc_scheduling/src/scheduler/time.rs
index 8afe1cb..a215806 100644
--- a/mbqc_scheduling/src/scheduler/time.rs
+++ b/mbqc_scheduling/src/scheduler/time.rs
@@ -200,8 +200,10 @@ impl<'l, T: MeasurableSet> PathGenerator<'l, T> {
     // check whether the measure_set is really measurable and return the new
     // measurable set
     fn partition(&self, measure_set: &[usize]) -> Result<Vec<usize>, NotMeasurable> {
-        let mut new_measurable_set =
-            Vec::with_capacity(self.measurable.set().len() - measure_set.len());
+        // measure_set might be too long, if it is not okay
+        let mut new_measurable_set = Vec::with_capacity(
+            self.measurable.set().len().saturating_sub(measure_set.len()),
+        );
         let mut copy_measure_set = measure_set.to_vec();
         for e in self.measurable.set().iter() {
             if let Some(p) = copy_measure_set.iter().position(|m| m == e) {
-- 
2.43.0


From 4c85a88cd196299894f6d473db677ae10d2d3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 3/8] fix: count the measurable nodes as remaining nodes

num_remaining_nodes is documented as the number of nodes that are left to be measured
(and the accept functions use it as such), but it left out the nodes that can be
measured already.
---
 mbqc_scheduling/src/scheduler/time.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbqc_scheduling/src/scheduler/time.rs b/mbqc_scheduling/src/scheduler/time.rs
index a215806..cd40579 100644
--- a/mbqc_scheduling/src/scheduler/time.rs
+++ b/mbqc_scheduling/src/scheduler/time.rs
@@ -105,11 +105,6 @@ impl<'l, T> PathGenerator<'l, T> {
         &self.measurable
     }
 
-    /// How many nodes are left to be measured.
-    pub fn num_remaining_nodes(&self) -> usize {
-        self.deps_counter.len()
-    }
-
     /// Check whether there are qubits that cannot be measured yet.
     pub fn has_unmeasureable(&self) -> bool {
         !self.deps_counter.is_empty()
@@ -117,6 +112,11 @@ impl<'l, T> PathGenerator<'l, T> {
 }
 
 impl<'l, T: MeasurableSet> PathGenerator<'l, T> {
+    /// How many nodes are left to be measured.
+    pub fn num_remaining_nodes(&self) -> usize {
+        self.measurable.set().len() + self.deps_counter.len()
+    }
+
     /// Create a new [PathGenerator] from a [PartialOrderGraph]. `dependency_buffer` is
     /// going to own the dependency structure implied by the `graph`, so that it can be
     /// reused again.
-- 
2.43.0


From 56bce012db7df80c555941c51a73efef478c5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 4/8] fix: start no tasks apart from the remaining one if the
 task bound is zero

The bound was checked after the first task was started, so that a bound of zero was
missed and the number of tasks was not limited at all.
---
 mbqc_scheduling/src/search/threaded.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 8175a92..cc9f5a1 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -63,7 +63,11 @@ pub fn search(
         // if probabilistic is true, one should maybe already skip here according to
         // the accept_func; but maybe it is actually good to not do it, because this
         // increases the probability that we get at least some results
-        while let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus() {
+        while ntasks != task_bound {
+            let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus()
+            else {
+                break;
+            };
             let best_memory = &best_memory;
             let results = &results;
             let probabilistic = match probabilistic {
@@ -82,9 +86,6 @@ pub fn search(
                 )
             });
             ntasks += 1;
-            if ntasks == task_bound {
-                break;
-            }
         }
 
         // remaining search tasks
-- 
2.43.0


From ed4eaa4cc91020682ab018027b1ca807cfc10960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 5/8] fix: let short parallel tasks respect the timeout

The tasks checked the timer only every UPDATE_INTERVAL steps, so that a search with many
short tasks (or many tasks still to start) went on long after the timeout.
---
 mbqc_scheduling/src/search/threaded.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index cc9f5a1..3f66b51 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -63,7 +63,7 @@ pub fn search(
         // if probabilistic is true, one should maybe already skip here according to
         // the accept_func; but maybe it is actually good to not do it, because this
         // increases the probability that we get at least some results
-        while ntasks != task_bound {
+        while ntasks != task_bound && !timer.finished() {
             let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus()
             else {
                 break;
@@ -115,6 +115,13 @@ fn task(
 ) {
     let _span = tracing::debug_span!("search task", ntasks).entered();
 
+    // in the search we check it only every UPDATE_INTERVAL steps, but there might be many
+    // tasks that are shorter than that
+    if timer.finished() {
+        tracing::info!("timer: timeout");
+        return;
+    }
+
     tracing::debug!(
         "START: measure: {:?}; best_memory: {:?}",
         measure,
-- 
2.43.0


From 6f7f6812c84d317a776b89be75c2fccecc534309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:19 +0000
Subject: [PATCH 6/8] fix: show the largest size in the node figures

The curves start at 2 nodes, so that the last of n points is at n + 1.
---
 results/plotting/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/results/plotting/nodes.py b/results/plotting/nodes.py
index ba88bf6..15c9b77 100644
--- a/results/plotting/nodes.py
+++ b/results/plotting/nodes.py
@@ -68,7 +68,7 @@ def main():
             )
 
     for ac in acs:
-        ac.set_xlim(2, max_x)
+        ac.set_xlim(2, max_x + 1)
         ac.set_xlabel(xlabel)
 
     acs[0].set_ylabel(ytlabel)
@@ -130,7 +130,7 @@ def appendix():
             )
 
     for ac in acs:
-        ac.set_xlim(2, max_x)
+        ac.set_xlim(2, max_x + 1)
         ac.set_xlabel(xlabel)
 
     acs[0].set_ylabel(ytlabel)
-- 
2.43.0


From 026d58b6793454bc64a8a3b3b869ffdf816394c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 7/8] fix: quote the directories in the job scripts

---
 results/scripts/exe_density_hpc.bash   | 14 +++++++-------
 results/scripts/exe_node_hpc.bash      | 14 +++++++-------
 results/scripts/hardware_info_hpc.bash | 12 ++++++------
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/results/scripts/exe_density_hpc.bash b/results/scripts/exe_density_hpc.bash
index 5c0f057..49a0d3f 100755
--- a/results/scripts/exe_density_hpc.bash
+++ b/results/scripts/exe_density_hpc.bash
@@ -17,22 +17,22 @@
 #PBS -e ./log/
 #PBS -o ./log/
 
-cd ${PBS_O_WORKDIR}
+cd "${PBS_O_WORKDIR}"
 mkdir -p log
 mkdir -p output
 readarray -t parameters < "parameters/density.dat"
 
 scratch="/scratch/${USER}_${PBS_JOBID%.*}"
-mkdir -p ${scratch}/output
-cp target/release/results ${scratch}
+mkdir -p "${scratch}/output"
+cp target/release/results "${scratch}"
 
-cd ${scratch}
+cd "${scratch}"
 
 ./results density ${parameters[${PBS_ARRAY_INDEX}-1]}
 # NOTE: `cd ${PBS_O_WORKDIR}; mv ${scratch}/output/* output` doesn't work; it's the wild
 # card that makes problems in this case, but I don't know why (maybe the ${scratch} name
 # is too weird)?
-mv output/* ${PBS_O_WORKDIR}/output/
+mv output/* "${PBS_O_WORKDIR}/output/"
 
-cd ${PBS_O_WORKDIR}
-rm -rf ${scratch}
+cd "${PBS_O_WORKDIR}"
+rm -rf "${scratch}"
diff --git a/results/scripts/exe_node_hpc.bash b/results/scripts/exe_node_hpc.bash
index 276c2b9..e86bf28 100755
--- a/results/scripts/exe_node_hpc.bash
+++ b/results/scripts/exe_node_hpc.bash
@@ -15,22 +15,22 @@
 #PBS -e ./log/
 #PBS -o ./log/
 
-cd ${PBS_O_WORKDIR}
+cd "${PBS_O_WORKDIR}"
 mkdir -p log
 mkdir -p output
 readarray -t parameters < "parameters/node.dat"
 
 scratch="/scratch/${USER}_${PBS_JOBID%.*}"
-mkdir -p ${scratch}/output
-cp target/release/results ${scratch}
+mkdir -p "${scratch}/output"
+cp target/release/results "${scratch}"
 
-cd ${scratch}
+cd "${scratch}"
 
 ./results node ${parameters[0]}
 # NOTE: `cd ${PBS_O_WORKDIR}; mv ${scratch}/output/* output` doesn't work; it's the wild
 # card that makes problems in this case, but I don't know why (maybe the ${scratch} name
 # is too weird)?
-mv output/* ${PBS_O_WORKDIR}/output/
+mv output/* "${PBS_O_WORKDIR}/output/"
 
-cd ${PBS_O_WORKDIR}
-rm -rf ${scratch}
+cd "${PBS_O_WORKDIR}"
+rm -rf "${scratch}"
diff --git a/results/scripts/hardware_info_hpc.bash b/results/scripts/hardware_info_hpc.bash
index 806a06d..fe662a5 100755
--- a/results/scripts/hardware_info_hpc.bash
+++ b/results/scripts/hardware_info_hpc.bash
@@ -11,18 +11,18 @@
 #PBS -e ./log/
 #PBS -o ./log/
 
-cd ${PBS_O_WORKDIR}
+cd "${PBS_O_WORKDIR}"
 mkdir -p log
 mkdir -p output
 
 scratch="/scratch/${USER}_${PBS_JOBID%.*}"
-mkdir -p ${scratch}/output
+mkdir -p "${scratch}/output"
 
-cd ${scratch}
+cd "${scratch}"
 
 lscpu > "output/hardware_info_hpcnode_${node}.txt"
 
-mv output/* ${PBS_O_WORKDIR}/output/
+mv output/* "${PBS_O_WORKDIR}/output/"
 
-cd ${PBS_O_WORKDIR}
-rm -rf ${scratch}
+cd "${PBS_O_WORKDIR}"
+rm -rf "${scratch}"
-- 
2.43.0


From 74cdff27b847c50d9ffbfc602c6aa33541178241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 8/8] fix: reserve the walltime that the density runs count on

---
 results/scripts/exe_density_hpc.bash | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/results/scripts/exe_density_hpc.bash b/results/scripts/exe_density_hpc.bash
index 49a0d3f..6035bd9 100755
--- a/results/scripts/exe_density_hpc.bash
+++ b/results/scripts/exe_density_hpc.bash
@@ -10,7 +10,7 @@
 
 #PBS -l ncpus=30
 #PBS -l mem=3GB
-#PBS -l walltime=5:00:00
+#PBS -l walltime=10:00:00
 
 # this is relative to the final workdir which is ./=${PBS_O_WORKDIR}, so we don't have
 # to move it from the scratch
-- 
2.43.0

