From e11969c4bd566306cb4a4c80db2b731cd368676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:04 +0000
Subject: [PATCH 01/65] Open internal modules for the verification harness
 under cfg(graphannis_verif)

---
 graphannis/src/annis/db/mod.rs | 3 +++
 graphannis/src/lib.rs          | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/graphannis/src/annis/db/mod.rs b/graphannis/src/annis/db/mod.rs
index 6b564a5..e3ede7a 100644
--- a/graphannis/src/annis/db/mod.rs
+++ b/graphannis/src/annis/db/mod.rs
@@ -3,7 +3,10 @@ pub mod corpusstorage;
 #[cfg(test)]
 pub mod example_generator;
 pub mod exec;
+#[cfg(not(graphannis_verif))]
 mod plan;
+#[cfg(graphannis_verif)]
+pub mod plan;
 pub mod relannis;
 pub mod sort_matches;
 pub mod token_helper;
diff --git a/graphannis/src/lib.rs b/graphannis/src/lib.rs
index fee1814..8317d7c 100644
--- a/graphannis/src/lib.rs
+++ b/graphannis/src/lib.rs
@@ -1,6 +1,7 @@
 //! This is a graph-based linguistic corpus query system which implements the ANNIS Query Language (AQL).
 //! The main entry point to the API is the [CorpusStorage](struct.CorpusStorage.html) struct which allows to manage and query a database of corpora.
 
+#![allow(unexpected_cfgs)]
 #![deny(
     clippy::panic,
     clippy::panic_in_result_fn,
@@ -22,7 +23,11 @@ extern crate lazy_static;
 #[macro_use]
 extern crate lalrpop_util;
 
+#[cfg(not(graphannis_verif))]
 mod annis;
+/// Opened for the verification harness only (`--cfg graphannis_verif`).
+#[cfg(graphannis_verif)]
+pub mod annis;
 
 pub use crate::annis::db::corpusstorage::CorpusStorage;
 
-- 
2.43.0


From 36d2e9b60c39d8cf7cbfa703381a5c57ec8f46af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 02/65] fix: only use the ordering component as token source
 when every token is part of it

---
 graphannis/src/annis/db/aql/model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 4ad8807..8d1d871 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -648,8 +648,8 @@ impl ComponentType for AnnotationComponentType {
 
                 if !token_helper.has_outgoing_coverage_edges(n)? {
                     all_token_in_order_component = all_token_in_order_component
-                        && ordering_gs.has_outgoing_edges(n)?
-                        || ordering_gs.has_ingoing_edges(n)?;
+                        && (ordering_gs.has_outgoing_edges(n)?
+                            || ordering_gs.has_ingoing_edges(n)?);
                     // Update the token counter
                     base_token_count += 1;
                 }
-- 
2.43.0


From c6588c3a85f432c35ccc255a8cf67dd94da88d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 03/65] fix: cost estimations can neither exceed the number of
 combinations nor overflow

---
 graphannis/src/annis/db/exec/filter.rs             | 14 ++++++++++++--
 graphannis/src/annis/db/exec/mod.rs                |  9 ++++++---
 graphannis/src/annis/db/exec/nestedloop.rs         |  4 ++--
 .../src/annis/db/exec/parallel/nestedloop.rs       |  4 ++--
 graphannis/src/annis/db/plan.rs                    |  4 ++--
 5 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/graphannis/src/annis/db/exec/filter.rs b/graphannis/src/annis/db/exec/filter.rs
index 84bd555..cfd9530 100644
--- a/graphannis/src/annis/db/exec/filter.rs
+++ b/graphannis/src/annis/db/exec/filter.rs
@@ -12,6 +12,7 @@ pub struct Filter<'a> {
 }
 
 fn calculate_binary_outputsize(op: &dyn BinaryOperatorBase, num_tuples: usize) -> Result<usize> {
+    let max_output = num_tuples;
     let output = match op.estimation_type()? {
         EstimationType::Selectivity(selectivity) => {
             let num_tuples = num_tuples as f64;
@@ -23,11 +24,14 @@ fn calculate_binary_outputsize(op: &dyn BinaryOperatorBase, num_tuples: usize) -
         }
         EstimationType::Min => num_tuples,
     };
+    // a filter can't add results
+    let output = std::cmp::min(output, max_output);
     // always assume at least one output item otherwise very small selectivity can fool the planner
     Ok(std::cmp::max(output, 1))
 }
 
 fn calculate_unary_outputsize(op: &dyn UnaryOperator, num_tuples: usize) -> usize {
+    let max_output = num_tuples;
     let output = match op.estimation_type() {
         EstimationType::Selectivity(selectivity) => {
             let num_tuples = num_tuples as f64;
@@ -35,6 +39,8 @@ fn calculate_unary_outputsize(op: &dyn UnaryOperator, num_tuples: usize) -> usiz
         }
         EstimationType::Min => num_tuples,
     };
+    // a filter can't add results
+    let output = std::cmp::min(output, max_output);
     // always assume at least one output item otherwise very small selectivity can fool the planner
     std::cmp::max(output, 1)
 }
@@ -51,7 +57,9 @@ impl<'a> Filter<'a> {
                 Some(CostEstimate {
                     output: calculate_binary_outputsize(&op_entry.op, orig_cost.output)?,
                     processed_in_step: orig_cost.processed_in_step,
-                    intermediate_sum: orig_cost.intermediate_sum + orig_cost.processed_in_step,
+                    intermediate_sum: orig_cost
+                        .intermediate_sum
+                        .saturating_add(orig_cost.processed_in_step),
                 })
             } else {
                 None
@@ -95,7 +103,9 @@ impl<'a> Filter<'a> {
                 Some(CostEstimate {
                     output: calculate_unary_outputsize(op_entry.op.as_ref(), orig_cost.output),
                     processed_in_step: orig_cost.processed_in_step,
-                    intermediate_sum: orig_cost.intermediate_sum + orig_cost.processed_in_step,
+                    intermediate_sum: orig_cost
+                        .intermediate_sum
+                        .saturating_add(orig_cost.processed_in_step),
                 })
             } else {
                 None
diff --git a/graphannis/src/annis/db/exec/mod.rs b/graphannis/src/annis/db/exec/mod.rs
index fbd1f31..81d8a18 100644
--- a/graphannis/src/annis/db/exec/mod.rs
+++ b/graphannis/src/annis/db/exec/mod.rs
@@ -38,9 +38,10 @@ fn calculate_outputsize<Op: BinaryOperatorBase + ?Sized>(
     cost_lhs: &CostEstimate,
     cost_rhs: &CostEstimate,
 ) -> Result<usize> {
+    let max_output = cost_lhs.output.saturating_mul(cost_rhs.output);
     let output = match op.estimation_type()? {
         EstimationType::Selectivity(selectivity) => {
-            let num_tuples = (cost_lhs.output * cost_rhs.output) as f64;
+            let num_tuples = max_output as f64;
             if let Some(edge_sel) = op.edge_anno_selectivity()? {
                 (num_tuples * selectivity * edge_sel).round() as usize
             } else {
@@ -49,6 +50,8 @@ fn calculate_outputsize<Op: BinaryOperatorBase + ?Sized>(
         }
         EstimationType::Min => std::cmp::min(cost_lhs.output, cost_rhs.output),
     };
+    // there can't be more results than combinations, even if the selectivity could not be estimated
+    let output = std::cmp::min(output, max_output);
     // always assume at least one output item otherwise very small selectivity can fool the planner
     Ok(std::cmp::max(output, 1))
 }
@@ -121,8 +124,8 @@ impl ExecutionNodeDesc {
                 Some(CostEstimate {
                     output,
                     intermediate_sum: processed_in_step
-                        + cost_lhs.intermediate_sum
-                        + cost_rhs.intermediate_sum,
+                        .saturating_add(cost_lhs.intermediate_sum)
+                        .saturating_add(cost_rhs.intermediate_sum),
                     processed_in_step,
                 })
             } else {
diff --git a/graphannis/src/annis/db/exec/nestedloop.rs b/graphannis/src/annis/db/exec/nestedloop.rs
index d4cdcff..d596660 100644
--- a/graphannis/src/annis/db/exec/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/nestedloop.rs
@@ -41,10 +41,10 @@ impl<'a> NestedLoop<'a> {
         let processed_func = |_, out_lhs: usize, out_rhs: usize| {
             if out_lhs <= out_rhs {
                 // we use LHS as outer
-                out_lhs + (out_lhs * out_rhs)
+                out_lhs.saturating_add(out_lhs.saturating_mul(out_rhs))
             } else {
                 // we use RHS as outer
-                out_rhs + (out_rhs * out_lhs)
+                out_rhs.saturating_add(out_rhs.saturating_mul(out_lhs))
             }
         };
 
diff --git a/graphannis/src/annis/db/exec/parallel/nestedloop.rs b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
index 98d4362..ac6fc72 100644
--- a/graphannis/src/annis/db/exec/parallel/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
@@ -49,10 +49,10 @@ impl<'a> NestedLoop<'a> {
         let processed_func = |_, out_lhs: usize, out_rhs: usize| {
             if out_lhs <= out_rhs {
                 // we use LHS as outer
-                out_lhs + (out_lhs * out_rhs)
+                out_lhs.saturating_add(out_lhs.saturating_mul(out_rhs))
             } else {
                 // we use RHS as outer
-                out_rhs + (out_rhs * out_lhs)
+                out_rhs.saturating_add(out_rhs.saturating_mul(out_lhs))
             }
         };
 
diff --git a/graphannis/src/annis/db/plan.rs b/graphannis/src/annis/db/plan.rs
index 00d58c9..8605adf 100644
--- a/graphannis/src/annis/db/plan.rs
+++ b/graphannis/src/annis/db/plan.rs
@@ -118,10 +118,10 @@ impl<'a> ExecutionPlan<'a> {
     }
 
     pub fn estimated_output_size(&self) -> usize {
-        let mut estimation = 0;
+        let mut estimation: usize = 0;
         for desc in self.descriptions.iter().flatten() {
             if let Some(cost) = &desc.cost {
-                estimation += cost.output;
+                estimation = estimation.saturating_add(cost.output);
             }
         }
         estimation
-- 
2.43.0


From fe7a5fb5e427c98477dada8002a9fad50861089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 04/65] fix: accept arbitrary large limits and offsets when
 finding matches

---
 graphannis/src/annis/db/corpusstorage.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 840222f..68a7282 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -394,6 +394,9 @@ fn init_locale() {
     }
 }
 
+/// Maximum number of results to reserve memory for when the actual number of results is unknown.
+const MAX_PREALLOCATED_RESULTS: usize = 10_000;
+
 /// Creates a new vector with the capacity to hold the expected number of items, but make sure the
 /// capacity is memory aligned with the page size (only full pages are allocated).
 fn new_vector_with_memory_aligned_capacity<T>(expected_len: usize) -> Vec<T> {
@@ -1817,7 +1820,7 @@ impl CorpusStorage {
 
                 let sort_size = if let Some(limit) = find_arguments.limit {
                     // we won't need to sort all items
-                    find_arguments.offset + limit
+                    find_arguments.offset.saturating_add(limit)
                 } else {
                     // sort all items if unlimited iterator is requested
                     tmp_results.len()
@@ -1887,7 +1890,8 @@ impl CorpusStorage {
         let mut results: Vec<String> = if let Some(expected_size) = expected_size {
             new_vector_with_memory_aligned_capacity(expected_size)
         } else if let Some(limit) = find_arguments.limit {
-            new_vector_with_memory_aligned_capacity(limit)
+            // The limit is given by the caller and can be much larger than the actual result
+            new_vector_with_memory_aligned_capacity(limit.min(MAX_PREALLOCATED_RESULTS))
         } else {
             Vec::new()
         };
-- 
2.43.0


From 26c9d413437a556e9270addd173007b948626810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 05/65] fix: inverse depth-first search does not report cycles
 it has not seen

---
 core/src/dfs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/dfs.rs b/core/src/dfs.rs
index 211720b..5d93e70 100644
--- a/core/src/dfs.rs
+++ b/core/src/dfs.rs
@@ -54,7 +54,7 @@ impl<'a> CycleSafeDFS<'a> {
             path: Vec::default(),
             nodes_in_path: FxHashSet::default(),
             last_distance: 0,
-            cycle_detected: true,
+            cycle_detected: false,
         }
     }
 
-- 
2.43.0


From 0b333531cec672346716147030ee47cf3fc3b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 06/65] fix: distance ranges of linear graph storages are
 neither overrun nor off by one

---
 core/src/graph/storage/linear.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/core/src/graph/storage/linear.rs b/core/src/graph/storage/linear.rs
index a5a6bca..d0535f1 100644
--- a/core/src/graph/storage/linear.rs
+++ b/core/src/graph/storage/linear.rs
@@ -93,8 +93,8 @@ where
         if let Some(pos) = self.node_to_pos.get(&node) {
             // find the next node in the chain
             if let Some(chain) = self.node_chains.get(&pos.root) {
-                let next_pos = pos.pos.clone() + PosT::one();
-                if let Some(next_pos) = next_pos.to_usize()
+                if let Some(pos) = pos.pos.to_usize()
+                    && let Some(next_pos) = pos.checked_add(1)
                     && next_pos < chain.len()
                 {
                     return Box::from(std::iter::once(Ok(chain[next_pos])));
@@ -216,8 +216,10 @@ where
                 std::ops::Bound::Unbounded => {
                     return Box::new(chain[min_distance..].iter().map(|n| Ok(*n)));
                 }
-                std::ops::Bound::Included(max_distance) => offset + max_distance + 1,
-                std::ops::Bound::Excluded(max_distance) => offset + max_distance,
+                std::ops::Bound::Included(max_distance) => {
+                    offset.saturating_add(max_distance).saturating_add(1)
+                }
+                std::ops::Bound::Excluded(max_distance) => offset.saturating_add(max_distance),
             };
             // clip to chain length
             let max_distance = std::cmp::min(chain.len(), max_distance);
@@ -241,16 +243,16 @@ where
             let max_distance = match max_distance {
                 std::ops::Bound::Unbounded => 0,
                 std::ops::Bound::Included(max_distance) => offset.saturating_sub(max_distance),
-                std::ops::Bound::Excluded(max_distance) => offset.saturating_sub(max_distance + 1),
+                std::ops::Bound::Excluded(max_distance) => {
+                    // the excluded maximum itself is one node too far
+                    (offset + 1).saturating_sub(max_distance)
+                }
             };
 
             if let Some(min_distance) = offset.checked_sub(min_distance) {
                 if min_distance < chain.len() && max_distance <= min_distance {
                     // return all entries in the chain between min_distance..max_distance (inclusive)
                     return Box::new(chain[max_distance..=min_distance].iter().map(|n| Ok(*n)));
-                } else if max_distance < chain.len() {
-                    // return all entries in the chain between min_distance..max_distance
-                    return Box::new(chain[max_distance..chain.len()].iter().map(|n| Ok(*n)));
                 }
             }
         }
-- 
2.43.0


From 81862bd0e11d22d6bd52846ad85dea2f59bedea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 07/65] fix: excluded distance bounds of zero select nothing
 instead of underflowing

---
 core/src/graph/storage/adjacencylist.rs   | 19 +++++++------------
 core/src/graph/storage/dense_adjacency.rs | 20 +++++++-------------
 core/src/graph/storage/disk_adjacency.rs  | 18 ++++++------------
 core/src/graph/storage/disk_path.rs       | 10 ++++------
 core/src/graph/storage/mod.rs             | 10 ++++++++++
 core/src/graph/storage/prepost.rs         | 22 ++++++++--------------
 6 files changed, 42 insertions(+), 57 deletions(-)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index 6b23a55..d6e2388 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -9,6 +9,7 @@ use crate::{
 
 use super::{
     EdgeContainer, GraphStatistic, GraphStorage, WriteableGraphStorage, deserialize_gs_field,
+    inclusive_max_distance,
     legacy::{self, AdjacencyListStorageV1},
     load_statistics_from_location, save_statistics_to_toml, serialize_gs_field,
 };
@@ -165,10 +166,8 @@ impl GraphStorage for AdjacencyListStorage {
         max_distance: Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
         let mut visited = FxHashSet::<NodeID>::default();
-        let max_distance = match max_distance {
-            Bound::Unbounded => usize::MAX,
-            Bound::Included(max_distance) => max_distance,
-            Bound::Excluded(max_distance) => max_distance - 1,
+        let Some(max_distance) = inclusive_max_distance(max_distance) else {
+            return Box::new(std::iter::empty());
         };
         let it = CycleSafeDFS::<'a>::new(self, node, min_distance, max_distance).filter_map_ok(
             move |x| {
@@ -189,10 +188,8 @@ impl GraphStorage for AdjacencyListStorage {
         max_distance: Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
         let mut visited = FxHashSet::<NodeID>::default();
-        let max_distance = match max_distance {
-            Bound::Unbounded => usize::MAX,
-            Bound::Included(max_distance) => max_distance,
-            Bound::Excluded(max_distance) => max_distance - 1,
+        let Some(max_distance) = inclusive_max_distance(max_distance) else {
+            return Box::new(std::iter::empty());
         };
 
         let it = CycleSafeDFS::<'a>::new_inverse(self, node, min_distance, max_distance)
@@ -225,10 +222,8 @@ impl GraphStorage for AdjacencyListStorage {
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
-        let max_distance = match max_distance {
-            Bound::Unbounded => usize::MAX,
-            Bound::Included(max_distance) => max_distance,
-            Bound::Excluded(max_distance) => max_distance - 1,
+        let Some(max_distance) = inclusive_max_distance(max_distance) else {
+            return Ok(false);
         };
         let mut it = CycleSafeDFS::new(self, source, min_distance, max_distance)
             .filter_ok(|x| target == x.node);
diff --git a/core/src/graph/storage/dense_adjacency.rs b/core/src/graph/storage/dense_adjacency.rs
index 66c6413..783ac62 100644
--- a/core/src/graph/storage/dense_adjacency.rs
+++ b/core/src/graph/storage/dense_adjacency.rs
@@ -1,5 +1,5 @@
 use super::{
-    EdgeContainer, GraphStatistic, GraphStorage, deserialize_gs_field,
+    EdgeContainer, GraphStatistic, GraphStorage, deserialize_gs_field, inclusive_max_distance,
     legacy::DenseAdjacencyListStorageV1, load_statistics_from_location, save_statistics_to_toml,
     serialize_gs_field,
 };
@@ -96,10 +96,8 @@ impl GraphStorage for DenseAdjacencyListStorage {
         max_distance: Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
         let mut visited = FxHashSet::<NodeID>::default();
-        let max_distance = match max_distance {
-            Bound::Unbounded => usize::MAX,
-            Bound::Included(max_distance) => max_distance,
-            Bound::Excluded(max_distance) => max_distance - 1,
+        let Some(max_distance) = inclusive_max_distance(max_distance) else {
+            return Box::new(std::iter::empty());
         };
         let it = CycleSafeDFS::<'a>::new(self, node, min_distance, max_distance)
             .map_ok(|x| x.node)
@@ -114,10 +112,8 @@ impl GraphStorage for DenseAdjacencyListStorage {
         max_distance: Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
         let mut visited = FxHashSet::<NodeID>::default();
-        let max_distance = match max_distance {
-            Bound::Unbounded => usize::MAX,
-            Bound::Included(max_distance) => max_distance,
-            Bound::Excluded(max_distance) => max_distance - 1,
+        let Some(max_distance) = inclusive_max_distance(max_distance) else {
+            return Box::new(std::iter::empty());
         };
 
         let it = CycleSafeDFS::<'a>::new_inverse(self, node, min_distance, max_distance)
@@ -146,10 +142,8 @@ impl GraphStorage for DenseAdjacencyListStorage {
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
-        let max_distance = match max_distance {
-            Bound::Unbounded => usize::MAX,
-            Bound::Included(max_distance) => max_distance,
-            Bound::Excluded(max_distance) => max_distance - 1,
+        let Some(max_distance) = inclusive_max_distance(max_distance) else {
+            return Ok(false);
         };
         let mut it = CycleSafeDFS::new(self, source, min_distance, max_distance)
             .filter_ok(|x| target == x.node);
diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index d3e9924..e25f01b 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -185,10 +185,8 @@ impl GraphStorage for DiskAdjacencyListStorage {
         max_distance: Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
         let mut visited = FxHashSet::<NodeID>::default();
-        let max_distance = match max_distance {
-            Bound::Unbounded => usize::MAX,
-            Bound::Included(max_distance) => max_distance,
-            Bound::Excluded(max_distance) => max_distance - 1,
+        let Some(max_distance) = inclusive_max_distance(max_distance) else {
+            return Box::new(std::iter::empty());
         };
         let it = CycleSafeDFS::<'a>::new(self, node, min_distance, max_distance)
             .map_ok(|x| x.node)
@@ -203,10 +201,8 @@ impl GraphStorage for DiskAdjacencyListStorage {
         max_distance: Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
         let mut visited = FxHashSet::<NodeID>::default();
-        let max_distance = match max_distance {
-            Bound::Unbounded => usize::MAX,
-            Bound::Included(max_distance) => max_distance,
-            Bound::Excluded(max_distance) => max_distance - 1,
+        let Some(max_distance) = inclusive_max_distance(max_distance) else {
+            return Box::new(std::iter::empty());
         };
 
         let it = CycleSafeDFS::<'a>::new_inverse(self, node, min_distance, max_distance)
@@ -235,10 +231,8 @@ impl GraphStorage for DiskAdjacencyListStorage {
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
-        let max_distance = match max_distance {
-            Bound::Unbounded => usize::MAX,
-            Bound::Included(max_distance) => max_distance,
-            Bound::Excluded(max_distance) => max_distance - 1,
+        let Some(max_distance) = inclusive_max_distance(max_distance) else {
+            return Ok(false);
         };
         let mut it = CycleSafeDFS::new(self, source, min_distance, max_distance)
             .filter_ok(|x| target == x.node);
diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index a5a668c..b0942ba 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -17,8 +17,8 @@ use crate::{
 };
 
 use super::{
-    EdgeContainer, GraphStatistic, GraphStorage, load_statistics_from_location,
-    save_statistics_to_toml,
+    EdgeContainer, GraphStatistic, GraphStorage, inclusive_max_distance,
+    load_statistics_from_location, save_statistics_to_toml,
 };
 use binary_layout::prelude::*;
 
@@ -219,10 +219,8 @@ impl GraphStorage for DiskPathStorage {
         max_distance: std::ops::Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
         let mut visited = HashSet::<NodeID>::default();
-        let max_distance = match max_distance {
-            Bound::Unbounded => usize::MAX,
-            Bound::Included(max_distance) => max_distance,
-            Bound::Excluded(max_distance) => max_distance - 1,
+        let Some(max_distance) = inclusive_max_distance(max_distance) else {
+            return Box::new(std::iter::empty());
         };
 
         let it = CycleSafeDFS::<'a>::new_inverse(self, node, min_distance, max_distance)
diff --git a/core/src/graph/storage/mod.rs b/core/src/graph/storage/mod.rs
index 6d3e4f2..48ba9d6 100644
--- a/core/src/graph/storage/mod.rs
+++ b/core/src/graph/storage/mod.rs
@@ -133,6 +133,16 @@ pub trait EdgeContainer: Sync + Send {
     }
 }
 
+/// Get the largest distance which is still allowed by the upper bound of a distance range, or
+/// `None` if there is no such distance.
+pub(crate) fn inclusive_max_distance(max_distance: std::ops::Bound<usize>) -> Option<usize> {
+    match max_distance {
+        std::ops::Bound::Unbounded => Some(usize::MAX),
+        std::ops::Bound::Included(max_distance) => Some(max_distance),
+        std::ops::Bound::Excluded(max_distance) => max_distance.checked_sub(1),
+    }
+}
+
 /// A graph storage is the representation of an edge component of a graph with specific structures.
 /// These specific structures are exploited to efficiently implement reachability queries.
 pub trait GraphStorage: EdgeContainer {
diff --git a/core/src/graph/storage/prepost.rs b/core/src/graph/storage/prepost.rs
index 54c382b..e8e5f5b 100644
--- a/core/src/graph/storage/prepost.rs
+++ b/core/src/graph/storage/prepost.rs
@@ -1,5 +1,5 @@
 use super::{
-    EdgeContainer, GraphStatistic, GraphStorage, deserialize_gs_field,
+    EdgeContainer, GraphStatistic, GraphStorage, deserialize_gs_field, inclusive_max_distance,
     legacy::PrePostOrderStorageV1, load_statistics_from_location, save_statistics_to_toml,
     serialize_gs_field,
 };
@@ -14,7 +14,7 @@ use crate::{
 use rustc_hash::{FxHashMap, FxHashSet};
 use serde::{Deserialize, Serialize};
 use std::clone::Clone;
-use std::{ops::Bound::*, path::Path};
+use std::{ops::Bound::Included, path::Path};
 
 #[derive(PartialOrd, PartialEq, Ord, Eq, Clone, Serialize, Deserialize)]
 pub struct PrePost<OrderT, LevelT> {
@@ -243,10 +243,8 @@ where
         if let Some(start_orders) = self.node_to_order.get(&node) {
             let mut visited = FxHashSet::<NodeID>::default();
 
-            let max_distance = match max_distance {
-                Unbounded => usize::MAX,
-                Included(max_distance) => max_distance,
-                Excluded(max_distance) => max_distance - 1,
+            let Some(max_distance) = inclusive_max_distance(max_distance) else {
+                return Box::new(std::iter::empty());
             };
 
             let it = start_orders
@@ -299,10 +297,8 @@ where
         if let Some(start_orders) = self.node_to_order.get(&start_node) {
             let mut visited = FxHashSet::<NodeID>::default();
 
-            let max_distance = match max_distance {
-                Unbounded => usize::MAX,
-                Included(max_distance) => max_distance,
-                Excluded(max_distance) => max_distance - 1,
+            let Some(max_distance) = inclusive_max_distance(max_distance) else {
+                return Box::new(std::iter::empty());
             };
 
             let it = start_orders
@@ -436,10 +432,8 @@ where
             self.node_to_order.get(&source),
             self.node_to_order.get(&target),
         ) {
-            let max_distance = match max_distance {
-                Unbounded => usize::MAX,
-                Included(max_distance) => max_distance,
-                Excluded(max_distance) => max_distance - 1,
+            let Some(max_distance) = inclusive_max_distance(max_distance) else {
+                return Ok(false);
             };
 
             for order_source in order_source.iter() {
-- 
2.43.0


From 8814819b2760e0b0da39c7e16683580f840a25e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 08/65] fix: every node is connected to itself with distance
 zero in linear and pre/post order storages

---
 core/src/graph/storage/linear.rs  | 15 ++++++++++++---
 core/src/graph/storage/mod.rs     | 14 ++++++++++++++
 core/src/graph/storage/prepost.rs | 11 +++++++----
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/core/src/graph/storage/linear.rs b/core/src/graph/storage/linear.rs
index d0535f1..04946a8 100644
--- a/core/src/graph/storage/linear.rs
+++ b/core/src/graph/storage/linear.rs
@@ -1,7 +1,7 @@
 use super::{
-    EdgeContainer, GraphStatistic, GraphStorage, deserialize_gs_field,
-    legacy::LinearGraphStorageV1, load_statistics_from_location, save_statistics_to_toml,
-    serialize_gs_field,
+    EdgeContainer, GraphStatistic, GraphStorage, deserialize_gs_field, inclusive_max_distance,
+    legacy::LinearGraphStorageV1, load_statistics_from_location, only_reflexive,
+    save_statistics_to_toml, serialize_gs_field,
 };
 use crate::{
     annostorage::{
@@ -206,6 +206,9 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
+        if !self.node_to_pos.contains_key(&source) {
+            return only_reflexive(source, min_distance, max_distance);
+        }
         if let Some(start_pos) = self.node_to_pos.get(&source)
             && let Some(chain) = self.node_chains.get(&start_pos.root)
             && let Some(offset) = start_pos.pos.to_usize()
@@ -236,6 +239,9 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
+        if !self.node_to_pos.contains_key(&source) {
+            return only_reflexive(source, min_distance, max_distance);
+        }
         if let Some(start_pos) = self.node_to_pos.get(&source)
             && let Some(chain) = self.node_chains.get(&start_pos.root)
             && let Some(offset) = start_pos.pos.to_usize()
@@ -284,6 +290,9 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
+        if source == target {
+            return Ok(min_distance == 0 && inclusive_max_distance(max_distance).is_some());
+        }
         if let (Some(source_pos), Some(target_pos)) =
             (self.node_to_pos.get(&source), self.node_to_pos.get(&target))
             && source_pos.root == target_pos.root
diff --git a/core/src/graph/storage/mod.rs b/core/src/graph/storage/mod.rs
index 48ba9d6..51ad396 100644
--- a/core/src/graph/storage/mod.rs
+++ b/core/src/graph/storage/mod.rs
@@ -143,6 +143,20 @@ pub(crate) fn inclusive_max_distance(max_distance: std::ops::Bound<usize>) -> Op
     }
 }
 
+/// Find the connected nodes of a node without any edges in the component, which is only the node
+/// itself when the distance range starts with zero.
+pub(crate) fn only_reflexive<'a>(
+    node: NodeID,
+    min_distance: usize,
+    max_distance: std::ops::Bound<usize>,
+) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
+    if min_distance == 0 && inclusive_max_distance(max_distance).is_some() {
+        Box::new(std::iter::once(Ok(node)))
+    } else {
+        Box::new(std::iter::empty())
+    }
+}
+
 /// A graph storage is the representation of an edge component of a graph with specific structures.
 /// These specific structures are exploited to efficiently implement reachability queries.
 pub trait GraphStorage: EdgeContainer {
diff --git a/core/src/graph/storage/prepost.rs b/core/src/graph/storage/prepost.rs
index e8e5f5b..0aba337 100644
--- a/core/src/graph/storage/prepost.rs
+++ b/core/src/graph/storage/prepost.rs
@@ -1,7 +1,7 @@
 use super::{
     EdgeContainer, GraphStatistic, GraphStorage, deserialize_gs_field, inclusive_max_distance,
-    legacy::PrePostOrderStorageV1, load_statistics_from_location, save_statistics_to_toml,
-    serialize_gs_field,
+    legacy::PrePostOrderStorageV1, load_statistics_from_location, only_reflexive,
+    save_statistics_to_toml, serialize_gs_field,
 };
 use crate::{
     annostorage::{
@@ -284,7 +284,7 @@ where
                 .map(Ok);
             Box::new(it)
         } else {
-            Box::new(std::iter::empty())
+            only_reflexive(node, min_distance, max_distance)
         }
     }
 
@@ -381,7 +381,7 @@ where
                 .map(Ok);
             Box::new(it)
         } else {
-            Box::new(std::iter::empty())
+            only_reflexive(start_node, min_distance, max_distance)
         }
     }
 
@@ -428,6 +428,9 @@ where
         min_distance: usize,
         max_distance: std::ops::Bound<usize>,
     ) -> Result<bool> {
+        if source == target && min_distance == 0 {
+            return Ok(inclusive_max_distance(max_distance).is_some());
+        }
         if let (Some(order_source), Some(order_target)) = (
             self.node_to_order.get(&source),
             self.node_to_order.get(&target),
-- 
2.43.0


From d633d806e1ef6bd74433f0260a6c65db4e9a4e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 09/65] fix: pre/post order connection test considers all paths
 between the nodes

---
 core/src/graph/storage/prepost.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/graph/storage/prepost.rs b/core/src/graph/storage/prepost.rs
index 0aba337..8bbe92c 100644
--- a/core/src/graph/storage/prepost.rs
+++ b/core/src/graph/storage/prepost.rs
@@ -450,7 +450,9 @@ where
                             && source_level <= target_level
                         {
                             let diff_level = target_level - source_level;
-                            return Ok(min_distance <= diff_level && diff_level <= max_distance);
+                            if min_distance <= diff_level && diff_level <= max_distance {
+                                return Ok(true);
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 02f60474a77564b8c6cc6f361ee394774471f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 10/65] fix: detect cycles of components which are not
 reachable from any root node

---
 core/src/graph/storage/adjacencylist.rs  | 6 ++++++
 core/src/graph/storage/disk_adjacency.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index d6e2388..2c3bbe5 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -428,10 +428,12 @@ impl WriteableGraphStorage for AdjacencyListStorage {
             // if we have edges but no roots at all there must be a cycle
             stats.cyclic = true;
         } else {
+            let mut visited: BTreeSet<NodeID> = BTreeSet::new();
             for root_node in &roots {
                 let mut dfs = CycleSafeDFS::new(self, *root_node, 0, usize::MAX);
                 for step in &mut dfs {
                     let step = step?;
+                    visited.insert(step.node);
                     number_of_visits += 1;
                     stats.max_depth = std::cmp::max(stats.max_depth, step.distance);
                 }
@@ -439,6 +441,10 @@ impl WriteableGraphStorage for AdjacencyListStorage {
                     stats.cyclic = true;
                 }
             }
+            if visited.len() < stats.nodes {
+                // any node which can't be reached from a root node must be reachable from a cycle
+                stats.cyclic = true;
+            }
         }
 
         if stats.cyclic {
diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index e25f01b..38715c9 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -426,10 +426,12 @@ impl WriteableGraphStorage for DiskAdjacencyListStorage {
             // if we have edges but no roots at all there must be a cycle
             stats.cyclic = true;
         } else {
+            let mut visited: BTreeSet<NodeID> = BTreeSet::new();
             for root_node in &roots {
                 let mut dfs = CycleSafeDFS::new(self, *root_node, 0, usize::MAX);
                 for step in &mut dfs {
                     let step = step?;
+                    visited.insert(step.node);
                     number_of_visits += 1;
                     stats.max_depth = std::cmp::max(stats.max_depth, step.distance);
                 }
@@ -437,6 +439,10 @@ impl WriteableGraphStorage for DiskAdjacencyListStorage {
                     stats.cyclic = true;
                 }
             }
+            if visited.len() < stats.nodes {
+                // any node which can't be reached from a root node must be reachable from a cycle
+                stats.cyclic = true;
+            }
         }
 
         if stats.cyclic {
-- 
2.43.0


From 28abf14e4e4bcd2c11afbaea28d482a9b7c28e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 11/65] fix: the distance between two nodes is the length of
 the shortest path

---
 core/src/graph/storage/adjacencylist.rs   | 13 ++--------
 core/src/graph/storage/dense_adjacency.rs | 14 ++--------
 core/src/graph/storage/disk_adjacency.rs  | 12 +--------
 core/src/graph/storage/mod.rs             | 31 +++++++++++++++++++++++
 4 files changed, 36 insertions(+), 34 deletions(-)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index 2c3bbe5..6ef922f 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -11,7 +11,7 @@ use super::{
     EdgeContainer, GraphStatistic, GraphStorage, WriteableGraphStorage, deserialize_gs_field,
     inclusive_max_distance,
     legacy::{self, AdjacencyListStorageV1},
-    load_statistics_from_location, save_statistics_to_toml, serialize_gs_field,
+    load_statistics_from_location, save_statistics_to_toml, serialize_gs_field, shortest_distance,
 };
 use itertools::Itertools;
 use rustc_hash::FxHashSet;
@@ -204,16 +204,7 @@ impl GraphStorage for AdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
-            .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+        shortest_distance(self, source, target)
     }
     fn is_connected(
         &self,
diff --git a/core/src/graph/storage/dense_adjacency.rs b/core/src/graph/storage/dense_adjacency.rs
index 783ac62..e716f28 100644
--- a/core/src/graph/storage/dense_adjacency.rs
+++ b/core/src/graph/storage/dense_adjacency.rs
@@ -1,7 +1,7 @@
 use super::{
     EdgeContainer, GraphStatistic, GraphStorage, deserialize_gs_field, inclusive_max_distance,
     legacy::DenseAdjacencyListStorageV1, load_statistics_from_location, save_statistics_to_toml,
-    serialize_gs_field,
+    serialize_gs_field, shortest_distance,
 };
 use crate::{
     annostorage::{
@@ -123,17 +123,7 @@ impl GraphStorage for DenseAdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
-            .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+        shortest_distance(self, source, target)
     }
     fn is_connected(
         &self,
diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index 38715c9..3f2dab6 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -212,17 +212,7 @@ impl GraphStorage for DiskAdjacencyListStorage {
     }
 
     fn distance(&self, source: NodeID, target: NodeID) -> Result<Option<usize>> {
-        let mut it = CycleSafeDFS::new(self, source, usize::MIN, usize::MAX)
-            .filter_ok(|x| target == x.node)
-            .map_ok(|x| x.distance);
-
-        match it.next() {
-            Some(distance) => {
-                let distance = distance?;
-                Ok(Some(distance))
-            }
-            None => Ok(None),
-        }
+        shortest_distance(self, source, target)
     }
     fn is_connected(
         &self,
diff --git a/core/src/graph/storage/mod.rs b/core/src/graph/storage/mod.rs
index 51ad396..0dd7cfa 100644
--- a/core/src/graph/storage/mod.rs
+++ b/core/src/graph/storage/mod.rs
@@ -16,6 +16,7 @@ use crate::{
     types::{AnnoKey, Annotation, Edge, NodeID},
 };
 use itertools::Itertools;
+use rustc_hash::FxHashSet;
 use serde::{Deserialize, Serialize};
 use std::{self, path::Path};
 
@@ -157,6 +158,36 @@ pub(crate) fn only_reflexive<'a>(
     }
 }
 
+/// Compute the length of the shortest path from the source to the target node.
+pub(crate) fn shortest_distance(
+    container: &dyn EdgeContainer,
+    source: NodeID,
+    target: NodeID,
+) -> Result<Option<usize>> {
+    let mut visited = FxHashSet::<NodeID>::default();
+    visited.insert(source);
+    // All nodes with the current distance to the source
+    let mut current = vec![source];
+    let mut distance = 0;
+    while !current.is_empty() {
+        if current.contains(&target) {
+            return Ok(Some(distance));
+        }
+        let mut next = Vec::new();
+        for node in current {
+            for child in container.get_outgoing_edges(node) {
+                let child = child?;
+                if visited.insert(child) {
+                    next.push(child);
+                }
+            }
+        }
+        current = next;
+        distance += 1;
+    }
+    Ok(None)
+}
+
 /// A graph storage is the representation of an edge component of a graph with specific structures.
 /// These specific structures are exploited to efficiently implement reachability queries.
 pub trait GraphStorage: EdgeContainer {
-- 
2.43.0


From 744288e6ac2346cd3d94414204f03e5899f06fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 12/65] fix: empty disk path storages have no edges instead of
 failing

---
 core/src/graph/storage/disk_path.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index b0942ba..7c5b942 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -63,7 +63,7 @@ impl DiskPathStorage {
     }
 
     fn get_outgoing_edge(&self, node: NodeID) -> Result<Option<NodeID>> {
-        if node > self.max_node_id()? {
+        if node >= self.number_of_entries() {
             return Ok(None);
         }
         let offset = offset_in_file(node) as usize;
@@ -79,13 +79,12 @@ impl DiskPathStorage {
         }
     }
 
-    fn max_node_id(&self) -> Result<u64> {
-        let number_of_entries = self.paths_file_size / (ENTRY_SIZE as u64);
-        Ok(number_of_entries - 1)
+    fn number_of_entries(&self) -> u64 {
+        self.paths_file_size / (ENTRY_SIZE as u64)
     }
 
     fn path_for_node(&self, node: NodeID) -> Result<Vec<NodeID>> {
-        if node > self.max_node_id()? {
+        if node >= self.number_of_entries() {
             return Ok(Vec::default());
         }
         let offset = offset_in_file(node) as usize;
@@ -161,9 +160,8 @@ impl EdgeContainer for DiskPathStorage {
     }
 
     fn source_nodes<'a>(&'a self) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
-        let max_node_id = try_as_boxed_iter!(self.max_node_id());
         // ignore node entries with empty path in result
-        let it = (0..=max_node_id)
+        let it = (0..self.number_of_entries())
             .map(move |n| {
                 let offset = offset_in_file(n) as usize;
                 let view = node_path::View::new(&self.paths[offset..(offset + ENTRY_SIZE)]);
-- 
2.43.0


From dd09beae136ad46472255152df3f069fb937cd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 13/65] fix: distance ranges excluding zero do not select the
 start node in disk path storages

---
 core/src/graph/storage/disk_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index 7c5b942..a79042e 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -190,7 +190,7 @@ impl GraphStorage for DiskPathStorage {
         max_distance: std::ops::Bound<usize>,
     ) -> Box<dyn Iterator<Item = Result<NodeID>> + 'a> {
         let mut result = Vec::default();
-        if min_distance == 0 {
+        if min_distance == 0 && inclusive_max_distance(max_distance).is_some() {
             result.push(Ok(node));
         }
 
-- 
2.43.0


From 34ddc0d129a1f096a9c3db15f0362fe011c2d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 14/65] fix: copying into a disk path storage removes its
 previous edge annotations

---
 core/src/graph/storage/disk_path.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index a79042e..f1abf19 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -276,6 +276,7 @@ impl GraphStorage for DiskPathStorage {
         orig: &dyn GraphStorage,
     ) -> Result<()> {
         self.inverse_edges.clear();
+        self.annos.clear()?;
 
         // Create a new file which is large enough to contain the paths for all nodes.
         let max_node_id = orig
-- 
2.43.0


From feed40d31c0c1538fd434825ccb2e7fd8c1ca560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 15/65] fix: searching nodes by their components returns each
 match once and with its constant annotation

---
 graphannis/src/annis/db/exec/nodesearch.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index 1cc9e99..5da1716 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -996,6 +996,11 @@ impl<'a> NodeSearch<'a> {
     ) -> Result<NodeSearch<'a>> {
         let node_search_desc_1 = node_search_desc.clone();
         let node_search_desc_2 = node_search_desc.clone();
+        let const_output = node_search_desc.const_output.clone();
+
+        // the same node can be part of several components or have several edges
+        let mut visited_nodes: HashSet<NodeID> = HashSet::default();
+        let mut visited_const_output: HashSet<NodeID> = HashSet::default();
 
         let it = components
             .into_iter()
@@ -1030,6 +1035,7 @@ impl<'a> NodeSearch<'a> {
                     }
                 },
             )
+            .filter_ok(move |node| visited_nodes.insert(*node))
             .map(move |node| {
                 match node {
                     Ok(node) => {
@@ -1061,7 +1067,18 @@ impl<'a> NodeSearch<'a> {
                 }
                 Err(e) => Err(GraphAnnisError::from(e)),
             })
-            .filter_map_ok(|m| m);
+            .filter_map_ok(move |m: Option<MatchGroup>| {
+                let mut m = m?;
+                // replace the annotation with a constant value if needed
+                if let Some(const_output) = &const_output {
+                    let node = m[0].node;
+                    if !visited_const_output.insert(node) {
+                        return None;
+                    }
+                    m[0].anno_key = const_output.clone();
+                }
+                Some(m)
+            });
         let mut new_desc = desc.cloned();
         if let Some(ref mut new_desc) = new_desc {
             new_desc.impl_description = String::from("part-of-component-search");
-- 
2.43.0


From c7e8245d358738a0968821e838de4649bb36efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:03 +0000
Subject: [PATCH 16/65] fix: legacy metadata searches return each node once

---
 graphannis/src/annis/db/exec/nodesearch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index 5da1716..2a56312 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -603,7 +603,7 @@ impl<'a> NodeSearch<'a> {
                             // The unique_by will merge all errors into a single
                             // error, which should be ok for our use case
                             .unique_by(|m| match m {
-                                Ok(m) => Some(m.clone()),
+                                Ok(m) => Some(m.node),
                                 Err(_) => None,
                             })
                             .map(move |m| match m {
@@ -717,7 +717,7 @@ impl<'a> NodeSearch<'a> {
                     Box::new(
                         base_it
                             .unique_by(|m| match m {
-                                Ok(m) => Some(m.clone()),
+                                Ok(m) => Some(m.node),
                                 Err(_) => None,
                             })
                             .map(move |m| match m {
-- 
2.43.0


From a48f2943de1406d5cb702145101f7a531d3e6462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 17/65] fix: list edges to the largest node ID in disk
 adjacency storages

---
 core/src/graph/storage/disk_adjacency.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index 3f2dab6..1a135a5 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -74,7 +74,7 @@ impl EdgeContainer for DiskAdjacencyListStorage {
         };
         Box::new(
             self.edges
-                .range(lower_bound..upper_bound)
+                .range(lower_bound..=upper_bound)
                 .map_ok(|(e, _)| e.target),
         )
     }
@@ -88,7 +88,7 @@ impl EdgeContainer for DiskAdjacencyListStorage {
             source: node,
             target: NodeID::MAX,
         };
-        if let Some(edge) = self.edges.range(lower_bound..upper_bound).next() {
+        if let Some(edge) = self.edges.range(lower_bound..=upper_bound).next() {
             edge?;
             Ok(true)
         } else {
@@ -110,7 +110,7 @@ impl EdgeContainer for DiskAdjacencyListStorage {
         };
         Box::new(
             self.inverse_edges
-                .range(lower_bound..upper_bound)
+                .range(lower_bound..=upper_bound)
                 .map_ok(|(e, _)| e.target),
         )
     }
-- 
2.43.0


From 2997b5ae6a16a7de20b5589e87c5c475e1e33c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 18/65] fix: clearing an in-memory annotation storage resets
 its number of annotations

---
 core/src/annostorage/inmemory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index b97abed..de092af 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -64,6 +64,7 @@ impl<T: Ord + Hash + Clone + serde::Serialize + serde::de::DeserializeOwned + De
         self.histogram_bounds.clear();
         self.largest_item = None;
         self.anno_values.clear();
+        self.total_number_of_annos = 0;
     }
 
     fn create_sparse_anno(&mut self, orig: Annotation) -> Result<SparseAnnotation> {
-- 
2.43.0


From fc397b538fa47592b7ab3dc0e7b8f74abb9192c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 19/65] fix: statistics ignore nodes whose edges have all been
 deleted

---
 core/src/graph/storage/adjacencylist.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/graph/storage/adjacencylist.rs b/core/src/graph/storage/adjacencylist.rs
index 6ef922f..35c57cb 100644
--- a/core/src/graph/storage/adjacencylist.rs
+++ b/core/src/graph/storage/adjacencylist.rs
@@ -358,6 +358,10 @@ impl WriteableGraphStorage for AdjacencyListStorage {
         {
             let mut all_nodes: BTreeSet<NodeID> = BTreeSet::new();
             for (source, outgoing) in &self.edges {
+                // the entry remains when all edges of a source node have been deleted
+                if outgoing.is_empty() {
+                    continue;
+                }
                 roots.insert(*source);
                 all_nodes.insert(*source);
                 for target in outgoing {
@@ -415,7 +419,7 @@ impl WriteableGraphStorage for AdjacencyListStorage {
         }
 
         let mut number_of_visits = 0;
-        if roots.is_empty() && !self.edges.is_empty() {
+        if roots.is_empty() && stats.nodes > 0 {
             // if we have edges but no roots at all there must be a cycle
             stats.cyclic = true;
         } else {
-- 
2.43.0


From 82f2f40c7ec8eda56c8204f9493d070ab62ae772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:27 +0000
Subject: [PATCH 20/65] fix: count annotations of a name in all namespaces

---
 core/src/annostorage/inmemory.rs | 31 +++++++++----------------------
 core/src/annostorage/ondisk.rs   | 31 +++++++++----------------------
 2 files changed, 18 insertions(+), 44 deletions(-)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index de092af..e13269b 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -5,7 +5,6 @@ use crate::graph::NODE_NAME_KEY;
 use crate::types::{AnnoKey, Annotation, Edge, NodeID};
 use crate::util::{self};
 use crate::{annostorage::symboltable::SymbolTable, errors::GraphAnnisCoreError};
-use core::ops::Bound::*;
 use itertools::Itertools;
 use rand::seq::IteratorRandom;
 use rustc_hash::FxHashSet;
@@ -491,29 +490,17 @@ where
 
     fn number_of_annotations_by_name(&self, ns: Option<&str>, name: &str) -> Result<usize> {
         let qualified_keys = match ns {
-            Some(ns) => self.anno_key_sizes.range((
-                Included(AnnoKey {
-                    name: name.into(),
-                    ns: ns.into(),
-                }),
-                Included(AnnoKey {
-                    name: name.into(),
-                    ns: ns.into(),
-                }),
-            )),
-            None => self.anno_key_sizes.range(
-                AnnoKey {
-                    name: name.into(),
-                    ns: String::default(),
-                }..AnnoKey {
-                    name: name.into(),
-                    ns: std::char::MAX.to_string(),
-                },
-            ),
+            Some(ns) => vec![AnnoKey {
+                name: name.into(),
+                ns: ns.into(),
+            }],
+            None => self.get_qnames(name)?,
         };
         let mut result = 0;
-        for (_anno_key, anno_size) in qualified_keys {
-            result += anno_size;
+        for anno_key in qualified_keys {
+            if let Some(anno_size) = self.anno_key_sizes.get(&anno_key) {
+                result += anno_size;
+            }
         }
         Ok(result)
     }
diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index d6b13d5..4c33664 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -7,7 +7,6 @@ use crate::serializer::{FixedSizeKeySerializer, KeySerializer};
 use crate::types::{AnnoKey, Annotation, Edge, NodeID};
 use crate::util::disk_collections::{DiskMap, EvictionStrategy};
 use crate::{try_as_boxed_iter, util};
-use core::ops::Bound::*;
 use itertools::Itertools;
 use rand::seq::IteratorRandom;
 use regex_syntax::Parser;
@@ -647,29 +646,17 @@ where
 
     fn number_of_annotations_by_name(&self, ns: Option<&str>, name: &str) -> Result<usize> {
         let qualified_keys = match ns {
-            Some(ns) => self.anno_key_sizes.range((
-                Included(AnnoKey {
-                    name: name.into(),
-                    ns: ns.into(),
-                }),
-                Included(AnnoKey {
-                    name: name.into(),
-                    ns: ns.into(),
-                }),
-            )),
-            None => self.anno_key_sizes.range(
-                AnnoKey {
-                    name: name.into(),
-                    ns: String::default(),
-                }..AnnoKey {
-                    name: name.into(),
-                    ns: std::char::MAX.to_string(),
-                },
-            ),
+            Some(ns) => vec![AnnoKey {
+                name: name.into(),
+                ns: ns.into(),
+            }],
+            None => self.get_qnames(name)?,
         };
         let mut result = 0;
-        for (_anno_key, anno_size) in qualified_keys {
-            result += anno_size;
+        for anno_key in qualified_keys {
+            if let Some(anno_size) = self.anno_key_sizes.get(&anno_key) {
+                result += anno_size;
+            }
         }
         Ok(result)
     }
-- 
2.43.0


From f13ba13230b89ab4b1d4323880ae98b23d2b3f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:58 +0000
Subject: [PATCH 21/65] fix: remove the search entry of an overwritten on-disk
 annotation value

---
 core/src/annostorage/ondisk.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 4c33664..8c83851 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -365,6 +365,22 @@ where
             .is_none_or(|largest_item| item <= *largest_item);
         let already_existed =
             item_smaller_than_largest && self.by_container.contains_key(&by_container_key)?;
+        if already_existed {
+            // Remove the entry for the previous value, so searches don't find it anymore
+            let old_value = self
+                .by_container
+                .get(&by_container_key)?
+                .map(|v| v.into_owned());
+            if let Some(old_value) = old_value
+                && old_value != anno.val.as_str()
+            {
+                self.by_anno_qname.remove(&create_by_anno_qname_key(
+                    item.clone(),
+                    anno_key_symbol,
+                    &old_value,
+                ))?;
+            }
+        }
         self.by_container
             .insert(by_container_key, anno.val.clone())?;
 
-- 
2.43.0


From e034af13e042f4cf0030d395020ae6ad9aae1169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:57 +0000
Subject: [PATCH 22/65] fix: on-disk annotation searches use exact key ranges

---
 core/src/annostorage/ondisk.rs | 89 ++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 32 deletions(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 8c83851..acb622e 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -14,6 +14,7 @@ use regex_syntax::hir::literal::Seq;
 use serde_bytes::ByteBuf;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, HashMap, HashSet};
+use std::ops::Range;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use transient_btree_index::BtreeConfig;
@@ -92,6 +93,36 @@ fn create_by_anno_qname_key<T: FixedSizeKeySerializer>(
     result
 }
 
+/// Creates the range of all keys of the `by_anno_qname` tree for an annotation key and all values
+/// starting with the given prefix.
+///
+/// The byte `0xFF` never occurs in UTF-8 encoded text and follows the terminating `\0` of a value,
+/// so it is a valid exclusive upper bound.
+fn create_by_anno_qname_prefix_range(anno_key_symbol: usize, value_prefix: &str) -> Range<ByteBuf> {
+    let mut lower_bound: ByteBuf = ByteBuf::from(anno_key_symbol.create_key().to_vec());
+    lower_bound.extend(value_prefix.as_bytes());
+    let mut upper_bound = lower_bound.clone();
+    upper_bound.push(0xFF);
+    lower_bound..upper_bound
+}
+
+/// Creates the range of keys of the `by_anno_qname` tree for an annotation key and a value.
+///
+/// Values may contain the terminating `\0` themself, so the range can also include longer values.
+/// Only keys with the length given as second return value belong to the value.
+fn create_by_anno_qname_value_range<T: FixedSizeKeySerializer>(
+    anno_key_symbol: usize,
+    value: &str,
+) -> (Range<ByteBuf>, usize) {
+    let mut lower_bound: ByteBuf = ByteBuf::from(anno_key_symbol.create_key().to_vec());
+    lower_bound.extend(value.as_bytes());
+    let mut upper_bound = lower_bound.clone();
+    lower_bound.push(0);
+    upper_bound.push(1);
+    let key_len = lower_bound.len() + T::key_size();
+    (lower_bound..upper_bound, key_len)
+}
+
 impl<T> AnnoStorageImpl<T>
 where
     T: FixedSizeKeySerializer
@@ -195,19 +226,16 @@ where
             .into_iter()
             .filter_map(move |k| self.anno_key_symbols.get_symbol(&k))
             .flat_map(move |anno_key_symbol| {
-                let lower_bound_value = if let Some(value) = &value { value } else { "" };
-                let lower_bound =
-                    create_by_anno_qname_key(NodeID::MIN, anno_key_symbol, lower_bound_value);
-
-                let upper_bound_value = if let Some(value) = &value {
-                    Cow::Borrowed(value)
+                let (range, key_len) = if let Some(value) = &value {
+                    let (range, key_len) =
+                        create_by_anno_qname_value_range::<T>(anno_key_symbol, value);
+                    (range, Some(key_len))
                 } else {
-                    Cow::Owned(std::char::MAX.to_string())
+                    (create_by_anno_qname_prefix_range(anno_key_symbol, ""), None)
                 };
-
-                let upper_bound =
-                    create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, &upper_bound_value);
-                self.by_anno_qname.range(lower_bound..upper_bound)
+                self.by_anno_qname
+                    .range(range)
+                    .filter_ok(move |(data, _)| key_len.is_none_or(|len| data.len() == len))
             })
             .fuse()
             .map(move |item| match item {
@@ -253,13 +281,8 @@ where
             .into_iter()
             .filter_map(move |k| self.anno_key_symbols.get_symbol(&k))
             .flat_map(move |anno_key_symbol| {
-                let lower_bound = create_by_anno_qname_key(NodeID::MIN, anno_key_symbol, &prefix);
-
-                let mut upper_val = prefix.clone();
-                upper_val.push(std::char::MAX);
-                let upper_bound =
-                    create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, &upper_val);
-                self.by_anno_qname.range(lower_bound..upper_bound)
+                self.by_anno_qname
+                    .range(create_by_anno_qname_prefix_range(anno_key_symbol, &prefix))
             })
             .fuse()
             .map(move |item| match item {
@@ -325,12 +348,10 @@ where
         anno_key: &AnnoKey,
     ) -> Box<dyn Iterator<Item = Result<(ByteBuf, bool)>> + 'a> {
         if let Some(anno_key_symbol) = self.anno_key_symbols.get_symbol(anno_key) {
-            let lower_bound = create_by_anno_qname_key(NodeID::MIN, anno_key_symbol, "");
-
-            let upper_bound =
-                create_by_anno_qname_key(NodeID::MAX, anno_key_symbol, &std::char::MAX.to_string());
-
-            Box::new(self.by_anno_qname.range(lower_bound..upper_bound))
+            Box::new(
+                self.by_anno_qname
+                    .range(create_by_anno_qname_prefix_range(anno_key_symbol, "")),
+            )
         } else {
             Box::from(std::iter::empty())
         }
@@ -1172,10 +1193,12 @@ where
 impl NodeAnnotationStorage for AnnoStorageImpl<NodeID> {
     fn get_node_id_from_name(&self, node_name: &str) -> Result<Option<NodeID>> {
         if let Some(node_name_symbol) = self.anno_key_symbols.get_symbol(&NODE_NAME_KEY) {
-            let lower_bound = create_by_anno_qname_key(NodeID::MIN, node_name_symbol, node_name);
-            let upper_bound = create_by_anno_qname_key(NodeID::MAX, node_name_symbol, node_name);
-
-            let mut results = self.by_anno_qname.range(lower_bound..=upper_bound);
+            let (range, key_len) =
+                create_by_anno_qname_value_range::<NodeID>(node_name_symbol, node_name);
+            let mut results = self
+                .by_anno_qname
+                .range(range)
+                .filter_ok(|(data, _)| data.len() == key_len);
             if let Some(item) = results.next() {
                 let (data, _) = item?;
                 let item_id = NodeID::parse_key(&data[data.len() - NodeID::key_size()..])?;
@@ -1187,10 +1210,12 @@ impl NodeAnnotationStorage for AnnoStorageImpl<NodeID> {
 
     fn has_node_name(&self, node_name: &str) -> Result<bool> {
         if let Some(node_name_symbol) = self.anno_key_symbols.get_symbol(&NODE_NAME_KEY) {
-            let lower_bound = create_by_anno_qname_key(NodeID::MIN, node_name_symbol, node_name);
-            let upper_bound = create_by_anno_qname_key(NodeID::MAX, node_name_symbol, node_name);
-
-            let mut results = self.by_anno_qname.range(lower_bound..=upper_bound);
+            let (range, key_len) =
+                create_by_anno_qname_value_range::<NodeID>(node_name_symbol, node_name);
+            let mut results = self
+                .by_anno_qname
+                .range(range)
+                .filter_ok(|(data, _)| data.len() == key_len);
             return Ok(results.next().is_some());
         }
         Ok(false)
-- 
2.43.0


From d11a2ebe39820fa11dc2b5f50fc28df67c8dda2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:58 +0000
Subject: [PATCH 23/65] fix: regular expressions with a common prefix inside of
 a character

---
 core/src/annostorage/ondisk.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index acb622e..978cdac 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -781,7 +781,13 @@ where
                 let prefix_bytes = regex_literal_sequence
                     .map(|seq| Vec::from(seq.longest_common_prefix().unwrap_or_default()))
                     .unwrap_or_default();
-                let prefix = try_as_boxed_iter!(std::str::from_utf8(&prefix_bytes));
+                // The common prefix can end inside of a multi-byte character
+                let prefix = match std::str::from_utf8(&prefix_bytes) {
+                    Ok(prefix) => prefix,
+                    Err(e) => {
+                        try_as_boxed_iter!(std::str::from_utf8(&prefix_bytes[..e.valid_up_to()]))
+                    }
+                };
 
                 let it = self
                     .matching_items_by_prefix(namespace, name, prefix.to_string())
-- 
2.43.0


From a0f4a1bdda09d56ec6646187e7ecc0a40e1ae6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 24/65] fix: list the most frequent value first for on-disk
 annotations

---
 core/src/annostorage/ondisk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 978cdac..cf1030e 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -1063,6 +1063,7 @@ where
             values_with_count.sort();
             let result = values_with_count
                 .into_iter()
+                .rev()
                 .map(|(_count, val)| val)
                 .collect();
             Ok(result)
-- 
2.43.0


From e35f471fcf38011b4b892a91c05795f9910da085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:58 +0000
Subject: [PATCH 25/65] fix: allow long values after loading on-disk
 annotations

---
 core/src/annostorage/ondisk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index cf1030e..31ea7e7 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -1154,7 +1154,7 @@ where
                 Some(&location.join("by_container.bin")),
                 EVICTION_STRATEGY,
                 BLOCK_CACHE_CAPACITY,
-                BtreeConfig::default().fixed_value_size(T::key_size() + 9),
+                BtreeConfig::default().fixed_key_size(T::key_size() + 16),
             )?;
             self.by_anno_qname = DiskMap::new(
                 Some(&location.join("by_anno_qname.bin")),
-- 
2.43.0


From c979dfa343bc4d0be636de53db043aa4002b4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:49 +0000
Subject: [PATCH 26/65] fix: removed keys of the on-disk table stay removed
 after compaction

---
 core/src/util/disk_collections.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index e1b1996..95d57f7 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -161,9 +161,10 @@ where
 
         // Check C1 (BTree disk index)
         if let Some(c1) = &self.c1
-            && c1.contains_key(key)?
+            && let Some(entry) = c1.get(key)?
         {
-            return Ok(true);
+            // The entry can be a tombstone, in this case do not query C2
+            return Ok(entry.is_some());
         }
 
         // Use a iterator on the single disk to check if there is an entry with this, without getting the value.
-- 
2.43.0


From d57e5549b951a386786635ac85fd4094709e47ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:29 +0000
Subject: [PATCH 27/65] fix: deleted edges can be evicted from an on-disk
 adjacency list

---
 core/src/graph/storage/disk_adjacency.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/storage/disk_adjacency.rs b/core/src/graph/storage/disk_adjacency.rs
index 1a135a5..adb7938 100644
--- a/core/src/graph/storage/disk_adjacency.rs
+++ b/core/src/graph/storage/disk_adjacency.rs
@@ -151,7 +151,7 @@ impl GraphStorage for DiskAdjacencyListStorage {
                 DEFAULT_BLOCK_CACHE_CAPACITY,
                 BtreeConfig::default()
                     .fixed_key_size(std::mem::size_of::<NodeID>() * 2)
-                    .fixed_value_size(2),
+                    .max_value_size(2),
             )?,
             inverse_edges: DiskMap::new(
                 Some(&location.join("inverse_edges.bin")),
@@ -159,7 +159,7 @@ impl GraphStorage for DiskAdjacencyListStorage {
                 DEFAULT_BLOCK_CACHE_CAPACITY,
                 BtreeConfig::default()
                     .fixed_key_size(std::mem::size_of::<NodeID>() * 2)
-                    .fixed_value_size(2),
+                    .max_value_size(2),
             )?,
             annos: AnnoStorageImpl::new(Some(
                 location.join(crate::annostorage::ondisk::SUBFOLDER_NAME),
-- 
2.43.0


From 50a4078c7228155868a34f82c9c7d2d5dda2e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:37 +0000
Subject: [PATCH 28/65] fix: deleting a node removes edges of components
 created in the same update

---
 core/src/graph/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 5d1f277..ee588c4 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -403,8 +403,6 @@ impl<CT: ComponentType> Graph<CT> {
     where
         F: Fn(&str),
     {
-        let all_components = self.get_all_components(None, None);
-
         let mut update_graph_index = ComponentType::init_update_graph_index(self)?;
         // Cache the expensive mapping of node names to IDs
         let cache_size = NonZeroUsize::new(1_000).ok_or(GraphAnnisCoreError::ZeroCacheSize)?;
@@ -456,8 +454,9 @@ impl<CT: ComponentType> Graph<CT> {
                         self.node_annos.remove_item(&existing_node_id)?;
 
                         // delete all edges pointing to this node either as source or target
-                        for c in all_components.iter() {
-                            if let Ok(gs) = self.get_or_create_writable(c) {
+                        // (including components which have been created by this update)
+                        for c in self.get_all_components(None, None) {
+                            if let Ok(gs) = self.get_or_create_writable(&c) {
                                 gs.delete_node(existing_node_id)?;
                             }
                         }
-- 
2.43.0


From ec591675ec025b18d0c5b8c2543f93d0933fcccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:47 +0000
Subject: [PATCH 29/65] fix: update cached node IDs when a node is renamed

---
 core/src/graph/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index ee588c4..332038b 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -482,6 +482,10 @@ impl<CT: ComponentType> Graph<CT> {
                             },
                             val: anno_value.into(),
                         };
+                        if anno.key == *NODE_NAME_KEY.as_ref() {
+                            // the node is renamed, cached IDs are not valid anymore
+                            node_id_cache.clear();
+                        }
                         self.node_annos.insert(existing_node_id, anno)?;
                     }
                 }
@@ -498,6 +502,10 @@ impl<CT: ComponentType> Graph<CT> {
                             ns: anno_ns.into(),
                             name: anno_name.into(),
                         };
+                        if key == *NODE_NAME_KEY.as_ref() {
+                            // the node has no name anymore, cached IDs are not valid anymore
+                            node_id_cache.clear();
+                        }
                         self.node_annos
                             .remove_annotation_for_item(&existing_node_id, &key)?;
                     }
-- 
2.43.0


From 5d8fff8957457c84a63f47c6f6ef3fece121e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:58 +0000
Subject: [PATCH 30/65] fix: changes for missing nodes have no effect on
 existing corpora

---
 graphannis/src/annis/db/aql/model.rs | 49 ++++++++++++++--------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 8d1d871..43ce7a1 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -1,6 +1,5 @@
 use crate::{
     annis::{db::token_helper::TokenHelper, util::quicksort},
-    errors::GraphAnnisError,
     graph::{Edge, EdgeContainer, GraphStorage, NodeID},
 };
 use facet::Facet;
@@ -187,16 +186,14 @@ impl AQLUpdateGraphIndex {
         &mut self,
         node_name: Cow<String>,
         graph: &AnnotationGraph,
-    ) -> std::result::Result<NodeID, ComponentTypeError> {
+    ) -> std::result::Result<Option<NodeID>, ComponentTypeError> {
         if let Some(id) = self.cached_node_ids.get(&node_name)? {
-            return Ok(*id);
+            return Ok(Some(*id));
         } else if let Some(id) = graph.get_node_annos().get_node_id_from_name(&node_name)? {
             self.cached_node_ids.insert(node_name.to_string(), id)?;
-            return Ok(id);
+            return Ok(Some(id));
         }
-        Err(ComponentTypeError(
-            GraphAnnisError::NoSuchNodeID(node_name.to_string()).into(),
-        ))
+        Ok(None)
     }
 
     fn calculate_invalidated_nodes_by_coverage(
@@ -471,9 +468,10 @@ impl ComponentType for AnnotationComponentType {
     ) -> std::result::Result<(), ComponentTypeError> {
         match update {
             UpdateEvent::DeleteNode { node_name } if !index.graph_without_nodes => {
-                let existing_node_id =
-                    index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?;
-                if !index.invalid_nodes.contains_key(&existing_node_id)? {
+                if let Some(existing_node_id) =
+                    index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?
+                    && !index.invalid_nodes.contains_key(&existing_node_id)?
+                {
                     index.calculate_invalidated_nodes_by_coverage(graph, existing_node_id)?;
                 }
             }
@@ -486,20 +484,21 @@ impl ComponentType for AnnotationComponentType {
                 if !index.graph_without_nodes
                     && let Ok(ctype) = AnnotationComponentType::from_str(component_type)
                 {
-                    if ctype == AnnotationComponentType::Coverage
+                    if (ctype == AnnotationComponentType::Coverage
                         || ctype == AnnotationComponentType::Dominance
                         || ctype == AnnotationComponentType::Ordering
                         || ctype == AnnotationComponentType::LeftToken
-                        || ctype == AnnotationComponentType::RightToken
+                        || ctype == AnnotationComponentType::RightToken)
+                        && let Some(source) = index
+                            .get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?
                     {
-                        let source = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?;
                         index.calculate_invalidated_nodes_by_coverage(graph, source)?;
                     }
 
-                    if ctype == AnnotationComponentType::Ordering {
-                        let target = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?;
+                    if ctype == AnnotationComponentType::Ordering
+                        && let Some(target) = index
+                            .get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?
+                    {
                         index.calculate_invalidated_nodes_by_coverage(graph, target)?;
                     }
                 }
@@ -535,21 +534,21 @@ impl ComponentType for AnnotationComponentType {
             }
 
             if !index.graph_without_nodes {
-                if ctype == AnnotationComponentType::Coverage
+                if (ctype == AnnotationComponentType::Coverage
                     || ctype == AnnotationComponentType::Dominance
                     || ctype == AnnotationComponentType::Ordering
                     || ctype == AnnotationComponentType::LeftToken
-                    || ctype == AnnotationComponentType::RightToken
+                    || ctype == AnnotationComponentType::RightToken)
+                    && let Some(source) =
+                        index.get_cached_node_id_from_name(Cow::Owned(source_node), graph)?
                 {
-                    let source =
-                        index.get_cached_node_id_from_name(Cow::Owned(source_node), graph)?;
-
                     index.calculate_invalidated_nodes_by_coverage(graph, source)?;
                 }
 
-                if ctype == AnnotationComponentType::Ordering {
-                    let target =
-                        index.get_cached_node_id_from_name(Cow::Owned(target_node), graph)?;
+                if ctype == AnnotationComponentType::Ordering
+                    && let Some(target) =
+                        index.get_cached_node_id_from_name(Cow::Owned(target_node), graph)?
+                {
                     index.calculate_invalidated_nodes_by_coverage(graph, target)?;
                 }
             }
-- 
2.43.0


From 1c25f2561a3ec2403eee98588bfc9d42ed40ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:06 +0000
Subject: [PATCH 31/65] fix: update inherited coverage for replaced nodes and
 changed token labels

---
 graphannis/src/annis/db/aql/model.rs | 34 +++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 43ce7a1..f88e99c 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -7,7 +7,7 @@ use graphannis_core::{
     annostorage::ValueSearch,
     dfs::CycleSafeDFS,
     errors::ComponentTypeError,
-    graph::{ANNIS_NS, NODE_TYPE_KEY, storage::union::UnionEdgeContainer},
+    graph::{ANNIS_NS, NODE_NAME_KEY, NODE_TYPE_KEY, storage::union::UnionEdgeContainer},
     types::ComponentType,
     util::disk_collections::{DEFAULT_BLOCK_CACHE_CAPACITY, DiskMap, EvictionStrategy},
 };
@@ -514,6 +514,38 @@ impl ComponentType for AnnotationComponentType {
         graph: &AnnotationGraph,
         index: &mut Self::UpdateGraphIndex,
     ) -> std::result::Result<(), ComponentTypeError> {
+        match &update {
+            // The same name can be used for another node now
+            UpdateEvent::DeleteNode { node_name } => {
+                index.cached_node_ids.remove(node_name)?;
+            }
+            UpdateEvent::AddNodeLabel {
+                node_name,
+                anno_ns,
+                anno_name,
+                ..
+            }
+            | UpdateEvent::DeleteNodeLabel {
+                node_name,
+                anno_ns,
+                anno_name,
+            } => {
+                if anno_ns == &NODE_NAME_KEY.ns && anno_name == &NODE_NAME_KEY.name {
+                    // The node has been renamed
+                    index.cached_node_ids.clear();
+                } else if !index.graph_without_nodes
+                    && anno_ns == &TOKEN_KEY.ns
+                    && anno_name == &TOKEN_KEY.name
+                    && let Some(node) =
+                        index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?
+                {
+                    // The node has become a token or is not a token anymore
+                    index.calculate_invalidated_nodes_by_coverage(graph, node)?;
+                }
+            }
+            _ => {}
+        }
+
         if let UpdateEvent::AddEdge {
             component_type,
             component_name,
-- 
2.43.0


From 44265a98034c75f7d3abb6fd956732de1e9adb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:10 +0000
Subject: [PATCH 32/65] fix: changes of named text coverage components update
 inherited coverage

---
 graphannis/src/annis/db/aql/model.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index f88e99c..92a4081 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -450,7 +450,7 @@ impl ComponentType for AnnotationComponentType {
 
         let mut text_coverage_components = FxHashSet::default();
         text_coverage_components
-            .extend(graph.get_all_components(Some(AnnotationComponentType::Dominance), Some("")));
+            .extend(graph.get_all_components(Some(AnnotationComponentType::Dominance), None));
         text_coverage_components
             .extend(graph.get_all_components(Some(AnnotationComponentType::Coverage), None));
         Ok(AQLUpdateGraphIndex {
@@ -556,9 +556,8 @@ impl ComponentType for AnnotationComponentType {
         } = update
             && let Ok(ctype) = AnnotationComponentType::from_str(&component_type)
         {
-            if (ctype == AnnotationComponentType::Dominance
-                || ctype == AnnotationComponentType::Coverage)
-                && component_name.is_empty()
+            if ctype == AnnotationComponentType::Dominance
+                || ctype == AnnotationComponentType::Coverage
             {
                 // might be a new text coverage component
                 let c = AnnotationComponent::new(ctype.clone(), layer, component_name);
-- 
2.43.0


From 679221aac67e7e5c34d10293778b2b1eb3b1320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:12 +0000
Subject: [PATCH 33/65] fix: changed token order updates left and right token
 of all affected nodes

---
 graphannis/src/annis/db/aql/model.rs | 84 ++++++++++++++++++++++++++--
 1 file changed, 78 insertions(+), 6 deletions(-)

diff --git a/graphannis/src/annis/db/aql/model.rs b/graphannis/src/annis/db/aql/model.rs
index 92a4081..5a7ae46 100644
--- a/graphannis/src/annis/db/aql/model.rs
+++ b/graphannis/src/annis/db/aql/model.rs
@@ -40,6 +40,11 @@ lazy_static! {
         ns: ANNIS_NS.into(),
         name: TOK.into(),
     });
+    static ref DEFAULT_ORDERING: AnnotationComponent = AnnotationComponent::new(
+        AnnotationComponentType::Ordering,
+        ANNIS_NS.into(),
+        "".into(),
+    );
 }
 
 /// Specifies the type of component of the annotation graph. The types of this enum carray certain semantics about the edges of the graph components their are used in.
@@ -174,6 +179,8 @@ pub struct AQLUpdateGraphIndex {
     /// True if the graph did not have any nodes before the update.
     graph_without_nodes: bool,
     invalid_nodes: DiskMap<NodeID, bool>,
+    /// Nodes for which the edges of the default ordering component have been changed.
+    reordered_nodes: DiskMap<NodeID, bool>,
     text_coverage_components: FxHashSet<AnnotationComponent>,
 }
 
@@ -219,6 +226,32 @@ impl AQLUpdateGraphIndex {
         Ok(())
     }
 
+    /// Changing the order of two tokens also changes the order of all tokens before and after them.
+    fn calculate_invalidated_nodes_by_order(
+        &mut self,
+        graph: &AnnotationGraph,
+        gs_order: &dyn GraphStorage,
+    ) -> std::result::Result<(), ComponentTypeError> {
+        let reordered_nodes: std::result::Result<Vec<_>, _> =
+            self.reordered_nodes.iter()?.collect();
+        let mut visited = FxHashSet::default();
+        for (n, _) in reordered_nodes? {
+            if visited.insert(n) {
+                let before =
+                    CycleSafeDFS::new_inverse(gs_order.as_edgecontainer(), n, 0, usize::MAX);
+                let after = CycleSafeDFS::new(gs_order.as_edgecontainer(), n, 1, usize::MAX);
+                for step in before.chain(after) {
+                    let step = step?;
+                    visited.insert(step.node);
+                    if !self.invalid_nodes.contains_key(&step.node)? {
+                        self.calculate_invalidated_nodes_by_coverage(graph, step.node)?;
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
     fn clear_left_right_token(
         &self,
         graph: &mut AnnotationGraph,
@@ -448,6 +481,13 @@ impl ComponentType for AnnotationComponentType {
             BtreeConfig::default().fixed_key_size(8).fixed_value_size(2),
         )?;
 
+        let reordered_nodes: DiskMap<NodeID, bool> = DiskMap::new(
+            None,
+            EvictionStrategy::MaximumItems(1_000_000),
+            DEFAULT_BLOCK_CACHE_CAPACITY,
+            BtreeConfig::default().fixed_key_size(8).fixed_value_size(2),
+        )?;
+
         let mut text_coverage_components = FxHashSet::default();
         text_coverage_components
             .extend(graph.get_all_components(Some(AnnotationComponentType::Dominance), None));
@@ -458,6 +498,7 @@ impl ComponentType for AnnotationComponentType {
             graph_without_nodes,
             text_coverage_components,
             invalid_nodes,
+            reordered_nodes,
         })
     }
 
@@ -474,12 +515,23 @@ impl ComponentType for AnnotationComponentType {
                 {
                     index.calculate_invalidated_nodes_by_coverage(graph, existing_node_id)?;
                 }
+                if let Some(existing_node_id) =
+                    index.get_cached_node_id_from_name(Cow::Borrowed(node_name), graph)?
+                    && let Some(gs_order) = graph.get_graphstorage_as_ref(&DEFAULT_ORDERING)
+                {
+                    let outgoing = gs_order.get_outgoing_edges(existing_node_id);
+                    let ingoing = gs_order.get_ingoing_edges(existing_node_id);
+                    for n in outgoing.chain(ingoing) {
+                        index.reordered_nodes.insert(n?, true)?;
+                    }
+                }
             }
             UpdateEvent::DeleteEdge {
                 source_node,
                 target_node,
+                layer,
                 component_type,
-                ..
+                component_name,
             } => {
                 if !index.graph_without_nodes
                     && let Ok(ctype) = AnnotationComponentType::from_str(component_type)
@@ -489,17 +541,28 @@ impl ComponentType for AnnotationComponentType {
                         || ctype == AnnotationComponentType::Ordering
                         || ctype == AnnotationComponentType::LeftToken
                         || ctype == AnnotationComponentType::RightToken)
-                        && let Some(source) = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?
+                        && let Some(source) =
+                            index.get_cached_node_id_from_name(Cow::Borrowed(source_node), graph)?
                     {
                         index.calculate_invalidated_nodes_by_coverage(graph, source)?;
+                        if ctype == AnnotationComponentType::Ordering
+                            && layer == &DEFAULT_ORDERING.layer
+                            && component_name == &DEFAULT_ORDERING.name
+                        {
+                            index.reordered_nodes.insert(source, true)?;
+                        }
                     }
 
                     if ctype == AnnotationComponentType::Ordering
-                        && let Some(target) = index
-                            .get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?
+                        && let Some(target) =
+                            index.get_cached_node_id_from_name(Cow::Borrowed(target_node), graph)?
                     {
                         index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                        if layer == &DEFAULT_ORDERING.layer
+                            && component_name == &DEFAULT_ORDERING.name
+                        {
+                            index.reordered_nodes.insert(target, true)?;
+                        }
                     }
                 }
             }
@@ -556,6 +619,10 @@ impl ComponentType for AnnotationComponentType {
         } = update
             && let Ok(ctype) = AnnotationComponentType::from_str(&component_type)
         {
+            let is_default_ordering = ctype == AnnotationComponentType::Ordering
+                && layer == DEFAULT_ORDERING.layer
+                && component_name == DEFAULT_ORDERING.name;
+
             if ctype == AnnotationComponentType::Dominance
                 || ctype == AnnotationComponentType::Coverage
             {
@@ -581,6 +648,10 @@ impl ComponentType for AnnotationComponentType {
                         index.get_cached_node_id_from_name(Cow::Owned(target_node), graph)?
                 {
                     index.calculate_invalidated_nodes_by_coverage(graph, target)?;
+                    if is_default_ordering {
+                        // the source is connected to the target
+                        index.reordered_nodes.insert(target, true)?;
+                    }
                 }
             }
         }
@@ -606,7 +677,6 @@ impl ComponentType for AnnotationComponentType {
                 index.invalid_nodes.insert(m.node, true)?;
             }
         }
-        index.invalid_nodes.compact()?;
 
         // Re-index the inherited coverage component.
         // To make this operation fast, we need to optimize the order component first
@@ -624,6 +694,8 @@ impl ComponentType for AnnotationComponentType {
         }
         graph.optimize_gs_impl(&order_component)?;
         if let Some(gs_order) = graph.get_graphstorage(&order_component) {
+            index.calculate_invalidated_nodes_by_order(graph, gs_order.as_ref())?;
+            index.invalid_nodes.compact()?;
             index.reindex_inherited_coverage(graph, gs_order)?;
         }
 
-- 
2.43.0


From 02da0cc5e0296bec87957b497417eced40f18014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:18 +0000
Subject: [PATCH 34/65] fix: report when the edges of a deleted node can't be
 removed

---
 core/src/graph/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 332038b..caf2168 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -456,9 +456,8 @@ impl<CT: ComponentType> Graph<CT> {
                         // delete all edges pointing to this node either as source or target
                         // (including components which have been created by this update)
                         for c in self.get_all_components(None, None) {
-                            if let Ok(gs) = self.get_or_create_writable(&c) {
-                                gs.delete_node(existing_node_id)?;
-                            }
+                            let gs = self.get_or_create_writable(&c)?;
+                            gs.delete_node(existing_node_id)?;
                         }
 
                         // update the internal cache
-- 
2.43.0


From c8d9e1aedccffbabe45755e3e93edb7f530dff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 35/65] fix: find other nodes with the name of a deleted node

---
 core/src/graph/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index caf2168..3459972 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -460,8 +460,8 @@ impl<CT: ComponentType> Graph<CT> {
                             gs.delete_node(existing_node_id)?;
                         }
 
-                        // update the internal cache
-                        node_id_cache.put(node_name.clone(), None);
+                        // the cached node ID is not valid anymore
+                        node_id_cache.pop(node_name);
                     }
                 }
                 UpdateEvent::AddNodeLabel {
-- 
2.43.0


From 467637f6176671ab4c7f49a3147742b98499c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:33 +0000
Subject: [PATCH 36/65] fix: restore the backup of a graph to the folder it is
 loaded from

---
 core/src/graph/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 3459972..8101102 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -312,8 +312,12 @@ impl<CT: ComponentType> Graph<CT> {
         }
 
         if load_from_backup {
-            // save the current corpus under the actual location
-            self.save_to(&location.join("current"))?;
+            // save the current corpus under the actual location and replace any incomplete files
+            let current_location = location.join("current");
+            if current_location.exists() {
+                std::fs::remove_dir_all(&current_location)?;
+            }
+            self.internal_save(&current_location)?;
             // rename backup folder (renaming is atomic and deleting could leave an incomplete backup folder on disk)
             let tmp_dir = tempfile::Builder::new()
                 .prefix("temporary-graphannis-backup")
-- 
2.43.0


From d5c9af64e1a3434dbc79ea585fac100a59e197cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 37/65] fix: keep logged updates which have not been persisted
 yet

---
 core/src/graph/mod.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 8101102..9fd9ce5 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -706,7 +706,13 @@ impl<CT: ComponentType> Graph<CT> {
         if let Some(location) = self.location.clone() {
             trace!("output location for persisting updates is {:?}", location);
             if apply_update_result.is_ok() {
-                let current_path = location.join("current");
+                // the log belongs to the version of the graph which is loaded when the location is opened again
+                let backup_path = location.join("backup");
+                let current_path = if backup_path.is_dir() {
+                    backup_path
+                } else {
+                    location.join("current")
+                };
                 // make sure the output path exits
                 std::fs::create_dir_all(&current_path)?;
 
@@ -718,7 +724,18 @@ impl<CT: ComponentType> Graph<CT> {
                 let mut temporary_disk_file = tempfile::NamedTempFile::new_in(&temporary_dir)?;
 
                 debug!("writing WAL update log to {:?}", temporary_disk_file.path());
-                bincode::serialize_into(temporary_disk_file.as_file(), &u)?;
+                if log_path.is_file() {
+                    // there are logged updates which have not been persisted otherwise yet: keep them
+                    let log_reader = std::io::BufReader::new(std::fs::File::open(&log_path)?);
+                    let mut all_updates: GraphUpdate = bincode::deserialize_from(log_reader)?;
+                    for event in u.iter()? {
+                        let (_, event) = event?;
+                        all_updates.add_event(event)?;
+                    }
+                    bincode::serialize_into(temporary_disk_file.as_file(), &all_updates)?;
+                } else {
+                    bincode::serialize_into(temporary_disk_file.as_file(), &u)?;
+                }
                 temporary_disk_file.flush()?;
                 debug!("moving finished WAL update log to {:?}", &log_path);
                 // Since the temporary file should be on the same file system, persisting/moving it should be an atomic operation
-- 
2.43.0


From b5ab8a4b15ecfb78343c7548c18bd69bb774fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:27 +0000
Subject: [PATCH 38/65] fix: remove files of an incomplete save before saving
 again

---
 core/src/graph/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 9fd9ce5..028ea2b 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -784,6 +784,9 @@ impl<CT: ComponentType> Graph<CT> {
         let current_location = location.join("current");
         if !backup_location.exists() {
             std::fs::rename(&current_location, &backup_location)?;
+        } else if current_location.exists() {
+            // remove the files of an incomplete save
+            std::fs::remove_dir_all(&current_location)?;
         }
 
         // Save the complete corpus without the write log to the target location
-- 
2.43.0


From 2bab0aaa37510474279df1134fa02d62c8856d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:07 +0000
Subject: [PATCH 39/65] fix: save path storages whose files have been moved
 after loading

---
 core/src/graph/storage/disk_path.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/core/src/graph/storage/disk_path.rs b/core/src/graph/storage/disk_path.rs
index f1abf19..f6eafbd 100644
--- a/core/src/graph/storage/disk_path.rs
+++ b/core/src/graph/storage/disk_path.rs
@@ -388,13 +388,15 @@ impl GraphStorage for DiskPathStorage {
         std::fs::create_dir_all(location)?;
         // Normalize all paths to check if they are the same
         let new_location = location.normalize()?;
-        if let Some(old_location) = &self.location {
-            let old_location = old_location.normalize()?;
-            if new_location == old_location {
-                // This is an immutable graph storage so there can't be any
-                // changes to write to the existing location we already use.
-                return Ok(());
-            }
+        // The files could have been moved to another location (e.g. as backup) after they have been loaded
+        if let Some(old_location) = &self.location
+            && let Ok(old_location) = old_location.normalize()
+            && new_location == old_location
+            && location.join("paths.bin").is_file()
+        {
+            // This is an immutable graph storage so there can't be any
+            // changes to write to the existing location we already use.
+            return Ok(());
         }
         // Copy the current paths file to the new location
         let new_paths_file = new_location.join("paths.bin");
-- 
2.43.0


From 71789a0a1c5537e2b479ed3c105565cb032864b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:07 +0000
Subject: [PATCH 40/65] fix: save components which are not loaded yet

---
 core/src/graph/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 028ea2b..1ad01fd 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -341,6 +341,8 @@ impl<CT: ComponentType> Graph<CT> {
 
     /// Save the current database at a new `location` and remember it as new internal location.
     pub fn persist_to(&mut self, location: &Path) -> Result<()> {
+        // components which are not loaded yet can only be found at the old location
+        self.ensure_loaded_all()?;
         self.location = Some(location.to_path_buf());
         self.internal_save(&location.join("current"))
     }
@@ -361,7 +363,14 @@ impl<CT: ComponentType> Graph<CT> {
         self.node_annos.save_annotations_to(&location)?;
 
         for (c, e) in &self.components {
-            if let Some(ref data) = *e {
+            // Components which are not loaded yet have to be saved as well
+            let data = match e {
+                Some(data) => Some(data.clone()),
+                None => component_path(&self.location, c)
+                    .map(|p| load_component_from_disk(&p))
+                    .transpose()?,
+            };
+            if let Some(data) = data {
                 let dir = PathBuf::from(&location).join(component_to_relative_path(c));
                 std::fs::create_dir_all(&dir)?;
 
-- 
2.43.0


From b42857181f38da400d0ae64146289e8e37a5d073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:53 +0000
Subject: [PATCH 41/65] fix: save on-disk tables to the location they are
 loaded from

---
 core/src/util/disk_collections.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/util/disk_collections.rs b/core/src/util/disk_collections.rs
index 95d57f7..2f24df9 100644
--- a/core/src/util/disk_collections.rs
+++ b/core/src/util/disk_collections.rs
@@ -310,13 +310,15 @@ where
         if let Some(parent) = location.parent() {
             std::fs::create_dir_all(parent)?;
         }
-        // Open file as writable
+        // Open file as writable. This map could be loaded from the existing file,
+        // only replace it after everything has been written.
+        let temporary_location = location.with_extension("tmp");
         let out_file = std::fs::OpenOptions::new()
             .write(true)
             .read(true)
             .create(true)
             .truncate(true)
-            .open(location)?;
+            .open(&temporary_location)?;
         let mut builder = TableBuilder::new(custom_options(self.block_cache_capacity), out_file);
         for entry in self.iter()? {
             let (key, value) = entry?;
@@ -325,6 +327,7 @@ where
             builder.add(&key, &self.serialization.serialize(&value)?)?;
         }
         builder.finish()?;
+        std::fs::rename(temporary_location, location)?;
 
         Ok(())
     }
-- 
2.43.0


From e7f69e51981fa80d739e21b0af8a7059e5facda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:53 +0000
Subject: [PATCH 42/65] fix: do not apply logged updates again after saving the
 graph

---
 core/src/graph/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 1ad01fd..177c7dc 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -389,6 +389,12 @@ impl<CT: ComponentType> Graph<CT> {
             std::fs::write(location.join(GLOBAL_STATISTICS_FILE_NAME), file_content)?;
         }
 
+        // All changes are part of the saved files, an existing log must not be applied again
+        let log_path = location.join("update_log.bin");
+        if log_path.is_file() {
+            std::fs::remove_file(log_path)?;
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From dc39dee22f663841e0eb7f0a9f8a642be2495f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:28 +0000
Subject: [PATCH 43/65] fix: background workers count as finished after an
 error

---
 graphannis/src/annis/db/corpusstorage.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 68a7282..ae24fc5 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -2775,11 +2775,30 @@ fn create_lockfile_for_directory(db_dir: &Path) -> Result<File> {
     Ok(lock_file)
 }
 
+/// Decreases the number of active background workers when it is dropped.
+struct ActiveBackgroundWorker {
+    active_background_workers: Arc<(Mutex<usize>, Condvar)>,
+}
+
+impl Drop for ActiveBackgroundWorker {
+    fn drop(&mut self) {
+        let (lock, cvar) = &*self.active_background_workers;
+        let mut nr_active_background_workers =
+            lock.lock().unwrap_or_else(|poisoned| poisoned.into_inner());
+        *nr_active_background_workers -= 1;
+        cvar.notify_all();
+    }
+}
+
 fn sync_wal_updates_in_background(
     db_entry: Arc<RwLock<CacheEntry>>,
     active_background_workers: Arc<(Mutex<usize>, Condvar)>,
 ) -> Result<()> {
     trace!("Starting background thread to sync WAL updates");
+    // also counts this worker as finished if there is an error
+    let _worker = ActiveBackgroundWorker {
+        active_background_workers,
+    };
     let lock = db_entry.read()?;
     if let Ok(db) = get_read_or_error(&lock) {
         let db: &AnnotationGraph = db;
@@ -2789,9 +2808,5 @@ fn sync_wal_updates_in_background(
             trace!("Finished background thread to sync WAL updates");
         }
     }
-    let (lock, cvar) = &*active_background_workers;
-    let mut nr_active_background_workers = lock.lock()?;
-    *nr_active_background_workers -= 1;
-    cvar.notify_all();
     Ok(())
 }
-- 
2.43.0


From 01b4b0c3db61370057345b925d55915830896b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:48 +0000
Subject: [PATCH 44/65] fix: wait for background workers before files of a
 corpus are replaced

---
 graphannis/src/annis/db/corpusstorage.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index ae24fc5..0a97a10 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -685,6 +685,16 @@ impl CorpusStorage {
         Ok(entry)
     }
 
+    /// Wait until there is no background worker which still writes an updated corpus to the disk.
+    fn wait_for_background_workers(&self) -> Result<()> {
+        let (lock, cvar) = &*self.active_background_workers;
+        let mut nr_active_background_workers = lock.lock()?;
+        while *nr_active_background_workers > 0 {
+            nr_active_background_workers = cvar.wait(nr_active_background_workers)?;
+        }
+        Ok(())
+    }
+
     fn get_loaded_entry(
         &self,
         corpus_name: &str,
@@ -998,6 +1008,9 @@ impl CorpusStorage {
         if overwrite_existing {
             let old_entry = cache.remove(&corpus_name);
 
+            // do not let a pending background worker overwrite the imported files
+            self.wait_for_background_workers()?;
+
             // if there is a cache entry, acquire an exclusive lock for it because
             // other queries or background writers might still have access to it and need to finish first
             let _lock = old_entry
@@ -1369,6 +1382,9 @@ impl CorpusStorage {
 
         let db_entry = cache.remove(corpus_name);
 
+        // do not let a pending background worker create the files again
+        self.wait_for_background_workers()?;
+
         // if there is a cache entry, acquire an exclusive lock for it because
         // other queries or background writers might still have access to it and need to finish first
         let _lock = db_entry
@@ -1511,6 +1527,8 @@ impl CorpusStorage {
     pub fn unload(&self, corpus_name: &str) -> Result<()> {
         let mut cache_lock = self.corpus_cache.write()?;
         let cache = &mut *cache_lock;
+        // the files must not change while the corpus is loaded again
+        self.wait_for_background_workers()?;
         cache.remove(corpus_name);
         Ok(())
     }
@@ -2663,7 +2681,11 @@ fn check_cache_size_and_remove_with_cache(
             false
         };
         if size_sum > max_cache_size {
-            if corpus_is_loaded && !keep.contains(corpus_name.as_str()) {
+            // keep corpora which are still used, e.g. by a background worker that writes its files
+            let corpus_is_used = cache
+                .get(&corpus_name)
+                .is_some_and(|cache_entry| Arc::strong_count(cache_entry) > 1);
+            if corpus_is_loaded && !corpus_is_used && !keep.contains(corpus_name.as_str()) {
                 cache.remove(&corpus_name);
                 // Re-measure the currently used memory size for this process
                 size_sum = memory_stats().map(|s| s.physical_mem).unwrap_or(usize::MAX);
-- 
2.43.0


From 1ee9daa771ab9bbf65fd297f90aeb82165e73b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:46 +0000
Subject: [PATCH 45/65] fix: load the graph again if an update can not be
 logged

---
 core/src/graph/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 177c7dc..2a25fbe 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -712,7 +712,7 @@ impl<CT: ComponentType> Graph<CT> {
     fn persist_updates<F>(
         &mut self,
         u: &mut GraphUpdate,
-        apply_update_result: Result<()>,
+        mut apply_update_result: Result<()>,
         progress_callback: F,
     ) -> Result<()>
     where
@@ -720,7 +720,7 @@ impl<CT: ComponentType> Graph<CT> {
     {
         if let Some(location) = self.location.clone() {
             trace!("output location for persisting updates is {:?}", location);
-            if apply_update_result.is_ok() {
+            apply_update_result = apply_update_result.and_then(|_| {
                 // the log belongs to the version of the graph which is loaded when the location is opened again
                 let backup_path = location.join("backup");
                 let current_path = if backup_path.is_dir() {
@@ -757,7 +757,9 @@ impl<CT: ComponentType> Graph<CT> {
                 temporary_disk_file.persist(&log_path)?;
 
                 progress_callback("finished writing WAL update log");
-            } else {
+                Ok(())
+            });
+            if apply_update_result.is_err() {
                 trace!(
                     "error occured while applying updates: {:?}",
                     &apply_update_result
-- 
2.43.0


From 354ed8206ec908ad7f9aa29679673a4f93df05f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:41 +0000
Subject: [PATCH 46/65] fix: report errors when writing the last part of a file

---
 core/src/annostorage/inmemory.rs | 3 +++
 core/src/annostorage/ondisk.rs   | 3 +++
 core/src/graph/storage/mod.rs    | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/annostorage/inmemory.rs b/core/src/annostorage/inmemory.rs
index e13269b..4c803ea 100644
--- a/core/src/annostorage/inmemory.rs
+++ b/core/src/annostorage/inmemory.rs
@@ -11,6 +11,7 @@ use rustc_hash::FxHashSet;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::hash::Hash;
+use std::io::Write;
 use std::path::Path;
 use std::sync::Arc;
 
@@ -991,6 +992,8 @@ where
         let f = std::fs::File::create(location.join("nodes_v1.bin"))?;
         let mut writer = std::io::BufWriter::new(f);
         bincode::serialize_into(&mut writer, self)?;
+        // report errors which would be ignored when the writer is dropped
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/core/src/annostorage/ondisk.rs b/core/src/annostorage/ondisk.rs
index 31ea7e7..11f2164 100644
--- a/core/src/annostorage/ondisk.rs
+++ b/core/src/annostorage/ondisk.rs
@@ -14,6 +14,7 @@ use regex_syntax::hir::literal::Seq;
 use serde_bytes::ByteBuf;
 use std::borrow::Cow;
 use std::collections::{BTreeMap, HashMap, HashSet};
+use std::io::Write;
 use std::ops::Range;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -1192,6 +1193,8 @@ where
         bincode::serialize_into(&mut writer, &self.anno_key_sizes)?;
         bincode::serialize_into(&mut writer, &self.histogram_bounds)?;
         bincode::serialize_into(&mut writer, &self.anno_key_symbols)?;
+        // report errors which would be ignored when the writer is dropped
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/core/src/graph/storage/mod.rs b/core/src/graph/storage/mod.rs
index 0dd7cfa..43aa6bf 100644
--- a/core/src/graph/storage/mod.rs
+++ b/core/src/graph/storage/mod.rs
@@ -18,7 +18,7 @@ use crate::{
 use itertools::Itertools;
 use rustc_hash::FxHashSet;
 use serde::{Deserialize, Serialize};
-use std::{self, path::Path};
+use std::{self, io::Write, path::Path};
 
 /// Some general statistical numbers specific to a graph component
 #[derive(Serialize, Deserialize, Clone)]
@@ -264,6 +264,8 @@ where
     let f_data = std::fs::File::create(data_path)?;
     let mut writer = std::io::BufWriter::new(f_data);
     bincode::serialize_into(&mut writer, field)?;
+    // report errors which would be ignored when the writer is dropped
+    writer.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 3e83ee726bca8d9eab1e15b28c17380064e3fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 47/65] fix: errors of sorted string tables can be displayed

---
 core/src/errors.rs       | 3 ++-
 core/src/graph/update.rs | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/errors.rs b/core/src/errors.rs
index faa2ea4..a5fef0c 100644
--- a/core/src/errors.rs
+++ b/core/src/errors.rs
@@ -41,7 +41,8 @@ pub enum GraphAnnisCoreError {
     Io(#[from] std::io::Error),
     #[error(transparent)]
     PersistingTemporaryFile(#[from] tempfile::PersistError),
-    #[error(transparent)]
+    // The Display implementation of this error type never returns
+    #[error("sorted string table error: {0:?}")]
     SortedStringTable(#[from] sstable::error::Status),
     #[error(transparent)]
     Xml(#[from] quick_xml::Error),
diff --git a/core/src/graph/update.rs b/core/src/graph/update.rs
index 51631e1..90c2e22 100644
--- a/core/src/graph/update.rs
+++ b/core/src/graph/update.rs
@@ -310,7 +310,9 @@ impl<'de> Visitor<'de> for GraphUpdateVisitor {
             event_counter = id;
             let key = id.create_key();
             let value = serialization.serialize(&event).map_err(M::Error::custom)?;
-            table_builder.add(&key, &value).map_err(M::Error::custom)?
+            table_builder
+                .add(&key, &value)
+                .map_err(|e| M::Error::custom(GraphAnnisCoreError::from(e)))?
         }
 
         let c = ChangeSet::InProgress {
-- 
2.43.0


From 7d43c373a8d22654ea383a14ebfa9d9a92ead038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:58 +0000
Subject: [PATCH 48/65] fix: inverse of the value comparison operators did not
 switch the conditions of its operands

---
 graphannis/src/annis/db/aql/operators/equal_value.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/equal_value.rs b/graphannis/src/annis/db/aql/operators/equal_value.rs
index 77e5920..101ab29 100644
--- a/graphannis/src/annis/db/aql/operators/equal_value.rs
+++ b/graphannis/src/annis/db/aql/operators/equal_value.rs
@@ -167,8 +167,9 @@ impl BinaryOperatorBase for EqualValue<'_> {
     ) -> Result<Option<BinaryOperator<'b>>> {
         let inverse = BinaryOperator::Index(Box::from(EqualValue {
             node_annos: graph.get_node_annos(),
-            spec_left: self.spec_left.clone(),
-            spec_right: self.spec_right.clone(),
+            // the operands are switched
+            spec_left: self.spec_right.clone(),
+            spec_right: self.spec_left.clone(),
             negated: self.negated,
         }));
         Ok(Some(inverse))
-- 
2.43.0


From e6203d2ad719d68abffde76d75405c238ce76a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:28 +0000
Subject: [PATCH 49/65] fix: distance estimates of the near and inverse
 precedence operators underflow when the minimal distance is larger than the
 text

---
 graphannis/src/annis/db/aql/operators/near.rs       | 3 ++-
 graphannis/src/annis/db/aql/operators/precedence.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/near.rs b/graphannis/src/annis/db/aql/operators/near.rs
index 1a80652..14f716e 100644
--- a/graphannis/src/annis/db/aql/operators/near.rs
+++ b/graphannis/src/annis/db/aql/operators/near.rs
@@ -172,7 +172,8 @@ impl BinaryOperatorBase for Near<'_> {
                 std::ops::Bound::Excluded(max_dist) => max_dist - 1,
             };
             let max_possible_dist = std::cmp::min(max_dist, stats_order.max_depth);
-            let num_of_descendants = 2 * (max_possible_dist - self.spec.dist.min_dist() + 1);
+            let num_of_descendants =
+                2 * (max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1);
 
             return Ok(EstimationType::Selectivity(
                 (num_of_descendants as f64) / (stats_order.nodes as f64 / 2.0),
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index 4e35b85..0aec913 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -317,7 +317,8 @@ impl BinaryOperatorBase for InversePrecedence<'_> {
                 std::ops::Bound::Excluded(max_dist) => max_dist - 1,
             };
             let max_possible_dist = std::cmp::min(max_dist, stats_order.max_depth);
-            let num_of_descendants = max_possible_dist - self.spec.dist.min_dist() + 1;
+            let num_of_descendants =
+                max_possible_dist.saturating_sub(self.spec.dist.min_dist()) + 1;
 
             return Ok(EstimationType::Selectivity(
                 (num_of_descendants as f64) / (stats_order.nodes as f64 / 2.0),
-- 
2.43.0


From c373bc8886808893699b8e7d8f81cc3e344b91be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 50/65] fix: partners listed for the precedence and near
 operators with a segmentation included aligned nodes which are not part of
 the segmentation

---
 graphannis/src/annis/db/aql/operators/near.rs      | 14 ++++++++++++--
 .../src/annis/db/aql/operators/precedence.rs       | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/near.rs b/graphannis/src/annis/db/aql/operators/near.rs
index 14f716e..c559a71 100644
--- a/graphannis/src/annis/db/aql/operators/near.rs
+++ b/graphannis/src/annis/db/aql/operators/near.rs
@@ -218,7 +218,12 @@ impl BinaryOperatorIndex for Near<'_> {
                 .fuse();
             let it = connected
                 .map_ok(|t| {
-                    let it_aligned = self.tok_helper.get_gs_left_token().get_ingoing_edges(t);
+                    let it_aligned = if self.spec.segmentation.is_some() {
+                        // the order of the segmentation is only defined between the nodes themselves
+                        Box::new(std::iter::empty())
+                    } else {
+                        self.tok_helper.get_gs_left_token().get_ingoing_edges(t)
+                    };
                     std::iter::once(Ok(t)).chain(it_aligned)
                 })
                 .flatten_ok()
@@ -246,7 +251,12 @@ impl BinaryOperatorIndex for Near<'_> {
             let it = connected
                 // find all right aligned nodes for this token and add it together with the token itself
                 .map_ok(move |t| {
-                    let it_aligned = self.tok_helper.get_gs_right_token().get_ingoing_edges(t);
+                    let it_aligned = if self.spec.segmentation.is_some() {
+                        // the order of the segmentation is only defined between the nodes themselves
+                        Box::new(std::iter::empty())
+                    } else {
+                        self.tok_helper.get_gs_right_token().get_ingoing_edges(t)
+                    };
                     std::iter::once(Ok(t)).chain(it_aligned)
                 })
                 .flatten_ok()
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index 0aec913..7e3facd 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -233,7 +233,12 @@ impl BinaryOperatorIndex for Precedence<'_> {
         let result = connected
             // find all left aligned nodes for this token and add it together with the token itself
             .map_ok(move |t| {
-                let it_aligned = self.gs_left.get_ingoing_edges(t);
+                let it_aligned = if self.spec.segmentation.is_some() {
+                    // the order of the segmentation is only defined between the nodes themselves
+                    Box::new(std::iter::empty())
+                } else {
+                    self.gs_left.get_ingoing_edges(t)
+                };
                 std::iter::once(Ok(t)).chain(it_aligned)
             })
             .flatten_ok()
@@ -352,7 +357,12 @@ impl BinaryOperatorIndex for InversePrecedence<'_> {
         let result = token_in_range
             .map_ok(move |t| {
                 // find all right aligned nodes for this token and add it together with the token itself
-                let it_aligned = self.gs_right.get_ingoing_edges(t);
+                let it_aligned = if self.spec.segmentation.is_some() {
+                    // the order of the segmentation is only defined between the nodes themselves
+                    Box::new(std::iter::empty())
+                } else {
+                    self.gs_right.get_ingoing_edges(t)
+                };
                 std::iter::once(Ok(t)).chain(it_aligned)
             })
             .flatten_ok()
-- 
2.43.0


From d8989c3efc57dc28ce4d9c77f6f485428312f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 51/65] fix: test of the overlap operator accepted nodes with
 gaps that share no token, in contrast to the listing of its partners

---
 .../src/annis/db/aql/operators/overlap.rs     | 45 ++++++++++++-------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/overlap.rs b/graphannis/src/annis/db/aql/operators/overlap.rs
index 5bdf5ec..d6365e8 100644
--- a/graphannis/src/annis/db/aql/operators/overlap.rs
+++ b/graphannis/src/annis/db/aql/operators/overlap.rs
@@ -87,6 +87,21 @@ impl<'a> Overlap<'a> {
     }
 }
 
+impl Overlap<'_> {
+    /// Returns true if the node is the token itself or if it is directly covering the token.
+    fn covers_token(&self, node: NodeID, token: NodeID) -> Result<bool> {
+        if node == token {
+            return Ok(true);
+        }
+        for gs_cov in self.tok_helper.get_gs_coverage().iter() {
+            if gs_cov.is_connected(node, token, 1, std::ops::Bound::Included(1))? {
+                return Ok(true);
+            }
+        }
+        Ok(false)
+    }
+}
+
 impl std::fmt::Display for Overlap<'_> {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         if self.reflexive {
@@ -99,26 +114,26 @@ impl std::fmt::Display for Overlap<'_> {
 
 impl BinaryOperatorBase for Overlap<'_> {
     fn filter_match(&self, lhs: &Match, rhs: &Match) -> Result<bool> {
-        if self.reflexive && lhs == rhs {
+        if self.reflexive && lhs.node == rhs.node {
             return Ok(true);
         }
 
-        if let (Some(start_lhs), Some(end_lhs), Some(start_rhs), Some(end_rhs)) = (
-            self.tok_helper.left_token_for(lhs.node)?,
-            self.tok_helper.right_token_for(lhs.node)?,
-            self.tok_helper.left_token_for(rhs.node)?,
-            self.tok_helper.right_token_for(rhs.node)?,
-        ) {
-            // TODO: why not isConnected()? (instead of distance)
-            // path between LHS left-most token and RHS right-most token exists in ORDERING component
-            if self.gs_order.distance(start_lhs, end_rhs)?.is_some()
-                // path between LHS left-most token and RHS right-most token exists in ORDERING component
-                && self.gs_order.distance(start_rhs, end_lhs)?.is_some()
-            {
-                return Ok(true);
+        // Both nodes overlap if there is at least one token that is covered by
+        // both of them. Only comparing the left-most and right-most token would
+        // be not enough, because a node does not need to cover all the token in
+        // between.
+        if self.tok_helper.is_token(lhs.node)? {
+            self.covers_token(rhs.node, lhs.node)
+        } else {
+            for gs_cov in self.tok_helper.get_gs_coverage().iter() {
+                for t in gs_cov.get_outgoing_edges(lhs.node) {
+                    if self.covers_token(rhs.node, t?)? {
+                        return Ok(true);
+                    }
+                }
             }
+            Ok(false)
         }
-        Ok(false)
     }
 
     fn is_reflexive(&self) -> bool {
-- 
2.43.0


From bf360f2d69e770d09e839a86941b45a66c58ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:38 +0000
Subject: [PATCH 52/65] fix: negated operators hold when there is no component
 for the operator

---
 .../src/annis/db/aql/operators/negated_op.rs  | 37 +++++++++++++-----
 .../annis/db/aql/operators/non_existing.rs    | 38 ++++++++++++++-----
 2 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/negated_op.rs b/graphannis/src/annis/db/aql/operators/negated_op.rs
index db88c2f..a353904 100644
--- a/graphannis/src/annis/db/aql/operators/negated_op.rs
+++ b/graphannis/src/annis/db/aql/operators/negated_op.rs
@@ -6,7 +6,7 @@ use crate::{
         db::exec::CostEstimate,
         operator::{BinaryOperator, BinaryOperatorBase, BinaryOperatorSpec, EstimationType},
     },
-    errors::Result,
+    errors::{GraphAnnisError, Result},
 };
 use graphannis_core::annostorage::Match;
 
@@ -34,7 +34,12 @@ impl BinaryOperatorSpec for NegatedOpSpec {
         db: &'a AnnotationGraph,
         cost_estimate: Option<(&CostEstimate, &CostEstimate)>,
     ) -> Result<BinaryOperator<'a>> {
-        let negated_op = self.negated_op.create_operator(db, cost_estimate)?;
+        let negated_op = match self.negated_op.create_operator(db, cost_estimate) {
+            Ok(negated_op) => Some(negated_op),
+            // If there is no component for the operator, it does not hold for any pair of nodes
+            Err(GraphAnnisError::ImpossibleSearch(_)) => None,
+            Err(e) => return Err(e),
+        };
         let op = NegatedOp { negated_op };
         Ok(BinaryOperator::Base(Box::new(op)))
     }
@@ -51,30 +56,44 @@ impl BinaryOperatorSpec for NegatedOpSpec {
 }
 
 pub struct NegatedOp<'a> {
-    negated_op: BinaryOperator<'a>,
+    /// The operator to negate or `None` if it can't hold for any pair of nodes.
+    negated_op: Option<BinaryOperator<'a>>,
 }
 
 impl Display for NegatedOp<'_> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "!",)?;
-        self.negated_op.fmt(f)?;
+        if let Some(negated_op) = &self.negated_op {
+            negated_op.fmt(f)?;
+        }
         Ok(())
     }
 }
 
 impl BinaryOperatorBase for NegatedOp<'_> {
     fn filter_match(&self, lhs: &Match, rhs: &Match) -> Result<bool> {
-        // Invert the filtered logic by the actual operator
-        let orig = self.negated_op.filter_match(lhs, rhs)?;
-        Ok(!orig)
+        if let Some(negated_op) = &self.negated_op {
+            // Invert the filtered logic by the actual operator
+            let orig = negated_op.filter_match(lhs, rhs)?;
+            Ok(!orig)
+        } else {
+            Ok(true)
+        }
     }
 
     fn is_reflexive(&self) -> bool {
-        self.negated_op.is_reflexive()
+        if let Some(negated_op) = &self.negated_op {
+            negated_op.is_reflexive()
+        } else {
+            true
+        }
     }
 
     fn estimation_type(&self) -> Result<EstimationType> {
-        match self.negated_op.estimation_type()? {
+        let Some(negated_op) = &self.negated_op else {
+            return Ok(EstimationType::Selectivity(1.0));
+        };
+        match negated_op.estimation_type()? {
             EstimationType::Selectivity(orig_sel) => {
                 Ok(EstimationType::Selectivity(1.0 - orig_sel))
             }
diff --git a/graphannis/src/annis/db/aql/operators/non_existing.rs b/graphannis/src/annis/db/aql/operators/non_existing.rs
index 5dff03a..206d46b 100644
--- a/graphannis/src/annis/db/aql/operators/non_existing.rs
+++ b/graphannis/src/annis/db/aql/operators/non_existing.rs
@@ -17,7 +17,7 @@ use crate::{
             aql::conjunction::Conjunction,
             exec::nodesearch::{NodeSearch, NodeSearchSpec},
         },
-        errors::Result,
+        errors::{GraphAnnisError, Result},
         operator::{
             BinaryOperator, BinaryOperatorBase, BinaryOperatorIndex, BinaryOperatorSpec,
             EstimationType, UnaryOperator, UnaryOperatorSpec,
@@ -58,7 +58,7 @@ impl NonExistingUnaryOperatorSpec {
     fn create_filter_operator<'b>(
         &'b self,
         g: &'b AnnotationGraph,
-        negated_op: BinaryOperator<'b>,
+        negated_op: Option<BinaryOperator<'b>>,
         target_left: bool,
         op_estimation: EstimationType,
     ) -> Box<dyn crate::annis::operator::UnaryOperator + 'b> {
@@ -91,7 +91,19 @@ impl UnaryOperatorSpec for NonExistingUnaryOperatorSpec {
         g: &'b AnnotationGraph,
     ) -> Result<Box<dyn crate::annis::operator::UnaryOperator + 'b>> {
         let mut target_left = self.target_left;
-        let mut orig_op = self.op.create_operator(g, None)?;
+        let mut orig_op = match self.op.create_operator(g, None) {
+            Ok(op) => op,
+            Err(GraphAnnisError::ImpossibleSearch(_)) => {
+                // If there is no component for the operator, no node has a partner
+                return Ok(self.create_filter_operator(
+                    g,
+                    None,
+                    target_left,
+                    EstimationType::Selectivity(0.0),
+                ));
+            }
+            Err(e) => return Err(e),
+        };
 
         if target_left {
             // Check if we can avoid a costly filter operation by switching operands
@@ -113,10 +125,10 @@ impl UnaryOperatorSpec for NonExistingUnaryOperatorSpec {
                     negated_op: orig_op,
                 })
             } else {
-                self.create_filter_operator(g, orig_op, target_left, op_estimation)
+                self.create_filter_operator(g, Some(orig_op), target_left, op_estimation)
             }
         } else {
-            self.create_filter_operator(g, orig_op, target_left, op_estimation)
+            self.create_filter_operator(g, Some(orig_op), target_left, op_estimation)
         };
 
         Ok(negated_op)
@@ -195,17 +207,20 @@ impl UnaryOperator for NonExistingUnaryOperatorIndex<'_> {
 struct NonExistingUnaryOperatorFilter<'a> {
     target: NodeSearchSpec,
     target_left: bool,
-    negated_op: BinaryOperator<'a>,
+    /// The operator or `None` if it can't hold for any pair of nodes.
+    negated_op: Option<BinaryOperator<'a>>,
     graph: &'a AnnotationGraph,
     op_estimation: EstimationType,
 }
 
 impl Display for NonExistingUnaryOperatorFilter<'_> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        let op = self.negated_op.as_ref().map(ToString::to_string);
+        let op = op.unwrap_or_default();
         if self.target_left {
-            write!(f, " !({} {} x)", self.target, self.negated_op)?;
+            write!(f, " !({} {} x)", self.target, op)?;
         } else {
-            write!(f, " !(x {} {})", self.negated_op, self.target,)?;
+            write!(f, " !(x {} {})", op, self.target,)?;
         }
         Ok(())
     }
@@ -213,6 +228,9 @@ impl Display for NonExistingUnaryOperatorFilter<'_> {
 
 impl UnaryOperator for NonExistingUnaryOperatorFilter<'_> {
     fn filter_match(&self, m: &graphannis_core::annostorage::Match) -> Result<bool> {
+        let Some(negated_op) = &self.negated_op else {
+            return Ok(true);
+        };
         // The candidate match is on one side and we need to get an iterator of all possible matches for the other side
         if let Ok(node_search) = NodeSearch::from_spec(
             self.target.clone(),
@@ -226,14 +244,14 @@ impl UnaryOperator for NonExistingUnaryOperatorFilter<'_> {
             if self.target_left {
                 for lhs in node_search {
                     let lhs = lhs?;
-                    if self.negated_op.filter_match(&lhs[0], m)? {
+                    if negated_op.filter_match(&lhs[0], m)? {
                         return Ok(false);
                     }
                 }
             } else {
                 for rhs in node_search {
                     let rhs = rhs?;
-                    if self.negated_op.filter_match(m, &rhs[0])? {
+                    if negated_op.filter_match(m, &rhs[0])? {
                         return Ok(false);
                     }
                 }
-- 
2.43.0


From c9709336a7d4e26d3faab975ab5895c4b49f5bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:02 +0000
Subject: [PATCH 53/65] fix: nodes of non-reflexive operators are different to
 each other regardless of the join order

---
 graphannis/src/annis/db/aql/conjunction.rs | 38 ++++++++++++++++++++--
 graphannis/src/annis/db/exec/filter.rs     | 35 +++++++++++++++++++-
 graphannis/src/annis/db/exec/nestedloop.rs |  9 +++--
 3 files changed, 76 insertions(+), 6 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index dd3d0ac..1e93b74 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -102,6 +102,8 @@ struct ExecutionPlanHelper {
     /// Cost estimates for different nodes of the query. The node is determined
     /// by the position of the variable in the conjunction.
     node2cost: BTreeMap<usize, CostEstimate>,
+    /// Arguments of the operators which do not allow that a node is matched with itself.
+    non_reflexive_args: Vec<BinaryOperatorArguments>,
 }
 
 struct AddNodeToExecutionPlanOutput<'a> {
@@ -758,6 +760,14 @@ impl Conjunction {
             },
         };
 
+        if !op_entry.op.is_reflexive() {
+            helper.non_reflexive_args.push(BinaryOperatorArguments {
+                left: spec_idx_left,
+                right: spec_idx_right,
+                global_reflexivity: op_entry.args.global_reflexivity,
+            });
+        }
+
         let component_left: usize = *(helper
             .node2component
             .get(&spec_idx_left)
@@ -836,6 +846,7 @@ impl Conjunction {
         let helper = ExecutionPlanHelper {
             node2component: BTreeMap::new(),
             node2cost: BTreeMap::new(),
+            non_reflexive_args: Vec::new(),
         };
 
         let mut output = AddNodeToExecutionPlanOutput {
@@ -887,11 +898,34 @@ impl Conjunction {
         }
 
         // it must be checked before that all components are connected
-        output.component2exec.into_values().next().ok_or_else(|| {
+        let exec = output.component2exec.into_values().next().ok_or_else(|| {
             GraphAnnisError::ImpossibleSearch(String::from(
                 "could not find execution node for query component",
             ))
-        })
+        })?;
+
+        // 4. A join only compares the nodes it combines, so the check if the nodes of
+        // non-reflexive operators are different has to be repeated for the whole match.
+        if !output.helper.non_reflexive_args.is_empty() {
+            let node_pos = &exec
+                .get_desc()
+                .ok_or(GraphAnnisError::PlanDescriptionMissing)?
+                .node_pos;
+            let mut op_args = Vec::new();
+            for args in output.helper.non_reflexive_args {
+                if let (Some(left), Some(right)) =
+                    (node_pos.get(&args.left), node_pos.get(&args.right))
+                {
+                    op_args.push(BinaryOperatorArguments {
+                        left: *left,
+                        right: *right,
+                        global_reflexivity: args.global_reflexivity,
+                    });
+                }
+            }
+            return Ok(Box::new(Filter::new_reflexivity(exec, op_args)));
+        }
+        Ok(exec)
     }
 
     fn check_components_connected(&self) -> Result<()> {
diff --git a/graphannis/src/annis/db/exec/filter.rs b/graphannis/src/annis/db/exec/filter.rs
index cfd9530..22af081 100644
--- a/graphannis/src/annis/db/exec/filter.rs
+++ b/graphannis/src/annis/db/exec/filter.rs
@@ -2,9 +2,12 @@ use graphannis_core::annostorage::MatchGroup;
 use itertools::Itertools;
 
 use super::{CostEstimate, ExecutionNode, ExecutionNodeDesc};
-use crate::annis::db::aql::conjunction::{BinaryOperatorEntry, UnaryOperatorEntry};
+use crate::annis::db::aql::conjunction::{
+    BinaryOperatorArguments, BinaryOperatorEntry, UnaryOperatorEntry,
+};
 use crate::annis::operator::{BinaryOperatorBase, EstimationType, UnaryOperator};
 use crate::errors::Result;
+use crate::graph::Match;
 
 pub struct Filter<'a> {
     it: Box<dyn Iterator<Item = Result<MatchGroup>> + 'a>,
@@ -45,6 +48,10 @@ fn calculate_unary_outputsize(op: &dyn UnaryOperator, num_tuples: usize) -> usiz
     std::cmp::max(output, 1)
 }
 
+fn different_to_others(tuple: &[Match], idx: usize) -> bool {
+    tuple[idx].different_to_all(&tuple[..idx]) && tuple[idx].different_to_all(&tuple[idx + 1..])
+}
+
 impl<'a> Filter<'a> {
     pub fn new_binary(
         exec: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
@@ -93,6 +100,32 @@ impl<'a> Filter<'a> {
         })
     }
 
+    /// Only include matches where the operands of non-reflexive operators are
+    /// different to each other and if `global_reflexivity` is set also to all
+    /// other nodes of the match. The arguments contain the position of the
+    /// operands in the matches.
+    pub fn new_reflexivity(
+        exec: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
+        op_args: Vec<BinaryOperatorArguments>,
+    ) -> Filter<'a> {
+        let desc = exec.get_desc().cloned();
+        let it = exec.filter_ok(move |tuple| {
+            op_args.iter().all(|args| {
+                if args.global_reflexivity {
+                    args.left != args.right
+                        && different_to_others(tuple, args.left)
+                        && different_to_others(tuple, args.right)
+                } else {
+                    tuple[args.left].different_to(&tuple[args.right])
+                }
+            })
+        });
+        Filter {
+            desc,
+            it: Box::new(it),
+        }
+    }
+
     pub fn new_unary(
         exec: Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>,
         idx: usize,
diff --git a/graphannis/src/annis/db/exec/nestedloop.rs b/graphannis/src/annis/db/exec/nestedloop.rs
index d596660..6971acb 100644
--- a/graphannis/src/annis/db/exec/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/nestedloop.rs
@@ -158,9 +158,12 @@ impl Iterator for NestedLoop<'_> {
                         let filter_true = try_as_option!(filter_true);
                         if filter_true
                             && (self.op.is_reflexive()
-                                || m_outer[self.outer_idx].node != m_inner[self.inner_idx].node
-                                || m_outer[self.outer_idx].anno_key
-                                    != m_inner[self.inner_idx].anno_key)
+                                || (self.global_reflexivity
+                                    && m_outer[self.outer_idx].different_to_all(&m_inner)
+                                    && m_inner[self.inner_idx].different_to_all(m_outer))
+                                || (!self.global_reflexivity
+                                    && m_outer[self.outer_idx]
+                                        .different_to(&m_inner[self.inner_idx])))
                         {
                             let mut result = m_outer.clone();
                             result.append(&mut m_inner);
-- 
2.43.0


From 92f5058290fd584e5162fd8c5034ba8082688476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:01 +0000
Subject: [PATCH 54/65] fix: only replace a node search by the source nodes of
 components if the operator needs an outgoing edge

---
 graphannis/src/annis/db/aql/conjunction.rs       |  4 +++-
 graphannis/src/annis/db/aql/operators/edge_op.rs | 16 ++++++++++++++++
 .../src/annis/db/aql/operators/precedence.rs     |  4 ++++
 graphannis/src/annis/operator.rs                 |  6 ++++++
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index 1e93b74..a756ec9 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -563,7 +563,9 @@ impl Conjunction {
             if let Some(node_search_cost) = desc.cost.as_ref() {
                 for e in op_spec_entries {
                     let op_spec = &e.op;
-                    if e.args.left - self.var_idx_offset == desc.component_nr {
+                    if op_spec.lhs_is_source_node()
+                        && e.args.left - self.var_idx_offset == desc.component_nr
+                    {
                         // get the necessary components and count the number of nodes in these components
                         let components = op_spec.necessary_components(db);
                         if !components.is_empty() {
diff --git a/graphannis/src/annis/db/aql/operators/edge_op.rs b/graphannis/src/annis/db/aql/operators/edge_op.rs
index c57eddd..0f5e1c5 100644
--- a/graphannis/src/annis/db/aql/operators/edge_op.rs
+++ b/graphannis/src/annis/db/aql/operators/edge_op.rs
@@ -119,6 +119,10 @@ impl BinaryOperatorSpec for BaseEdgeOpSpec {
         self.edge_anno.clone()
     }
 
+    fn lhs_is_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -654,6 +658,10 @@ impl BinaryOperatorSpec for DominanceSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn lhs_is_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -706,6 +714,10 @@ impl BinaryOperatorSpec for PointingSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn lhs_is_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
@@ -766,6 +778,10 @@ impl BinaryOperatorSpec for PartOfSubCorpusSpec {
         base.create_operator(db, cost_estimate)
     }
 
+    fn lhs_is_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index 7e3facd..c1a33f4 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -78,6 +78,10 @@ impl BinaryOperatorSpec for PrecedenceSpec {
         Ok(BinaryOperator::Index(Box::new(op)))
     }
 
+    fn lhs_is_source_node(&self) -> bool {
+        self.dist.min_dist() > 0
+    }
+
     #[cfg(test)]
     fn into_any(self: Arc<Self>) -> Arc<dyn std::any::Any> {
         self
diff --git a/graphannis/src/annis/operator.rs b/graphannis/src/annis/operator.rs
index a4a8614..de75850 100644
--- a/graphannis/src/annis/operator.rs
+++ b/graphannis/src/annis/operator.rs
@@ -238,6 +238,12 @@ pub trait BinaryOperatorSpec: std::fmt::Debug + Send + Sync {
         true
     }
 
+    /// Returns true if all nodes that match as left-hand-side are known to be
+    /// source nodes in one of the necessary components.
+    fn lhs_is_source_node(&self) -> bool {
+        false
+    }
+
     #[cfg(test)]
     fn into_any(self: std::sync::Arc<Self>) -> std::sync::Arc<dyn std::any::Any>;
 
-- 
2.43.0


From c07b4f50b57b9250b262b588111565f89d4a2135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 55/65] fix: regular expressions with assertions or without any
 possible match are no exact value searches

---
 graphannis/src/annis/util/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphannis/src/annis/util/mod.rs b/graphannis/src/annis/util/mod.rs
index dac24db..88d4076 100644
--- a/graphannis/src/annis/util/mod.rs
+++ b/graphannis/src/annis/util/mod.rs
@@ -15,10 +15,13 @@ use std::{
 /// Otherwise return `None`.
 pub(crate) fn exact_value_for_regex(pattern: &str) -> Option<String> {
     let parsed = regex_syntax::Parser::new().parse(pattern).ok()?;
+    if !parsed.properties().look_set().is_empty() {
+        // Assertions like word boundaries are not part of the extracted literals
+        return None;
+    }
     if let Some(matching_literals) = Extractor::new().extract(&parsed).literals() {
-        if matching_literals.is_empty() {
-            return Some("".into());
-        } else if matching_literals.len() == 1 && matching_literals[0].is_exact() {
+        // An empty set of literals means that the pattern does not match any string
+        if matching_literals.len() == 1 && matching_literals[0].is_exact() {
             let matching_value = std::str::from_utf8(matching_literals[0].as_bytes()).ok()?;
             return Some(matching_value.to_string());
         }
-- 
2.43.0


From a52f06734cbaf7c898fe44372d471502d706cb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:26 +0000
Subject: [PATCH 56/65] fix: index joins with the (un-)equal value operators
 ignored which annotation was matched

---
 .../src/annis/db/aql/operators/equal_value.rs |  5 ++
 graphannis/src/annis/db/exec/indexjoin.rs     | 67 +++++++++++++------
 .../src/annis/db/exec/parallel/indexjoin.rs   | 34 ++--------
 graphannis/src/annis/operator.rs              |  6 ++
 4 files changed, 63 insertions(+), 49 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/equal_value.rs b/graphannis/src/annis/db/aql/operators/equal_value.rs
index 101ab29..2353ed0 100644
--- a/graphannis/src/annis/db/aql/operators/equal_value.rs
+++ b/graphannis/src/annis/db/aql/operators/equal_value.rs
@@ -197,6 +197,11 @@ impl BinaryOperatorIndex for EqualValue<'_> {
         }
         Box::new(std::iter::empty())
     }
+
+    fn depends_on_annotation(&self) -> bool {
+        true
+    }
+
     fn as_binary_operator(&self) -> &dyn BinaryOperatorBase {
         self
     }
diff --git a/graphannis/src/annis/db/exec/indexjoin.rs b/graphannis/src/annis/db/exec/indexjoin.rs
index f9d9e4f..c465be7 100644
--- a/graphannis/src/annis/db/exec/indexjoin.rs
+++ b/graphannis/src/annis/db/exec/indexjoin.rs
@@ -7,6 +7,7 @@ use crate::{annis::operator::EstimationType, graph::Match};
 use graphannis_core::annostorage::NodeAnnotationStorage;
 use graphannis_core::{annostorage::MatchGroup, types::NodeID};
 use std::boxed::Box;
+use std::collections::HashSet;
 use std::error::Error;
 use std::iter::Peekable;
 use std::sync::Arc;
@@ -89,25 +90,11 @@ impl<'a> IndexJoin<'a> {
 
     fn next_candidates(&mut self) -> Result<Option<Vec<Match>>> {
         if let Some(Ok(m_lhs)) = self.lhs.peek() {
-            let it_nodes = self
-                .op
-                .retrieve_matches(&m_lhs[self.lhs_idx])
-                .fuse()
-                .map(|m| {
-                    m.map_err(|e| {
-                        let e: Box<dyn Error + Send + Sync> = Box::new(e);
-                        e
-                    })
-                    .map(|m| m.node)
-                });
-            let it_nodes: Box<
-                dyn Iterator<Item = std::result::Result<NodeID, Box<dyn Error + Send + Sync>>>,
-            > = Box::from(it_nodes);
-
-            let result = self.node_annos.get_keys_for_iterator(
-                self.node_search_desc.qname.0.as_deref(),
-                self.node_search_desc.qname.1.as_deref(),
-                it_nodes,
+            let result = retrieve_candidates(
+                self.op.as_ref(),
+                &m_lhs[self.lhs_idx],
+                &self.node_search_desc,
+                self.node_annos,
             )?;
             return Ok(Some(result));
         }
@@ -115,6 +102,48 @@ impl<'a> IndexJoin<'a> {
     }
 }
 
+/// Find all nodes which are reachable from the LHS match with the given
+/// operator and get all the annotations of these nodes the node search on the
+/// RHS looks for.
+pub(super) fn retrieve_candidates(
+    op: &dyn BinaryOperatorIndex,
+    m_lhs: &Match,
+    node_search_desc: &NodeSearchDesc,
+    node_annos: &dyn NodeAnnotationStorage,
+) -> Result<Vec<Match>> {
+    let it_nodes = op.retrieve_matches(m_lhs).fuse().map(|m| {
+        m.map_err(|e| {
+            let e: Box<dyn Error + Send + Sync> = Box::new(e);
+            e
+        })
+        .map(|m| m.node)
+    });
+    let it_nodes: Box<
+        dyn Iterator<Item = std::result::Result<NodeID, Box<dyn Error + Send + Sync>>>,
+    > = Box::from(it_nodes);
+
+    let candidates = node_annos.get_keys_for_iterator(
+        node_search_desc.qname.0.as_deref(),
+        node_search_desc.qname.1.as_deref(),
+        it_nodes,
+    )?;
+
+    if !op.depends_on_annotation() {
+        return Ok(candidates);
+    }
+
+    // The operator can list the same node with several annotations and not
+    // each annotation of the listed node must fulfill the operator.
+    let mut result = Vec::with_capacity(candidates.len());
+    let mut visited = HashSet::new();
+    for m_rhs in candidates {
+        if op.filter_match(m_lhs, &m_rhs)? && visited.insert(m_rhs.clone()) {
+            result.push(m_rhs);
+        }
+    }
+    Ok(result)
+}
+
 impl ExecutionNode for IndexJoin<'_> {
     fn get_desc(&self) -> Option<&ExecutionNodeDesc> {
         Some(&self.desc)
diff --git a/graphannis/src/annis/db/exec/parallel/indexjoin.rs b/graphannis/src/annis/db/exec/parallel/indexjoin.rs
index afc28c3..888f9e5 100644
--- a/graphannis/src/annis/db/exec/parallel/indexjoin.rs
+++ b/graphannis/src/annis/db/exec/parallel/indexjoin.rs
@@ -1,11 +1,11 @@
+use super::super::indexjoin::retrieve_candidates;
 use super::super::{ExecutionNode, ExecutionNodeDesc, NodeSearchDesc};
 use crate::annis::db::aql::conjunction::BinaryOperatorArguments;
 use crate::annis::operator::BinaryOperatorIndex;
-use crate::{annis::operator::EstimationType, errors::Result, graph::Match};
+use crate::{annis::operator::EstimationType, errors::Result};
+use graphannis_core::annostorage::MatchGroup;
 use graphannis_core::annostorage::NodeAnnotationStorage;
-use graphannis_core::{annostorage::MatchGroup, types::NodeID};
 use rayon::prelude::*;
-use std::error::Error;
 use std::iter::Peekable;
 use std::sync::Arc;
 use std::sync::mpsc::{Receiver, Sender, channel};
@@ -123,7 +123,7 @@ impl<'a> IndexJoin<'a> {
         lhs_buffer.into_par_iter().for_each(|(m_lhs, tx)| {
             match m_lhs {
                 Ok(m_lhs) => {
-                    match next_candidates(&m_lhs, op, lhs_idx, node_annos, &node_search_desc) {
+                    match retrieve_candidates(op, &m_lhs[lhs_idx], &node_search_desc, node_annos) {
                         Ok(rhs_candidate) => {
                             let mut rhs_candidate = rhs_candidate.into_iter().peekable();
                             while let Some(mut m_rhs) = rhs_candidate.next() {
@@ -205,32 +205,6 @@ impl<'a> IndexJoin<'a> {
     }
 }
 
-fn next_candidates(
-    m_lhs: &[Match],
-    op: &dyn BinaryOperatorIndex,
-    lhs_idx: usize,
-    node_annos: &dyn NodeAnnotationStorage,
-    node_search_desc: &Arc<NodeSearchDesc>,
-) -> Result<Vec<Match>> {
-    let it_nodes = op.retrieve_matches(&m_lhs[lhs_idx]).fuse().map(|m| {
-        m.map_err(|e| {
-            let e: Box<dyn Error + Send + Sync> = Box::new(e);
-            e
-        })
-        .map(|m| m.node)
-    });
-    let it_nodes: Box<
-        dyn Iterator<Item = std::result::Result<NodeID, Box<dyn Error + Send + Sync>>>,
-    > = Box::from(it_nodes);
-
-    let result = node_annos.get_keys_for_iterator(
-        node_search_desc.qname.0.as_deref(),
-        node_search_desc.qname.1.as_deref(),
-        it_nodes,
-    )?;
-    Ok(result)
-}
-
 impl ExecutionNode for IndexJoin<'_> {
     fn get_desc(&self) -> Option<&ExecutionNodeDesc> {
         Some(&self.desc)
diff --git a/graphannis/src/annis/operator.rs b/graphannis/src/annis/operator.rs
index de75850..3c321a6 100644
--- a/graphannis/src/annis/operator.rs
+++ b/graphannis/src/annis/operator.rs
@@ -215,6 +215,12 @@ impl BinaryOperatorBase for BinaryOperator<'_> {
 pub trait BinaryOperatorIndex: BinaryOperatorBase {
     fn retrieve_matches<'a>(&'a self, lhs: &Match) -> Box<dyn Iterator<Item = Result<Match>> + 'a>;
 
+    /// Returns true if the operator does not only depend on the matched node,
+    /// but also on the annotation of this node that has been matched.
+    fn depends_on_annotation(&self) -> bool {
+        false
+    }
+
     fn as_binary_operator(&self) -> &dyn BinaryOperatorBase;
 }
 
-- 
2.43.0


From 2d0178b222add97ae61e026f81c59667fe232fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:58 +0000
Subject: [PATCH 57/65] fix: errors in parallel joins could be ignored

---
 graphannis/src/annis/db/exec/parallel/indexjoin.rs  | 2 ++
 graphannis/src/annis/db/exec/parallel/nestedloop.rs | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/db/exec/parallel/indexjoin.rs b/graphannis/src/annis/db/exec/parallel/indexjoin.rs
index 888f9e5..588d292 100644
--- a/graphannis/src/annis/db/exec/parallel/indexjoin.rs
+++ b/graphannis/src/annis/db/exec/parallel/indexjoin.rs
@@ -145,6 +145,8 @@ impl<'a> IndexJoin<'a> {
                                                     "Could not send error in parallel index join {}", e
                                                 );
                                             }
+                                            include_match = false;
+                                            break;
                                         }
                                     };
                                 }
diff --git a/graphannis/src/annis/db/exec/parallel/nestedloop.rs b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
index ac6fc72..1ed9a76 100644
--- a/graphannis/src/annis/db/exec/parallel/nestedloop.rs
+++ b/graphannis/src/annis/db/exec/parallel/nestedloop.rs
@@ -219,7 +219,12 @@ impl<'a> NestedLoop<'a> {
         self.next_match_buffer(&tx);
 
         if self.match_candidate_buffer.is_empty() {
-            return None;
+            // There are no candidates left, but there could have been an error
+            // while fetching them.
+            let error = rx.try_recv().ok()?;
+            let (tx, rx) = channel();
+            tx.send(error).ok()?;
+            return Some(rx);
         }
 
         let left_is_outer = self.left_is_outer;
-- 
2.43.0


From 0f0b9f29e0f33dc4cfb3244ac91c7e61ae4d45ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:42 +0000
Subject: [PATCH 58/65] fix: errors while planning, counting or skipping
 matches were treated as missing matches

---
 graphannis/src/annis/db/aql/operators/negated_op.rs  |  4 ++--
 .../src/annis/db/aql/operators/non_existing.rs       |  4 ++--
 graphannis/src/annis/db/corpusstorage.rs             |  8 ++++++--
 graphannis/src/annis/db/plan.rs                      |  2 +-
 graphannis/src/annis/errors.rs                       | 12 ++++++++++++
 5 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/negated_op.rs b/graphannis/src/annis/db/aql/operators/negated_op.rs
index a353904..fea8701 100644
--- a/graphannis/src/annis/db/aql/operators/negated_op.rs
+++ b/graphannis/src/annis/db/aql/operators/negated_op.rs
@@ -6,7 +6,7 @@ use crate::{
         db::exec::CostEstimate,
         operator::{BinaryOperator, BinaryOperatorBase, BinaryOperatorSpec, EstimationType},
     },
-    errors::{GraphAnnisError, Result},
+    errors::Result,
 };
 use graphannis_core::annostorage::Match;
 
@@ -37,7 +37,7 @@ impl BinaryOperatorSpec for NegatedOpSpec {
         let negated_op = match self.negated_op.create_operator(db, cost_estimate) {
             Ok(negated_op) => Some(negated_op),
             // If there is no component for the operator, it does not hold for any pair of nodes
-            Err(GraphAnnisError::ImpossibleSearch(_)) => None,
+            Err(e) if e.is_impossible_search() => None,
             Err(e) => return Err(e),
         };
         let op = NegatedOp { negated_op };
diff --git a/graphannis/src/annis/db/aql/operators/non_existing.rs b/graphannis/src/annis/db/aql/operators/non_existing.rs
index 206d46b..77e77e3 100644
--- a/graphannis/src/annis/db/aql/operators/non_existing.rs
+++ b/graphannis/src/annis/db/aql/operators/non_existing.rs
@@ -17,7 +17,7 @@ use crate::{
             aql::conjunction::Conjunction,
             exec::nodesearch::{NodeSearch, NodeSearchSpec},
         },
-        errors::{GraphAnnisError, Result},
+        errors::Result,
         operator::{
             BinaryOperator, BinaryOperatorBase, BinaryOperatorIndex, BinaryOperatorSpec,
             EstimationType, UnaryOperator, UnaryOperatorSpec,
@@ -93,7 +93,7 @@ impl UnaryOperatorSpec for NonExistingUnaryOperatorSpec {
         let mut target_left = self.target_left;
         let mut orig_op = match self.op.create_operator(g, None) {
             Ok(op) => op,
-            Err(GraphAnnisError::ImpossibleSearch(_)) => {
+            Err(e) if e.is_impossible_search() => {
                 // If there is no component for the operator, no node has a partner
                 return Ok(self.create_filter_operator(
                     g,
diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 0a97a10..b38297a 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1624,7 +1624,8 @@ impl CorpusStorage {
             let plan =
                 ExecutionPlan::from_disjunction(&prep.query, db, &self.query_config, timeout)?;
 
-            for _ in plan {
+            for m in plan {
+                m?;
                 total_count += 1;
                 if total_count.is_multiple_of(TIMEOUT_CHECK_TUPLE_COUNT) {
                     timeout.check()?;
@@ -1916,7 +1917,10 @@ impl CorpusStorage {
 
         // skip the first entries
         let mut skipped = 0;
-        while skipped < find_arguments.offset && base_it.next().is_some() {
+        while skipped < find_arguments.offset
+            && let Some(m) = base_it.next()
+        {
+            m?;
             skipped += 1;
 
             if skipped % 1_000 == 0 {
diff --git a/graphannis/src/annis/db/plan.rs b/graphannis/src/annis/db/plan.rs
index 8605adf..ea0e2be 100644
--- a/graphannis/src/annis/db/plan.rs
+++ b/graphannis/src/annis/db/plan.rs
@@ -67,7 +67,7 @@ impl<'a> ExecutionPlan<'a> {
 
                 plans.push(p);
             } else if let Err(e) = p
-                && let GraphAnnisError::AQLSemanticError(_) = &e
+                && !e.is_impossible_search()
             {
                 return Err(e);
             }
diff --git a/graphannis/src/annis/errors.rs b/graphannis/src/annis/errors.rs
index 017fe79..3759bac 100644
--- a/graphannis/src/annis/errors.rs
+++ b/graphannis/src/annis/errors.rs
@@ -86,6 +86,18 @@ pub enum GraphAnnisError {
     InvalidUniformDistribution(#[from] rand::distr::uniform::Error),
 }
 
+impl GraphAnnisError {
+    /// Returns true if the error only means that a search expression can't have
+    /// any result in a corpus, e.g. because a component does not exist.
+    pub(crate) fn is_impossible_search(&self) -> bool {
+        matches!(
+            self,
+            GraphAnnisError::ImpossibleSearch(_)
+                | GraphAnnisError::Core(GraphAnnisCoreError::MissingComponent(_))
+        )
+    }
+}
+
 impl<T> From<PoisonError<T>> for GraphAnnisError {
     fn from(e: PoisonError<T>) -> Self {
         Self::LockPoisoning(e.to_string())
-- 
2.43.0


From 2c0e47c1385c663d66fe485ae37b21e4fc851f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:50 +0000
Subject: [PATCH 59/65] fix: errors while searching for the target of a negated
 operator were treated as missing or existing match

---
 .../annis/db/aql/operators/non_existing.rs    | 38 ++++++++-----------
 graphannis/src/annis/db/exec/nodesearch.rs    |  3 +-
 2 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/non_existing.rs b/graphannis/src/annis/db/aql/operators/non_existing.rs
index 77e77e3..dc5651a 100644
--- a/graphannis/src/annis/db/aql/operators/non_existing.rs
+++ b/graphannis/src/annis/db/aql/operators/non_existing.rs
@@ -171,10 +171,7 @@ impl UnaryOperator for NonExistingUnaryOperatorIndex<'_> {
             Box::new(it),
         )?;
 
-        let value_filter = self
-            .target
-            .get_value_filter(self.graph, None)
-            .unwrap_or_default();
+        let value_filter = self.target.get_value_filter(self.graph, None)?;
 
         // Only return true if no match was found which matches the operator and
         // the node value filter
@@ -232,34 +229,31 @@ impl UnaryOperator for NonExistingUnaryOperatorFilter<'_> {
             return Ok(true);
         };
         // The candidate match is on one side and we need to get an iterator of all possible matches for the other side
-        if let Ok(node_search) = NodeSearch::from_spec(
+        let node_search = NodeSearch::from_spec(
             self.target.clone(),
             0,
             self.graph,
             None,
             &mut HashMap::new(),
             TimeoutCheck::new(None),
-        ) {
-            // Include if no nodes matches the conditions
-            if self.target_left {
-                for lhs in node_search {
-                    let lhs = lhs?;
-                    if negated_op.filter_match(&lhs[0], m)? {
-                        return Ok(false);
-                    }
-                }
-            } else {
-                for rhs in node_search {
-                    let rhs = rhs?;
-                    if negated_op.filter_match(m, &rhs[0])? {
-                        return Ok(false);
-                    }
+        )?;
+        // Include if no nodes matches the conditions
+        if self.target_left {
+            for lhs in node_search {
+                let lhs = lhs?;
+                if negated_op.filter_match(&lhs[0], m)? {
+                    return Ok(false);
                 }
             }
-            Ok(true)
         } else {
-            Ok(false)
+            for rhs in node_search {
+                let rhs = rhs?;
+                if negated_op.filter_match(m, &rhs[0])? {
+                    return Ok(false);
+                }
+            }
         }
+        Ok(true)
     }
 
     fn estimation_type(&self) -> EstimationType {
diff --git a/graphannis/src/annis/db/exec/nodesearch.rs b/graphannis/src/annis/db/exec/nodesearch.rs
index 2a56312..4f51649 100644
--- a/graphannis/src/annis/db/exec/nodesearch.rs
+++ b/graphannis/src/annis/db/exec/nodesearch.rs
@@ -368,7 +368,8 @@ fn create_token_leaf_filter(g: &AnnotationGraph) -> MatchValueFilterFunc {
 
     let filter_func: MatchValueFilterFunc = Box::new(move |m, _| {
         for cov in cov_gs.iter() {
-            if cov.get_outgoing_edges(m.node).next().is_some() {
+            if let Some(target) = cov.get_outgoing_edges(m.node).next() {
+                target?;
                 return Ok(false);
             }
         }
-- 
2.43.0


From 59c35a845b1d36b2e547e3e59dbbdc0c0a143bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:24 +0000
Subject: [PATCH 60/65] fix: queries with alternatives mixed up which nodes of
 the match are optional

---
 graphannis/src/annis/db/aql/conjunction.rs |  19 ++++
 graphannis/src/annis/db/aql/disjunction.rs |  20 ----
 graphannis/src/annis/db/aql/mod.rs         |  18 +---
 graphannis/src/annis/db/corpusstorage.rs   | 116 +++++++++++----------
 graphannis/src/annis/db/plan.rs            |  50 +++++----
 5 files changed, 110 insertions(+), 113 deletions(-)

diff --git a/graphannis/src/annis/db/aql/conjunction.rs b/graphannis/src/annis/db/aql/conjunction.rs
index a756ec9..b5c67d4 100644
--- a/graphannis/src/annis/db/aql/conjunction.rs
+++ b/graphannis/src/annis/db/aql/conjunction.rs
@@ -396,6 +396,25 @@ impl Conjunction {
         self.include_in_output.contains(variable)
     }
 
+    /// Get the positions of the nodes of this conjunction which are supposed to
+    /// be included in the output. In contrast to the global position this does
+    /// not include the nodes of other alternatives.
+    pub(crate) fn output_node_pos(&self) -> Vec<usize> {
+        self.nodes
+            .iter()
+            .enumerate()
+            .filter(|(_, n)| self.is_included_in_output(&n.var))
+            .map(|(pos, _)| pos)
+            .collect()
+    }
+
+    /// Get the position of a variable in the output matches of this
+    /// conjunction, if it is included in the output.
+    pub(crate) fn resolve_output_pos(&self, variable: &str) -> Option<usize> {
+        let pos = *self.variables.get(variable)?;
+        self.output_node_pos().iter().position(|p| *p == pos)
+    }
+
     /// Return the variable name for a node number. The node number is the
     /// position of a node description in the query. In case of a query with
     /// multiple alternatives, this refers to the node number of the whole query and
diff --git a/graphannis/src/annis/db/aql/disjunction.rs b/graphannis/src/annis/db/aql/disjunction.rs
index b9613bf..9674502 100644
--- a/graphannis/src/annis/db/aql/disjunction.rs
+++ b/graphannis/src/annis/db/aql/disjunction.rs
@@ -35,24 +35,4 @@ impl Disjunction {
         }
         None
     }
-
-    /// Return the variable name for a node number. The node number is the
-    /// position of an AQL query node in the disjunction.
-    pub(crate) fn get_variable_by_node_nr(&self, node_nr: usize) -> Option<String> {
-        for alt in &self.alternatives {
-            if let Some(var) = alt.get_variable_by_node_nr(node_nr) {
-                return Some(var);
-            }
-        }
-        None
-    }
-
-    pub(crate) fn is_included_in_output(&self, variable: &str) -> bool {
-        for alt in &self.alternatives {
-            if alt.is_included_in_output(variable) {
-                return true;
-            }
-        }
-        false
-    }
 }
diff --git a/graphannis/src/annis/db/aql/mod.rs b/graphannis/src/annis/db/aql/mod.rs
index fa8ead0..dfaa29e 100644
--- a/graphannis/src/annis/db/aql/mod.rs
+++ b/graphannis/src/annis/db/aql/mod.rs
@@ -78,22 +78,8 @@ pub fn execute_query_on_graph<'a>(
     let timeout = TimeoutCheck::new(timeout);
 
     let config = Config { use_parallel_joins };
-    let it = ExecutionPlan::from_disjunction(query, graph, &config, timeout)?
-        .map_ok(|mg| {
-            // Rewrite match group to only include nodes that are included in the query
-            // check if query node actually should be included
-            let mut new_match_group = MatchGroup::with_capacity(mg.len());
-            for (node_nr, m) in mg.into_iter().enumerate() {
-                let include_in_output = query
-                    .get_variable_by_node_nr(node_nr)
-                    .is_some_and(|var| query.is_included_in_output(&var));
-                if include_in_output {
-                    new_match_group.push(m);
-                }
-            }
-            new_match_group
-        })
-        .unique_by(move |mg| {
+    let it =
+        ExecutionPlan::from_disjunction(query, graph, &config, timeout)?.unique_by(move |mg| {
             // Map an error to an empty match group
             match mg {
                 Ok(mg) => mg.clone(),
diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index b38297a..4fcdaf4 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -1940,60 +1940,49 @@ impl CorpusStorage {
 
             let mut any_nodes_added = false;
 
-            for (node_nr, singlematch) in m.iter().enumerate() {
-                // check if query node actually should be included
-                let include_in_output = prep
-                    .query
-                    .get_variable_by_node_nr(node_nr)
-                    .is_some_and(|var| prep.query.is_included_in_output(&var));
-
-                if include_in_output {
-                    if any_nodes_added {
-                        match_desc.push(' ');
-                    }
-                    any_nodes_added = true;
+            for singlematch in &m {
+                if any_nodes_added {
+                    match_desc.push(' ');
+                }
+                any_nodes_added = true;
 
-                    let singlematch_anno_key = &singlematch.anno_key;
-                    if singlematch_anno_key.ns != ANNIS_NS || singlematch_anno_key.name != NODE_TYPE
-                    {
-                        if !singlematch_anno_key.ns.is_empty() {
-                            let encoded_anno_ns: Cow<str> =
-                                utf8_percent_encode(&singlematch_anno_key.ns, NODE_NAME_ENCODE_SET)
-                                    .into();
-                            match_desc.push_str(&encoded_anno_ns);
-                            match_desc.push_str("::");
-                        }
-                        let encoded_anno_name: Cow<str> =
-                            utf8_percent_encode(&singlematch_anno_key.name, NODE_NAME_ENCODE_SET)
+                let singlematch_anno_key = &singlematch.anno_key;
+                if singlematch_anno_key.ns != ANNIS_NS || singlematch_anno_key.name != NODE_TYPE {
+                    if !singlematch_anno_key.ns.is_empty() {
+                        let encoded_anno_ns: Cow<str> =
+                            utf8_percent_encode(&singlematch_anno_key.ns, NODE_NAME_ENCODE_SET)
                                 .into();
-                        match_desc.push_str(&encoded_anno_name);
+                        match_desc.push_str(&encoded_anno_ns);
                         match_desc.push_str("::");
                     }
+                    let encoded_anno_name: Cow<str> =
+                        utf8_percent_encode(&singlematch_anno_key.name, NODE_NAME_ENCODE_SET)
+                            .into();
+                    match_desc.push_str(&encoded_anno_name);
+                    match_desc.push_str("::");
+                }
 
-                    if let Some(node_name) = db
-                        .get_node_annos()
-                        .get_value_for_item(&singlematch.node, &NODE_NAME_KEY)?
-                    {
-                        if quirks_mode {
-                            // Unescape all parts of the name and re-escape with
-                            // quirks-mode compatible character encoding set
-                            let re_encoded_name = node_name
-                                .split('/')
-                                .map(|n| {
-                                    let decoded_name =
-                                        percent_encoding::percent_decode_str(n).decode_utf8_lossy();
-                                    let re_encoded_name: Cow<str> = utf8_percent_encode(
-                                        &decoded_name,
-                                        QUIRKS_SALT_URI_ENCODE_SET,
-                                    )
-                                    .into();
-                                    re_encoded_name.to_string()
-                                })
-                                .join("/");
-                            match_desc.push_str(&re_encoded_name);
-                        } else {
-                            match_desc.push_str(&node_name);
-                        }
+                if let Some(node_name) = db
+                    .get_node_annos()
+                    .get_value_for_item(&singlematch.node, &NODE_NAME_KEY)?
+                {
+                    if quirks_mode {
+                        // Unescape all parts of the name and re-escape with
+                        // quirks-mode compatible character encoding set
+                        let re_encoded_name = node_name
+                            .split('/')
+                            .map(|n| {
+                                let decoded_name =
+                                    percent_encoding::percent_decode_str(n).decode_utf8_lossy();
+                                let re_encoded_name: Cow<str> =
+                                    utf8_percent_encode(&decoded_name, QUIRKS_SALT_URI_ENCODE_SET)
+                                        .into();
+                                re_encoded_name.to_string()
+                            })
+                            .join("/");
+                        match_desc.push_str(&re_encoded_name);
+                    } else {
+                        match_desc.push_str(&node_name);
                     }
                 }
             }
@@ -2315,9 +2304,10 @@ impl CorpusStorage {
             let db: &AnnotationGraph = get_read_or_error(&lock)?;
 
             // get the matching annotation keys for each definition entry
-            let mut annokeys: Vec<(usize, Vec<AnnoKey>)> = Vec::default();
+            let mut annokeys: Vec<(&str, Vec<AnnoKey>)> = Vec::default();
             for def in definition.iter() {
-                if let Some(node_ref) = prep.query.get_variable_pos(&def.node_ref) {
+                if prep.query.get_variable_pos(&def.node_ref).is_some() {
+                    let node_ref = def.node_ref.as_str();
                     if let Some(ns) = &def.ns {
                         // add the single fully qualified annotation key
                         annokeys.push((
@@ -2334,19 +2324,33 @@ impl CorpusStorage {
                 }
             }
 
-            let plan =
+            // the position of a node in the match depends on the alternative
+            let output_pos: Vec<Vec<Option<usize>>> = prep
+                .query
+                .alternatives
+                .iter()
+                .map(|alt| {
+                    annokeys
+                        .iter()
+                        .map(|(node_ref, _)| alt.resolve_output_pos(node_ref))
+                        .collect()
+                })
+                .collect();
+
+            let mut plan =
                 ExecutionPlan::from_disjunction(&prep.query, db, &self.query_config, timeout)?;
             let mut total_count: u64 = 0;
 
-            for mgroup in plan {
+            while let Some(mgroup) = plan.next() {
                 let mgroup = mgroup?;
+                let output_pos = plan.current_alternative().map(|alt| &output_pos[alt]);
 
                 // for each match, extract the defined annotation (by its key) from the result node
                 let mut tuple: Vec<String> = Vec::with_capacity(annokeys.len());
-                for (node_ref, anno_keys) in &annokeys {
+                for (def_nr, (_, anno_keys)) in annokeys.iter().enumerate() {
                     let mut tuple_val: String = String::default();
-                    if *node_ref < mgroup.len() {
-                        let m: &Match = &mgroup[*node_ref];
+                    let node_pos = output_pos.and_then(|p| p[def_nr]);
+                    if let Some(m) = node_pos.and_then(|p| mgroup.get(p)) {
                         for k in anno_keys.iter() {
                             if let Some(val) = db.get_node_annos().get_value_for_item(&m.node, k)? {
                                 tuple_val = val.to_string();
diff --git a/graphannis/src/annis/db/plan.rs b/graphannis/src/annis/db/plan.rs
index ea0e2be..87c59a2 100644
--- a/graphannis/src/annis/db/plan.rs
+++ b/graphannis/src/annis/db/plan.rs
@@ -19,6 +19,11 @@ pub struct ExecutionPlan<'a> {
     current_plan: usize,
     descriptions: Vec<Option<ExecutionNodeDesc>>,
     inverse_node_pos: Vec<Option<Vec<usize>>>,
+    /// For each plan, the positions of the nodes in the (local) query node
+    /// order of the alternative which are included in the output.
+    output_node_pos: Vec<Vec<usize>>,
+    /// For each plan, the position of its alternative in the query.
+    alternative_nr: Vec<usize>,
     proxy_mode: bool,
     unique_result_set: BtreeIndex<Vec<(NodeID, usize)>, bool>,
     anno_key_symbols: SymbolTable<AnnoKey>,
@@ -34,7 +39,9 @@ impl<'a> ExecutionPlan<'a> {
         let mut plans: Vec<Box<dyn ExecutionNode<Item = Result<MatchGroup>> + 'a>> = Vec::new();
         let mut descriptions = Vec::new();
         let mut inverse_node_pos = Vec::new();
-        for alt in &query.alternatives {
+        let mut output_node_pos = Vec::new();
+        let mut alternative_nr = Vec::new();
+        for (alt_nr, alt) in query.alternatives.iter().enumerate() {
             let p = alt.make_exec_node(db, config, timeout);
             if let Ok(p) = p {
                 descriptions.push(p.get_desc().cloned());
@@ -65,6 +72,8 @@ impl<'a> ExecutionPlan<'a> {
                     inverse_node_pos.push(None);
                 }
 
+                output_node_pos.push(alt.output_node_pos());
+                alternative_nr.push(alt_nr);
                 plans.push(p);
             } else if let Err(e) = p
                 && !e.is_impossible_search()
@@ -84,6 +93,8 @@ impl<'a> ExecutionPlan<'a> {
             current_plan: 0,
             descriptions,
             inverse_node_pos,
+            output_node_pos,
+            alternative_nr,
             proxy_mode: plans.len() == 1,
             plans,
             unique_result_set: BtreeIndex::with_capacity(btree_config, 10_000)?,
@@ -92,29 +103,26 @@ impl<'a> ExecutionPlan<'a> {
     }
 
     /// Re-orders the match vector from the top execution node to match the
-    /// requested query node order. If query nodes are not part of the result,
-    /// they are still included in the vector but you can not use the node ID at
-    /// this position.
-    fn reorder_match(&self, tmp: MatchGroup) -> MatchGroup {
-        if let Some(inverse_node_pos) = &self.inverse_node_pos[self.current_plan] {
-            // re-order the matched nodes by the original node position of the query
-            let mut result = MatchGroup::new();
-            // We cannot assume that every node has a mapping, so use the maximum index
-            // in the mapping and not the size of the mapping vector as output vector size.
-            let output_size = if let Some(max_item) = inverse_node_pos.iter().max() {
-                *max_item + 1
-            } else {
-                0
+    /// requested query node order. Query nodes which should not be included in
+    /// the output, like optional nodes, are not part of the result.
+    fn reorder_match(&self, mut tmp: MatchGroup) -> MatchGroup {
+        let mut result = MatchGroup::new();
+        for node_pos in &self.output_node_pos[self.current_plan] {
+            // Find the position of the query node in the result stream
+            let stream_pos = match &self.inverse_node_pos[self.current_plan] {
+                Some(inverse_node_pos) => inverse_node_pos.iter().position(|p| p == node_pos),
+                None => Some(*node_pos),
             };
-            result.resize_with(output_size, Default::default);
-            for (stream_pos, m) in tmp.into_iter().enumerate() {
-                let target_pos = inverse_node_pos[stream_pos];
-                result[target_pos] = m;
+            if let Some(m) = stream_pos.and_then(|stream_pos| tmp.get_mut(stream_pos)) {
+                result.push(std::mem::take(m));
             }
-            result
-        } else {
-            tmp
         }
+        result
+    }
+
+    /// Get the number of the query alternative that produced the last match.
+    pub fn current_alternative(&self) -> Option<usize> {
+        self.alternative_nr.get(self.current_plan).copied()
     }
 
     pub fn estimated_output_size(&self) -> usize {
-- 
2.43.0


From 654d286e148a9983d35fb86a78cc3c26bfb0466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:50 +0000
Subject: [PATCH 61/65] fix: nodes covering a single token were not connected
 with themselves in disk path storages

The path storage on disk does not return any path from a node to itself, thus
the inclusion operator ignored spans which cover a single token.
---
 .../src/annis/db/aql/operators/edge_op.rs     | 11 +++++---
 .../src/annis/db/aql/operators/inclusion.rs   | 12 +++++----
 graphannis/src/annis/db/aql/operators/mod.rs  | 27 +++++++++++++++++++
 graphannis/src/annis/db/aql/operators/near.rs | 11 +++++---
 .../src/annis/db/aql/operators/precedence.rs  |  8 +++---
 5 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/edge_op.rs b/graphannis/src/annis/db/aql/operators/edge_op.rs
index 0f5e1c5..eb19c25 100644
--- a/graphannis/src/annis/db/aql/operators/edge_op.rs
+++ b/graphannis/src/annis/db/aql/operators/edge_op.rs
@@ -1,4 +1,7 @@
-use crate::annis::db::aql::{model::AnnotationComponentType, operators::RangeSpec};
+use crate::annis::db::aql::{
+    model::AnnotationComponentType,
+    operators::{RangeSpec, is_connected},
+};
 use crate::annis::db::exec::CostEstimate;
 use crate::annis::errors::GraphAnnisError;
 use crate::annis::operator::EstimationType::Selectivity;
@@ -291,7 +294,8 @@ impl BinaryOperatorBase for BaseEdgeOp {
     fn filter_match(&self, lhs: &Match, rhs: &Match) -> Result<bool> {
         for e in &self.gs {
             if self.inverse {
-                if e.is_connected(
+                if is_connected(
+                    e.as_ref(),
                     rhs.node,
                     lhs.node,
                     self.spec.dist.min_dist(),
@@ -304,7 +308,8 @@ impl BinaryOperatorBase for BaseEdgeOp {
                 )? {
                     return Ok(true);
                 }
-            } else if e.is_connected(
+            } else if is_connected(
+                e.as_ref(),
                 lhs.node,
                 rhs.node,
                 self.spec.dist.min_dist(),
diff --git a/graphannis/src/annis/db/aql/operators/inclusion.rs b/graphannis/src/annis/db/aql/operators/inclusion.rs
index fb6a2cd..53c7a70 100644
--- a/graphannis/src/annis/db/aql/operators/inclusion.rs
+++ b/graphannis/src/annis/db/aql/operators/inclusion.rs
@@ -1,3 +1,4 @@
+use super::{distance, is_connected};
 use crate::annis::db::exec::CostEstimate;
 use crate::annis::db::token_helper;
 use crate::annis::db::token_helper::TokenHelper;
@@ -103,11 +104,11 @@ impl BinaryOperatorBase for Inclusion<'_> {
             left_right_rhs.1,
         ) {
             // span length of LHS
-            if let Some(l) = self.gs_order.distance(start_lhs, end_lhs)? {
+            if let Some(l) = distance(self.gs_order.as_ref(), start_lhs, end_lhs)? {
                 // path between left-most tokens exists in ORDERING component and has maximum length l
-                if self.gs_order.is_connected(start_lhs, start_rhs, 0, std::ops::Bound::Included(l))?
+                if is_connected(self.gs_order.as_ref(), start_lhs, start_rhs, 0, std::ops::Bound::Included(l))?
                 // path between right-most tokens exists in ORDERING component and has maximum length l
-                && self.gs_order.is_connected(end_rhs, end_lhs, 0, std::ops::Bound::Included(l))?
+                && is_connected(self.gs_order.as_ref(), end_rhs, end_lhs, 0, std::ops::Bound::Included(l))?
                 {
                     return Ok(true);
                 }
@@ -165,7 +166,7 @@ impl BinaryOperatorIndex for Inclusion<'_> {
         let left_right_token = try_as_boxed_iter!(self.tok_helper.left_right_token_for(lhs.node));
         if let (Some(start_lhs), Some(end_lhs)) = left_right_token {
             // span length of LHS
-            let l = try_as_boxed_iter!(self.gs_order.distance(start_lhs, end_lhs));
+            let l = try_as_boxed_iter!(distance(self.gs_order.as_ref(), start_lhs, end_lhs));
             if let Some(l) = l {
                 // find each token which is between the left and right border
                 let overlapped_token =
@@ -203,7 +204,8 @@ impl BinaryOperatorIndex for Inclusion<'_> {
                                     self.tok_helper.get_gs_right_token().get_outgoing_edges(n);
                                 if let Some(end_n) = end_n.next() {
                                     let end_n = end_n?;
-                                    if self.gs_order.is_connected(
+                                    if is_connected(
+                                        self.gs_order.as_ref(),
                                         end_n,
                                         end_lhs,
                                         0,
diff --git a/graphannis/src/annis/db/aql/operators/mod.rs b/graphannis/src/annis/db/aql/operators/mod.rs
index 1027561..4f80597 100644
--- a/graphannis/src/annis/db/aql/operators/mod.rs
+++ b/graphannis/src/annis/db/aql/operators/mod.rs
@@ -1,3 +1,5 @@
+use crate::{errors::Result, graph::GraphStorage};
+use graphannis_core::types::NodeID;
 use std::fmt;
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
@@ -22,6 +24,31 @@ impl RangeSpec {
     }
 }
 
+/// Get the distance of two nodes. The distance of a node to itself is always 0,
+/// even if the graph storage implementation does not store such paths.
+fn distance(gs: &dyn GraphStorage, source: NodeID, target: NodeID) -> Result<Option<usize>> {
+    if source == target {
+        return Ok(Some(0));
+    }
+    Ok(gs.distance(source, target)?)
+}
+
+/// Check if two nodes are connected by a path with a length in the given range.
+/// A node is always connected with itself by a path of length 0, even if the
+/// graph storage implementation does not store such paths.
+fn is_connected(
+    gs: &dyn GraphStorage,
+    source: NodeID,
+    target: NodeID,
+    min_distance: usize,
+    max_distance: std::ops::Bound<usize>,
+) -> Result<bool> {
+    if source == target && min_distance == 0 {
+        return Ok(max_distance != std::ops::Bound::Excluded(0));
+    }
+    Ok(gs.is_connected(source, target, min_distance, max_distance)?)
+}
+
 impl fmt::Display for RangeSpec {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match &self {
diff --git a/graphannis/src/annis/db/aql/operators/near.rs b/graphannis/src/annis/db/aql/operators/near.rs
index c559a71..be41d78 100644
--- a/graphannis/src/annis/db/aql/operators/near.rs
+++ b/graphannis/src/annis/db/aql/operators/near.rs
@@ -1,4 +1,7 @@
-use crate::annis::db::aql::{model::AnnotationComponentType, operators::RangeSpec};
+use crate::annis::db::aql::{
+    model::AnnotationComponentType,
+    operators::{RangeSpec, is_connected},
+};
 use crate::annis::db::exec::CostEstimate;
 use crate::annis::db::token_helper;
 use crate::annis::db::token_helper::TokenHelper;
@@ -150,12 +153,14 @@ impl BinaryOperatorBase for Near<'_> {
             }
         };
 
-        let result = self.gs_order.is_connected(
+        let result = is_connected(
+            self.gs_order.as_ref(),
             start_end_forward.0,
             start_end_forward.1,
             self.spec.dist.min_dist(),
             self.spec.dist.max_dist(),
-        )? || self.gs_order.is_connected(
+        )? || is_connected(
+            self.gs_order.as_ref(),
             start_end_backward.1,
             start_end_backward.0,
             self.spec.dist.min_dist(),
diff --git a/graphannis/src/annis/db/aql/operators/precedence.rs b/graphannis/src/annis/db/aql/operators/precedence.rs
index c1a33f4..f3fd509 100644
--- a/graphannis/src/annis/db/aql/operators/precedence.rs
+++ b/graphannis/src/annis/db/aql/operators/precedence.rs
@@ -1,4 +1,4 @@
-use crate::annis::db::aql::operators::RangeSpec;
+use crate::annis::db::aql::operators::{RangeSpec, is_connected};
 use crate::annis::db::exec::CostEstimate;
 use crate::annis::db::token_helper;
 use crate::annis::db::token_helper::TokenHelper;
@@ -165,7 +165,8 @@ impl BinaryOperatorBase for Precedence<'_> {
             }
         };
 
-        let result = self.gs_order.is_connected(
+        let result = is_connected(
+            self.gs_order.as_ref(),
             start_end.0,
             start_end.1,
             self.spec.dist.min_dist(),
@@ -295,7 +296,8 @@ impl BinaryOperatorBase for InversePrecedence<'_> {
             }
         };
 
-        let result = self.gs_order.is_connected(
+        let result = is_connected(
+            self.gs_order.as_ref(),
             start_end.1,
             start_end.0,
             self.spec.dist.min_dist(),
-- 
2.43.0


From 82f9bac370a6f18984b9125590162a511bc801bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:23 +0000
Subject: [PATCH 62/65] fix: estimating an edge operator with a distance range
 that includes zero underflows

---
 graphannis/src/annis/db/aql/operators/edge_op.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphannis/src/annis/db/aql/operators/edge_op.rs b/graphannis/src/annis/db/aql/operators/edge_op.rs
index eb19c25..7b2cd02 100644
--- a/graphannis/src/annis/db/aql/operators/edge_op.rs
+++ b/graphannis/src/annis/db/aql/operators/edge_op.rs
@@ -393,11 +393,13 @@ impl BinaryOperatorBase for BaseEdgeOp {
                 } else {
                     // stats.max_depth is only valid if the graph is not cyclic
                     let max_path_length = if stats.cyclic {
-                        max_dist as i32
+                        max_dist
                     } else {
-                        std::cmp::min(max_dist, stats.max_depth) as i32
+                        std::cmp::min(max_dist, stats.max_depth)
                     };
-                    let min_path_length = std::cmp::max(0, self.spec.dist.min_dist() - 1) as i32;
+                    let max_path_length = i32::try_from(max_path_length).unwrap_or(i32::MAX);
+                    let min_path_length = self.spec.dist.min_dist().saturating_sub(1);
+                    let min_path_length = i32::try_from(min_path_length).unwrap_or(i32::MAX);
 
                     let reachable_max = reachable_by_path_length(stats, max_path_length);
                     let reachable_min = reachable_by_path_length(stats, min_path_length);
-- 
2.43.0


From ba0bd9b9cf599b6471e7d4790f8afc03d4086ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:52 +0000
Subject: [PATCH 63/65] fix: component names with path separators or reserved
 names are mixed up or lost on disk

---
 core/src/graph/mod.rs | 55 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/core/src/graph/mod.rs b/core/src/graph/mod.rs
index 2a25fbe..864df6e 100644
--- a/core/src/graph/mod.rs
+++ b/core/src/graph/mod.rs
@@ -12,6 +12,7 @@ use crate::{
     types::{AnnoKey, Annotation, Component, ComponentType, Edge, NodeID},
 };
 use clru::CLruCache;
+use percent_encoding::percent_decode_str;
 use rayon::prelude::*;
 use std::ops::Bound::Included;
 use std::path::{Path, PathBuf};
@@ -78,16 +79,56 @@ fn load_component_from_disk(component_path: &Path) -> Result<Arc<dyn GraphStorag
     Ok(gs)
 }
 
+/// Check if a name can't be used for a folder of a component layer or component,
+/// because it would not be a new folder or is already used for something else.
+fn is_reserved_folder_name(name: &str) -> bool {
+    name == "."
+        || name == ".."
+        || name == DEFAULT_EMPTY_LAYER
+        || name == "impl.cfg"
+        || name == "stats.toml"
+        || name == crate::annostorage::ondisk::SUBFOLDER_NAME
+        || name.ends_with(".bin")
+}
+
+/// Get the name of the folder for a component layer or component name.
+///
+/// Different names always have different folders, which are never outside of
+/// their parent folder.
+fn encode_folder_name(name: &str) -> String {
+    let mut result = String::with_capacity(name.len());
+    for c in name.chars() {
+        if c == '%' || c == '\0' || std::path::is_separator(c) {
+            result.push_str(&format!("%{:02X}", u32::from(c)));
+        } else {
+            result.push(c);
+        }
+    }
+    if is_reserved_folder_name(name)
+        && let Some(c) = result.pop()
+    {
+        result.push_str(&format!("%{:02X}", u32::from(c)));
+    }
+    result
+}
+
+/// The inverse function to [encode_folder_name].
+fn decode_folder_name(folder_name: &str) -> String {
+    percent_decode_str(folder_name)
+        .decode_utf8_lossy()
+        .to_string()
+}
+
 fn component_to_relative_path<CT: ComponentType>(c: &Component<CT>) -> PathBuf {
     let mut p = PathBuf::new();
     p.push("gs");
     p.push(c.get_type().to_string());
-    p.push(if c.layer.is_empty() {
-        DEFAULT_EMPTY_LAYER
+    if c.layer.is_empty() {
+        p.push(DEFAULT_EMPTY_LAYER);
     } else {
-        &c.layer
-    });
-    p.push(c.name.as_str());
+        p.push(encode_folder_name(&c.layer));
+    }
+    p.push(encode_folder_name(&c.name));
     p
 }
 
@@ -134,7 +175,7 @@ pub fn find_components_from_disk<CT: ComponentType, P: AsRef<Path>>(
                     let layer_name = if layer_name_from_file == DEFAULT_EMPTY_LAYER {
                         String::default()
                     } else {
-                        layer_name_from_file.into()
+                        decode_folder_name(&layer_name_from_file)
                     };
                     let empty_name_component =
                         Component::new(c.clone(), layer_name.clone(), String::default());
@@ -154,7 +195,7 @@ pub fn find_components_from_disk<CT: ComponentType, P: AsRef<Path>>(
                         let named_component = Component::new(
                             c.clone(),
                             layer_name.clone(),
-                            name.file_name().to_string_lossy().into(),
+                            decode_folder_name(&name.file_name().to_string_lossy()),
                         );
                         let cfg_file = PathBuf::from(location.as_ref())
                             .join(component_to_relative_path(&named_component))
-- 
2.43.0


From bcc0a8037c23d7f86087a6baf956aed0ef1455ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:52 +0000
Subject: [PATCH 64/65] fix: corpus names which are empty, "." or ".." address
 folders outside of the corpus

---
 graphannis/src/annis/db/corpusstorage.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/graphannis/src/annis/db/corpusstorage.rs b/graphannis/src/annis/db/corpusstorage.rs
index 4fcdaf4..8d15c5b 100644
--- a/graphannis/src/annis/db/corpusstorage.rs
+++ b/graphannis/src/annis/db/corpusstorage.rs
@@ -357,6 +357,10 @@ const QUIRKS_SALT_URI_ENCODE_SET: &AsciiSet = &CONTROLS
 
 const DB_LOCK_FILE_NAME: &str = "db.lock";
 
+/// Name of the directory for a corpus with an empty name. This is never the
+/// result of encoding another corpus name.
+const EMPTY_CORPUS_DIRECTORY_NAME: &str = "%";
+
 /// Common arguments to all search queries.
 #[derive(Debug, Clone)]
 pub struct SearchQuery<'a, S: AsRef<str>> {
@@ -507,8 +511,12 @@ impl CorpusStorage {
                 let directory_name = c_dir.file_name();
                 let corpus_name = directory_name.to_string_lossy();
                 // Use the decoded corpus name instead of the directory name
-                let corpus_name = percent_decode_str(&corpus_name);
-                corpora.push(corpus_name.decode_utf8_lossy().to_string());
+                if corpus_name == EMPTY_CORPUS_DIRECTORY_NAME {
+                    corpora.push(String::default());
+                } else {
+                    let corpus_name = percent_decode_str(&corpus_name);
+                    corpora.push(corpus_name.decode_utf8_lossy().to_string());
+                }
             }
         }
         Ok(corpora)
@@ -2573,7 +2581,17 @@ impl CorpusStorage {
     fn corpus_directory_on_disk(&self, corpus_name: &str) -> PathBuf {
         let escaped_corpus_name: Cow<str> =
             utf8_percent_encode(corpus_name, PATH_ENCODE_SET).into();
-        let db_path: PathBuf = [self.db_dir.to_string_lossy().as_ref(), &escaped_corpus_name]
+        // The corpus must always have its own sub-directory
+        let directory_name = if corpus_name.is_empty() {
+            EMPTY_CORPUS_DIRECTORY_NAME
+        } else if corpus_name == "." {
+            "%2E"
+        } else if corpus_name == ".." {
+            "%2E%2E"
+        } else {
+            escaped_corpus_name.as_ref()
+        };
+        let db_path: PathBuf = [self.db_dir.to_string_lossy().as_ref(), directory_name]
             .iter()
             .collect();
         db_path
-- 
2.43.0


From e560732dc522ec6f5ff0f73fd597385cdd4d5555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:52 +0000
Subject: [PATCH 65/65] fix: node names with non-ASCII white space are split
 when parsing a match

---
 graphannis/src/annis/util/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphannis/src/annis/util/mod.rs b/graphannis/src/annis/util/mod.rs
index 88d4076..f458105 100644
--- a/graphannis/src/annis/util/mod.rs
+++ b/graphannis/src/annis/util/mod.rs
@@ -101,7 +101,8 @@ pub fn get_queries_from_csv(file: &Path, panic_on_invalid: bool) -> Vec<SearchDe
 pub fn node_names_from_match(match_line: &str) -> Vec<String> {
     let mut result = Vec::default();
 
-    for m in match_line.split_whitespace() {
+    // Node names can contain non-ASCII whitespace
+    for m in match_line.split_ascii_whitespace() {
         let elements: Vec<&str> = m.splitn(3, "::").collect();
         if let Some(last_element) = elements.last() {
             result.push(last_element.to_string());
-- 
2.43.0

