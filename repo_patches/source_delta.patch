From 84e6f79c138cd90b51ef6e5a043921f2ff616fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 1/9] fix: VecOption::clone sets the length of the clone

---
 trellis/src/vec_option.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 24dccf7..50ed993 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -49,6 +49,9 @@ impl<T: Clone> Clone for VecOption<T> {
                 }
             }
         }
+        unsafe {
+            clone_vec.set_len(clone_capacity);
+        }
         Self {
             vec: clone_vec,
             present: self.present.clone(),
-- 
2.43.0


From 0de671e0f4a0ca06dbac19297336c55c80bd7cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 2/9] fix: find_disjoint_subgraphs keeps earlier connections
 when it links possible subgraphs

---
 trellis/src/disjoint.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/trellis/src/disjoint.rs b/trellis/src/disjoint.rs
index 043dc4d..d5aee8e 100644
--- a/trellis/src/disjoint.rs
+++ b/trellis/src/disjoint.rs
@@ -6,6 +6,15 @@ use log::debug;
 
 const NO_GRAPH: u32 = !0u32;
 
+/// Follows the aliases of a possibly-disjoint subgraph to the lowest one.
+fn find_leader(graph_alias: &[u32], g: u32) -> u32 {
+    let mut leader = g;
+    while graph_alias[leader as usize] != leader {
+        leader = graph_alias[leader as usize];
+    }
+    leader
+}
+
 pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
     // First we traverse all edges of the graph and create the graph_alias and v_graph tables.
     // This creates a set of "possible subgraphs". After this step, v_graph will contain one
@@ -61,8 +70,12 @@ pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
                     // It might not be the only connection, of course. Remember the connection
                     // by editing graph_alias[] so that both g_low and g_high "point" to one
                     // of the graphs. By convention, we make the higher one point to the lower.
-                    let g_low = g_from.min(g_to);
-                    let g_high = g_from.max(g_to);
+                    // Both are resolved to their leaders first, so that the connections that were
+                    // remembered earlier are kept.
+                    let leader_from = find_leader(&graph_alias, g_from);
+                    let leader_to = find_leader(&graph_alias, g_to);
+                    let g_low = leader_from.min(leader_to);
+                    let g_high = leader_from.max(leader_to);
                     graph_alias[g_high as usize] = g_low;
                     debug!("v{from} (in g{g_from}) --> v{to} (in g{g_to}), in different graphs. assigning g{g_high} --> g{g_low}", from=from, to=to, g_from=g_from, g_to=g_to, g_high=g_high, g_low=g_low);
                 }
-- 
2.43.0


From 52023cb86fe51473aaa45b09bccd2c0afdc6cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 3/9] fix: PQ::remove moves the greater child up

---
 trellis/src/priority_queue.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/trellis/src/priority_queue.rs b/trellis/src/priority_queue.rs
index 1f4813c..601729c 100644
--- a/trellis/src/priority_queue.rs
+++ b/trellis/src/priority_queue.rs
@@ -62,19 +62,21 @@ impl<T: Ord> PQ<T> {
         let result = self.pq.pop();
         let mut i: usize = 0;
         loop {
+            // The greater child has to move up, so that it also dominates its sibling.
             let left = left(i);
-            if left < self.pq.len() && self.pq[i] < self.pq[left] {
-                self.pq.swap(i, left);
-                i = left;
-                continue;
-            }
             let right = right(i);
-            if right < self.pq.len() && self.pq[i] < self.pq[right] {
-                self.pq.swap(i, right);
-                i = right;
-                continue;
+            let mut largest = i;
+            if left < self.pq.len() && self.pq[largest] < self.pq[left] {
+                largest = left;
+            }
+            if right < self.pq.len() && self.pq[largest] < self.pq[right] {
+                largest = right;
+            }
+            if largest == i {
+                break;
             }
-            break;
+            self.pq.swap(i, largest);
+            i = largest;
         }
 
         self.check();
-- 
2.43.0


From c45c50e4d62658baed8a3bbc764527a42d1e49ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 4/9] fix: iter_pairs_manual gives the right keys and skips
 unowned values

---
 trellis/src/ramp_table.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trellis/src/ramp_table.rs b/trellis/src/ramp_table.rs
index 9d0f3a5..248a501 100644
--- a/trellis/src/ramp_table.rs
+++ b/trellis/src/ramp_table.rs
@@ -201,14 +201,15 @@ impl<T> RampTable<T> {
                 if let Some(value) = self.value_iter.next() {
                     // What key is this value for?
                     while self.num_values == 0 {
-                        let next_index = *self.index_iter.next().unwrap() as usize;
+                        // Unowned values have no key.
+                        let next_index = *self.index_iter.next()? as usize;
                         self.num_values = next_index - self.current_index;
                         self.current_index = next_index;
                         self.current_key += 1;
                     }
-                    // TODO: current_key is not correct yet
+                    // current_key has already moved past the key of this value.
                     self.num_values -= 1;
-                    Some((self.current_key, value))
+                    Some((self.current_key - 1, value))
                 } else {
                     None
                 }
@@ -217,7 +218,7 @@ impl<T> RampTable<T> {
 
         Pairs {
             value_iter: self.values.iter(),
-            index_iter: self.index.iter(),
+            index_iter: self.index[1..].iter(),
             current_key: 0,
             current_index: 0,
             num_values: 0,
-- 
2.43.0


From 3e9669aa0ea60c77151771787f869b02c31315f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 5/9] fix: create_proper_graph builds its result

---
 trellis/src/layering.rs | 57 +++++++++--------------------------------
 1 file changed, 12 insertions(+), 45 deletions(-)

diff --git a/trellis/src/layering.rs b/trellis/src/layering.rs
index 0032ae4..3f8396d 100644
--- a/trellis/src/layering.rs
+++ b/trellis/src/layering.rs
@@ -1,5 +1,6 @@
 use crate::error::Error;
 use crate::graph::Graph;
+use crate::ramp_table::RampTableBuilder;
 
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub struct LayerMap {
@@ -121,13 +122,10 @@ pub fn create_proper_graph(graph: &Graph, layers: &LayerMap) -> Graph {
     let expected_num_vert_proper = graph.num_verts() + proper_num_virt_v;
     let expected_num_edge_proper = graph.num_edges() + proper_num_virt_v;
 
-    let mut proper_from: Vec<u32> = Vec::with_capacity(expected_num_edge_proper);
-    let mut proper_to: Vec<u32> = Vec::with_capacity(expected_num_edge_proper);
+    let mut proper: RampTableBuilder<u32> =
+        RampTableBuilder::with_capacity(expected_num_edge_proper);
 
-    let mut add_edge = |f, t| {
-        proper_from.push(f);
-        proper_to.push(t);
-    };
+    let mut add_edge = |f, t| proper.push(f, t);
 
     for (from, to) in graph.iter_edges_flattened() {
         let from = from as u32;
@@ -145,50 +143,19 @@ pub fn create_proper_graph(graph: &Graph, layers: &LayerMap) -> Graph {
         add_edge(prev_v, to);
     }
 
-    // Because of the iteration order, we know that values in 'proper_form'
-    // are in non-decreasing order. Next, we transform that into an index
-    // table for a RampTable.
+    // The virtual vertices are numbered after the original ones, so the edges are not in order
+    // of their 'from' vertex. The builder groups them, keeping the order of each vertex's edges.
 
     let nv_proper = next_virt_v;
 
-    let index = convert_runs_to_index(proper_from.iter().copied(), nv_proper as usize);
-
-    unimplemented!();
-}
-
-/*
-#[test]
-fn convert_runs_to_index_test() {
-    fn case(input: &[u32], len: usize, expected: &[u32]) {
-        let actual = convert_runs_to_index(input.iter().copied(), len);
-        assert_eq!(
-            actual.as_slice(),
-            expected,
-            "len: {} input: {:?}",
-            len,
-            input
-        );
+    let mut edges = proper.finish();
+    while edges.len() < nv_proper as usize {
+        edges.finish_key();
     }
+    assert_eq!(edges.len(), expected_num_vert_proper);
+    assert_eq!(edges.num_values(), expected_num_edge_proper);
 
-    case(&[0, 0, 1, 4, 7, 7], 10, &[0, 2]);
-}
-*/
-
-fn convert_runs_to_index(iter: impl Iterator<Item = u32>, len: usize) -> Vec<u32> {
-    let mut index: Vec<u32> = Vec::with_capacity(len + 1);
-    index.push(0);
-    let mut base: u32 = 0;
-    for key in iter {
-        assert!((key as usize) < len);
-        while index.len() <= key as usize {
-            index.push(base);
-        }
-        base += 1;
-    }
-    while index.len() < len {
-        index.push(base);
-    }
-    index
+    Graph { edges }
 }
 
 // Idea for language: Si# or Si++
-- 
2.43.0


From 3cb073303793ef1aa27d02fc65605bc2e6e552ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 6/9] fix: find_shortest_path ends on cyclic graphs and follows
 the best path to its start

---
 trellis/src/ortho/shortest_path.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index a634510..63c9d4f 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -75,6 +75,19 @@ impl FindPathState {
         result
     }
 
+    /// Indicates whether a path visits a vertex.
+    fn path_contains(&self, path: i32, vert: V) -> bool {
+        let mut pi = path;
+        while pi >= 0 {
+            let path = &self.paths[pi as usize];
+            if path.vert == vert {
+                return true;
+            }
+            pi = path.prev_path;
+        }
+        false
+    }
+
     fn pq_insert(&mut self, value: PQEntry) {
         let index = self.pq.len();
         self.pq.push(value);
@@ -136,6 +149,10 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
             // Find all the forward edges from this path and generate
             // new path entries.
             for (next_vert_index, edge_weight) in edges(current_vert) {
+                // A path never needs to visit a vertex twice.
+                if state.path_contains(current_path.path, next_vert_index) {
+                    continue;
+                }
                 let next_path_index = state.paths.len();
                 let next_path_weight = current_path.weight + edge_weight;
                 state.paths.push(Path {
@@ -153,10 +170,10 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
         let mut pi = best.path;
         loop {
             path_verts.push(state.paths[pi as usize].vert);
-            if pi == from_vert as i32 {
+            pi = state.paths[pi as usize].prev_path;
+            if pi < 0 {
                 break;
             }
-            pi = state.paths[pi as usize].prev_path;
         }
         Some(path_verts)
     } else {
-- 
2.43.0


From 4a9fbefb49108f311ee2aa661dac97033e17ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 7/9] fix: the visibility graph no longer counts below vertex
 zero

---
 trellis/src/pathplan/visibility.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/trellis/src/pathplan/visibility.rs b/trellis/src/pathplan/visibility.rs
index 23a20e7..6aeaf66 100644
--- a/trellis/src/pathplan/visibility.rs
+++ b/trellis/src/pathplan/visibility.rs
@@ -257,13 +257,8 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
         wadj[(previ as usize, i)] = d;
 
         /* Check remaining, earlier vertices */
-        let mut j;
-        if previ == i as i32 - 1 {
-            j = i - 2;
-        } else {
-            j = i - 1;
-        }
-        loop {
+        let end = if previ == i as i32 - 1 { i - 1 } else { i };
+        for j in (0..end).rev() {
             if inCone(i, j, pts, nextPt, prevPt)
                 && inCone(j, i, pts, nextPt, prevPt)
                 && clear(pts[i], pts[j], V, V, V, pts, nextPt, prevPt)
@@ -273,11 +268,6 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
                 wadj[(i, j)] = d;
                 wadj[(j, i)] = d;
             }
-
-            if j == 0 {
-                break;
-            }
-            j -= 1;
         }
     }
 }
-- 
2.43.0


From 0bea293ed1c0aee75c753d3951de02dc70ea01ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 8/9] fix: Pshortestpath fills its point list and its deque
 before using them

---
 trellis/src/pathplan/shortest.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 57c4f1c..7feaafd 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -61,7 +61,7 @@ pub enum ShortestPathError {
  */
 pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, ShortestPathError> {
     let mut ps_vec: Vec<Ppoint_t> = Vec::with_capacity(polyp.ps.len() + 2);
-    ps_vec.copy_from_slice(&polyp.ps);
+    ps_vec.extend_from_slice(&polyp.ps);
 
     let mut pnls: Vec<pointnlink_t> = Vec::new();
     // pnlps contains indices into pnls
@@ -70,7 +70,7 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
     pnlps.reserve(polyp.ps.len());
 
     let mut dq = deque_t::default();
-    dq.pnlps.reserve(polyp.ps.len() * 2);
+    dq.pnlps.resize(polyp.ps.len() * 2, 0);
     dq.fpnlpi = dq.pnlps.len() / 2;
     dq.lpnlpi = dq.fpnlpi - 1;
 
-- 
2.43.0


From 3150aa6d2fbb269c85920d13924ac2480bfa05f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 9/9] fix: judge tall ellipses by the error of the wide ellipse
 they are turned

---
 trellis/src/common/ellipse.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trellis/src/common/ellipse.rs b/trellis/src/common/ellipse.rs
index c4847a1..25b71d8 100644
--- a/trellis/src/common/ellipse.rs
+++ b/trellis/src/common/ellipse.rs
@@ -373,7 +373,14 @@ fn estimateError(ep: &mut Ellipse, degree: i32, etaA: f64, etaB: f64) -> f64 {
         let dy = yB - yA;
         return (x * dy - y * dx + xB * yA - xA * yB).abs() / (dx * dx + dy * dy).sqrt();
     } else {
-        let x = ep.b / ep.a;
+        // The coefficients below hold for b/a <= 1. An ellipse that is taller than wide is
+        // measured as one turned by a quarter.
+        let (a, b, eta) = if ep.b > ep.a {
+            (ep.b, ep.a, eta - 0.5 * PI)
+        } else {
+            (ep.a, ep.b, eta)
+        };
+        let x = b / a;
         let dEta = etaB - etaA;
         let cos2 = (2.0 * eta).cos();
         let cos4 = (4.0 * eta).cos();
@@ -408,7 +415,7 @@ fn estimateError(ep: &mut Ellipse, degree: i32, etaA: f64, etaB: f64) -> f64 {
             + cos4 * rational_function(x, &coeffs[1][2])
             + cos6 * rational_function(x, &coeffs[1][3]);
 
-        return rational_function(x, safety) * ep.a * (c0 + c1 * dEta).exp();
+        return rational_function(x, safety) * a * (c0 + c1 * dEta).exp();
     }
 }
 
-- 
2.43.0

