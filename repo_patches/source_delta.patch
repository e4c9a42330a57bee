From 449361584ec618a53df3eb77288bbd0f482c5917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 01/21] fix: EditDigraph::adjacent considers arcs in both
 directions

---
 src/editdigraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index 01f1d73..dd82594 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -59,7 +59,7 @@ impl Graph for EditDigraph {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.has_arc(u, v) || self.has_arc(u, v)
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-- 
2.43.0


From be07cfb01e27ccd0ee063ad5b4cc4735da169a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 02/21] fix: generators build all vertices for degenerate
 parameters

---
 src/editdigraph.rs | 10 ++++++++++
 src/editgraph.rs   |  9 +++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index dd82594..d13b60b 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -223,6 +223,11 @@ impl EditDigraph {
     /// Generates a directed path on `n` vertices.
     pub fn path(n:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(n as usize);
+        if n == 0 {
+            return res;
+        }
+        res.add_vertex(&0);
+
         for u in 0..(n-1) {
             let v = u+1;
             res.add_arc(&u,&v);
@@ -263,6 +268,7 @@ impl EditDigraph {
     pub fn clique(n:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(n as usize);
         for u in 0..n {
+            res.add_vertex(&u);
             for v in (u+1)..n {
                 res.add_arc(&u,&v);
             }
@@ -285,6 +291,9 @@ impl EditDigraph {
     /// Arcs go from the s-side to the t-side.
     pub fn biclique(s:u32, t:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity((s+t) as usize);
+        for u in 0..(s+t) {
+            res.add_vertex(&u);
+        }
         for u in 0..s {
             for v in s..(s+t) {
                 res.add_arc(&u,&v);
@@ -301,6 +310,7 @@ impl EditDigraph {
         if s == 0 || t == 0 {
             return res;
         }
+        res.add_vertex(&0);
 
         // s = 3, t = 4
         // 0 -- 1 -- 2 -- 3
diff --git a/src/editgraph.rs b/src/editgraph.rs
index 3a710ac..9220149 100644
--- a/src/editgraph.rs
+++ b/src/editgraph.rs
@@ -336,6 +336,9 @@ impl EditGraph {
     /// Generates a complete bipartite graph (biclique) on `s`+`t` vertices.
     pub fn biclique(s:u32, t:u32) -> EditGraph {
         let mut res = EditGraph::with_capacity((s+t) as usize);
+        for u in 0..(s+t) {
+            res.add_vertex(&u);
+        }
         for u in 0..s {
             for v in s..(s+t) {
                 res.add_edge(&u,&v);
@@ -354,8 +357,6 @@ impl EditGraph {
 
         if sizes.is_empty() {
             return EditGraph::new();
-        } else if sizes.len() == 1 {
-            return EditGraph::clique(sizes[0]);
         }
 
         let mut ranges:Vec<(u32,u32)> = Vec::new();
@@ -368,6 +369,9 @@ impl EditGraph {
         let n = ranges.last().unwrap().1;
 
         let mut res = EditGraph::with_capacity(n as usize);
+        for u in 0..n {
+            res.add_vertex(&u);
+        }
 
         #[allow(clippy::needless_range_loop)]
         for i in 0..ranges.len() {
@@ -391,6 +395,7 @@ impl EditGraph {
         if s == 0 || t == 0 {
             return res;
         }
+        res.add_vertex(&0);
 
         // s = 3, t = 4
         // 0 -- 1 -- 2 -- 3
-- 
2.43.0


From 7d1a94560ea4184851b9c58cd43ec1b5a1bfcf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:10 +0000
Subject: [PATCH 03/21] fix: MixedIterator returns self-loops

---
 src/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index f57fa17..04e52cd 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -230,7 +230,7 @@ impl<G> Iterator for MixedIterator<'_, G> where G: Graph {
             // Otherwise return edge
             for u in it.by_ref() {
                 // Tie-break so we do not return edges multiple times
-                if v < *u {
+                if v <= *u {
                     return Some(VertexOrEdge::E( (v,*u) ));
                 }
             }
-- 
2.43.0


From f3d5950bd0b5e005875564f6b1c5145b19b5397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 04/21] fix: EditDigraph union and normalisation preserve arc
 directions

---
 src/editdigraph.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index d13b60b..5f8b0a0 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -344,22 +344,22 @@ impl EditDigraph {
 
     /// Creates a new graph that is the disjoint union of `self` and `graph`.
     /// The vertices of the second graph are relabelled to avoid index clashes.
-    pub fn disj_union(&self, graph: &impl Graph) -> EditDigraph {
+    pub fn disj_union(&self, graph: &impl Digraph) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(self.len() + graph.len());
 
         let offset:Vertex = self.vertices().max().map(|x| x+1).unwrap_or(0);
 
         res.add_vertices(self.vertices().cloned());
-        res.add_arcs(self.edges());
+        res.add_arcs(self.arcs());
 
         res.add_vertices(graph.vertices().map(|v| v+offset));
-        res.add_arcs(graph.edges().map(|(u,v)| (u+offset,v+offset) ));
+        res.add_arcs(graph.arcs().map(|(u,v)| (u+offset,v+offset) ));
 
         res
     }
 
     /// Computes the disjoint unions of all graphs in the iterator `it`.
-    pub fn disj_unions<'a,I,G>(it: I) -> EditDigraph where I: Iterator<Item = &'a G>, G: Graph + 'a {
+    pub fn disj_unions<'a,I,G>(it: I) -> EditDigraph where I: Iterator<Item = &'a G>, G: Digraph + 'a {
         let mut res = EditDigraph::new();
         for graph in it {
             res = res.disj_union(graph);
@@ -388,7 +388,7 @@ impl EditDigraph {
         for u in self.vertices() {
             res.add_vertex(&vex2id[u]);
         }
-        for (u, v) in self.edges() {
+        for (u, v) in self.arcs() {
             res.add_arc(&vex2id[&u], &vex2id[&v]);
         }
         (res, id2vex)
-- 
2.43.0


From 15d346f33171b8a93786113e3b0c8e47e3ce48f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:45 +0000
Subject: [PATCH 05/21] fix: contract_pair keeps the vertex when contracted
 into itself

---
 src/editgraph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/editgraph.rs b/src/editgraph.rs
index 9220149..8a9a7d8 100644
--- a/src/editgraph.rs
+++ b/src/editgraph.rs
@@ -502,6 +502,9 @@ impl EditGraph {
         if !self.contains(u) || !self.contains(v) {
             panic!("Pair {u},{v} not contained in graph.");
         }
+        if u == v {
+            return;
+        }
         let mut N:VertexSet = self.neighbours(v).cloned().collect();
         N.remove(u); // Avoid adding a self-loop
 
-- 
2.43.0


From ed2bd33e60425a63f1146e22a2c2e6d0cd5efeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:48 +0000
Subject: [PATCH 06/21] fix: graph products keep isolated vertices

---
 src/operations.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operations.rs b/src/operations.rs
index ae7610b..15d3546 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -78,6 +78,7 @@ impl<G> GraphOperations<G> for G where G: Graph {
             for v in other.vertices() {
                 map.insert((*u,*v), free_id);
                 inverse.insert(free_id, (*u,*v));
+                res.add_vertex(&free_id);
                 free_id += 1;
             }
         }
@@ -121,6 +122,7 @@ impl<G> GraphOperations<G> for G where G: Graph {
             for v in other.vertices() {
                 map.insert((*u,*v), free_id);
                 inverse.insert(free_id, (*u,*v));
+                res.add_vertex(&free_id);
                 free_id += 1;
             }
         }
-- 
2.43.0


From 46834d765568a575ef3558129859925c64ae2fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:31 +0000
Subject: [PATCH 07/21] fix: degeneracy bounds account for the degree range of
 buckets

---
 src/algorithms/graph.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index b14cfe5..e666d64 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -142,14 +142,13 @@ impl<G> GraphAlgorithms for G where G: Graph {
             order.push(v);
         }
 
-        // Compute lower bound for core number. 
-        let ix = calc_index(core_num) as u32; 
-        let lower = if ix <= 129 {       
-            ix
+        // `core_num` is the index of a bucket: up to 129 every bucket holds a single
+        // degree, bucket `b` beyond that holds degrees 128+2^(b-129) to 127+2^(b-128).
+        let (lower, upper) = if core_num <= 129 {
+            (core_num, core_num)
         } else {
-            129 + (1 << ((ix - 129 - 1) as u32 ))
+            (128 + (1 << (core_num - 129)), 127 + (1 << (core_num - 128)))
         };
-        let upper = core_num;                  
 
         order.reverse(); // The reverse order is more natural to us (small left-degree)
         (lower, upper, order, core_numbers)
-- 
2.43.0


From 8f95be674afe6415c3127514457b187f5b8f1138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:34 +0000
Subject: [PATCH 08/21] fix: odd cycle witness contains every vertex once

---
 src/algorithms/graph.rs | 43 ++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index e666d64..29f1f70 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -194,10 +194,10 @@ impl<G> GraphAlgorithms for G where G: Graph {
         }
 
         // If the colouring failed we construct an odd path witness
-        if let Some((parent1, v, parent2)) = conflict {       
-            // The first path starts at v and follows it until
-            // the 'root' of the colouring via parent1
-            let mut path1:Vec<Vertex> = vec![v, parent1];
+        if let Some((parent1, v, _)) = conflict {       
+            // The first path starts at parent1 and follows it until
+            // the 'root' of the colouring
+            let mut path1:Vec<Vertex> = vec![parent1];
             loop {
                 let last = *path1.last().unwrap();                
                 let par = colours.get(&last).unwrap().1;
@@ -208,9 +208,9 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 }
             }
 
-            // The first path starts at parent2 and follows it until
-            // the 'root' of the colouring
-            let mut path2:Vec<Vertex> = vec![parent2];
+            // The second path starts at v and follows it until
+            // the 'root' of the colouring via parent2
+            let mut path2:Vec<Vertex> = vec![v];
             loop {
                 let last = *path2.last().unwrap();                
                 let par = colours.get(&last).unwrap().1;
@@ -221,32 +221,23 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 }
             }
 
-            // path1: v parent1 ... root
-            // path1: parent2 ... root
+            // path1: parent1 ... root
+            // path2: v parent2 ... root
             assert_eq!(path1.last(), path2.last());
 
-            // If v == parent2 then path1 is already an odd cycle
-            if path1.len() > 1 && path1.first() == path1.last() {
+            // Remove the shared part of both paths up to the last common vertex x
+            while path1.len() > 1 && path2.len() > 1
+                && path1[path1.len()-2] == path2[path2.len()-2] {
                 path1.pop();
-                return BipartiteWitness::OddCycle(path1);   
-            }
-
-            // If v == parent1 then path2 is already an odd cycle
-            if path2.len() > 1 && path2.first() == path2.last() {
                 path2.pop();
-                return BipartiteWitness::OddCycle(path2);   
-            }            
-
-            // path2 = parent2 ... x root  (for some vertex x, potentially x = parent2)
-            path2.pop();     
+            }
 
-            // path2 = parent2 ... x
-            path2.reverse(); 
-            // path2 = x ... parent2
-        
+            // path2 = v parent2 ... x
+            path2.pop();
+            path2.reverse();
 
             // Create odd cycle by concatenating paths
-            path1.append(&mut path2); // root ... parent1 v parent2 ... x
+            path1.append(&mut path2); // parent1 ... x ... parent2 v
 
             return BipartiteWitness::OddCycle(path1);
         };
-- 
2.43.0


From 146d0797b690d565e763fff532b56710fd70d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:50 +0000
Subject: [PATCH 09/21] fix: OrdGraph::swap handles adjacent vertices

---
 src/ordgraph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ordgraph.rs b/src/ordgraph.rs
index 2b656cd..b049ea6 100644
--- a/src/ordgraph.rs
+++ b/src/ordgraph.rs
@@ -143,7 +143,8 @@ impl OrdGraph {
                 for x in n.neighbours() {
                     let ix = self.indices.get(x).unwrap();
                     needs_update.push(*ix);
-                    if ix < &new_i {
+                    // The vertex at `new_i` itself moves to `old_i`
+                    if ix < &new_i || (ix == &new_i && old_i < new_i) {
                         new_left.insert(*x);
                     } else {
                         new_right.insert(*x);
-- 
2.43.0


From 42ebf36d3b02aaa52e84c9a5653b10bde11ddde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:44 +0000
Subject: [PATCH 10/21] fix: DegenGraph::normalize does not read out of bounds
 on the empty graph

---
 src/degengraph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/degengraph.rs b/src/degengraph.rs
index cea5b5e..1de3582 100644
--- a/src/degengraph.rs
+++ b/src/degengraph.rs
@@ -69,6 +69,9 @@ impl DegenGraph {
         let mut ix = 0;
         let mut new_to_old = VertexMap::default();
         let mut old_to_new = VertexMap::default();
+        if self.contents.is_empty() {
+            return new_to_old;
+        }
         unsafe {
             loop {
                 let u = *self.contents.get_unchecked(i); // contents[i]
-- 
2.43.0


From 03f3923a768d187b672c8a446b732311fc82611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:47 +0000
Subject: [PATCH 11/21] fix: sreach_set returns the empty set for radius 0

---
 src/algorithms/lineargraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 9ec46ab..e75675a 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -134,8 +134,11 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
     }
 
     fn sreach_set(&self, u:&Vertex, r:u32) -> VertexMap<u32> {
-        let bfs = self.right_bfs(u, r-1);
         let mut res = VertexMap::default();
+        if r == 0 {
+            return res;
+        }
+        let bfs = self.right_bfs(u, r-1);
 
         let iu = self.index_of(u);
         for (d, layer) in bfs.iter().enumerate() {
-- 
2.43.0


From 5397872b23c325f3cd426ed1ec63c8f782075fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:51 +0000
Subject: [PATCH 12/21] fix: colour_greedy counts distinct neighbour colours

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index e75675a..96eb48c 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -225,7 +225,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
         let mut colours:VertexColouring<u32> = VertexColouring::default();
         let mut used_colours:Vec<u32> = vec![];
         for (v, N) in self.left_neighbourhoods() {
-            let Ncols:Vec<u32> = N.iter().map(|x| colours[x]).collect();
+            let Ncols:FxHashSet<u32> = N.iter().map(|x| colours[x]).collect();
             if Ncols.len() == used_colours.len() {
                 let new_colour = used_colours.len() as u32;
                 used_colours.push(new_colour);
-- 
2.43.0


From 114de0ba9a3a6769c88442735daddd24adb9be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:55 +0000
Subject: [PATCH 13/21] fix: domset cutoff does not overflow for large radii

---
 src/algorithms/lineargraph.rs | 2 +-
 src/dtfgraph.rs               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 96eb48c..b6dd99a 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -267,7 +267,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
         let mut dom_distance = FxHashMap::<Vertex, u32>::default();
         let mut dom_counter = FxHashMap::<Vertex, u32>::default();
 
-        let cutoff = (2*radius).pow(2);
+        let cutoff = (2*radius).saturating_pow(2);
         let n = self.num_vertices() as i64;
 
         // Sort by _decreasing_ in-degree, tie-break by
diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 2c9d107..94df41b 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -564,7 +564,7 @@ impl DTFGraph {
         let mut dom_distance = FxHashMap::<Vertex, u32>::default();
         let mut dom_counter = FxHashMap::<Vertex, u32>::default();
 
-        let cutoff = (2*radius).pow(2);
+        let cutoff = (2*radius).saturating_pow(2);
         let n = self.num_vertices() as i64;
 
         // Sort by _decreasing_ in-degree, tie-break by
-- 
2.43.0


From 6ad1670b5352e26464093e838c3849a7409939ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:59 +0000
Subject: [PATCH 14/21] fix: scattered_colouring cutoff does not overflow for
 large distances

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index b6dd99a..08e57c7 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -388,7 +388,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
 
         // Sort by _decreasing_ in-degree, tie-break by
         // total degree.
-        let cutoff = distance.pow(2);
+        let cutoff = distance.saturating_pow(2);
         let n = self.num_vertices() as i64;
         let order:Vec<Vertex> = self.vertices()
                 .cloned()
-- 
2.43.0


From 5a911457cbbea8b4cef680fbcc1e46a13968e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:02 +0000
Subject: [PATCH 15/21] fix: scattered_colouring keeps classes apart for odd
 distances

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 08e57c7..6ef476d 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -523,7 +523,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
 
                     let dist = small_distance_sets(&wreach, distance, set1.iter(), set2.iter());
                     if let Some(dist) = dist {
-                        if dist < 2*radius {
+                        if dist < distance {
                             // Cannot merge these two classes
                             continue;
                         }
-- 
2.43.0


From 581a197695d3ff7af00eec6e6dae5293761b89d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:05 +0000
Subject: [PATCH 16/21] fix: count_max_cliques recurses on neighbours of the
 chosen vertex

---
 src/algorithms/lineargraph.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 6ef476d..bccd3a3 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -648,14 +648,18 @@ fn bk_pivot_count<L: LinearGraph>(graph:&L, v:&Vertex, vertices:&[Vertex], inclu
             continue
         }
 
-        // Recursion
+        // Recursion on the neighbourhood of `w`
+        let w_neighbours:Vec<Vertex> = vertices[0..=iu].iter()
+                .filter_map(|x| if graph.adjacent(w, x) {Some(*x)} else {None} ).collect();
+        let w_neighbours_set:VertexSet = w_neighbours.iter().cloned().collect();
+
         include.insert(*w);
         bk_pivot_count(graph,
                 v,
-                &left_neighbours,
+                &w_neighbours,
                 include,
-                maybe.intersection(&left_neighbours_set).cloned().collect(),
-                exclude.intersection(&left_neighbours_set).cloned().collect(),
+                maybe.intersection(&w_neighbours_set).cloned().collect(),
+                exclude.intersection(&w_neighbours_set).cloned().collect(),
                 results);
         include.remove(w);
 
-- 
2.43.0


From b4430703866a2b5a39c45e4ebe4abe72a9396bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:57 +0000
Subject: [PATCH 17/21] fix: DTFArcIterator returns every arc with its
 direction

---
 src/iterators.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index 04e52cd..305b03a 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -419,12 +419,9 @@ impl Iterator for DTFArcIterator<'_> {
                 continue;
             }
 
-            // Tie-breaking so we only return every edge once
+            // `u` is an in-neighbour of `curr_v`
             let u = *uu.unwrap();
-            if self.curr_v > u {
-                continue;
-            }
-            return Some((self.curr_v, u));
+            return Some((u, self.curr_v));
         }
 
         None
-- 
2.43.0


From c5fc5a1fc370057af45e9d0674579c45dadb105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:01 +0000
Subject: [PATCH 18/21] fix: DTFGraph::reserve_depth never lowers the depth and
 extends arc counts

---
 src/dtfgraph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 94df41b..b85517b 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -344,9 +344,9 @@ impl DTFGraph {
             for (_, node) in self.nodes.iter_mut() {
                 node.reserve_depth(depth);
             }
-            self.ms.push(0);
+            self.ms.resize(depth, 0);
+            self.depth = depth;
         }
-        self.depth = depth;
     }
 
     pub fn add_arc(&mut self, u:&Vertex, v:&Vertex, depth:usize) {
-- 
2.43.0


From 6921e79d341c195effa517d5d55afd8c84d70ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:04 +0000
Subject: [PATCH 19/21] fix: DTFLayer answers adjacency and degrees for its own
 weight only

---
 src/dtfgraph.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index b85517b..727b7a4 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -61,11 +61,11 @@ impl Graph for DTFLayer<'_> {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.graph.adjacent(u, v)
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-        self.graph.degree(u)
+        self.in_degree(u) + self.out_degree(u)
     }
 
     fn vertices<'b>(&'b self) -> Box<dyn Iterator<Item=&'b Vertex> + 'b> {
@@ -85,11 +85,11 @@ impl Digraph for DTFLayer<'_> {
     }
 
     fn in_degree(&self, u:&Vertex) -> u32 {
-        self.graph.in_degree(u)
+        self.graph.in_degree_at(u, self.depth)
     }
 
     fn out_degree(&self, u:&Vertex) -> u32 {
-        self.graph.out_degree(u)
+        self.graph.out_degree_at(u, self.depth)
     }
 
     fn neighbours<'a>(&'a self, _:&Vertex) -> Box<dyn Iterator<Item=&'a Vertex> + 'a> {
@@ -376,6 +376,14 @@ impl DTFGraph {
         self.nodes.get(v).unwrap().has_in_neighbour_at(u, depth)
     }
 
+    pub fn in_degree_at(&self, u:&Vertex, depth:usize) -> u32 {
+        self.nodes.get(u).unwrap().in_degs[depth-1]
+    }
+
+    pub fn out_degree_at(&self, u:&Vertex, depth:usize) -> u32 {
+        self.nodes.get(u).unwrap().out_degs[depth-1]
+    }
+
     pub fn get_arc_depth(&self, u:&Vertex, v:&Vertex) -> Option<u32> {
         self.nodes.get(v).unwrap().get_arc_depth_from(u)
     }
-- 
2.43.0


From f4d55cca954a7aebfe83838cfbd078c0ced45e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:20 +0000
Subject: [PATCH 20/21] fix: text readers return read errors instead of
 panicking

---
 src/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 07bafb3..866b7c3 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -53,7 +53,7 @@ impl LoadFromFile for VertexSet {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = VertexSet::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.insert(u);
         }
@@ -76,7 +76,7 @@ impl LoadFromFile for Vec<Vertex> {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = Vec::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.push(u);
         }
@@ -114,7 +114,7 @@ impl EditGraph {
     fn from_buf_with_estimate<R: BufRead>(reader: &mut R, n_estimate:usize) -> io::Result<EditGraph> {
         let mut G = EditGraph::with_capacity(n_estimate);
         for (lineno, line) in reader.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
@@ -184,7 +184,7 @@ impl LoadFromFile for EditGraph {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut G = EditGraph::with_capacity(500);
         for (lineno, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
-- 
2.43.0


From 30de4d3c1300cc721ffb626f87f180990725bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:19 +0000
Subject: [PATCH 21/21] fix: augmenting arcs of several weights does not create
 fraternal self-loops

---
 src/dtfgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 727b7a4..a847c5c 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -523,7 +523,7 @@ impl DTFGraph {
 
             for x in self.in_neighbours_at(u, *wx) {
                 for y in self.in_neighbours_at(u, wy) {
-                    if !self.adjacent(x, y) {
+                    if x != y && !self.adjacent(x, y) {
                         res.insert((*x,*y));
                     }
                 }
-- 
2.43.0

