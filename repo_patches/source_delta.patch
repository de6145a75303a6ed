From 5ad60aa582ecfed4aa5dc33d89e119cfd86eb82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 01/18] fix: count an edge only when it is new

---
 src/graph_impl/graph_map/graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index ff18367..5c8bcb4 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -353,7 +353,9 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             nodemap.add_edge(start, label_id);
         }
 
-        self.num_of_edges += 1;
+        if result {
+            self.num_of_edges += 1;
+        }
 
         result
     }
-- 
2.43.0


From d26f91870acf3e50dadb5bc18bb6002bcac713fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 02/18] fix: removing a node that has a self-loop

---
 src/graph_impl/graph_map/graph.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 5c8bcb4..5bf2ed8 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -300,22 +300,24 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
         match self.node_map.remove(&id) {
             Some(node) => {
                 if self.is_directed() {
-                    for neighbor in node.neighbors_iter() {
+                    for neighbor in node.neighbors_iter().filter(|n| *n != id) {
                         let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                         nodemap.remove_in_edge(id);
                     }
-                    for in_neighbor in node.in_neighbors_iter() {
+                    for in_neighbor in node.in_neighbors_iter().filter(|n| *n != id) {
                         let nodemap = self.node_map.get_mut(&in_neighbor).unwrap();
                         nodemap.remove_edge(id);
                     }
                 } else {
-                    for neighbor in node.neighbors_iter() {
+                    for neighbor in node.neighbors_iter().filter(|n| *n != id) {
                         let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                         nodemap.remove_edge(id);
                     }
                 }
 
-                self.num_of_edges -= node.degree() + node.in_degree();
+                // A directed self-loop is both an out-edge and an in-edge.
+                let self_loop = if node.has_in_neighbor(id) { 1 } else { 0 };
+                self.num_of_edges -= node.degree() + node.in_degree() - self_loop;
 
                 OwnedNodeType::NodeMap(node)
             }
-- 
2.43.0


From 715dc5c126680e527521d3c88a7e0992a0febd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 03/18] fix: compare node and edge counts in graph equality

---
 src/graph_impl/graph_map/graph.rs    | 2 +-
 src/graph_impl/static_graph/graph.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 5bf2ed8..9558759 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -90,7 +90,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedGraphMap<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedGraphMap<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 395b7d6..ac7a471 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -69,7 +69,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedStaticGraph<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedStaticGraph<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
-- 
2.43.0


From 2f2ffd27fcb76da39e75588f79f712a456ef52fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 04/18] fix: pair static undirected edges with their own labels

---
 src/graph_impl/static_graph/graph.rs           | 6 +++---
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index ac7a471..0f3df9c 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -548,9 +548,9 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
                     .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
             ))
         } else {
-            Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
-                EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
-            })))
+            Iter::new(Box::new(
+                self.edge_indices().map(move |i| self.get_edge(i.0, i.1)),
+            ))
         }
     }
 
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 038cb26..5d9e181 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -247,9 +247,9 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
                     .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
             ))
         } else {
-            Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
-                EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
-            })))
+            Iter::new(Box::new(
+                self.edge_indices().map(move |i| self.get_edge(i.0, i.1)),
+            ))
         }
     }
 
-- 
2.43.0


From 92f6107d333cdb15d6098e9f53a4c3d98cef88a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 05/18] fix: edge lookup from an absent node on a mmap graph

---
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 5d9e181..f4d5c99 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -187,11 +187,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn has_edge(&self, start: Id, target: Id) -> bool {
-        let neighbors = self.neighbors(start);
-        // The neighbors must be sorted anyway
-        let pos = neighbors.binary_search(&target);
-
-        pos.is_ok()
+        self.edges.has_edge(start, target)
     }
 
     #[inline]
-- 
2.43.0


From 3694ba7534969c2c55876351424dcd570320839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 06/18] fix: static graphs without nodes, and ids up to the
 maximum of the id type

---
 src/graph_impl/graph_map/graph.rs              | 7 ++-----
 src/graph_impl/static_graph/edge_vec.rs        | 2 +-
 src/graph_impl/static_graph/graph.rs           | 5 ++++-
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 5 ++++-
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 9558759..fd0fc5a 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -861,8 +861,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             (None, None, None)
         };
 
-        let mut nid = Id::new(0);
-        let max_nid = self.node_indices().max().unwrap();
+        let num_of_ids = self.node_indices().max().map_or(0, |i| i.id() + 1);
 
         offset_vec.push(offset);
 
@@ -870,7 +869,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             _in_offset_vec.push(_in_offset);
         }
 
-        while nid <= max_nid {
+        for nid in (0..num_of_ids).map(Id::new) {
             if let Some(mut node) = self.node_map.remove(&nid) {
                 let neighbors = mem::replace(&mut node.neighbors, BTreeMap::new());
                 offset += neighbors.len();
@@ -912,8 +911,6 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
                 _in_offset_vec.push(_in_offset);
             }
 
-            nid = nid.increment();
-
             //shrink the map to save memory
             self.shrink_to_fit();
         }
diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 2d425d5..6e061ea 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -45,7 +45,7 @@ pub trait EdgeVecTrait<Id: IdType, L: IdType> {
 
     #[inline]
     fn num_nodes(&self) -> usize {
-        self.get_offsets().len() - 1
+        self.get_offsets().len().saturating_sub(1)
     }
 
     #[inline]
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 0f3df9c..985a462 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -573,7 +573,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        match self.node_count() {
+            0 => None,
+            n => Some(Id::new(n - 1)),
+        }
     }
 
     #[inline]
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index f4d5c99..2d42dea 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -266,7 +266,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        match self.node_count() {
+            0 => None,
+            n => Some(Id::new(n - 1)),
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 3cca398dbcfb73428baf98284973485d8e47e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 07/18] fix: endless edge iteration when every id of the id
 type is in use

---
 src/graph_impl/static_graph/static_edge_iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/static_graph/static_edge_iter.rs b/src/graph_impl/static_graph/static_edge_iter.rs
index 8906c7a..3ab3bed 100644
--- a/src/graph_impl/static_graph/static_edge_iter.rs
+++ b/src/graph_impl/static_graph/static_edge_iter.rs
@@ -49,7 +49,7 @@ impl<'a, Id: IdType, L: IdType> Iterator for StaticEdgeIndexIter<'a, Id, L> {
         let mut neighbors: &[Id];
 
         loop {
-            while self.edge_vec.has_node(Id::new(self.curr_node))
+            while self.curr_node < self.edge_vec.num_nodes()
                 && self.curr_neighbor_index >= self.edge_vec.degree(Id::new(self.curr_node))
             {
                 self.curr_node += 1;
@@ -57,7 +57,7 @@ impl<'a, Id: IdType, L: IdType> Iterator for StaticEdgeIndexIter<'a, Id, L> {
             }
 
             node = self.curr_node;
-            if !self.edge_vec.has_node(Id::new(node)) {
+            if node >= self.edge_vec.num_nodes() {
                 return None;
             }
 
-- 
2.43.0


From 6c9ca496e87b46d936c8b69e3387c70fc194f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 08/18] fix: map empty files, as dumped for graphs without
 edges

---
 src/io/mmap.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 8724817..23a900f 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -45,8 +45,14 @@ impl<T: Copy> TypedMemoryMap<T> {
         let file = File::open(filename).expect("error opening file");
         let size = file.metadata().expect("error reading metadata").len() as usize;
         let type_len = mem::size_of::<T>();
+        let map = if size == 0 {
+            // An empty file can not be mapped.
+            memmap::MmapMut::map_anon(1).and_then(|m| m.make_read_only())
+        } else {
+            unsafe { memmap::Mmap::map(&file) }
+        };
         TypedMemoryMap {
-            map: unsafe { memmap::Mmap::map(&file).unwrap() },
+            map: map.unwrap(),
             len: size / type_len,
             type_len,
             phn: PhantomData,
-- 
2.43.0


From b3dba762861602986cfaf6d21db84d4b8366cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 09/18] fix: a dump must not leave optional files of an earlier
 dump behind

---
 src/graph_impl/static_graph/edge_vec.rs | 14 +++++++++++---
 src/graph_impl/static_graph/graph.rs    |  7 +++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 6e061ea..12996af 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -20,8 +20,8 @@
  */
 use generic::IdType;
 use io::mmap::dump;
-use std::fs::File;
-use std::io::Result;
+use std::fs::{remove_file, File};
+use std::io::{ErrorKind, Result};
 
 /// With the node indexed from 0 .. num_nodes - 1, we can maintain the edges in a compact way,
 /// using `offset` and `edges`, in which `offset[node]` maintain the start index of the given
@@ -175,12 +175,20 @@ impl<Id: IdType, L: IdType> EdgeVec<Id, L> {
             if !self.get_labels().is_empty() {
                 dump(self.get_labels(), File::create(labels_file)?)
             } else {
-                Ok(())
+                remove_stale(&labels_file)
             }
         }
     }
 }
 
+/// Remove a file left by an earlier dump to the same location, if there is one.
+pub(crate) fn remove_stale(path: &str) -> Result<()> {
+    match remove_file(path) {
+        Err(ref e) if e.kind() == ErrorKind::NotFound => Ok(()),
+        result => result,
+    }
+}
+
 impl<Id: IdType, L: IdType> EdgeVecTrait<Id, L> for EdgeVec<Id, L> {
     #[inline]
     fn get_offsets(&self) -> &[usize] {
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 985a462..665b6de 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -30,6 +30,7 @@ use generic::{
     DefaultId, DefaultTy, DiGraphTrait, Directed, EdgeType, GeneralGraph, GraphLabelTrait,
     GraphTrait, GraphType, IdType, Iter, NodeType, UnGraphTrait, Undirected,
 };
+use graph_impl::static_graph::edge_vec::remove_stale;
 use graph_impl::static_graph::mmap::graph_mmap::StaticGraphMmapAux;
 use graph_impl::static_graph::node::StaticNode;
 use graph_impl::static_graph::static_edge_iter::StaticEdgeIndexIter;
@@ -431,12 +432,18 @@ where
         self.edge_vec.dump_mmap(&edges_prefix)?;
         if let Some(ref in_edges) = self.in_edge_vec {
             in_edges.dump_mmap(&in_edges_prefix)?;
+        } else {
+            for suffix in &["offsets", "edges", "labels"] {
+                remove_stale(&format!("{}.{}", in_edges_prefix, suffix))?;
+            }
         }
 
         if let Some(ref labels) = self.labels {
             unsafe {
                 dump(labels, ::std::fs::File::create(label_file)?)?;
             }
+        } else {
+            remove_stale(&label_file)?;
         }
 
         let aux_file = StaticGraphMmapAux::new(
-- 
2.43.0


From e1537dbaa3e7e5d090400f92ebcb00805bcc8a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 10/18] fix: isolated and unknown nodes in connected components

---
 src/algorithm/conn_comp.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/algorithm/conn_comp.rs b/src/algorithm/conn_comp.rs
index e334750..7304d31 100644
--- a/src/algorithm/conn_comp.rs
+++ b/src/algorithm/conn_comp.rs
@@ -97,6 +97,10 @@ impl<Id: IdType> ConnComp<Id> {
         &mut self,
         graph: &GeneralGraph<Id, NL, EL, L>,
     ) {
+        for node in graph.node_indices() {
+            self.add_node(node);
+        }
+
         for edge in graph.edges() {
             self.process_new_edge(&edge);
         }
@@ -108,15 +112,8 @@ impl<Id: IdType> ConnComp<Id> {
         let x = edge.get_start();
         let y = edge.get_target();
 
-        if !self.parent().contains_key(&x) {
-            self.mut_parent().insert(x, x);
-            self.count += 1;
-        }
-
-        if !self.parent().contains_key(&y) {
-            self.mut_parent().insert(y, y);
-            self.count += 1;
-        }
+        self.add_node(x);
+        self.add_node(y);
 
         let x_root = self.get_root(x).unwrap();
         let y_root = self.get_root(y).unwrap();
@@ -138,6 +135,10 @@ impl<Id: IdType> ConnComp<Id> {
 
     /// Get the root of a node.
     pub fn get_root(&self, mut node: Id) -> Option<Id> {
+        if !self.parent().contains_key(&node) {
+            return None;
+        }
+
         while self.parent().get(&node) != Some(&node) {
             let p = self.parent()[&node];
             let pp = self.parent()[&p];
@@ -195,6 +196,14 @@ impl<Id: IdType> ConnComp<Id> {
         }
     }
 
+    /// Make a node known, in a component of its own if it is new.
+    fn add_node(&mut self, node: Id) {
+        if !self.parent().contains_key(&node) {
+            self.mut_parent().insert(node, node);
+            self.count += 1;
+        }
+    }
+
     /// Get mutable reference of parent map
     fn mut_parent(&self) -> RefMut<HashMap<Id, Id>> {
         self.parent_ref.borrow_mut()
-- 
2.43.0


From fbe61239acdaaeb83942dcb9fd157a5e915816fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 11/18] fix: visit nodes in depth-first order

---
 src/algorithm/dfs.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/algorithm/dfs.rs b/src/algorithm/dfs.rs
index ef3e342..ef725c6 100644
--- a/src/algorithm/dfs.rs
+++ b/src/algorithm/dfs.rs
@@ -76,9 +76,17 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
     /// Create a `Dfs` from a vector and a map
     pub fn from_parts<G: GeneralGraph<Id, NL, EL, L>>(
         stack: Vec<Id>,
-        discovered: FixedBitSet,
+        mut discovered: FixedBitSet,
         graph: &'a G,
     ) -> Self {
+        // The nodes in the stack are still to be visited.
+        for node in stack.iter() {
+            if node.id() >= discovered.len() {
+                discovered.grow(node.id() + 1);
+            }
+            discovered.set(node.id(), true);
+        }
+
         Dfs {
             stack,
             discovered,
@@ -108,24 +116,27 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
 
     /// Return the next node in the Dfs, or **None** if the traversal is done.
     pub fn next(&mut self) -> Option<Id> {
-        if self.stack.len() == 0 {
-            if let Some(id) = self.next_unvisited_node() {
-                self.stack.push(id);
-                self.discovered.set(id.id(), false);
+        // A node is visited when it is popped: until then, a node visited later
+        // may still push it again, on top of the stack.
+        while let Some(current_node) = self.stack.pop() {
+            if self.discovered.contains(current_node.id()) {
+                return Some(self.visit(current_node));
             }
         }
 
-        if let Some(current_node) = self.stack.pop() {
-            for neighbour in self.graph.neighbors_iter(current_node) {
-                if self.discovered.contains(neighbour.id()) {
-                    self.discovered.set(neighbour.id(), false);
-                    self.stack.push(neighbour);
-                }
+        self.next_unvisited_node().map(|id| self.visit(id))
+    }
+
+    /// Mark the node as visited and put its unvisited neighbours in the stack.
+    fn visit(&mut self, node: Id) -> Id {
+        self.discovered.set(node.id(), false);
+        for neighbour in self.graph.neighbors_iter(node) {
+            if self.discovered.contains(neighbour.id()) {
+                self.stack.push(neighbour);
             }
-            Some(current_node)
-        } else {
-            None
         }
+
+        node
     }
 
     /// Randomly pick a unvisited node from the map.
@@ -144,7 +155,6 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
             if !self.graph.has_node(start) {
                 panic!("Node {:?} is not in the graph.", start);
             } else {
-                self.discovered.set(start.id(), false);
                 self.stack.clear();
                 self.stack.push(start);
             }
@@ -153,7 +163,6 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
                 panic!("Graph is empty")
             } else {
                 let id = self.graph.node_indices().next().unwrap();
-                self.discovered.set(id.id(), false);
                 self.stack.clear();
                 self.stack.push(id);
             }
-- 
2.43.0


From adaa2dbefc648da29357cf6f2c073c530129a7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 12/18] fix: equal label maps must have equal hashes

---
 src/map/set_map.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/map/set_map.rs b/src/map/set_map.rs
index 7ea6271..dc36a9e 100644
--- a/src/map/set_map.rs
+++ b/src/map/set_map.rs
@@ -21,6 +21,7 @@
 use std::hash::{Hash, Hasher};
 use std::iter::FromIterator;
 
+use fnv::FnvHasher;
 use indexmap::IndexSet;
 use serde;
 
@@ -133,9 +134,16 @@ impl<L: Hash + Eq> MutMapTrait<L> for SetMap<L> {
 
 impl<L: Hash + Eq> Hash for SetMap<L> {
     fn hash<H: Hasher>(&self, state: &mut H) {
+        // Equality ignores the order of the items, so the hash has to as well.
+        let mut sum = 0u64;
         for l in self.items() {
-            l.hash(state);
+            let mut hasher = FnvHasher::default();
+            l.hash(&mut hasher);
+            sum = sum.wrapping_add(hasher.finish());
         }
+
+        self.len().hash(state);
+        sum.hash(state);
     }
 }
 
-- 
2.43.0


From 58c71d37517864ce3e24736511d169474dda4ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 13/18] fix: report writes that fail when the buffer is flushed

---
 src/io/csv/writer.rs | 2 ++
 src/io/serde.rs      | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io/csv/writer.rs b/src/io/csv/writer.rs
index a4537aa..8bf575a 100644
--- a/src/io/csv/writer.rs
+++ b/src/io/csv/writer.rs
@@ -111,6 +111,7 @@ where
         for id in self.g.node_indices() {
             wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;
         }
+        wtr.flush()?;
 
         info!(
             "csv::Writer::write - Writing edges to {}",
@@ -128,6 +129,7 @@ where
                 g.get_edge_label(start, target),
             ))?;
         }
+        wtr.flush()?;
 
         Ok(())
     }
diff --git a/src/io/serde.rs b/src/io/serde.rs
index 58eea95..e07001b 100644
--- a/src/io/serde.rs
+++ b/src/io/serde.rs
@@ -19,7 +19,7 @@
  * under the License.
  */
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::Path;
 
 use serde::{de, ser};
@@ -59,7 +59,10 @@ impl Serializer {
     {
         let mut writer = BufWriter::new(File::create(path)?);
 
-        serialize_into(&mut writer, &obj)
+        serialize_into(&mut writer, &obj)?;
+        writer.flush()?;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From f2c2684b7ebc7d29deff166994f0eb7dec226e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 14/18] fix: an empty label field means no label, with or
 without headers

---
 src/io/csv/record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/csv/record.rs b/src/io/csv/record.rs
index e2bc16e..f1b0910 100644
--- a/src/io/csv/record.rs
+++ b/src/io/csv/record.rs
@@ -114,7 +114,7 @@ where
                 let id = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq.next_element().unwrap_or(None).unwrap_or(None);
 
                 Ok(NodeRecord::new(id, label))
             }
@@ -205,7 +205,7 @@ where
                 let target = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq.next_element().unwrap_or(None).unwrap_or(None);
 
                 Ok(EdgeRecord::new(start, target, label))
             }
-- 
2.43.0


From a172e0ff04b18694d0cf1ec19c74df49cdd2b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 15/18] fix: count self-loops of undirected static graphs

---
 src/graph_impl/static_graph/edge_vec.rs        | 12 ++++++++++++
 src/graph_impl/static_graph/graph.rs           |  4 ++--
 src/graph_impl/static_graph/mmap/graph_mmap.rs |  2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 12996af..04c42d9 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -53,6 +53,18 @@ pub trait EdgeVecTrait<Id: IdType, L: IdType> {
         self.get_edges().len()
     }
 
+    /// The number of edges of an undirected graph, where each edge is stored
+    /// in both directions, except for self-loops.
+    #[inline]
+    fn num_undirected_edges(&self) -> usize {
+        let num_loops = (0..self.num_nodes())
+            .map(Id::new)
+            .filter(|&node| self.has_edge(node, node))
+            .count();
+
+        (self.num_edges() + num_loops) >> 1
+    }
+
     #[inline]
     fn neighbors(&self, node: Id) -> &[Id] {
         assert!(self.has_node(node));
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 665b6de..c5578f6 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -180,7 +180,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             if Ty::is_directed() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                edges.num_undirected_edges()
             }
         };
 
@@ -239,7 +239,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             if Ty::is_directed() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                edges.num_undirected_edges()
             }
         };
 
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 2d42dea..0b38c92 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -116,7 +116,7 @@ where
             let num_edge = if in_edges.is_some() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                edges.num_undirected_edges()
             };
 
             StaticGraphMmapAux::empty(num_node, num_edge)
-- 
2.43.0


From a7996a636833c90c365e5e5fa8277961800fe09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 16/18] fix: slices beyond the end of a typed memory map

---
 src/io/mmap.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 23a900f..dc19425 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -35,7 +35,6 @@ use std::slice;
 pub struct TypedMemoryMap<T: Copy> {
     pub map: memmap::Mmap,
     pub len: usize,
-    type_len: usize,
     // in bytes (needed because map extends to full block)
     phn: PhantomData<T>,
 }
@@ -54,7 +53,6 @@ impl<T: Copy> TypedMemoryMap<T> {
         TypedMemoryMap {
             map: map.unwrap(),
             len: size / type_len,
-            type_len,
             phn: PhantomData,
         }
     }
@@ -65,7 +63,6 @@ impl<T: Copy> TypedMemoryMap<T> {
         Self {
             map,
             len: size / type_len,
-            type_len,
             phn: PhantomData,
         }
     }
@@ -82,22 +79,16 @@ impl<T: Copy> ops::Index<ops::RangeFull> for TypedMemoryMap<T> {
 impl<T: Copy> ops::Index<ops::RangeFrom<usize>> for TypedMemoryMap<T> {
     type Output = [T];
     #[inline]
-    fn index(&self, _index: ops::RangeFrom<usize>) -> &[T] {
-        let index = _index.start;
-        unsafe {
-            slice::from_raw_parts(
-                self.map.as_ptr().add(index * self.type_len) as *const T,
-                self.len - index,
-            )
-        }
+    fn index(&self, index: ops::RangeFrom<usize>) -> &[T] {
+        &self[..][index]
     }
 }
 
 impl<T: Copy> ops::Index<ops::RangeTo<usize>> for TypedMemoryMap<T> {
     type Output = [T];
     #[inline]
-    fn index(&self, _index: ops::RangeTo<usize>) -> &[T] {
-        unsafe { slice::from_raw_parts(self.map.as_ptr() as *const T, _index.end) }
+    fn index(&self, index: ops::RangeTo<usize>) -> &[T] {
+        &self[..][index]
     }
 }
 
-- 
2.43.0


From b0c66f4a14a2634231c293cb5e2f965259a14f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 17/18] fix: match whole file names of the LDBC scheme

---
 src/io/ldbc/node.rs     | 3 ++-
 src/io/ldbc/relation.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/ldbc/node.rs b/src/io/ldbc/node.rs
index 371d9c8..8c9d67a 100644
--- a/src/io/ldbc/node.rs
+++ b/src/io/ldbc/node.rs
@@ -41,7 +41,8 @@ impl Node {
             name: name.to_owned(),
             id_index,
             label_index,
-            file_name_start: Regex::new(&format!(r"^{}[_\d]*.csv", file_name_start)[..]).unwrap(),
+            file_name_start: Regex::new(&format!(r"^{}[_\d]*\.csv$", file_name_start)[..])
+                .unwrap(),
         }
     }
 
diff --git a/src/io/ldbc/relation.rs b/src/io/ldbc/relation.rs
index 75f6782..7227acf 100644
--- a/src/io/ldbc/relation.rs
+++ b/src/io/ldbc/relation.rs
@@ -52,7 +52,7 @@ impl Relation {
             edge_label: edge_label.to_owned(),
             start_index,
             target_index,
-            file_name_start: Regex::new(&format!("{}{}", file_name_start, r"[_\d]*.csv")[..])
+            file_name_start: Regex::new(&format!(r"^{}[_\d]*\.csv$", file_name_start)[..])
                 .unwrap(),
         }
     }
-- 
2.43.0


From 121e049f1aea6f882a524c8a62dd92bdafed6fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 18/18] fix: keep LDBC entities of types with a common prefix
 apart

---
 src/io/ldbc/node.rs     | 2 +-
 src/io/ldbc/relation.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/ldbc/node.rs b/src/io/ldbc/node.rs
index 8c9d67a..0a32a57 100644
--- a/src/io/ldbc/node.rs
+++ b/src/io/ldbc/node.rs
@@ -58,7 +58,7 @@ impl Node {
         g: &mut TypedGraphMap<Id, String, String, Ty>,
         node_id_map: &mut HashMap<String, Id>,
     ) {
-        let str_id = self.name.clone() + &record[self.id_index];
+        let str_id = format!("{}|{}", self.name, &record[self.id_index]);
 
         let id = *node_id_map.entry(str_id).or_insert_with(|| {
             if let Some(i) = g.max_seen_id() {
diff --git a/src/io/ldbc/relation.rs b/src/io/ldbc/relation.rs
index 7227acf..25450c3 100644
--- a/src/io/ldbc/relation.rs
+++ b/src/io/ldbc/relation.rs
@@ -69,8 +69,8 @@ impl Relation {
         g: &mut TypedGraphMap<Id, String, String, Ty>,
         node_id_map: &mut HashMap<String, Id>,
     ) {
-        let start_str_id = self.start_label.clone() + &record[self.start_index];
-        let target_str_id = self.target_label.clone() + &record[self.target_index];
+        let start_str_id = format!("{}|{}", self.start_label, &record[self.start_index]);
+        let target_str_id = format!("{}|{}", self.target_label, &record[self.target_index]);
 
         let start_id = *node_id_map.entry(start_str_id).or_insert_with(|| {
             let i = if let Some(i) = g.max_seen_id() {
-- 
2.43.0

