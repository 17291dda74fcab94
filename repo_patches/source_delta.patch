From c873a42634502ac3fa00ca220014e1629be61d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 01/21] fix: run link remove checks on the removed links, not
 on the added ones

---
 src/typed_graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 44aeeef..62e76a6 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -741,7 +741,7 @@ where
       }
     }
     for (name, check_func) in &checks.link_remove_checks {
-      for (x, y, _) in &lcr.adds {
+      for (x, y, _) in &lcr.removes {
         if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
-- 
2.43.0


From c13e7372479fb785adf23e10ea945b1a9005d904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 02/21] fix: commit_checked does not panic when the transaction
 removes a node

---
 src/typed_graph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 62e76a6..0dd4eff 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -726,7 +726,9 @@ where
     }
     for (name, check_func) in &checks.node_checks {
       for x in &changed_nodes {
-        if check_func(*x, self.get(*x).unwrap()).is_err() {
+        // A removed node has no content to be checked
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, node).is_err() {
           failed.push(name.as_str());
           break;
         }
@@ -742,7 +744,9 @@ where
     }
     for (name, check_func) in &checks.link_remove_checks {
       for (x, y, _) in &lcr.removes {
-        if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
+        // The link of a removed node disappears together with the node
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, *y, node, self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
         }
-- 
2.43.0


From c4f9c2c615a5803d5992fce059d321bb5c1aebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:58 +0000
Subject: [PATCH 03/21] fix: reject cross-context and unfilled transactions in
 release builds too

---
 src/typed_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 0dd4eff..452ab2e 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -513,8 +513,8 @@ where
   pub fn check_backlinks(&self) {}
 
   fn do_commit(&mut self, t: Transaction<NodeT, Arena>) -> LinkChangeRecorder<NodeT> {
-    debug_assert!(t.ctx_id == self.ctx_id, "The transaction and the graph are from different context!");
-    debug_assert!(t.alloc_nodes.is_empty(), "There are unfilled allocated nodes");
+    assert!(t.ctx_id == self.ctx_id, "The transaction and the graph are from different context!");
+    assert!(t.alloc_nodes.is_empty(), "There are unfilled allocated nodes");
 
     let mut lcr = LinkChangeRecorder::default();
 
-- 
2.43.0


From b4c1b5ae3214f79699fc34b27498d4be33b3425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:04 +0000
Subject: [PATCH 04/21] fix: default contexts are distinct from each other

---
 src/typed_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 452ab2e..32074ce 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -867,7 +867,7 @@ pub type UpdateFunc<'a, T> = Box<dyn FnOnce(T) -> T + 'a>;
 
 /// Context for typed graph
 /// Transactions and graph must have the same context to ensure the correctness of NodeIndex
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct Context {
   id: Uuid,
   node_dist: IdDistributer,
@@ -889,6 +889,12 @@ impl Context {
   }
 }
 
+impl Default for Context {
+  fn default() -> Self {
+    Self::new()
+  }
+}
+
 // /// A trait intended to be used in macros
 // pub trait SourceIterator<T: TypedNode + ?Sized>:
 //   Iterator<Item = (NodeIndex, Self::Source)>
-- 
2.43.0


From f1b5ce66a43a7c8dd345f08e618ab1c424b238d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:10 +0000
Subject: [PATCH 05/21] fix: switch_context keeps set links when the old and
 the new ids overlap

---
 src/typed_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 32074ce..d9d1ded 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -456,9 +456,15 @@ where
       id_map.insert(id, new_idx);
     }
 
+    // Clear all the old links before adding any new one, because the old and the new ids may overlap
+    for id in id_map.keys() {
+      for (y, s) in &self.back_links[id] {
+        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, NodeIndex::empty());
+      }
+    }
     for (id, new_id) in &id_map {
       for (y, s) in &self.back_links[id] {
-        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, *new_id);
+        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, NodeIndex::empty(), *new_id);
       }
     }
 
-- 
2.43.0


From a0adbd43cd07239c4d213575e6bf052074172891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:16 +0000
Subject: [PATCH 06/21] fix: a link field may carry more than one group
 attribute

---
 ttgraph_macros/src/lib.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index d769a0c..9dd092c 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -218,10 +218,9 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
         data.push((ident.clone(), p.clone()));
       }
     }
-    let mut have_group = false;
+    let mut cur_group: Vec<Ident> = Vec::new();
     for attr in &f.attrs {
       if attr.path().is_ident("group") {
-        let mut cur_group = Vec::new();
         if let Err(err) = attr.parse_nested_meta(|meta| {
           if let Some(ident) = meta.path.get_ident() {
             cur_group.push(ident.clone());
@@ -234,18 +233,15 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
         }
         if !is_link {
           emit_error!(attr, "Can not group a non-link field!");
-        } else {
-          for g in &cur_group {
-            group_map.entry(g.clone()).or_default().push(ident.clone());
-          }
-          groups.push(cur_group);
         }
-        have_group = true;
       }
     }
 
-    if !have_group && is_link {
-      groups.push(Vec::new());
+    if is_link {
+      for g in &cur_group {
+        group_map.entry(g.clone()).or_default().push(ident.clone());
+      }
+      groups.push(cur_group);
     }
   }
   if links.is_empty() {
-- 
2.43.0


From 35451cfd2449fa7989618e49babe2b634bdb57db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:21 +0000
Subject: [PATCH 07/21] fix: get_links_by_group does not return empty slots

---
 ttgraph_macros/src/group.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttgraph_macros/src/group.rs b/ttgraph_macros/src/group.rs
index df0ad7b..0d0f4de 100644
--- a/ttgraph_macros/src/group.rs
+++ b/ttgraph_macros/src/group.rs
@@ -52,8 +52,8 @@ pub(crate) fn make_get_links_by_group(links: &[LinkType], groups: &[Vec<Ident>])
         LinkType::Direct(ident, _) => {
           quote! {if !self.#ident.is_empty() {result.push(self.#ident);}}
         },
-        LinkType::Set(ident, _) => quote! {result.extend(self.#ident.clone());},
-        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.clone());},
+        LinkType::Set(ident, _) => quote! {result.extend(self.#ident.iter().copied().filter(|x|!x.is_empty()));},
+        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.iter().copied().filter(|x|!x.is_empty()));},
         LinkType::Empty => quote! {},
       });
     }
-- 
2.43.0


From 20feb93d58fe59b80cb0228534f37e4ad98d324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:27 +0000
Subject: [PATCH 08/21] fix: an empty index inside a set is not a link

---
 ttgraph_macros/src/typed_node.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index 3311457..5f5956b 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -171,7 +171,9 @@ pub(crate) fn make_typed_node(
       }),
       LinkType::Set(ident, camel) => add_source_ops.push(quote! {
         for i in self.#ident.iter() {
-          sources.push((*i, <#name as ttgraph::TypedNode>::Source::#camel));
+          if !i.is_empty() {
+            sources.push((*i, <#name as ttgraph::TypedNode>::Source::#camel));
+          }
         }
       }),
       LinkType::Vec(ident, camel) => add_source_ops.push(quote! {
@@ -193,7 +195,7 @@ pub(crate) fn make_typed_node(
         Self::LinkMirror::#camel => if self.#ident.is_empty() {Box::new([].into_iter())} else {Box::new([self.#ident].into_iter())},
       },
       LinkType::Set(ident, camel) => quote! {
-        Self::LinkMirror::#camel => Box::new(self.#ident.iter().map(|x|*x)),
+        Self::LinkMirror::#camel => Box::new(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x)),
       },
       LinkType::Vec(ident, camel) => quote! {
         Self::LinkMirror::#camel => Box::new(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x)),
-- 
2.43.0


From db40ec12a2f0eb6bafb07aafd40768b43290a9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:32 +0000
Subject: [PATCH 09/21] fix: fill_back_untyped rejects an occupied index
 whatever the node type

---
 ttgraph_macros/src/cate_arena.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ttgraph_macros/src/cate_arena.rs b/ttgraph_macros/src/cate_arena.rs
index 54585d5..92a3e89 100644
--- a/ttgraph_macros/src/cate_arena.rs
+++ b/ttgraph_macros/src/cate_arena.rs
@@ -354,11 +354,12 @@ pub(crate) fn make_cate_arena(
         NodeIndex(self._id_distributer.alloc())
       }
       fn fill_back_untyped(&mut self, i: NodeIndex, item: Self::V) {
-        let d = ttgraph::Discriminated::discriminant(&item);
-        self._dispatcher.insert(i, d);
-        if self.get_container_mut(d).insert(i.0, item).is_some() {
+        if self.contains(i) {
           panic!("Fillback an occupied index {:?}", i);
         }
+        let d = ttgraph::Discriminated::discriminant(&item);
+        self._dispatcher.insert(i, d);
+        self.get_container_mut(d).insert(i.0, item);
       }
       fn remove(&mut self, i: NodeIndex) -> Option<Self::V> {
         let d = self._dispatcher.swap_remove(&i);
-- 
2.43.0


From f44ca989376ce4a57609bab817e69f8dd6dafb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:21 +0000
Subject: [PATCH 10/21] fix: a node that changes its type in update is found as
 its new type

---
 src/cate_arena.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cate_arena.rs b/src/cate_arena.rs
index 6903018..ceb2c80 100644
--- a/src/cate_arena.rs
+++ b/src/cate_arena.rs
@@ -99,9 +99,8 @@ pub trait CateArena: 'static {
   where
     F: FnOnce(Self::V) -> Self::V,
   {
-    let d = self.dispatch(i).expect(&format!("Update a non-existing node {:?}", i));
-    let x = self.get_container_mut(d).swap_remove(&i.0).expect(&format!("Update a non-existing node {:?}", i));
-    self.get_container_mut(d).insert(i.0, f(x));
+    let x = self.remove(i).expect(&format!("Update a non-existing node {:?}", i));
+    self.fill_back_untyped(i, f(x));
   }
 
   // fn iter_cate<'a, T: 'a>(&'a self) -> IterCate<'a, Self::K, Self::V, T>
-- 
2.43.0


From 4a5636346ce462fa9ffb9776e1d8034d1f2079c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:26 +0000
Subject: [PATCH 11/21] fix: a node that changes its type in mutate is found as
 its new type

---
 src/cate_arena.rs              | 13 +++++++++++++
 src/typed_graph.rs             |  2 +-
 src/typed_graph/transaction.rs |  2 +-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/cate_arena.rs b/src/cate_arena.rs
index ceb2c80..94ce2dc 100644
--- a/src/cate_arena.rs
+++ b/src/cate_arena.rs
@@ -102,6 +102,19 @@ pub trait CateArena: 'static {
     let x = self.remove(i).expect(&format!("Update a non-existing node {:?}", i));
     self.fill_back_untyped(i, f(x));
   }
+  fn modify_with<F>(&mut self, i: NodeIndex, f: F)
+  where
+    F: FnOnce(&mut Self::V),
+  {
+    let node = self.get_mut(i).expect(&format!("Modify a non-existing node {:?}", i));
+    let d = Discriminated::discriminant(node);
+    f(node);
+    if Discriminated::discriminant(node) != d {
+      // The type of the node is changed, move it to the right container
+      let node = self.remove(i).unwrap();
+      self.fill_back_untyped(i, node);
+    }
+  }
 
   // fn iter_cate<'a, T: 'a>(&'a self) -> IterCate<'a, Self::K, Self::V, T>
   // where
diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index d9d1ded..6d822fe 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -573,7 +573,7 @@ where
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
 
-    f(self.nodes.get_mut(x).unwrap());
+    self.nodes.modify_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().insert((x, s));
diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index dcaaaca..52b7082 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -276,7 +276,7 @@ where
     F: FnOnce(&mut NodeT) + 'a,
   {
     if self.inc_nodes.contains(node) {
-      func(self.inc_nodes.get_mut(node).unwrap());
+      self.inc_nodes.modify_with(node, func);
     } else {
       self.mut_nodes.push((node, Box::new(func)));
     }  }
-- 
2.43.0


From 3072df0e42a940d81f398e5d5e7552d63347c964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:32 +0000
Subject: [PATCH 12/21] fix: links added or removed by bidirectional
 declarations are checked like any other link change

---
 src/typed_graph.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 6d822fe..8e2feae 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -476,7 +476,7 @@ where
 
     let mut lcr = LinkChangeRecorder::default();
     result.merge_nodes(new_nodes, &mut lcr);
-    result.apply_bidirectional_links(&lcr);
+    result.apply_bidirectional_links(&mut lcr);
     result.check_link_type(&lcr);
     result
   }
@@ -537,7 +537,7 @@ where
       self.remove_node(*n, &mut lcr);
     }
 
-    self.apply_bidirectional_links(&lcr);
+    self.apply_bidirectional_links(&mut lcr);
     lcr
   }
 
@@ -653,8 +653,8 @@ where
     }
   }
 
-  fn apply_bidirectional_links(&mut self, lcr: &LinkChangeRecorder<NodeT>) {
-    for &(x, y, l) in &lcr.removes {
+  fn apply_bidirectional_links(&mut self, lcr: &mut LinkChangeRecorder<NodeT>) {
+    for (x, y, l) in lcr.removes.clone() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -664,11 +664,12 @@ where
       for link in bds {
         if self.nodes.get_mut(y).unwrap().remove_link(link, x) {
           self.remove_back_link(y, x, NodeT::to_source_enum(link));
+          lcr.remove_link(y, x, link);
         }
       }
     }
 
-    for &(x, y, l) in &lcr.adds {
+    for (x, y, l) in lcr.adds.clone() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -687,6 +688,7 @@ where
         let link = bds.first().unwrap();
         if self.nodes.get_mut(y).unwrap().add_link(*link, x) {
           self.add_back_link(y, x, NodeT::to_source_enum(*link));
+          lcr.add_link(y, x, *link);
         }
       }
     }
@@ -766,7 +768,7 @@ where
     let mut lcr = LinkChangeRecorder::default();
     let mut graph = Self::new(ctx);
     graph.merge_nodes(arena, &mut lcr);
-    graph.apply_bidirectional_links(&lcr);
+    graph.apply_bidirectional_links(&mut lcr);
     graph
   }
 }
-- 
2.43.0


From efb99db65ba325e4dde9ea75452a6ae829f5c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:37 +0000
Subject: [PATCH 13/21] fix: node checks cover inserted and modified nodes
 whose links did not change

---
 src/typed_graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 8e2feae..70688b7 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -543,6 +543,7 @@ where
 
   fn merge_nodes(&mut self, nodes: Arena, lcr: &mut LinkChangeRecorder<NodeT>) {
     for (x, n) in nodes.iter() {
+      lcr.nodes.insert(x);
       self.add_back_links(x, n);
       for (y, s) in n.iter_sources() {
         lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
@@ -574,6 +575,7 @@ where
     }
 
     self.nodes.modify_with(x, f);
+    lcr.nodes.insert(x);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().insert((x, s));
@@ -591,6 +593,7 @@ where
     }
 
     self.nodes.update_with(x, f);
+    lcr.nodes.insert(x);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().insert((x, s));
@@ -728,7 +731,7 @@ where
   #[cfg(feature = "debug")]
   fn check_change<'a>(&self, lcr: &LinkChangeRecorder<NodeT>, checks: &'a GraphCheck<NodeT>) -> Vec<&'a str> {
     let mut failed = Vec::new();
-    let mut changed_nodes = OrderSet::new();
+    let mut changed_nodes = lcr.nodes.clone();
     for (x, _, _) in lcr.adds.iter().chain(lcr.removes.iter()) {
       changed_nodes.insert(*x);
     }
@@ -774,6 +777,7 @@ where
 }
 
 struct LinkChangeRecorder<NodeT: NodeEnum> {
+  nodes: OrderSet<NodeIndex>,
   adds: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
   removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
 }
@@ -811,6 +815,7 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
 impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
   fn default() -> Self {
     LinkChangeRecorder {
+      nodes: OrderSet::default(),
       adds: OrderSet::default(),
       removes: OrderSet::default(),
     }
-- 
2.43.0


From 63025afb4aed34d4690e8cf8fbdaaa8c092f2c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:48 +0000
Subject: [PATCH 14/21] fix: bidirectional links are maintained without the
 debug feature, which builds again

---
 src/typed_graph.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 70688b7..28213ed 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -28,7 +28,9 @@ pub use macro_traits::*;
 mod transaction;
 pub use transaction::Transaction;
 
+#[cfg(feature = "debug")]
 pub mod check;
+#[cfg(feature = "debug")]
 use check::*;
 
 pub mod macros;
@@ -718,6 +720,10 @@ where
     }
   }
 
+  #[cfg(not(feature = "debug"))]
+  fn check_link_type(&self, _lcr: &LinkChangeRecorder<NodeT>) {}
+
+  #[cfg(feature = "debug")]
   fn check_link_type(&self, lcr: &LinkChangeRecorder<NodeT>) {
     for (_, y, l) in &lcr.adds {
       if let Some(node) = self.nodes.get(*y) {
@@ -782,7 +788,6 @@ struct LinkChangeRecorder<NodeT: NodeEnum> {
   removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
-  #[cfg(feature = "debug")]
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -794,10 +799,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     }
   }
 
-  #[cfg(not(feature = "debug"))]
-  fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
-
-  #[cfg(feature = "debug")]
   fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -808,9 +809,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
       self.removes.insert((x, y, l));
     }
   }
-
-  #[cfg(not(feature = "debug"))]
-  fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
 }
 impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
   fn default() -> Self {
-- 
2.43.0


From cba8f5329b4c81f4545f20fd39f8527aa0791ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:40 +0000
Subject: [PATCH 15/21] fix: an opposite link reached through two groups counts
 once

---
 src/typed_graph/macro_traits.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph/macro_traits.rs b/src/typed_graph/macro_traits.rs
index 3b526e7..e320297 100644
--- a/src/typed_graph/macro_traits.rs
+++ b/src/typed_graph/macro_traits.rs
@@ -145,7 +145,10 @@ pub trait NodeEnum: Discriminated<Self::Discriminant> {
   /// Returns: Vec<link>, these types of links are the opposite side of the specified link
   /// Returns nothing if the link type does not match the node type
   fn get_bidiretional_link_mirrors_of(&self, link: Self::LinkMirrorEnum) -> Vec<Self::LinkMirrorEnum> {
-    Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect()
+    // A link can be related to the same opposite link through more than one of its groups
+    let mirrors: OrderSet<_> =
+      Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect();
+    mirrors.into_iter().collect()
   }
 
   /// Get the opposite links of the specified link or group
-- 
2.43.0


From eb69820ff3795999377639ab5499157d3f02a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:54 +0000
Subject: [PATCH 16/21] fix: a link type written with a turbofish is a link

---
 ttgraph_macros/src/lib.rs   |  1 +
 ttgraph_macros/src/utils.rs | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index 9dd092c..430c39f 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -205,6 +205,7 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
     let ident = f.ident.clone().unwrap();
     let mut is_link = false;
     if let Type::Path(p) = &f.ty {
+      let p = &plain_path(p);
       if direct_paths.contains(p) {
         links.push(LinkType::Direct(ident.clone(), upper_camel(&ident)));
         is_link = true;
diff --git a/ttgraph_macros/src/utils.rs b/ttgraph_macros/src/utils.rs
index 66d88ea..cfc88f5 100644
--- a/ttgraph_macros/src/utils.rs
+++ b/ttgraph_macros/src/utils.rs
@@ -1,6 +1,6 @@
 use change_case::{pascal_case, self};
 use quote::{format_ident, quote, ToTokens};
-use syn::{Ident, Visibility};
+use syn::{Ident, PathArguments, TypePath, Visibility};
 use proc_macro2::TokenStream;
 
 pub(crate) fn upper_camel(ident: &Ident) -> Ident {
@@ -11,6 +11,17 @@ pub(crate) fn snake_case(ident: &Ident) -> Ident {
   format_ident!("{}", change_case::snake_case(&ident.to_string()), span = ident.span())
 }
 
+/// The same path without the optional `::` before its generic arguments
+pub(crate) fn plain_path(path: &TypePath) -> TypePath {
+  let mut path = path.clone();
+  for seg in path.path.segments.iter_mut() {
+    if let PathArguments::AngleBracketed(args) = &mut seg.arguments {
+      args.colon2_token = None;
+    }
+  }
+  path
+}
+
 pub(crate) fn make_generated_mod(result: &mut TokenStream, generated: TokenStream, ident: &Ident, vis: &Visibility) -> Ident {
   let gen_ident = format_ident!("ttgraph_gen_{}", change_case::snake_case(&ident.to_string()), span=ident.span());
   quote!{
-- 
2.43.0


From a69eadec941b463132135ca7d2a79c0bacccdeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:42 +0000
Subject: [PATCH 17/21] fix: data fields of any type are reachable by name

---
 ttgraph_macros/src/lib.rs        | 5 +++--
 ttgraph_macros/src/typed_node.rs | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index 430c39f..5170f84 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -215,10 +215,11 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
       } else if vec_paths.contains(p) {
         links.push(LinkType::Vec(ident.clone(), upper_camel(&ident)));
         is_link = true;
-      } else {
-        data.push((ident.clone(), p.clone()));
       }
     }
+    if !is_link {
+      data.push((ident.clone(), f.ty.clone()));
+    }
     let mut cur_group: Vec<Ident> = Vec::new();
     for attr in &f.attrs {
       if attr.path().is_ident("group") {
diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index 5f5956b..140635b 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -1,6 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use syn::{Generics, Ident, TypePath};
+use syn::{Generics, Ident, Type};
 
 use std::collections::BTreeMap;
 
@@ -154,7 +154,7 @@ pub(crate) fn make_log_mirror(
 }
 
 pub(crate) fn make_typed_node(
-  links: &[LinkType], data: &[(Ident, TypePath)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
+  links: &[LinkType], data: &[(Ident, Type)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
   name: &Ident, generics: &Generics, gen_mod: &Ident, source_enum: &Ident, link_mirror: &Ident, log_mirror: &Ident,
 ) -> TokenStream {
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
-- 
2.43.0


From 29583529dcbc36e40614591d732d00892e4ebc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:17 +0000
Subject: [PATCH 18/21] fix: fill_back_untyped only fills an index that is
 waiting to be filled

An index of a node in the graph (or the empty index) was accepted, and the
commit then overwrote that node or kept two nodes under one index.
---
 src/typed_graph/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index 52b7082..46d423f 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -157,8 +157,8 @@ where
 
   /// Fill back the data to a [`NodeIndex`] created by [`alloc_untyped`](Transaction::alloc_untyped)
   pub fn fill_back_untyped(&mut self, idx: NodeIndex, data: NodeT) {
+    assert!(self.alloc_nodes.swap_remove(&idx), "Fillback an index {:?} that is not waiting to be filled", idx);
     self.inc_nodes.fill_back_untyped(idx, data);
-    self.alloc_nodes.swap_remove(&idx);
   }
 
   /// Insert a new node into the graph, returns a [`NodeIndex`] pointing to the new node
-- 
2.43.0


From 207280dc9719b215d690b247b4be7915b35e3471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 19/21] fix: count a link held several times by a vector as one
 link when recording changes

Recording a removal twice first cancelled the added link and then recorded
a removal, so the net change of a link held twice was lost and its
bidirectional opposite was not added.
---
 src/typed_graph.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 28213ed..2e1a134 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -786,13 +786,15 @@ struct LinkChangeRecorder<NodeT: NodeEnum> {
   nodes: OrderSet<NodeIndex>,
   adds: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
   removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
+  /// Whether a link existed before its first change. A vector may hold a link several times, so the same change may be recorded repeatedly.
+  existed: OrderMap<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum), bool>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
     }
-    if self.removes.contains(&(x, y, l)) {
+    if *self.existed.entry((x, y, l)).or_insert(false) {
       self.removes.swap_remove(&(x, y, l));
     } else {
       self.adds.insert((x, y, l));
@@ -803,10 +805,10 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     if y.is_empty() {
       return;
     }
-    if self.adds.contains(&(x, y, l)) {
-      self.adds.swap_remove(&(x, y, l));
-    } else {
+    if *self.existed.entry((x, y, l)).or_insert(true) {
       self.removes.insert((x, y, l));
+    } else {
+      self.adds.swap_remove(&(x, y, l));
     }
   }
 }
@@ -816,6 +818,7 @@ impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
       nodes: OrderSet::default(),
       adds: OrderSet::default(),
       removes: OrderSet::default(),
+      existed: OrderMap::default(),
     }
   }
 }
-- 
2.43.0


From 24b9144a87d1cb54696fe107e00b33c177687aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:28 +0000
Subject: [PATCH 20/21] fix: link_type naming an unknown variant is refused
 instead of ignored

---
 ttgraph_macros/src/lib.rs        |  1 +
 ttgraph_macros/src/link_check.rs | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index 5170f84..44c8786 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -119,6 +119,7 @@ pub fn node_enum(macro_input: TokenStream) -> TokenStream {
   }
 
   check_bidirectional_links(&vars, &bidirectional_links, &groups);
+  check_link_types(&vars, &type_annotations, &groups);
   abort_if_dirty();
 
   let mut generated = proc_macro2::TokenStream::new();
diff --git a/ttgraph_macros/src/link_check.rs b/ttgraph_macros/src/link_check.rs
index 8befbdb..ed52c66 100644
--- a/ttgraph_macros/src/link_check.rs
+++ b/ttgraph_macros/src/link_check.rs
@@ -1,6 +1,7 @@
 use std::collections::{BTreeMap, BTreeSet};
 
 use proc_macro2::TokenStream;
+use proc_macro_error::emit_error;
 use quote::quote;
 use syn::parse::{Parse, ParseStream};
 use syn::{self, braced, token, Ident, Token, Type};
@@ -45,6 +46,16 @@ impl Parse for TypeAnnotationVec {
   }
 }
 
+pub(crate) fn check_link_types(vars: &[(Ident, Type)], annotations: &[TypeAnnotation], groups: &[NamedGroup]) {
+  let mut names = BTreeSet::from_iter(vars.iter().map(|(ident, _)| ident.clone()));
+  names.extend(groups.iter().map(|x| x.name.clone()));
+  for a in annotations {
+    if !names.contains(&a.var) {
+      emit_error!(a.var, "Unknown identifier, not a variant of the NodeEnum");
+    }
+  }
+}
+
 fn expand_group(annotations: Vec<TypeAnnotation>, group_map: &BTreeMap<Ident, Vec<Ident>>) -> Vec<TypeAnnotation> {
   let mut result = Vec::new();
   for TypeAnnotation{var, link ,var2} in annotations {
-- 
2.43.0


From 0bb2c58890662be074e302ef6c038dba234f0c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:58 +0000
Subject: [PATCH 21/21] fix: every link_type declaration of a link counts, not
 only one of them

---
 ttgraph_macros/src/link_check.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttgraph_macros/src/link_check.rs b/ttgraph_macros/src/link_check.rs
index ed52c66..13b1a75 100644
--- a/ttgraph_macros/src/link_check.rs
+++ b/ttgraph_macros/src/link_check.rs
@@ -84,7 +84,7 @@ pub(crate) fn make_check_link_type(
   vars: &[(Ident, Type)], annotations: Vec<TypeAnnotation>, groups: &[NamedGroup],
 ) -> TokenStream {
   let mut arms = Vec::new();
-  let mut anno_map: BTreeMap<Ident, BTreeSet<(Ident, Vec<Ident>)>> = BTreeMap::new();
+  let mut anno_map: BTreeMap<Ident, BTreeMap<Ident, Vec<Ident>>> = BTreeMap::new();
   let mut group_map: BTreeMap<Ident, Vec<Ident>> = BTreeMap::new();
   for NamedGroup { name, idents } in groups {
     group_map.insert(name.clone(), idents.clone());
@@ -92,7 +92,7 @@ pub(crate) fn make_check_link_type(
   let annotations = expand_group(annotations, &group_map);
   for TypeAnnotation { var, link, var2 } in annotations {
     let camel = upper_camel(&link);
-    anno_map.entry(var.clone()).or_default().insert((camel, var2));
+    anno_map.entry(var.clone()).or_default().entry(camel).or_default().extend(var2);
   }
   for (var, ty) in vars {
     if let Some(vs) = anno_map.get(var) {
-- 
2.43.0

