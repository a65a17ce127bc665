From 03f12ef3dae15154c9f2dcb332b5823fbaaac516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:35 +0000
Subject: [PATCH 01/22] fix: build without the debug feature, and keep
 bidirectional links there

---
 src/typed_graph.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 44aeeef..db783a6 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -29,6 +29,7 @@ mod transaction;
 pub use transaction::Transaction;
 
 pub mod check;
+#[cfg(feature = "debug")]
 use check::*;
 
 pub mod macros;
@@ -707,6 +708,7 @@ where
     }
   }
 
+  #[cfg(feature = "debug")]
   fn check_link_type(&self, lcr: &LinkChangeRecorder<NodeT>) {
     for (_, y, l) in &lcr.adds {
       if let Some(node) = self.nodes.get(*y) {
@@ -717,6 +719,9 @@ where
     }
   }
 
+  #[cfg(not(feature = "debug"))]
+  fn check_link_type(&self, _lcr: &LinkChangeRecorder<NodeT>) {}
+
   #[cfg(feature = "debug")]
   fn check_change<'a>(&self, lcr: &LinkChangeRecorder<NodeT>, checks: &'a GraphCheck<NodeT>) -> Vec<&'a str> {
     let mut failed = Vec::new();
@@ -766,7 +771,6 @@ struct LinkChangeRecorder<NodeT: NodeEnum> {
   removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
-  #[cfg(feature = "debug")]
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -778,10 +782,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     }
   }
 
-  #[cfg(not(feature = "debug"))]
-  fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
-
-  #[cfg(feature = "debug")]
   fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -792,9 +792,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
       self.removes.insert((x, y, l));
     }
   }
-
-  #[cfg(not(feature = "debug"))]
-  fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
 }
 impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
   fn default() -> Self {
-- 
2.43.0


From 37fd1a728c030de99dd8b8dae173fdc5b82097e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:55 +0000
Subject: [PATCH 02/22] fix: reject a foreign or unfilled transaction in
 release builds too

---
 src/typed_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index db783a6..9eac396 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -514,8 +514,8 @@ where
   pub fn check_backlinks(&self) {}
 
   fn do_commit(&mut self, t: Transaction<NodeT, Arena>) -> LinkChangeRecorder<NodeT> {
-    debug_assert!(t.ctx_id == self.ctx_id, "The transaction and the graph are from different context!");
-    debug_assert!(t.alloc_nodes.is_empty(), "There are unfilled allocated nodes");
+    assert!(t.ctx_id == self.ctx_id, "The transaction and the graph are from different context!");
+    assert!(t.alloc_nodes.is_empty(), "There are unfilled allocated nodes");
 
     let mut lcr = LinkChangeRecorder::default();
 
-- 
2.43.0


From ee42c4131be7518992a1a59c016b6b5ca160ab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:00 +0000
Subject: [PATCH 03/22] fix: give every default Context an identity of its own

---
 src/typed_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 9eac396..c174d10 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -860,7 +860,7 @@ pub type UpdateFunc<'a, T> = Box<dyn FnOnce(T) -> T + 'a>;
 
 /// Context for typed graph
 /// Transactions and graph must have the same context to ensure the correctness of NodeIndex
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct Context {
   id: Uuid,
   node_dist: IdDistributer,
@@ -882,6 +882,12 @@ impl Context {
   }
 }
 
+impl Default for Context {
+  fn default() -> Self {
+    Self::new()
+  }
+}
+
 // /// A trait intended to be used in macros
 // pub trait SourceIterator<T: TypedNode + ?Sized>:
 //   Iterator<Item = (NodeIndex, Self::Source)>
-- 
2.43.0


From 933dde0872b36616e1678f6338bc396959f1be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:05 +0000
Subject: [PATCH 04/22] fix: let mutate and update link to an index that is not
 in the graph yet

---
 src/typed_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index c174d10..699f753 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -571,7 +571,7 @@ where
     f(self.nodes.get_mut(x).unwrap());
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
-      self.back_links.get_mut(&y).unwrap().insert((x, s));
+      self.add_back_link(x, y, s);
       lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
   }
@@ -588,7 +588,7 @@ where
     self.nodes.update_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
-      self.back_links.get_mut(&y).unwrap().insert((x, s));
+      self.add_back_link(x, y, s);
       lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
   }
-- 
2.43.0


From da4567367ad83124ec2c13d3293153fb9f851bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:10 +0000
Subject: [PATCH 05/22] fix: keep every set link when switch_context reuses old
 ids

---
 src/typed_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 699f753..21efe9c 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -457,9 +457,15 @@ where
       id_map.insert(id, new_idx);
     }
 
+    // Old and new ids may overlap, so all the old ids are taken out before any new id is put in
+    for id in id_map.keys() {
+      for (y, s) in &self.back_links[id] {
+        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, NodeIndex::empty());
+      }
+    }
     for (id, new_id) in &id_map {
       for (y, s) in &self.back_links[id] {
-        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, *new_id);
+        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, NodeIndex::empty(), *new_id);
       }
     }
 
-- 
2.43.0


From 85054b045dae29f0b1b822ea5a12828f70d5bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:00 +0000
Subject: [PATCH 06/22] fix: move a node to its new type when mutate or update
 changes its variant

---
 src/cate_arena.rs              | 17 ++++++++++++++---
 src/typed_graph.rs             |  2 +-
 src/typed_graph/transaction.rs |  2 +-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/cate_arena.rs b/src/cate_arena.rs
index 6903018..ff4580d 100644
--- a/src/cate_arena.rs
+++ b/src/cate_arena.rs
@@ -99,9 +99,20 @@ pub trait CateArena: 'static {
   where
     F: FnOnce(Self::V) -> Self::V,
   {
-    let d = self.dispatch(i).expect(&format!("Update a non-existing node {:?}", i));
-    let x = self.get_container_mut(d).swap_remove(&i.0).expect(&format!("Update a non-existing node {:?}", i));
-    self.get_container_mut(d).insert(i.0, f(x));
+    let x = self.remove(i).expect(&format!("Update a non-existing node {:?}", i));
+    // The type of the node may be changed by f
+    self.fill_back_untyped(i, f(x));
+  }
+  fn mutate_with<F>(&mut self, i: NodeIndex, f: F)
+  where
+    F: FnOnce(&mut Self::V),
+  {
+    let x = self.get_mut(i).expect(&format!("Mutate a non-existing node {:?}", i));
+    let d = Discriminated::discriminant(x);
+    f(x);
+    if Discriminated::discriminant(x) != d {
+      self.update_with(i, |x| x);
+    }
   }
 
   // fn iter_cate<'a, T: 'a>(&'a self) -> IterCate<'a, Self::K, Self::V, T>
diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 21efe9c..dbe41c3 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -574,7 +574,7 @@ where
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
 
-    f(self.nodes.get_mut(x).unwrap());
+    self.nodes.mutate_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.add_back_link(x, y, s);
diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index dcaaaca..15919ad 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -276,7 +276,7 @@ where
     F: FnOnce(&mut NodeT) + 'a,
   {
     if self.inc_nodes.contains(node) {
-      func(self.inc_nodes.get_mut(node).unwrap());
+      self.inc_nodes.mutate_with(node, func);
     } else {
       self.mut_nodes.push((node, Box::new(func)));
     }  }
-- 
2.43.0


From 0fe1a6be22ca1734d3396cfc50a814c0e090779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:07 +0000
Subject: [PATCH 07/22] fix: reject a second untyped fill back of another type

---
 ttgraph_macros/src/cate_arena.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ttgraph_macros/src/cate_arena.rs b/ttgraph_macros/src/cate_arena.rs
index 54585d5..92a3e89 100644
--- a/ttgraph_macros/src/cate_arena.rs
+++ b/ttgraph_macros/src/cate_arena.rs
@@ -354,11 +354,12 @@ pub(crate) fn make_cate_arena(
         NodeIndex(self._id_distributer.alloc())
       }
       fn fill_back_untyped(&mut self, i: NodeIndex, item: Self::V) {
-        let d = ttgraph::Discriminated::discriminant(&item);
-        self._dispatcher.insert(i, d);
-        if self.get_container_mut(d).insert(i.0, item).is_some() {
+        if self.contains(i) {
           panic!("Fillback an occupied index {:?}", i);
         }
+        let d = ttgraph::Discriminated::discriminant(&item);
+        self._dispatcher.insert(i, d);
+        self.get_container_mut(d).insert(i.0, item);
       }
       fn remove(&mut self, i: NodeIndex) -> Option<Self::V> {
         let d = self._dispatcher.swap_remove(&i);
-- 
2.43.0


From e48f29d2a2260a7318d27f01337d718925dc7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:14 +0000
Subject: [PATCH 08/22] fix: keep link groups aligned when a field has several
 group attributes

---
 ttgraph_macros/src/lib.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index d769a0c..1b74950 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -218,10 +218,9 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
         data.push((ident.clone(), p.clone()));
       }
     }
-    let mut have_group = false;
+    let mut cur_group = Vec::new();
     for attr in &f.attrs {
       if attr.path().is_ident("group") {
-        let mut cur_group = Vec::new();
         if let Err(err) = attr.parse_nested_meta(|meta| {
           if let Some(ident) = meta.path.get_ident() {
             cur_group.push(ident.clone());
@@ -234,18 +233,15 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
         }
         if !is_link {
           emit_error!(attr, "Can not group a non-link field!");
-        } else {
-          for g in &cur_group {
-            group_map.entry(g.clone()).or_default().push(ident.clone());
-          }
-          groups.push(cur_group);
         }
-        have_group = true;
       }
     }
 
-    if !have_group && is_link {
-      groups.push(Vec::new());
+    if is_link {
+      for g in &cur_group {
+        group_map.entry(g.clone()).or_default().push(ident.clone());
+      }
+      groups.push(cur_group);
     }
   }
   if links.is_empty() {
-- 
2.43.0


From 57299d0cf5aa9992bf9be08ec930fca86102395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:46 +0000
Subject: [PATCH 09/22] fix: make data fields of tuple, array and reference
 types reachable by name

---
 ttgraph_macros/src/lib.rs        | 4 +++-
 ttgraph_macros/src/typed_node.rs | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index 1b74950..bfe3029 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -215,8 +215,10 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
         links.push(LinkType::Vec(ident.clone(), upper_camel(&ident)));
         is_link = true;
       } else {
-        data.push((ident.clone(), p.clone()));
+        data.push((ident.clone(), f.ty.clone()));
       }
+    } else {
+      data.push((ident.clone(), f.ty.clone()));
     }
     let mut cur_group = Vec::new();
     for attr in &f.attrs {
diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index 3311457..aa008e4 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -1,6 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use syn::{Generics, Ident, TypePath};
+use syn::{Generics, Ident, Type};
 
 use std::collections::BTreeMap;
 
@@ -154,7 +154,7 @@ pub(crate) fn make_log_mirror(
 }
 
 pub(crate) fn make_typed_node(
-  links: &[LinkType], data: &[(Ident, TypePath)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
+  links: &[LinkType], data: &[(Ident, Type)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
   name: &Ident, generics: &Generics, gen_mod: &Ident, source_enum: &Ident, link_mirror: &Ident, log_mirror: &Ident,
 ) -> TokenStream {
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
-- 
2.43.0


From 6e59ac17d7f074d9d0d0639c2bdc4859937135a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:53 +0000
Subject: [PATCH 10/22] fix: recognize links spelled with a turbofish or passed
 through a macro

---
 ttgraph_macros/src/lib.rs   |  3 ++-
 ttgraph_macros/src/utils.rs | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index bfe3029..a20cba1 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -204,7 +204,8 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
   for f in &fields.named {
     let ident = f.ident.clone().unwrap();
     let mut is_link = false;
-    if let Type::Path(p) = &f.ty {
+    let ty = strip_type(&f.ty);
+    if let Type::Path(p) = &ty {
       if direct_paths.contains(p) {
         links.push(LinkType::Direct(ident.clone(), upper_camel(&ident)));
         is_link = true;
diff --git a/ttgraph_macros/src/utils.rs b/ttgraph_macros/src/utils.rs
index 66d88ea..6d76168 100644
--- a/ttgraph_macros/src/utils.rs
+++ b/ttgraph_macros/src/utils.rs
@@ -1,6 +1,6 @@
 use change_case::{pascal_case, self};
 use quote::{format_ident, quote, ToTokens};
-use syn::{Ident, Visibility};
+use syn::{Ident, PathArguments, Type, Visibility};
 use proc_macro2::TokenStream;
 
 pub(crate) fn upper_camel(ident: &Ident) -> Ident {
@@ -11,6 +11,24 @@ pub(crate) fn snake_case(ident: &Ident) -> Ident {
   format_ident!("{}", change_case::snake_case(&ident.to_string()), span = ident.span())
 }
 
+/// Normalize the spelling of a type for comparison: `Vec::<T>` is `Vec<T>`, and a type passed through a macro or inside parentheses is itself
+pub(crate) fn strip_type(ty: &Type) -> Type {
+  match ty {
+    Type::Group(g) => strip_type(&g.elem),
+    Type::Paren(p) => strip_type(&p.elem),
+    Type::Path(p) => {
+      let mut p = p.clone();
+      for seg in p.path.segments.iter_mut() {
+        if let PathArguments::AngleBracketed(args) = &mut seg.arguments {
+          args.colon2_token = None;
+        }
+      }
+      Type::Path(p)
+    },
+    other => other.clone(),
+  }
+}
+
 pub(crate) fn make_generated_mod(result: &mut TokenStream, generated: TokenStream, ident: &Ident, vis: &Visibility) -> Ident {
   let gen_ident = format_ident!("ttgraph_gen_{}", change_case::snake_case(&ident.to_string()), span=ident.span());
   quote!{
-- 
2.43.0


From 2c8db32f73e59039a38061be19b2bc95375e7078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:30 +0000
Subject: [PATCH 11/22] fix: count an opposite link declared through several
 groups as one choice

---
 src/typed_graph/macro_traits.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph/macro_traits.rs b/src/typed_graph/macro_traits.rs
index 3b526e7..c68878f 100644
--- a/src/typed_graph/macro_traits.rs
+++ b/src/typed_graph/macro_traits.rs
@@ -145,7 +145,10 @@ pub trait NodeEnum: Discriminated<Self::Discriminant> {
   /// Returns: Vec<link>, these types of links are the opposite side of the specified link
   /// Returns nothing if the link type does not match the node type
   fn get_bidiretional_link_mirrors_of(&self, link: Self::LinkMirrorEnum) -> Vec<Self::LinkMirrorEnum> {
-    Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect()
+    // A link may be reached through several groups, but it is still one choice
+    let mirrors: OrderSet<_> =
+      Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect();
+    mirrors.into_iter().collect()
   }
 
   /// Get the opposite links of the specified link or group
-- 
2.43.0


From dfce945f090d5580822d6b7a26405be973ebb0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:37 +0000
Subject: [PATCH 12/22] fix: do not report empty indexes in sets and groups as
 links

---
 ttgraph_macros/src/group.rs      | 4 ++--
 ttgraph_macros/src/typed_node.rs | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ttgraph_macros/src/group.rs b/ttgraph_macros/src/group.rs
index df0ad7b..3629e1b 100644
--- a/ttgraph_macros/src/group.rs
+++ b/ttgraph_macros/src/group.rs
@@ -52,8 +52,8 @@ pub(crate) fn make_get_links_by_group(links: &[LinkType], groups: &[Vec<Ident>])
         LinkType::Direct(ident, _) => {
           quote! {if !self.#ident.is_empty() {result.push(self.#ident);}}
         },
-        LinkType::Set(ident, _) => quote! {result.extend(self.#ident.clone());},
-        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.clone());},
+        LinkType::Set(ident, _) => quote! {result.extend(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x));},
+        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x));},
         LinkType::Empty => quote! {},
       });
     }
diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index aa008e4..140635b 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -171,7 +171,9 @@ pub(crate) fn make_typed_node(
       }),
       LinkType::Set(ident, camel) => add_source_ops.push(quote! {
         for i in self.#ident.iter() {
-          sources.push((*i, <#name as ttgraph::TypedNode>::Source::#camel));
+          if !i.is_empty() {
+            sources.push((*i, <#name as ttgraph::TypedNode>::Source::#camel));
+          }
         }
       }),
       LinkType::Vec(ident, camel) => add_source_ops.push(quote! {
@@ -193,7 +195,7 @@ pub(crate) fn make_typed_node(
         Self::LinkMirror::#camel => if self.#ident.is_empty() {Box::new([].into_iter())} else {Box::new([self.#ident].into_iter())},
       },
       LinkType::Set(ident, camel) => quote! {
-        Self::LinkMirror::#camel => Box::new(self.#ident.iter().map(|x|*x)),
+        Self::LinkMirror::#camel => Box::new(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x)),
       },
       LinkType::Vec(ident, camel) => quote! {
         Self::LinkMirror::#camel => Box::new(self.#ident.iter().filter(|x|!x.is_empty()).map(|x|*x)),
-- 
2.43.0


From 47db31738fdce2b875ac50b565c5a655b74d8c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:42 +0000
Subject: [PATCH 13/22] fix: do not hand out an index that a deserialized link
 already points to

---
 src/typed_graph/serialize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph/serialize.rs b/src/typed_graph/serialize.rs
index f478c76..7e6802f 100644
--- a/src/typed_graph/serialize.rs
+++ b/src/typed_graph/serialize.rs
@@ -106,7 +106,10 @@ where
 pub fn deserialize_graph<'de, NodeT: NodeEnum + Deserialize<'de>>(
   input: GraphSerializer<NodeT>,
 ) -> (Context, Graph<NodeT>) {
-  let cnt = input.nodes.iter().map(|(idx, _)| idx.0).max().unwrap_or_else(|| 0);
+  // Links may point outside of the graph, new nodes should not take these indexes
+  let nodes = input.nodes.iter().map(|(idx, _)| idx.0);
+  let links = input.nodes.iter().flat_map(|(_, node)| node.iter_sources().map(|(idx, _)| idx.0));
+  let cnt = nodes.chain(links).max().unwrap_or_else(|| 0);
   let ctx = Context::from_id(input.ctx_id, cnt);
   let graph = Graph::do_deserialize(&ctx, input.nodes);
   (ctx, graph)
-- 
2.43.0


From 30a16d50e4c96f302dcf1ddbfde00671defce684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:15 +0000
Subject: [PATCH 14/22] fix: clear the links to an uncommitted node that its
 transaction removes

---
 src/typed_graph.rs             | 9 ++++++++-
 src/typed_graph/transaction.rs | 7 +++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index dbe41c3..d7f8c74 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -537,6 +537,9 @@ where
     for n in &t.dec_nodes {
       self.remove_node(*n, &mut lcr);
     }
+    for n in &t.cancelled_nodes {
+      self.clear_links_to(*n, &mut lcr);
+    }
 
     self.apply_bidirectional_links(&lcr);
     lcr
@@ -559,7 +562,11 @@ where
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
     self.remove_back_links(x, &n);
-    for (y, s) in self.back_links.swap_remove(&x).unwrap() {
+    self.clear_links_to(x, lcr);
+  }
+
+  fn clear_links_to(&mut self, x: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
+    for (y, s) in self.back_links.swap_remove(&x).unwrap_or_default() {
       self.nodes.get_mut(y).unwrap().modify_link(s, x, NodeIndex::empty());
       lcr.remove_link(y, x, NodeT::to_link_mirror_enum(s));
     }
diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index 15919ad..9df62fd 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -18,6 +18,7 @@ where
   alloc_nodes: OrderSet<NodeIndex>,
   inc_nodes: Arena,
   dec_nodes: OrderSet<NodeIndex>,
+  cancelled_nodes: OrderSet<NodeIndex>,
   mut_nodes: Vec<(NodeIndex, MutFunc<'a, NodeT>)>,
   update_nodes: Vec<(NodeIndex, UpdateFunc<'a, NodeT>)>,
   redirect_all_links_vec: Vec<(NodeIndex, NodeIndex)>,
@@ -62,6 +63,7 @@ where
       alloc_nodes: OrderSet::new(),
       inc_nodes: Arena::new(node_dist),
       dec_nodes: OrderSet::new(),
+      cancelled_nodes: OrderSet::new(),
       mut_nodes: Vec::new(),
       update_nodes: Vec::new(),
       redirect_all_links_vec: Vec::new(),
@@ -159,6 +161,7 @@ where
   pub fn fill_back_untyped(&mut self, idx: NodeIndex, data: NodeT) {
     self.inc_nodes.fill_back_untyped(idx, data);
     self.alloc_nodes.swap_remove(&idx);
+    self.cancelled_nodes.swap_remove(&idx);
   }
 
   /// Insert a new node into the graph, returns a [`NodeIndex`] pointing to the new node
@@ -227,6 +230,9 @@ where
   pub fn remove(&mut self, node: NodeIndex) {
     if self.inc_nodes.remove(node).is_none() && !self.alloc_nodes.swap_remove(&node) {
       self.dec_nodes.insert(node);
+    } else {
+      // Other nodes may already link to it
+      self.cancelled_nodes.insert(node);
     }
   }
 
@@ -568,6 +574,7 @@ where
       .field("alloc_nodes", &self.alloc_nodes)
       .field("inc_nodes", &self.inc_nodes)
       .field("dec_nodes", &self.dec_nodes)
+      .field("cancelled_nodes", &self.cancelled_nodes)
       .field("mut_nodes", &Vec::from_iter(self.mut_nodes.iter().map(|(x, _)| *x)))
       .field("update_nodes", &Vec::from_iter(self.update_nodes.iter().map(|(x, _)| *x)))
       .field("redirect_all_links", &self.redirect_all_links_vec)
-- 
2.43.0


From 6be4b39940c431e7fd8547a0d121d3a5e5a6cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:47 +0000
Subject: [PATCH 15/22] fix: include the links added by bidirectional
 declarations in the commit checks

---
 src/typed_graph.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index d7f8c74..cc25783 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -477,7 +477,7 @@ where
 
     let mut lcr = LinkChangeRecorder::default();
     result.merge_nodes(new_nodes, &mut lcr);
-    result.apply_bidirectional_links(&lcr);
+    result.apply_bidirectional_links(&mut lcr);
     result.check_link_type(&lcr);
     result
   }
@@ -541,7 +541,7 @@ where
       self.clear_links_to(*n, &mut lcr);
     }
 
-    self.apply_bidirectional_links(&lcr);
+    self.apply_bidirectional_links(&mut lcr);
     lcr
   }
 
@@ -661,8 +661,8 @@ where
     }
   }
 
-  fn apply_bidirectional_links(&mut self, lcr: &LinkChangeRecorder<NodeT>) {
-    for &(x, y, l) in &lcr.removes {
+  fn apply_bidirectional_links(&mut self, lcr: &mut LinkChangeRecorder<NodeT>) {
+    for (x, y, l) in lcr.removes.clone() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -672,11 +672,12 @@ where
       for link in bds {
         if self.nodes.get_mut(y).unwrap().remove_link(link, x) {
           self.remove_back_link(y, x, NodeT::to_source_enum(link));
+          lcr.remove_link(y, x, link);
         }
       }
     }
 
-    for &(x, y, l) in &lcr.adds {
+    for (x, y, l) in lcr.adds.clone() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -695,6 +696,7 @@ where
         let link = bds.first().unwrap();
         if self.nodes.get_mut(y).unwrap().add_link(*link, x) {
           self.add_back_link(y, x, NodeT::to_source_enum(*link));
+          lcr.add_link(y, x, *link);
         }
       }
     }
@@ -774,7 +776,7 @@ where
     let mut lcr = LinkChangeRecorder::default();
     let mut graph = Self::new(ctx);
     graph.merge_nodes(arena, &mut lcr);
-    graph.apply_bidirectional_links(&lcr);
+    graph.apply_bidirectional_links(&mut lcr);
     graph
   }
 }
-- 
2.43.0


From 13b0a7c0409a1113a5515be69f799f9914c39761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:52 +0000
Subject: [PATCH 16/22] fix: run commit checks on every changed node and on
 removed links

---
 src/typed_graph.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index cc25783..319f1f2 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -548,6 +548,7 @@ where
   fn merge_nodes(&mut self, nodes: Arena, lcr: &mut LinkChangeRecorder<NodeT>) {
     for (x, n) in nodes.iter() {
       self.add_back_links(x, n);
+      lcr.changed.insert(x);
       for (y, s) in n.iter_sources() {
         lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
       }
@@ -576,6 +577,7 @@ where
   where
     F: FnOnce(&mut NodeT),
   {
+    lcr.changed.insert(x);
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().swap_remove(&(x, s));
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
@@ -593,6 +595,7 @@ where
   where
     F: FnOnce(NodeT) -> NodeT,
   {
+    lcr.changed.insert(x);
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().swap_remove(&(x, s));
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
@@ -740,10 +743,12 @@ where
   #[cfg(feature = "debug")]
   fn check_change<'a>(&self, lcr: &LinkChangeRecorder<NodeT>, checks: &'a GraphCheck<NodeT>) -> Vec<&'a str> {
     let mut failed = Vec::new();
-    let mut changed_nodes = OrderSet::new();
+    let mut changed_nodes = lcr.changed.clone();
     for (x, _, _) in lcr.adds.iter().chain(lcr.removes.iter()) {
       changed_nodes.insert(*x);
     }
+    // Changed nodes may have been removed in the end
+    changed_nodes.retain(|x| self.nodes.contains(*x));
     for (name, check_func) in &checks.node_checks {
       for x in &changed_nodes {
         if check_func(*x, self.get(*x).unwrap()).is_err() {
@@ -761,8 +766,9 @@ where
       }
     }
     for (name, check_func) in &checks.link_remove_checks {
-      for (x, y, _) in &lcr.adds {
-        if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
+      for (x, y, _) in &lcr.removes {
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, *y, node, self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
         }
@@ -782,6 +788,7 @@ where
 }
 
 struct LinkChangeRecorder<NodeT: NodeEnum> {
+  changed: OrderSet<NodeIndex>,
   adds: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
   removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
 }
@@ -811,6 +818,7 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
 impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
   fn default() -> Self {
     LinkChangeRecorder {
+      changed: OrderSet::default(),
       adds: OrderSet::default(),
       removes: OrderSet::default(),
     }
-- 
2.43.0


From 31b1ea75c5e45a05be2ba0f02c269d5b8c382b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:41 +0000
Subject: [PATCH 17/22] fix: do not report repeated vector links as changed by
 a commit

---
 src/typed_graph.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 319f1f2..28bb9b8 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -665,7 +665,7 @@ where
   }
 
   fn apply_bidirectional_links(&mut self, lcr: &mut LinkChangeRecorder<NodeT>) {
-    for (x, y, l) in lcr.removes.clone() {
+    for ((x, y, l), _) in lcr.removes.clone() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -680,7 +680,7 @@ where
       }
     }
 
-    for (x, y, l) in lcr.adds.clone() {
+    for ((x, y, l), _) in lcr.adds.clone() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -728,7 +728,7 @@ where
 
   #[cfg(feature = "debug")]
   fn check_link_type(&self, lcr: &LinkChangeRecorder<NodeT>) {
-    for (_, y, l) in &lcr.adds {
+    for (_, y, l) in lcr.adds.keys() {
       if let Some(node) = self.nodes.get(*y) {
         if let Result::Err(err) = NodeT::check_link_type(node.discriminant(), *l) {
           panic!("Link type check failed! Link {:?} expect {:?}, found {:?}", err.link, err.expect, err.found);
@@ -744,7 +744,7 @@ where
   fn check_change<'a>(&self, lcr: &LinkChangeRecorder<NodeT>, checks: &'a GraphCheck<NodeT>) -> Vec<&'a str> {
     let mut failed = Vec::new();
     let mut changed_nodes = lcr.changed.clone();
-    for (x, _, _) in lcr.adds.iter().chain(lcr.removes.iter()) {
+    for (x, _, _) in lcr.adds.keys().chain(lcr.removes.keys()) {
       changed_nodes.insert(*x);
     }
     // Changed nodes may have been removed in the end
@@ -758,7 +758,7 @@ where
       }
     }
     for (name, check_func) in &checks.link_add_checks {
-      for (x, y, _) in &lcr.adds {
+      for (x, y, _) in lcr.adds.keys() {
         if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
@@ -766,7 +766,7 @@ where
       }
     }
     for (name, check_func) in &checks.link_remove_checks {
-      for (x, y, _) in &lcr.removes {
+      for (x, y, _) in lcr.removes.keys() {
         let Some(node) = self.get(*x) else { continue };
         if check_func(*x, *y, node, self.get(*y)).is_err() {
           failed.push(name.as_str());
@@ -789,18 +789,22 @@ where
 
 struct LinkChangeRecorder<NodeT: NodeEnum> {
   changed: OrderSet<NodeIndex>,
-  adds: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
-  removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
+  // A vector may hold the same link several times, so the links are counted
+  adds: OrderMap<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum), usize>,
+  removes: OrderMap<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum), usize>,
 }
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
     }
-    if self.removes.contains(&(x, y, l)) {
-      self.removes.swap_remove(&(x, y, l));
+    if let Some(count) = self.removes.get_mut(&(x, y, l)) {
+      *count -= 1;
+      if *count == 0 {
+        self.removes.swap_remove(&(x, y, l));
+      }
     } else {
-      self.adds.insert((x, y, l));
+      *self.adds.entry((x, y, l)).or_insert(0) += 1;
     }
   }
 
@@ -808,10 +812,13 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     if y.is_empty() {
       return;
     }
-    if self.adds.contains(&(x, y, l)) {
-      self.adds.swap_remove(&(x, y, l));
+    if let Some(count) = self.adds.get_mut(&(x, y, l)) {
+      *count -= 1;
+      if *count == 0 {
+        self.adds.swap_remove(&(x, y, l));
+      }
     } else {
-      self.removes.insert((x, y, l));
+      *self.removes.entry((x, y, l)).or_insert(0) += 1;
     }
   }
 }
@@ -819,8 +826,8 @@ impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
   fn default() -> Self {
     LinkChangeRecorder {
       changed: OrderSet::default(),
-      adds: OrderSet::default(),
-      removes: OrderSet::default(),
+      adds: OrderMap::default(),
+      removes: OrderMap::default(),
     }
   }
 }
-- 
2.43.0


From fa719e3378bf7077aff1e4d14d6a0f022759a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:06 +0000
Subject: [PATCH 18/22] fix: enforce every link type declared for a link

---
 ttgraph_macros/src/link_check.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/ttgraph_macros/src/link_check.rs b/ttgraph_macros/src/link_check.rs
index 8befbdb..acab2e6 100644
--- a/ttgraph_macros/src/link_check.rs
+++ b/ttgraph_macros/src/link_check.rs
@@ -73,7 +73,7 @@ pub(crate) fn make_check_link_type(
   vars: &[(Ident, Type)], annotations: Vec<TypeAnnotation>, groups: &[NamedGroup],
 ) -> TokenStream {
   let mut arms = Vec::new();
-  let mut anno_map: BTreeMap<Ident, BTreeSet<(Ident, Vec<Ident>)>> = BTreeMap::new();
+  let mut anno_map: BTreeMap<Ident, BTreeMap<Ident, BTreeSet<Vec<Ident>>>> = BTreeMap::new();
   let mut group_map: BTreeMap<Ident, Vec<Ident>> = BTreeMap::new();
   for NamedGroup { name, idents } in groups {
     group_map.insert(name.clone(), idents.clone());
@@ -81,27 +81,29 @@ pub(crate) fn make_check_link_type(
   let annotations = expand_group(annotations, &group_map);
   for TypeAnnotation { var, link, var2 } in annotations {
     let camel = upper_camel(&link);
-    anno_map.entry(var.clone()).or_default().insert((camel, var2));
+    anno_map.entry(var.clone()).or_default().entry(camel).or_default().insert(var2);
   }
   for (var, ty) in vars {
     if let Some(vs) = anno_map.get(var) {
       let mut link_arms = Vec::new();
-      for (link, var2) in vs {
-        let mut var2_arms = Vec::new();
-        let mut expect = Vec::new();
-        for v2 in var2 {
-          var2_arms.push(quote! {Self::Discriminant::#v2});
-          expect.push(quote! {Self::Discriminant::#v2});
+      for (link, var2s) in vs {
+        let mut checks = Vec::new();
+        for var2 in var2s {
+          checks.push(quote! {
+            if !matches!(target, #(Self::Discriminant::#var2)|*) {
+              return Err(ttgraph::LinkTypeError{
+                link,
+                expect: &[#(Self::Discriminant::#var2),*],
+                found: target,
+              });
+            }
+          });
         }
 
         link_arms.push(quote! {
-          <#ty as TypedNode>::LoGMirror::#link => match target {
-            #(#var2_arms)|* => Ok(()),
-            other => Err(ttgraph::LinkTypeError{
-              link,
-              expect: &[#(#expect),*],
-              found: other,
-            }),
+          <#ty as TypedNode>::LoGMirror::#link => {
+            #(#checks)*
+            Ok(())
           },
         })
       }
-- 
2.43.0


From 3c42facaed69e5ac67f4eede8c736eb4f5d1127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:21 +0000
Subject: [PATCH 19/22] fix: reject an untyped fill back of an index that is
 not allocated

---
 src/typed_graph/transaction.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index 9df62fd..c7331c4 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -159,9 +159,10 @@ where
 
   /// Fill back the data to a [`NodeIndex`] created by [`alloc_untyped`](Transaction::alloc_untyped)
   pub fn fill_back_untyped(&mut self, idx: NodeIndex, data: NodeT) {
+    // Without a type, the arena cannot tell an allocated index from any other
+    assert!(self.alloc_nodes.contains(&idx), "Fillback an index that is not allocated {:?}", idx);
     self.inc_nodes.fill_back_untyped(idx, data);
     self.alloc_nodes.swap_remove(&idx);
-    self.cancelled_nodes.swap_remove(&idx);
   }
 
   /// Insert a new node into the graph, returns a [`NodeIndex`] pointing to the new node
-- 
2.43.0


From 06308318e76b771e44f3c10010319208021ceaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:39 +0000
Subject: [PATCH 20/22] fix: let a redirect of an absent node that nothing
 links to do nothing

---
 src/typed_graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 28bb9b8..a5feda4 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -610,7 +610,8 @@ where
   }
 
   fn redirect_links(&mut self, old_node: NodeIndex, new_node: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
-    let old_link = self.back_links.swap_remove(&old_node).unwrap();
+    // A node that is not in the graph may never have been linked to
+    let old_link = self.back_links.swap_remove(&old_node).unwrap_or_default();
     self.back_links.insert(old_node, OrderSet::new());
 
     let new_link = self.back_links.entry(new_node).or_default();
-- 
2.43.0


From 993a59ace3e1bbbb0c2b6280a3ddde59ea5fd84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:39 +0000
Subject: [PATCH 21/22] fix: reject link type declarations of unknown variants

link_type! silently ignored a declaration whose source is neither a variant
nor a group of the enum (a misspelled name, say), so that it was never enforced.
---
 ttgraph_macros/src/lib.rs        | 1 +
 ttgraph_macros/src/link_check.rs | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index a20cba1..8676f71 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -119,6 +119,7 @@ pub fn node_enum(macro_input: TokenStream) -> TokenStream {
   }
 
   check_bidirectional_links(&vars, &bidirectional_links, &groups);
+  check_type_annotations(&vars, &type_annotations, &groups);
   abort_if_dirty();
 
   let mut generated = proc_macro2::TokenStream::new();
diff --git a/ttgraph_macros/src/link_check.rs b/ttgraph_macros/src/link_check.rs
index acab2e6..ef829e7 100644
--- a/ttgraph_macros/src/link_check.rs
+++ b/ttgraph_macros/src/link_check.rs
@@ -1,6 +1,7 @@
 use std::collections::{BTreeMap, BTreeSet};
 
 use proc_macro2::TokenStream;
+use proc_macro_error::emit_error;
 use quote::quote;
 use syn::parse::{Parse, ParseStream};
 use syn::{self, braced, token, Ident, Token, Type};
@@ -69,6 +70,14 @@ fn expand_group(annotations: Vec<TypeAnnotation>, group_map: &BTreeMap<Ident, Ve
   result
 }
 
+pub(crate) fn check_type_annotations(vars: &[(Ident, Type)], annotations: &[TypeAnnotation], groups: &[NamedGroup]) {
+  for TypeAnnotation { var, .. } in annotations {
+    if !vars.iter().any(|(ident, _)| ident == var) && !groups.iter().any(|g| &g.name == var) {
+      emit_error!(var, "Unknown identifier, not a variant or group of the NodeEnum");
+    }
+  }
+}
+
 pub(crate) fn make_check_link_type(
   vars: &[(Ident, Type)], annotations: Vec<TypeAnnotation>, groups: &[NamedGroup],
 ) -> TokenStream {
-- 
2.43.0


From b740ca905b995446e4f595ed31b7ccab9749c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 22/22] fix: accept node variants whose snake case name is a
 keyword

A variant named Type, Match or Loop made node_enum! generate fields named
type, match or loop, which do not compile.
---
 ttgraph_macros/src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttgraph_macros/src/utils.rs b/ttgraph_macros/src/utils.rs
index 6d76168..7a0770d 100644
--- a/ttgraph_macros/src/utils.rs
+++ b/ttgraph_macros/src/utils.rs
@@ -7,8 +7,9 @@ pub(crate) fn upper_camel(ident: &Ident) -> Ident {
   format_ident!("{}", pascal_case(&ident.to_string()), span = ident.span())
 }
 
+/// Field name for a variant. It is prefixed, as the snake case form of a variant may be a keyword
 pub(crate) fn snake_case(ident: &Ident) -> Ident {
-  format_ident!("{}", change_case::snake_case(&ident.to_string()), span = ident.span())
+  format_ident!("node_{}", change_case::snake_case(&ident.to_string()), span = ident.span())
 }
 
 /// Normalize the spelling of a type for comparison: `Vec::<T>` is `Vec<T>`, and a type passed through a macro or inside parentheses is itself
-- 
2.43.0

