From 38c85243a3a1734906bff8e53419c7570d6ba4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 01/17] fix: PagedFileStore::sync makes the written data
 durable

sync was a no-op, so a power failure after a successful sync could lose
any blob written before it.
---
 src/store/paged_file_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 74cf1a9..ddbf787 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -284,6 +284,7 @@ impl BlobStore for PagedFileStore {
     }
 
     fn sync(&self) -> anyhow::Result<()> {
+        self.0.lock().file.sync_all()?;
         Ok(())
     }
 }
-- 
2.43.0


From b758a51065fac1c32bd64b30c43d919a837f1281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 02/17] fix: closing a page must not commit a size that is not
 a blob id

After a crash between the commit of the padding and the commit of the
blob, last_id named the page boundary, where there is no blob.
---
 src/store/paged_file_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index ddbf787..2c6f94a 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -175,8 +175,9 @@ impl Inner {
     fn close_page(&mut self, current_page: u64) -> anyhow::Result<()> {
         // println!("close_page page={} offset={}", current_page, self.file.stream_position()?);
         let start = offset_of_page(current_page, self.page_size);
+        // the padding is not a blob, so it must not become the committed size. The append
+        // that follows commits it together with its data.
         self.pad_to(start + (self.page_size as u64))?;
-        self.commit()?;
         self.load_page(current_page)?;
         self.recent
             .retain(|offset, _| page(*offset, self.page_size) != current_page);
-- 
2.43.0


From d675ad3ad054c28943c568b9329bfcd4a9a49e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 03/17] fix: scan_prefix must not repeat the prefix of the node
 it finds

---
 src/node/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index e5cfeb0..ce54b5c 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1994,7 +1994,8 @@ fn scan_prefix<S: BlobStore + Clone>(
     find(&store, tree, prefix, |r| {
         Ok(match r {
             FindResult::Found(tree) => {
-                let prefix = IterKey::new(prefix);
+                let tree_prefix_len = tree.load_prefix(&store)?.len();
+                let prefix = IterKey::new(&prefix[..prefix.len() - tree_prefix_len]);
                 let tree: TreeNode<S> = tree.to_owned();
                 KeyValueIter::new(TreeNodeIter::from_arc(Arc::new(vec![tree])), store1, prefix)
             }
-- 
2.43.0


From 72c5cb11639ceef3e0a54bbd7c4a25ee84c75970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:30 +0000
Subject: [PATCH 04/17] fix: detach values that are stored out of line

---
 src/node/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index ce54b5c..7da32ec 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -478,14 +478,19 @@ impl<'a, S: BlobStore> ValueRef<'a, S> {
         }
     }
 
-    fn detached(&self, _store: &S) -> Result<Value, S::Error>
+    fn detached(&self, store: &S) -> Result<Value, S::Error>
     where
         S: BlobStore,
     {
         if !self.is_id() {
             Ok(unsafe { std::mem::transmute(self.to_owned()) })
         } else {
-            todo!()
+            let data = store.read(self.slice())?;
+            Ok(Value {
+                hdr: Header::data(data.len()),
+                data: CompactOwnedBlob::copy_from_slice(&data),
+                p: PhantomData,
+            })
         }
     }
 
-- 
2.43.0


From 3168f36a9be0765d97c40be217cfb3a1afecc4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 05/17] fix: shorten, own and detach nodes that are borrowed
 from a store

---
 src/node/mod.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 7da32ec..26a5e89 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1428,7 +1428,7 @@ impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
     fn clone_shortened(&self, store: &S, n: usize) -> Result<TreeNode<S>, S::Error> {
         match self.dispatch() {
             Ok(owned) => owned.clone_shortened(store, n),
-            Err(_borrowed) => todo!(),
+            Err(borrowed) => borrowed.to_owned().clone_shortened(store, n),
         }
     }
 }
@@ -1861,16 +1861,28 @@ impl<S: BlobStore> BorrowedTreeNodeIter<S> {
     }
 
     #[allow(clippy::wrong_self_convention)]
-    fn to_owned(self) -> Option<Arc<Vec<TreeNode<S>>>> {
+    fn to_owned(mut self) -> Option<Arc<Vec<TreeNode<S>>>> {
         if self.is_empty() {
             None
         } else {
-            todo!()
+            let mut res = Vec::new();
+            while let Some(x) = self.next() {
+                res.push(x.to_owned());
+            }
+            Some(Arc::new(res))
         }
     }
 
-    fn detached(self, _store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
-        Ok(if self.is_empty() { None } else { todo!() })
+    fn detached(mut self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
+        Ok(if self.is_empty() {
+            None
+        } else {
+            let mut res = Vec::new();
+            while let Some(x) = self.next() {
+                res.push(x.detached(store)?);
+            }
+            Some(Arc::new(res))
+        })
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From ca7699eb41f0aea56d37c54bc86c6d81fc8a70f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 06/17] fix: merging a node with its only child must load
 prefixes stored out of line

---
 src/node/mod.rs | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 26a5e89..b59cade 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -895,18 +895,16 @@ impl<S: BlobStore> TreeNode<S> {
         Ok(())
     }
 
-    fn canonicalize(&mut self) {
-        debug_assert!(self.children_hdr.is_data() || self.children_hdr.is_none());
+    fn canonicalize(&mut self, store: &S) -> Result<(), S::Error> {
         let cc = self.child_count();
         if !self.has_value() && cc == 1 {
+            // load both prefixes before changing anything
+            let mut prefix = self.load_prefix(store)?.to_vec();
             let children = self.get_children_mut().expect("children must be loaded");
             let children = Arc::make_mut(children);
+            prefix.extend_from_slice(&children[0].load_prefix(store)?);
             let mut child = children.pop().unwrap();
-            debug_assert!(!self.prefix_ref().is_id(), "prefix must be loaded");
-            debug_assert!(!child.prefix_ref().is_id(), "child prefix must be loaded");
             // combine the prefix again
-            let mut prefix = self.prefix_ref().slice().to_vec();
-            prefix.extend_from_slice(child.prefix_ref().slice());
             self.set_prefix_slice(&prefix);
             // take value from child
             std::mem::swap(&mut self.value_hdr, &mut child.value_hdr);
@@ -920,6 +918,7 @@ impl<S: BlobStore> TreeNode<S> {
             self.children_hdr = Header::NONE;
             self.children = ChildrenRef::EMPTY;
         }
+        Ok(())
     }
 
     fn load_prefix(&self, store: &S) -> Result<Blob<'_>, S::Error> {
@@ -2091,7 +2090,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2151,6 +2150,7 @@ where
     A::Error: From<B::Error>,
     F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2185,8 +2185,7 @@ where
         ac.push(c.convert_node_shortened(b, &bb, n)?);
         ac.sort_by_key(|x| x.first_prefix_byte());
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn outer_combine_children_with<'a, A, B, C, F>(
@@ -2297,7 +2296,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2428,6 +2427,7 @@ where
     A::Error: From<B::Error>,
     F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2458,8 +2458,7 @@ where
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn inner_combine_children_with<'a, A, B, C, F>(
@@ -2563,7 +2562,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2705,6 +2704,7 @@ where
     A::Error: From<B::Error>,
     F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2733,8 +2733,7 @@ where
     } else {
         // the two nodes are disjoint
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn left_combine_children_with<'a, A, B, C, F>(
@@ -2799,6 +2798,7 @@ where
     F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
     A::Error: From<B::Error>,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2832,8 +2832,7 @@ where
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn retain_prefix_children_with<'a, A, B, F>(
@@ -2898,6 +2897,7 @@ where
     F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
     A::Error: From<B::Error>,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2934,8 +2934,7 @@ where
     } else {
         // disjoint, nothing to do
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn remove_prefix_children_with<'a, A, B, F>(
-- 
2.43.0


From 69f7a4926177d0f9f7cbd404a639549fc3cc543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:06 +0000
Subject: [PATCH 07/17] fix: a node that lost its last child must be a leaf and
 release the children

---
 src/node/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index b59cade..1b8227b 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -913,10 +913,12 @@ impl<S: BlobStore> TreeNode<S> {
             std::mem::swap(&mut self.children_hdr, &mut child.children_hdr);
             std::mem::swap(&mut self.children, &mut child.children);
         }
-        if !self.has_value() && self.child_count() == 0 {
-            self.set_prefix_owned(OwnedBlobRef::EMPTY);
-            self.children_hdr = Header::NONE;
-            self.children = ChildrenRef::EMPTY;
+        if self.child_count() == 0 {
+            if !self.has_value() {
+                self.set_prefix_owned(OwnedBlobRef::EMPTY);
+            }
+            // releases a children vec that has become empty
+            self.set_children_id(&[]);
         }
         Ok(())
     }
-- 
2.43.0


From e3a86dcdf151f945185ffa78d9eb271a8144e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 08/17] fix: an empty value and no value are not equal

---
 src/node/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 1b8227b..7faeec1 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -674,6 +674,7 @@ pub struct TreeNode<S> {
 impl PartialEq for TreeNode<Detached> {
     fn eq(&self, other: &Self) -> bool {
         self.prefix_ref().slice() == other.prefix_ref().slice()
+            && self.has_value() == other.has_value()
             && self.value_ref().slice() == other.value_ref().slice()
             && self.get_children() == other.get_children()
     }
-- 
2.43.0


From 45318981992c1f505f77c45cd2615a6c45493252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 09/17] fix: retain_prefix_with must look below a key its
 predicate rejects

---
 src/node/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 7faeec1..9f5baf3 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -2815,14 +2815,11 @@ where
         }
     } else if n == bp.len() {
         // that is a prefix of self
-        if b.value_opt().is_none() {
+        if b.value_opt().is_none() || !f(&b.value_opt().unwrap())? {
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
             retain_prefix_children_with(ac, ab, bc, bb, f)?;
-        } else if !f(&b.value_opt().unwrap())? {
-            a.set_value_slice(None);
-            a.set_children_arc_opt(None);
         }
     } else if n == ap.len() {
         // self is a prefix of that
-- 
2.43.0


From 7db4023526cdb3f53658872b6109acae7473b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 10/17] fix: a failed in-place update must leave the tree as it
 was

---
 src/node/mod.rs | 106 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 68 insertions(+), 38 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 9f5baf3..1cadfc7 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -3526,6 +3526,21 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         self.node.has_prefix(prefix.as_ref(), &self.store)
     }
 
+    /// Apply an in-place update in such a way that a failed update leaves the tree as it was
+    fn try_update(
+        &mut self,
+        f: impl FnOnce(&mut TreeNode<S>) -> Result<(), S::Error>,
+    ) -> Result<(), S::Error> {
+        if is_no_store::<S>() {
+            // this can not fail, so there is no need to preserve the original
+            return f(&mut self.node);
+        }
+        let mut node = self.node.clone();
+        f(&mut node)?;
+        self.node = node;
+        Ok(())
+    }
+
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
     fn try_remove_prefix(&mut self, prefix: impl AsRef<[u8]>) -> Result<(), S::Error> {
         self.try_remove_prefix_with(&RadixTree::single(prefix, &[]), |_| Ok(true))
@@ -3632,14 +3647,17 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        outer_combine_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            c,
-            f,
-        )
+        let store = self.store.clone();
+        self.try_update(|node| {
+            outer_combine_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                c,
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3674,14 +3692,17 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        inner_combine_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            c,
-            f,
-        )
+        let store = self.store.clone();
+        self.try_update(|node| {
+            inner_combine_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                c,
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3748,14 +3769,17 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        left_combine_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            c,
-            f,
-        )
+        let store = self.store.clone();
+        self.try_update(|node| {
+            left_combine_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                c,
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3765,13 +3789,16 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&ValueRef<S2>) -> Result<bool, S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        retain_prefix_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            f,
-        )
+        let store = self.store.clone();
+        self.try_update(|node| {
+            retain_prefix_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3781,13 +3808,16 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&ValueRef<S2>) -> Result<bool, S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        remove_prefix_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            f,
-        )
+        let store = self.store.clone();
+        self.try_update(|node| {
+            remove_prefix_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
-- 
2.43.0


From b530087cf0e4e25d4a627c299b2f48a9a838932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 11/17] fix: the empty tree has no key with the empty prefix

---
 src/node/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 1cadfc7..e0aed51 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -824,7 +824,8 @@ impl<S: BlobStore> TreeNode<S> {
         // if we find a tree at exactly the location, and it has a value, we have a hit
         find(store, &TreeNodeRef(Ok(self)), prefix, |r| {
             Ok(match r {
-                FindResult::Found(_) => true,
+                // the root of an empty tree is found for the empty prefix
+                FindResult::Found(_) => !self.is_empty(),
                 FindResult::Prefix { .. } => true,
                 FindResult::NotFound => false,
             })
-- 
2.43.0


From ca9dc831f360ef5bc9214c314b1f75dd4ab22ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 12/17] fix: filter_prefix must not give the empty tree a
 prefix

---
 src/node/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index e0aed51..a13b45b 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1503,7 +1503,10 @@ fn filter_prefix<S: BlobStore>(
         Ok(match x {
             FindResult::Found(res) => {
                 let mut res = res.to_owned();
-                res.set_prefix_slice(substitution);
+                // the empty tree has no prefix
+                if !res.is_empty() {
+                    res.set_prefix_slice(substitution);
+                }
                 res
             }
             FindResult::Prefix { tree, matching } => {
-- 
2.43.0


From 7886bcc11f2527e710618121bdf583a7eaea4878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:50 +0000
Subject: [PATCH 13/17] fix: PagingFile refuses items that do not fit into a
 page

An item of more than page_size - 4 bytes ran past the end of its page and
panicked; one of exactly page_size - 4 bytes moved the file length into the next page
without writing the page out, so that it could not be read back.
---
 browser/src/paging_file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/browser/src/paging_file.rs b/browser/src/paging_file.rs
index 176241e..2e5deab 100644
--- a/browser/src/paging_file.rs
+++ b/browser/src/paging_file.rs
@@ -79,7 +79,8 @@ impl PagingFileInner {
 
     fn append(&mut self, data: &[u8]) -> anyhow::Result<u64> {
         let len = u64::try_from(data.len())?;
-        anyhow::ensure!(len <= self.page_size, "item too large");
+        // in an empty page, the item starts at offset 4. It must not fill the page completely.
+        anyhow::ensure!(len + 4 < self.page_size, "item too large");
         if len + 8 > self.remaining() {
             self.close_page()?;
         }
-- 
2.43.0


From c09351258088ed1b1b94530842dbc5b785a62ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:06 +0000
Subject: [PATCH 14/17] fix: the end of a web cache file is the largest end of
 its chunks

The chunks are sorted by level, then offset. After an overwrite in the middle of a
file, the last chunk in that order is not the one at the end of the file, so the file
appeared shortened, reads beyond that were refused, and appends overwrote data. A
PagingFile lost synced data in this way when it was opened again.
---
 browser/src/web_cache_fs.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index a7997a2..6790412 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -319,7 +319,12 @@ impl WebCacheFile {
     }
 
     fn prev(&self) -> ChunkMeta {
-        self.chunks.iter().last().cloned().unwrap_or_default()
+        // the chunks are sorted by level, so the last one is not necessarily at the end of the file
+        self.chunks
+            .iter()
+            .max_by_key(|x| x.range().end)
+            .cloned()
+            .unwrap_or_default()
     }
 
     pub(crate) async fn flush(&mut self) -> anyhow::Result<()> {
-- 
2.43.0


From 1556eab8c8aeb58dc562a6144b1eaa2ce146a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:25 +0000
Subject: [PATCH 15/17] fix: find the chunks of web cache files whose name
 needs percent-encoding

The path of a request is percent-encoded, but was compared with the plain file name, so
a file called e.g. "a b" was empty when it was opened again.
---
 browser/src/web_cache_fs.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 6790412..6bb154c 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -625,9 +625,10 @@ impl ChunkMeta {
         // info!("parse_and_filter {}", request);
         let url = Url::parse(request)?;
         if let Some(query) = url.query() {
-            let name = url.path().strip_prefix('/').unwrap();
-            // info!("parse_and_filter name {} file_name {}  query {}", name, file_name, query);
-            if name != file_name {
+            // the path of the url is percent-encoded, so compare it with the path of a request for the file
+            let file_url = url.join(&format!("/{}", file_name))?;
+            // info!("parse_and_filter url {} file_url {}  query {}", url, file_url, query);
+            if url.path() != file_url.path() {
                 // not ours
                 Ok(None)
             } else {
-- 
2.43.0


From f3741498dade8f89aae664a0a04c0362612db130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:47 +0000
Subject: [PATCH 16/17] fix: reading a record beyond the end of a web cache
 file is an error

It panicked, which ended the task that serves all files.
---
 browser/src/web_cache_fs.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 6bb154c..03a272d 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -373,6 +373,7 @@ impl WebCacheFile {
         let chunks = intersecting_chunks(&self.chunks, start..start + 4).collect::<Vec<_>>();
         let end = chunks.iter().map(|x| x.range().end).max().unwrap_or(start);
         let res = self.load_chunks(start..end, chunks).await?;
+        anyhow::ensure!(res.len() >= 4, "no length prefix");
         let len = usize::try_from(u32::from_be_bytes(res[0..4].try_into().unwrap()))?;
         anyhow::ensure!(res.len() >= len + 4);
         let res = Blob::copy_from_slice(&res[4..len + 4]);
-- 
2.43.0


From cee6051805dd07f35dcc599b6dec6acead4e3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:37 +0000
Subject: [PATCH 17/17] fix: a deleted directory is no longer open

The entry of a deleted directory stayed in the list of open directories, so that opening
it again gave the old, unreachable cache: its old files still appeared to be there, and
whatever was written to it was lost with the worker.
---
 browser/src/web_cache_fs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 03a272d..b03c566 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -113,6 +113,8 @@ impl WebCacheFs {
     async fn delete_dir(&mut self, dir_name: SharedStr) -> anyhow::Result<bool> {
         let caches = worker_scope().caches().map_err(JsError::from)?;
         let res: JsValue = js_async(caches.delete(&dir_name)).await?;
+        // the cache is no longer reachable by its name, and neither are the files in it
+        self.dirs.remove(&dir_name);
         Ok(res.as_bool().context("no bool")?)
     }
 
-- 
2.43.0

