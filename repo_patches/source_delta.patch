From 3371057f27131a20c6b0ee05f830eb6a2a59e246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 01/12] fix: dereference SyncShared pointers as Arc, not as Box

---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 05102f5..d520369 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -147,7 +147,7 @@ impl PointerKind for SyncShared {
     }
 
     unsafe fn deref<A>(&self) -> &A {
-        (*self.data.as_ptr().cast::<Box<A>>()).deref()
+        (*self.data.as_ptr().cast::<Arc<A>>()).deref()
     }
 
     unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
-- 
2.43.0


From a7e1b9ce086241640ae67f377123f07b471013ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 02/12] fix: split nodes of odd size without losing or
 duplicating entries

---
 src/branch.rs | 4 ++--
 src/leaf.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index bb38284..3a43d51 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -322,11 +322,11 @@ where
             let half = this.len() / 2;
             let right = Pointer::new(Branch {
                 has_branches: this.has_branches,
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 children: unsafe { Array::steal_from(&mut this.children, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
diff --git a/src/leaf.rs b/src/leaf.rs
index 02ae673..ba3a21f 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -102,11 +102,11 @@ where
             let this = Pointer::make_mut(&mut this);
             let half = this.length / 2;
             let right = Pointer::new(Leaf {
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 values: unsafe { Array::steal_from(&mut this.values, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
-- 
2.43.0


From 8987e0bfedb667950499a559fb8df37b4b525d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 03/12] fix: OwnedIter::next_back must step its own cursor and
 stop when nothing remains

---
 src/iter/owned.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index fe622e0..69220bb 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -78,7 +78,7 @@ where
     C: TreeConfig<K, V>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.tree.is_none() {
+        if self.tree.is_none() || self.remaining == 0 {
             return None;
         }
         loop {
@@ -87,7 +87,7 @@ where
                 Some(leaf) => leaf,
             };
             if leaf.is_empty() {
-                unsafe { self.left.step_back() };
+                unsafe { self.right.step_back() };
             } else {
                 self.remaining -= 1;
                 return leaf.pop_back();
-- 
2.43.0


From 5ad2788cf7cae5ca330d02d66a95b36d75469f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 04/12] fix: an included range end that is absent must not
 include the next higher key

---
 src/search.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/search.rs b/src/search.rs
index ad73548..b3925d7 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -249,6 +249,13 @@ where
             ptr.stack = path;
             ptr.index = find_key_or_next(leaf.keys(), key);
             ptr.leaf = leaf;
+            // If `key` is absent, we may have found the next higher key, so we have to step back.
+            unsafe {
+                if ptr.key_unchecked() > key && !ptr.step_back() {
+                    // If we can't step back, we were at the lowest key already, so the iterator is empty.
+                    return Self::null();
+                }
+            }
             ptr
         } else {
             // No target node for end bound means it's past the largest key, so get a path to the end of the tree.
-- 
2.43.0


From 1ccfc496b64ae27879e28bb97158d77937be927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 05/12] fix: an excluded range start above its leaf's highest
 key must step forward

---
 src/search.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index b3925d7..30dffa5 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -231,7 +231,7 @@ where
             ptr.index = find_key_or_next(leaf.keys(), key);
             ptr.leaf = leaf;
             unsafe {
-                if leaf.keys().get_unchecked(ptr.index) == key && !ptr.step_forward() {
+                if leaf.keys().get_unchecked(ptr.index) <= key && !ptr.step_forward() {
                     // If we can't step forward, we were at the highest key already, so the iterator is empty.
                     return Self::null();
                 }
-- 
2.43.0


From fb09c061d139c0643dc6136c0be75f6ac120c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 06/12] fix: PalmTree::load must validate key order in debug
 builds

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9989c59..7ef096c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -135,8 +135,8 @@ where
                     if last_key >= key {
                         panic!("PalmTree::load: unordered key at index {}", last_index);
                     }
-                    last_record = (last_index + 1, Some(key.clone()));
                 }
+                last_record = (last_record.0 + 1, Some(key.clone()));
             }
 
             if leaf.is_full() {
-- 
2.43.0


From 58a13e6cce19d93053611f9d2a4e4e3507dac7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 07/12] fix: keep ancestors' keys in step when the last child
 of a branch is removed

---
 src/search.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/search.rs b/src/search.rs
index 30dffa5..c23e24a 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -438,6 +438,20 @@ where
                     branch.remove_branch(index);
                 }
                 if !branch.is_empty() {
+                    // If we removed the branch's last child, its highest key has changed,
+                    // so the keys its ancestors hold for it have to follow.
+                    let mut is_last = index == branch.len();
+                    let highest: *const K = branch.highest();
+                    while is_last {
+                        if let Some((parent, index)) = self.stack.pop() {
+                            let parent = &mut *(parent as *mut Branch<K, V, C>);
+                            let index = index as usize;
+                            parent.keys_mut()[index] = (*highest).clone();
+                            is_last = index + 1 == parent.len();
+                        } else {
+                            break;
+                        }
+                    }
                     break;
                 }
             }
-- 
2.43.0


From 40252ec7146f888890ce7b40c97ccb7e2d9ff9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 08/12] fix: insert_recursive into an emptied tree of several
 levels

---
 src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7ef096c..6789502 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -406,11 +406,10 @@ where
             // Tree walking algos assume the tree has no empty nodes, so we have to
             // handle this as a special case.
             if len == 0 {
-                // Make sure the delete trimmed the tree properly.
+                // The root may still be a branch of branches, so it can't be reused.
                 debug_assert_eq!(0, root_ref.len());
-                debug_assert!(root_ref.has_leaves());
 
-                root_ref.push_leaf(key.clone(), Pointer::new(Leaf::unit(key, value)));
+                *root_ref = Branch::unit(Pointer::new(Leaf::unit(key, value)));
                 self.size = 1;
                 None
             } else {
-- 
2.43.0


From 0e68e64ae77b6f5d61606fbef636e4a3d875dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 09/12] fix: allow trees to grow higher than 16 levels

---
 src/search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/search.rs b/src/search.rs
index c23e24a..ae719a1 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -5,8 +5,8 @@ use std::{
     marker::PhantomData,
 };
 
-// type PtrPath<K, V, C> = Chunk<(*const Branch<K, V, C>, isize), U16>; // FIXME hardcoded max height of 16
-type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 16]>;
+// type PtrPath<K, V, C> = Chunk<(*const Branch<K, V, C>, isize), U32>; // FIXME hardcoded max height of 32
+type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 32]>;
 
 pub(crate) fn find_key_linear<K>(keys: &[K], target: &K) -> Option<usize>
 where
-- 
2.43.0


From 5a4f88ca4946e9b100d71b1fe10e138e4eabf5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 10/12] fix: cast shared pointers without assuming the
 alignment of their data

---
 src/pointer.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index d520369..d4d44b5 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -183,16 +183,6 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
         Self::from_data(unsafe { Kind::new(value) })
     }
 
-    pub(crate) fn into_raw(mut this: Self) -> NonNull<A> {
-        let ptr = unsafe { ManuallyDrop::take(&mut this.data).into_raw::<A>() };
-        std::mem::forget(this);
-        ptr
-    }
-
-    pub(crate) unsafe fn from_raw(ptr: NonNull<A>) -> Self {
-        Self::from_data(Kind::from_raw::<A>(ptr))
-    }
-
     pub(crate) fn make_mut(this: &mut Self) -> &mut A
     where
         A: Clone,
@@ -200,8 +190,12 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
         unsafe { this.data.make_mut::<A>() }
     }
 
-    pub(crate) unsafe fn cast_into<B>(this: Self) -> Pointer<B, Kind> {
-        Pointer::from_raw(Self::into_raw(this).cast())
+    pub(crate) unsafe fn cast_into<B>(mut this: Self) -> Pointer<B, Kind> {
+        // Don't go through a raw pointer to the data here: where that is found
+        // from the start of a shared allocation depends on the alignment of its type.
+        let data = ManuallyDrop::take(&mut this.data);
+        std::mem::forget(this);
+        Pointer::from_data(data)
     }
 
     pub(crate) unsafe fn deref_cast<B>(this: &Self) -> &B {
-- 
2.43.0


From c91f83cd6ad43b1990ab3951a885e89339b97597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 11/12] fix: copy shared nodes before removing, inserting
 through entries, iterating mutably or consuming

---
 src/entry.rs         |  7 +++++--
 src/iter/mut_iter.rs |  7 ++++++-
 src/iter/owned.rs    | 11 +++++++---
 src/lib.rs           | 48 ++++++++++++++++++++++++++++++++++----------
 4 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index bd227de..771071a 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -20,9 +20,12 @@ where
     C: TreeConfig<K, V>,
 {
     #[inline(always)]
-    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self {
+    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self
+    where
+        V: Clone,
+    {
         if let Some(ref mut root) = tree.root {
-            match PathedPointer::exact_key(root, &key) {
+            match PathedPointer::exact_key(Pointer::make_mut(root), &key) {
                 Ok(cursor) => Self::Occupied(OccupiedEntry { tree, cursor }),
                 Err(cursor) => Self::Vacant(VacantEntry { key, tree, cursor }),
             }
diff --git a/src/iter/mut_iter.rs b/src/iter/mut_iter.rs
index ef7e3b2..7f896d4 100644
--- a/src/iter/mut_iter.rs
+++ b/src/iter/mut_iter.rs
@@ -1,5 +1,5 @@
 use super::paths_from_range;
-use crate::{config::TreeConfig, search::PathedPointer, PalmTree};
+use crate::{config::TreeConfig, pointer::Pointer, search::PathedPointer, PalmTree};
 use std::{
     cmp::Ordering,
     fmt::{Debug, Formatter},
@@ -41,8 +41,13 @@ where
     /// ```
     pub(crate) fn new<R>(tree: &'a mut PalmTree<K, V, C>, range: R) -> Self
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
+        // Values will be written through the iterator, so nothing in the tree can remain shared.
+        if let Some(ref mut root) = tree.root {
+            Pointer::make_mut(root);
+        }
         if let Some((left, right)) = paths_from_range(tree, range) {
             Self { left, right }
         } else {
diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index 69220bb..0907dd8 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -20,10 +20,15 @@ where
     C: TreeConfig<K, V>,
 {
     pub(crate) fn new(
-        tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
+        mut tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
         remaining: usize,
-    ) -> Self {
-        if let Some(ref root) = tree {
+    ) -> Self
+    where
+        V: Clone,
+    {
+        if let Some(ref mut root) = tree {
+            // Entries will be moved out of the tree, so nothing in it can remain shared.
+            Pointer::make_mut(root);
             Self {
                 left: PathedPointer::lowest(&root),
                 right: PathedPointer::highest(&root),
diff --git a/src/lib.rs b/src/lib.rs
index 6789502..d9a1768 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -229,7 +229,10 @@ where
         Iter::new(self, ..)
     }
 
-    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C>
+    where
+        V: Clone,
+    {
         IterMut::new(self, ..)
     }
 
@@ -242,12 +245,16 @@ where
 
     pub fn range_mut<R>(&mut self, range: R) -> IterMut<'_, K, V, C>
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
         IterMut::new(self, range)
     }
 
-    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C> {
+    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C>
+    where
+        V: Clone,
+    {
         Entry::new(self, key)
     }
 
@@ -264,9 +271,12 @@ where
         }
     }
 
-    pub fn remove(&mut self, key: &K) -> Option<(K, V)> {
-        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(self.root.as_mut()?, key)
-        {
+    pub fn remove(&mut self, key: &K) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
+        let root = Pointer::make_mut(self.root.as_mut()?);
+        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(root, key) {
             self.size -= 1;
             Some(unsafe { path.remove() })
         } else {
@@ -274,21 +284,29 @@ where
         }
     }
 
-    pub fn remove_lowest(&mut self) -> Option<(K, V)> {
+    pub fn remove_lowest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
     }
 
-    pub fn remove_highest(&mut self) -> Option<(K, V)> {
+    pub fn remove_highest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
@@ -318,7 +336,10 @@ where
         )
     }
 
-    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_left_from(left.into_iter(), right.into_iter())
     }
 
@@ -329,7 +350,10 @@ where
         Self::load(Self::merge_left_iter(left, right))
     }
 
-    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_right_from(left.into_iter(), right.into_iter())
     }
 
@@ -680,6 +704,7 @@ where
 impl<'a, K, V, C> IntoIterator for &'a mut PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (&'a K, &'a mut V);
@@ -692,6 +717,7 @@ where
 impl<K, V, C> IntoIterator for PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (K, V);
-- 
2.43.0


From 8af34602fba0ba7516b7c384be48ed9e211ecbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 12/12] fix: insert_recursive must not raise the keys of
 branches it then backs out of

---
 src/branch.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index 3a43d51..a25fdd9 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -441,10 +441,13 @@ where
             let end_index = self.len() - 1;
             let (key, value) = {
                 if self.has_branches() {
-                    self.keys_mut()[end_index] = key.clone();
+                    let highest = key.clone();
                     match self.get_branch_mut(end_index).insert(key, value) {
                         InsertResult::Full(key, value) => (key, value),
-                        result => return result,
+                        result => {
+                            self.keys_mut()[end_index] = highest;
+                            return result;
+                        }
                     }
                 } else {
                     let leaf = self.get_leaf_mut(end_index);
-- 
2.43.0

