From 99dcaaacc47a31a49e3abd486cefb4d7d29421fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 01/14] fix: SyncShared::deref must read the pointer as an Arc,
 not a Box

---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 05102f5..d520369 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -147,7 +147,7 @@ impl PointerKind for SyncShared {
     }
 
     unsafe fn deref<A>(&self) -> &A {
-        (*self.data.as_ptr().cast::<Box<A>>()).deref()
+        (*self.data.as_ptr().cast::<Arc<A>>()).deref()
     }
 
     unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
-- 
2.43.0


From 775a81d70757feb9af24da8904228b27c318caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 02/14] fix: casting a shared pointer must not depend on the
 alignment of its target

---
 src/pointer.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index d520369..9e05f00 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -183,16 +183,6 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
         Self::from_data(unsafe { Kind::new(value) })
     }
 
-    pub(crate) fn into_raw(mut this: Self) -> NonNull<A> {
-        let ptr = unsafe { ManuallyDrop::take(&mut this.data).into_raw::<A>() };
-        std::mem::forget(this);
-        ptr
-    }
-
-    pub(crate) unsafe fn from_raw(ptr: NonNull<A>) -> Self {
-        Self::from_data(Kind::from_raw::<A>(ptr))
-    }
-
     pub(crate) fn make_mut(this: &mut Self) -> &mut A
     where
         A: Clone,
@@ -200,8 +190,16 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
         unsafe { this.data.make_mut::<A>() }
     }
 
-    pub(crate) unsafe fn cast_into<B>(this: Self) -> Pointer<B, Kind> {
-        Pointer::from_raw(Self::into_raw(this).cast())
+    /// Reinterpret a pointer to `A` as a pointer to `B`.
+    ///
+    /// This moves the pointer's own representation untouched. Going through a raw
+    /// pointer and rebuilding a pointer to `B` from that isn't an option, because the
+    /// distance from an `Rc` or `Arc`'s reference counts to its value depends on the
+    /// alignment of the value.
+    pub(crate) unsafe fn cast_into<B>(mut this: Self) -> Pointer<B, Kind> {
+        let data = ManuallyDrop::take(&mut this.data);
+        std::mem::forget(this);
+        Pointer::from_data(data)
     }
 
     pub(crate) unsafe fn deref_cast<B>(this: &Self) -> &B {
-- 
2.43.0


From 1e11e30b001acadf4cd115ae06098e19a8143126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 03/14] fix: OwnedIter::next_back must step the right hand
 cursor, and stop when drained

---
 src/iter/owned.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index fe622e0..b0bbba9 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -49,7 +49,7 @@ where
     type Item = (K, V);
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.tree.is_none() {
+        if self.remaining == 0 {
             return None;
         }
         loop {
@@ -78,7 +78,7 @@ where
     C: TreeConfig<K, V>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.tree.is_none() {
+        if self.remaining == 0 {
             return None;
         }
         loop {
@@ -87,7 +87,7 @@ where
                 Some(leaf) => leaf,
             };
             if leaf.is_empty() {
-                unsafe { self.left.step_back() };
+                unsafe { self.right.step_back() };
             } else {
                 self.remaining -= 1;
                 return leaf.pop_back();
-- 
2.43.0


From b4cbe81e822b2a94215d2cea776c7eb018e6a541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 04/14] fix: PalmTree::load must record the last key to
 validate the order of its input

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9989c59..7ef096c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -135,8 +135,8 @@ where
                     if last_key >= key {
                         panic!("PalmTree::load: unordered key at index {}", last_index);
                     }
-                    last_record = (last_index + 1, Some(key.clone()));
                 }
+                last_record = (last_record.0 + 1, Some(key.clone()));
             }
 
             if leaf.is_full() {
-- 
2.43.0


From a79981cc36c46e5477dde80ceb127f64569ada86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 05/14] fix: an inclusive upper bound must not select the next
 higher key

---
 src/search.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index ad73548..419695b 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -247,8 +247,15 @@ where
         if let Some((path, leaf)) = path_for(tree, key) {
             let mut ptr = Self::null();
             ptr.stack = path;
-            ptr.index = find_key_or_next(leaf.keys(), key);
+            ptr.index = find_key_or_prev(leaf.keys(), key);
             ptr.leaf = leaf;
+            // If we've found a value higher than key, every key in this leaf is, and we step back.
+            unsafe {
+                if ptr.key_unchecked() > key && !ptr.step_back() {
+                    // If we can't step back, we were at the lowest key already, so the iterator is empty.
+                    return Self::null();
+                }
+            }
             ptr
         } else {
             // No target node for end bound means it's past the largest key, so get a path to the end of the tree.
-- 
2.43.0


From a2fe9a6c171c4ff1aab838de977a96d8a468c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 06/14] fix: an exclusive lower bound must not select a lower
 key

---
 src/search.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index 419695b..a7ae36a 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -231,7 +231,8 @@ where
             ptr.index = find_key_or_next(leaf.keys(), key);
             ptr.leaf = leaf;
             unsafe {
-                if leaf.keys().get_unchecked(ptr.index) == key && !ptr.step_forward() {
+                // As above, the highest key in the leaf can be lower than `key`.
+                if leaf.keys().get_unchecked(ptr.index) <= key && !ptr.step_forward() {
                     // If we can't step forward, we were at the highest key already, so the iterator is empty.
                     return Self::null();
                 }
-- 
2.43.0


From 39d17f8e085f48b1b34e703a61ec7b0e75aff2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 07/14] fix: removing the last child of a branch must update
 the keys above it

---
 src/search.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/search.rs b/src/search.rs
index a7ae36a..31e5c6c 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -439,6 +439,19 @@ where
                     branch.remove_branch(index);
                 }
                 if !branch.is_empty() {
+                    if index == branch.len() {
+                        // We removed the rightmost child, so the highest key of this branch
+                        // has changed, and the branches above it must agree.
+                        let highest = branch.highest().clone();
+                        while let Some((parent, index)) = self.stack.pop() {
+                            let parent = &mut *(parent as *mut Branch<K, V, C>);
+                            let index = index as usize;
+                            parent.keys_mut()[index] = highest.clone();
+                            if index + 1 < parent.len() {
+                                break;
+                            }
+                        }
+                    }
                     break;
                 }
             }
-- 
2.43.0


From 99134fb30dc174a1baa852bf8abf639c4ebfb0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 08/14] fix: splitting a node of odd size must not lose or
 duplicate an entry

---
 src/branch.rs | 4 ++--
 src/leaf.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index bb38284..3a43d51 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -322,11 +322,11 @@ where
             let half = this.len() / 2;
             let right = Pointer::new(Branch {
                 has_branches: this.has_branches,
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 children: unsafe { Array::steal_from(&mut this.children, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
diff --git a/src/leaf.rs b/src/leaf.rs
index 02ae673..ba3a21f 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -102,11 +102,11 @@ where
             let this = Pointer::make_mut(&mut this);
             let half = this.length / 2;
             let right = Pointer::new(Leaf {
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 values: unsafe { Array::steal_from(&mut this.values, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
-- 
2.43.0


From 4cbc3c750245d3242baff0f7c79f48c67362dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 09/14] fix: insert_recursive must accept a tree emptied by
 removals

---
 src/lib.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7ef096c..757dcfd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -400,21 +400,17 @@ where
     {
         let len = self.size;
         if let Some(ref mut root) = self.root {
-            let root_ref = Pointer::make_mut(root);
             // Special case: if a tree has size 0 but there is a root, it's because
             // we removed the last entry and the root has been left allocated.
             // Tree walking algos assume the tree has no empty nodes, so we have to
-            // handle this as a special case.
+            // handle this as a special case. The root can be a branch of branches,
+            // so we replace it rather than reuse it.
             if len == 0 {
-                // Make sure the delete trimmed the tree properly.
-                debug_assert_eq!(0, root_ref.len());
-                debug_assert!(root_ref.has_leaves());
-
-                root_ref.push_leaf(key.clone(), Pointer::new(Leaf::unit(key, value)));
+                *root = Pointer::new(Branch::unit(Pointer::new(Leaf::unit(key, value))));
                 self.size = 1;
                 None
             } else {
-                match root_ref.insert(key, value) {
+                match Pointer::make_mut(root).insert(key, value) {
                     InsertResult::Added => {
                         self.size += 1;
                         None
@@ -423,6 +419,7 @@ where
                     InsertResult::Full(key, value) => {
                         // If the root is full, we need to increase the height of the tree and retry insertion,
                         // so we can split the old root.
+                        let root_ref = Pointer::make_mut(root);
                         let key2 = root_ref.highest().clone();
                         let child = std::mem::replace(root_ref, Branch::new(true));
                         root_ref.push_branch(key2, Pointer::new(child));
-- 
2.43.0


From 1f03f16b255807e32d6747f24eca3e28d49aab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 10/14] fix: insert_recursive must be able to insert a new
 highest key into a full tree

---
 src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 757dcfd..a6d16a6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -419,11 +419,8 @@ where
                     InsertResult::Full(key, value) => {
                         // If the root is full, we need to increase the height of the tree and retry insertion,
                         // so we can split the old root.
-                        let root_ref = Pointer::make_mut(root);
-                        let key2 = root_ref.highest().clone();
-                        let child = std::mem::replace(root_ref, Branch::new(true));
-                        root_ref.push_branch(key2, Pointer::new(child));
-                        self.insert(key, value)
+                        Self::split_root(root);
+                        self.insert_recursive(key, value)
                     }
                 }
             }
-- 
2.43.0


From 08273fb546af842554818ef3de9a16f4a0688462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 11/14] fix: the smallest node sizes need paths of more than 16
 levels

---
 src/search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/search.rs b/src/search.rs
index 31e5c6c..d00a626 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -5,8 +5,8 @@ use std::{
     marker::PhantomData,
 };
 
-// type PtrPath<K, V, C> = Chunk<(*const Branch<K, V, C>, isize), U16>; // FIXME hardcoded max height of 16
-type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 16]>;
+// FIXME hardcoded max height of 32
+type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 32]>;
 
 pub(crate) fn find_key_linear<K>(keys: &[K], target: &K) -> Option<usize>
 where
-- 
2.43.0


From 4fb65def9c5102b4687384151db7632c54a4492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 12/14] fix: mutating one clone of a shared tree must not be
 visible in the others

---
 src/entry.rs         |  8 ++++++--
 src/iter/mut_iter.rs |  7 ++++++-
 src/iter/owned.rs    | 15 +++++++++-----
 src/lib.rs           | 48 ++++++++++++++++++++++++++++++++++----------
 4 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index bd227de..5b7d589 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -20,9 +20,13 @@ where
     C: TreeConfig<K, V>,
 {
     #[inline(always)]
-    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self {
+    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self
+    where
+        V: Clone,
+    {
         if let Some(ref mut root) = tree.root {
-            match PathedPointer::exact_key(root, &key) {
+            // The cursor writes through its path, so the root must not be shared.
+            match PathedPointer::exact_key(Pointer::make_mut(root), &key) {
                 Ok(cursor) => Self::Occupied(OccupiedEntry { tree, cursor }),
                 Err(cursor) => Self::Vacant(VacantEntry { key, tree, cursor }),
             }
diff --git a/src/iter/mut_iter.rs b/src/iter/mut_iter.rs
index ef7e3b2..41d9dda 100644
--- a/src/iter/mut_iter.rs
+++ b/src/iter/mut_iter.rs
@@ -1,5 +1,5 @@
 use super::paths_from_range;
-use crate::{config::TreeConfig, search::PathedPointer, PalmTree};
+use crate::{config::TreeConfig, pointer::Pointer, search::PathedPointer, PalmTree};
 use std::{
     cmp::Ordering,
     fmt::{Debug, Formatter},
@@ -41,8 +41,13 @@ where
     /// ```
     pub(crate) fn new<R>(tree: &'a mut PalmTree<K, V, C>, range: R) -> Self
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
+        // We hand out mutable references to the values, so the root must not be shared.
+        if let Some(ref mut root) = tree.root {
+            Pointer::make_mut(root);
+        }
         if let Some((left, right)) = paths_from_range(tree, range) {
             Self { left, right }
         } else {
diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index b0bbba9..9f6b025 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -20,13 +20,18 @@ where
     C: TreeConfig<K, V>,
 {
     pub(crate) fn new(
-        tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
+        mut tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
         remaining: usize,
-    ) -> Self {
-        if let Some(ref root) = tree {
+    ) -> Self
+    where
+        V: Clone,
+    {
+        if let Some(ref mut root) = tree {
+            // We're going to move entries out of the tree, so the root must not be shared.
+            let root = Pointer::make_mut(root);
             Self {
-                left: PathedPointer::lowest(&root),
-                right: PathedPointer::highest(&root),
+                left: PathedPointer::lowest(root),
+                right: PathedPointer::highest(root),
                 tree,
                 remaining,
             }
diff --git a/src/lib.rs b/src/lib.rs
index a6d16a6..70c375f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -229,7 +229,10 @@ where
         Iter::new(self, ..)
     }
 
-    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C>
+    where
+        V: Clone,
+    {
         IterMut::new(self, ..)
     }
 
@@ -242,12 +245,16 @@ where
 
     pub fn range_mut<R>(&mut self, range: R) -> IterMut<'_, K, V, C>
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
         IterMut::new(self, range)
     }
 
-    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C> {
+    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C>
+    where
+        V: Clone,
+    {
         Entry::new(self, key)
     }
 
@@ -264,9 +271,12 @@ where
         }
     }
 
-    pub fn remove(&mut self, key: &K) -> Option<(K, V)> {
-        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(self.root.as_mut()?, key)
-        {
+    pub fn remove(&mut self, key: &K) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
+        let root = Pointer::make_mut(self.root.as_mut()?);
+        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(root, key) {
             self.size -= 1;
             Some(unsafe { path.remove() })
         } else {
@@ -274,21 +284,29 @@ where
         }
     }
 
-    pub fn remove_lowest(&mut self) -> Option<(K, V)> {
+    pub fn remove_lowest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
     }
 
-    pub fn remove_highest(&mut self) -> Option<(K, V)> {
+    pub fn remove_highest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
@@ -318,7 +336,10 @@ where
         )
     }
 
-    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_left_from(left.into_iter(), right.into_iter())
     }
 
@@ -329,7 +350,10 @@ where
         Self::load(Self::merge_left_iter(left, right))
     }
 
-    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_right_from(left.into_iter(), right.into_iter())
     }
 
@@ -675,6 +699,7 @@ where
 impl<'a, K, V, C> IntoIterator for &'a mut PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (&'a K, &'a mut V);
@@ -687,6 +712,7 @@ where
 impl<K, V, C> IntoIterator for PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (K, V);
-- 
2.43.0


From 793363ee3c8c68ae692d4ac84ca6faac24ce7341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:19 +0000
Subject: [PATCH 13/14] hook: leave out the prefetch instruction under
 cfg(kani)

The model checker has no prefetch instruction; it has no effect on results.
---
 src/arch.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/arch.rs b/src/arch.rs
index 11734be..5cd6466 100644
--- a/src/arch.rs
+++ b/src/arch.rs
@@ -11,12 +11,14 @@
     target_feature(enable = "sse")
 )]
 pub(crate) unsafe fn prefetch<A>(data: &A) {
+    #[cfg(kani)]
+    let _ = data;
     // TODO think more carefully about the locality values.
-    #[cfg(core_intrinsics)]
+    #[cfg(all(core_intrinsics, not(kani)))]
     std::intrinsics::prefetch_read_data(data, 2);
-    #[cfg(all(not(core_intrinsics), target_arch = "x86"))]
+    #[cfg(all(not(core_intrinsics), not(kani), target_arch = "x86"))]
     std::arch::x86::_mm_prefetch(data as *const _ as *const i8, std::arch::x86::_MM_HINT_T1);
-    #[cfg(all(not(core_intrinsics), target_arch = "x86_64"))]
+    #[cfg(all(not(core_intrinsics), not(kani), target_arch = "x86_64"))]
     std::arch::x86_64::_mm_prefetch(
         data as *const _ as *const i8,
         std::arch::x86_64::_MM_HINT_T1,
-- 
2.43.0


From 1b91433db4421fdf31d5373428fdbf6ef67a8120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 14/14] fix: Pointer must not be Send or Sync regardless of its
 target

---
 src/pointer.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 9e05f00..4fdd15f 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -168,8 +168,20 @@ pub(crate) struct Pointer<A, Kind: PointerKind> {
     kind: PhantomData<A>,
 }
 
-unsafe impl<A, Kind> Send for Pointer<A, Kind> where Kind: PointerKind + Send {}
-unsafe impl<A, Kind> Sync for Pointer<A, Kind> where Kind: PointerKind + Sync {}
+// A pointer may share its target with its clones, so it takes both bounds on the target
+// for either of these to be sound, as it does for `Arc`.
+unsafe impl<A, Kind> Send for Pointer<A, Kind>
+where
+    A: Send + Sync,
+    Kind: PointerKind + Send,
+{
+}
+unsafe impl<A, Kind> Sync for Pointer<A, Kind>
+where
+    A: Send + Sync,
+    Kind: PointerKind + Sync,
+{
+}
 
 impl<A, Kind: PointerKind> Pointer<A, Kind> {
     fn from_data(data: Kind) -> Self {
-- 
2.43.0

