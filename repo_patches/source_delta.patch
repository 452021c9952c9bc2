From cc596506adb83c1f5c64e174ceceabad5c642c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 01/11] fix: DenseTree::remove() for DEPTH=1

Branch without root is empty for the one-level tree, and reading its last
node was undefined behavior. The root is the terminal node there.
---
 src/dense_tree.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 41075a0..7ff693f 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -232,7 +232,12 @@ where
             let indices = level_indices::<Mask, ConstUsize<DEPTH>>(index);
             let branch = self.get_branch(&indices);
 
-            let terminal_node = branch.as_ref().last().unwrap_unchecked();
+            let terminal_node = if DEPTH == 1 {
+                // Branch does not contain root.
+                self.root
+            } else {
+                *branch.as_ref().last().unwrap_unchecked()
+            };
             let terminal_inner_index = *indices.as_ref().last().unwrap_unchecked();
 
             let data_index = terminal_node.get_child::<DataIndex>(terminal_inner_index).as_usize();
@@ -241,7 +246,7 @@ where
                 terminal_node.remove::<DataIndex>(terminal_inner_index);
 
                 // 1. Try remove empty terminal node recursively.
-                if terminal_node.header().len() == 1 /* TODO: unlikely */ {
+                if DEPTH != 1 /*don't touch root*/ && terminal_node.header().len() == 1 /* TODO: unlikely */ {
                     terminal_node.drop_node::<DataIndex>();
 
                     // climb up the tree, and remove empty nodes
-- 
2.43.0


From ab7adfc62d4e4bc41c829afcb19911e40507cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 02/11] fix: NodePtr::from_parts() node length

Node length includes the trailing empty child. Nodes of a DenseTree that was
materialized from a non-exact hierarchy were corrupted by insert/remove.
---
 src/dense_tree/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dense_tree/node.rs b/src/dense_tree/node.rs
index 734c5f6..a22159d 100644
--- a/src/dense_tree/node.rs
+++ b/src/dense_tree/node.rs
@@ -219,7 +219,7 @@ impl NodePtr {
         
         addr_of_mut!((*node).mask).write(mask);
         addr_of_mut!((*node).capacity).write(cap);
-        addr_of_mut!((*node).len).write(len as u8);
+        addr_of_mut!((*node).len).write(cap);
         
         let mut this = Self(NonNull::new_unchecked(node));
         
-- 
2.43.0


From 52fb94fb5709c817832687c0a71b74dce5d921c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 03/11] fix: materialized DenseTree with empty terminal nodes

Empty terminal nodes of a non-exact source were copied to the tree, while
DenseTree is EXACT_HIERARCHY.
---
 src/dense_tree/from.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index 474c2c6..df7073d 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -110,6 +110,10 @@ where
     let mask = other_cursor.select_level_node_unchecked(other, n, index);
     
     if N::VALUE == L::LevelCount::VALUE - 1 {
+        if mask.is_zero() {
+            return None;
+        }
+        
         // terminal node with data
         let len = mask.count_ones() as u8;
         let cap = len + 1;
-- 
2.43.0


From ab290a11ba09aeca5c37c703aca2ca0c0fce8193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 04/11] fix: materialize empty non-exact hierarchy to DenseTree

There is no root node in that case, and unwrap_unchecked() of it was undefined
behavior.
---
 src/dense_tree.rs      | 15 ++++++++++-----
 src/dense_tree/from.rs |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/dense_tree.rs b/src/dense_tree.rs
index 7ff693f..dc83b7a 100644
--- a/src/dense_tree.rs
+++ b/src/dense_tree.rs
@@ -100,11 +100,7 @@ where
         unsafe{ data.set_len(1); }
 
         Self{
-            root: if DEPTH == 1 {
-                NodePtr::new::<DataIndex>(node::DEFAULT_CAP, 0)                
-            } else {
-                NodePtr::new::<NodePtr>(node::DEFAULT_CAP, empty_node(ConstUsize::<1>, ConstUsize::<DEPTH>))
-            },
+            root: Self::empty_root(),
             data,
             keys: vec![usize::MAX]
         }
@@ -115,6 +111,15 @@ impl<T, const DEPTH: usize> DenseTree<T, DEPTH>
 where
     ConstUsize<DEPTH>: ConstInteger    
 {
+    #[inline]
+    fn empty_root() -> NodePtr {
+        if DEPTH == 1 {
+            NodePtr::new::<DataIndex>(node::DEFAULT_CAP, 0)                
+        } else {
+            NodePtr::new::<NodePtr>(node::DEFAULT_CAP, empty_node(ConstUsize::<1>, ConstUsize::<DEPTH>))
+        }
+    }
+    
     #[inline]
     fn get_or_insert_impl(
         &mut self, 
diff --git a/src/dense_tree/from.rs b/src/dense_tree/from.rs
index df7073d..bb8bf18 100644
--- a/src/dense_tree/from.rs
+++ b/src/dense_tree/from.rs
@@ -175,7 +175,7 @@ where
             } else {
                 from_sparse_hierarchy(
                     &other, &mut other_cursor, ConstUsize::<0>, 0, 0, &mut push_fn
-                ).unwrap_unchecked()
+                ).unwrap_or_else(Self::empty_root)
             }
         };
         Self{ root, data, keys }
-- 
2.43.0


From 53e393d80882d79a1b031e727db585b1ec002b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 05/11] fix: MultiIntersection cursor data() after unchecked
 node selection

Terminal node mask was not updated by select_level_node_unchecked().
---
 src/ops/_multi_intersection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index bb097a6..20d708e 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -424,6 +424,10 @@ where
             acc_mask &= mask;
         }            
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone(); 
+        }
+        
         acc_mask
     }
 
-- 
2.43.0


From 032151bc96ff91ebbaceca4859c4e59b1106c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 06/11] fix: multi_intersection get() with empty iterator

get() returned Some for each index, while iteration yields nothing.
---
 src/ops/_multi_intersection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ops/_multi_intersection.rs b/src/ops/_multi_intersection.rs
index 20d708e..b98f0db 100644
--- a/src/ops/_multi_intersection.rs
+++ b/src/ops/_multi_intersection.rs
@@ -112,6 +112,11 @@ where
                 }
             }
             
+            // Intersection of nothing is empty, same as in cursor.
+            if datas.is_empty(){
+                return None;
+            }
+            
             Some(datas.into_iter())
         }
 
-- 
2.43.0


From 9069b1b72b2d820e861c71591bd31c0ffee2dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 07/11] fix: index_range() overflow for the widest hierarchy

256^8 does not fit usize. Saturate, as Index range check does.
---
 src/hibit_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hibit_tree.rs b/src/hibit_tree.rs
index c55317e..4652089 100644
--- a/src/hibit_tree.rs
+++ b/src/hibit_tree.rs
@@ -213,7 +213,7 @@ where
     /// Act as `const`.
     #[inline]
     /*const*/ fn index_range() -> RangeTo<usize> {
-        RangeTo{ end: Self::LevelMask::SIZE.pow(Self::LevelCount::VALUE as _) }
+        RangeTo{ end: Self::LevelMask::SIZE.saturating_pow(Self::LevelCount::VALUE as _) }
     }
 }
 
-- 
2.43.0


From a7a396f2e0802f6b19a311bf6776e66036c15bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 08/11] fix: const_for/const_for_rev for ranges not started
 from 0

const_for() visited indices below `from`, const_for_rev() visited `from - 1`.
---
 src/const_utils/const_int.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/const_utils/const_int.rs b/src/const_utils/const_int.rs
index 1aff1bb..a1016f1 100644
--- a/src/const_utils/const_int.rs
+++ b/src/const_utils/const_int.rs
@@ -37,7 +37,7 @@ trait ConstIntegerPrivate{
     {
         let ctrl = self.dec().iterate_as_range(from, visitor);
         if ctrl.is_continue() {
-            if self.value() == from.value() {
+            if self.value() <= from.value() {
                 Continue(())
             } else {            
                 visitor.visit(self.dec())
@@ -54,13 +54,12 @@ trait ConstIntegerPrivate{
     where
         Self: ConstInteger
     {
+        if self.value() <= from.value() {
+            return Continue(());
+        }
         let ctrl = visitor.visit(self.dec());
         if ctrl.is_continue(){
-            if self.value() == from.value() {
-                Continue(())
-            } else {
-                self.dec().iterate_as_range_rev(from, visitor)
-            }
+            self.dec().iterate_as_range_rev(from, visitor)
         } else {
             ctrl
         }
-- 
2.43.0


From 8a212f46b0c06634dd565f3f440b7587e3b7c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 09/11] fix: width_256 configs index overflow

Index 0 is reserved for the empty block, hence 256 childs of a root node does
not fit u8, and 256^2 level1 childs does not fit u16.
---
 src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 0ebf70c..611ecbf 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -48,7 +48,9 @@ pub mod width_128 {
 #[allow(non_camel_case_types)]
 pub mod width_256{
     use super::*;
-    generate!(Block<wide::u64x4, [u8; 256]>, Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>);
+    // One more index than there are childs needed - index 0 is reserved. So
+    // u8 root and u16 level1 indices would overflow here.
+    generate!(Block<wide::u64x4, [u16; 256]>, Block<wide::u64x4, [u32; 256]>, Block<wide::u64x4, [u32; 256]>);
 }
 
 /*pub type _64x1 = w64::d1;
-- 
2.43.0


From 30afb5a6a6dfaf5a0cd020cc8396bdde6e0c3db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 10/11] fix: MultiUnion cursor data() returned Some for absent
 elements

data() answered Some (with an empty iterator), as soon as some source had a
non-empty terminal node. So union(multi_map_fold(multi_union(..)), ..) got
phantom items.
---
 src/ops/_multi_union.rs | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/ops/_multi_union.rs b/src/ops/_multi_union.rs
index 7d492ad..20408b9 100644
--- a/src/ops/_multi_union.rs
+++ b/src/ops/_multi_union.rs
@@ -134,6 +134,8 @@ where
         <<IterItem<Iter> as HibitTree>::LevelCount as ConstInteger>::Dec,
     >,
     
+    terminal_node_mask: <IterItem<Iter> as HibitTree>::LevelMask,
+    
     phantom_data: PhantomData<&'src MultiUnion<Iter>>
 }
 
@@ -164,6 +166,7 @@ where
         Self {
             cursors: states,
             lvls_non_empty_states: Array::from_fn(|_|ArrayVec::new()),
+            terminal_node_mask: BitBlock::zero(),
             phantom_data: PhantomData,
         }
     }
@@ -180,13 +183,16 @@ where
     unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'src Self::Src, level_n: N, level_index: usize) 
         -> <Self::Src as HibitTree>::LevelMask 
     {
-        let mut acc_mask = BitBlock::zero();
+        let mut acc_mask: T::LevelMask = BitBlock::zero();
         
         if N::VALUE == 0 {
             for (array, array_cursor) in self.cursors.iter_mut() {
                 let mask = array_cursor.select_level_node(array, level_n, level_index);
                 acc_mask |= mask;
-            }            
+            }
+            /*const*/ if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
+                self.terminal_node_mask = acc_mask.clone();
+            }
             return acc_mask;
         }
         
@@ -218,6 +224,10 @@ where
             for i in prev_lvl_non_empty_states { foreach(*i) }
         }
         
+        /*const*/ if N::VALUE == <Self::Src as HibitTree>::LevelCount::VALUE - 1 {
+            self.terminal_node_mask = acc_mask.clone();
+        }
+        
         acc_mask
     }
 
@@ -225,28 +235,28 @@ where
     unsafe fn data<'a>(&'a self, src: &'src Self::Src, level_index: usize) 
         -> Option<<Self as HibitTreeCursorTypes<'a>>::Data> 
     {
-        if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
-            todo!("TODO: compile-time special case for 1-level SparseHierarchy");
-        }
-        
-        let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
-                                   .last().unwrap_unchecked();
-        if lvl_non_empty_states.is_empty(){
+        if !self.terminal_node_mask.get_bit(level_index) {
             return None;
         }
         
-        Some(CursorData {
-            lvl_non_empty_states: lvl_non_empty_states.iter(),
-            cursors: &self.cursors,
-            level_index,
-        })
+        Some(self.data_unchecked(src, level_index))
     }
 
     #[inline]
     unsafe fn data_unchecked<'a>(&'a self, src: &'src Self::Src, level_index: usize) 
         -> <Self as HibitTreeCursorTypes<'a>>::Data 
     {
-        self.data(src, level_index).unwrap_unchecked()
+        if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
+            todo!("TODO: compile-time special case for 1-level SparseHierarchy");
+        }
+        
+        let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
+                                   .last().unwrap_unchecked();
+        CursorData {
+            lvl_non_empty_states: lvl_non_empty_states.iter(),
+            cursors: &self.cursors,
+            level_index,
+        }
     }
 }
 
-- 
2.43.0


From 160527c42222d1299755b1f129f31c38581ec0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 11/11] fix: iterate multi_union of one-level trees

Cursor data access was todo!().
---
 src/ops/_multi_union.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/ops/_multi_union.rs b/src/ops/_multi_union.rs
index 20408b9..e55bd0f 100644
--- a/src/ops/_multi_union.rs
+++ b/src/ops/_multi_union.rs
@@ -118,6 +118,18 @@ where
 
 const N: usize = 32;
 type CursorIndex = u8;
+
+/// 0..N
+static ALL_CURSORS: [CursorIndex; N] = {
+    let mut indices = [0; N];
+    let mut i = 0;
+    while i < N {
+        indices[i] = i as CursorIndex;
+        i += 1;
+    }
+    indices
+};
+
 type CursorsItem<'item, Iter> = (<Iter as Iterator>::Item, IterItemCursor<'item, Iter>);
 
 pub struct Cursor<'src, 'item, Iter>
@@ -246,12 +258,14 @@ where
     unsafe fn data_unchecked<'a>(&'a self, src: &'src Self::Src, level_index: usize) 
         -> <Self as HibitTreeCursorTypes<'a>>::Data 
     {
-        if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
-            todo!("TODO: compile-time special case for 1-level SparseHierarchy");
-        }
-        
-        let lvl_non_empty_states = self.lvls_non_empty_states.as_ref()
-                                   .last().unwrap_unchecked();
+        let lvl_non_empty_states = 
+            if <Self::Src as HibitTree>::LevelCount::VALUE == 1 {
+                // We do not store the root level - just use all cursors. 
+                ALL_CURSORS.get_unchecked(..self.cursors.len())
+            } else {
+                self.lvls_non_empty_states.as_ref()
+                .last().unwrap_unchecked().as_slice()
+            };
         CursorData {
             lvl_non_empty_states: lvl_non_empty_states.iter(),
             cursors: &self.cursors,
-- 
2.43.0

