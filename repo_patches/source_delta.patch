From 3a9264146f21fa24fcf9ac28f53cc1080803efb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:12 +0000
Subject: [PATCH 01/18] fix: keep the AVL tree balanced when the minimum of a
 subtree is removed

---
 src/avl_tree/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avl_tree/tree.rs b/src/avl_tree/tree.rs
index 9809776..8e4bf1b 100644
--- a/src/avl_tree/tree.rs
+++ b/src/avl_tree/tree.rs
@@ -44,7 +44,9 @@ fn balance<T, U>(tree: &mut Tree<T, U>) {
 fn remove_min<T, U>(tree: &mut Tree<T, U>) -> Box<Node<T, U>> {
     if let Some(ref mut node) = tree {
         if node.left.is_some() {
-            return remove_min(&mut node.left);
+            let ret = remove_min(&mut node.left);
+            balance(tree);
+            return ret;
         }
     }
 
-- 
2.43.0


From 4eb984887425d7b9a6eac2ae321c4670a8c484d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:01 +0000
Subject: [PATCH 02/18] fix: TreapList::get and get_mut return None for index
 usize::MAX

---
 src/treap/list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/treap/list.rs b/src/treap/list.rs
index ef672dd..2897326 100644
--- a/src/treap/list.rs
+++ b/src/treap/list.rs
@@ -181,7 +181,8 @@ impl<T> TreapList<T> {
     /// assert_eq!(list.get(1), None);
     /// ```
     pub fn get(&self, index: usize) -> Option<&T> {
-        implicit_tree::get(&self.tree, index + 1)
+        let index = index.checked_add(1)?;
+        implicit_tree::get(&self.tree, index)
     }
 
     /// Returns a mutable reference to the value at a particular index. Returns `None` if the
@@ -198,7 +199,8 @@ impl<T> TreapList<T> {
     /// assert_eq!(list.get(0), Some(&2));
     /// ```
     pub fn get_mut(&mut self, index: usize) -> Option<&mut T> {
-        implicit_tree::get_mut(&mut self.tree, index + 1)
+        let index = index.checked_add(1)?;
+        implicit_tree::get_mut(&mut self.tree, index)
     }
 
     /// Returns the number of elements in the list.
-- 
2.43.0


From f8e81aeb9d5cb6ffd5fdf880bfac85ef35278ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:54 +0000
Subject: [PATCH 03/18] fix: inserting into a radix tree whose last key was
 removed no longer panics

---
 src/radix/tree.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index 980fefd..f18dc5c 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -5,7 +5,13 @@ use std::mem;
 pub type Tree<T> = Option<Box<Node<T>>>;
 
 pub fn insert<T>(tree: &mut Tree<T>, mut key: &[u8], value: T) -> Option<T> {
-    let node = tree.as_mut().expect("Expected non-empty tree.");
+    let node = match tree {
+        Some(ref mut node) => node,
+        None => {
+            *tree = Some(Box::new(Node::new(key.to_vec(), Some(value))));
+            return None;
+        }
+    };
     let split_index = node
         .key
         .iter()
-- 
2.43.0


From 7b9444706ccf39a5f1382cc1a9c3f43d29875826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:54 +0000
Subject: [PATCH 04/18] fix: RadixMap::get_longest_prefix returns all keys that
 share the longest prefix, and none that share no byte

---
 src/radix/tree.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index f18dc5c..3404800 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -152,11 +152,14 @@ pub fn get_longest_prefix<T>(
         .zip(key[index..].iter())
         .position(|pair| pair.0 != pair.1);
     match split_index {
-        Some(_) => {
-            if node.value.is_some() {
-                keys.push(curr_key.clone());
+        Some(split_index) => {
+            // a node that differs in its first byte shares no prefix with the key
+            if index + split_index > 0 {
+                if node.value.is_some() {
+                    keys.push(curr_key.clone());
+                }
+                node.push_all_children(curr_key, keys);
             }
-            node.push_all_children(curr_key, keys);
         }
         None => match node.key.len().cmp(&(key.len() - index)) {
             Ordering::Less => {
@@ -166,7 +169,10 @@ pub fn get_longest_prefix<T>(
                     Some(_) => get_longest_prefix(next_child, key, index, curr_key, keys),
                     None => {
                         if node.value.is_some() {
-                            keys.push(curr_key)
+                            keys.push(curr_key.clone());
+                        }
+                        if index > 0 {
+                            node.push_all_children(curr_key, keys);
                         }
                     }
                 }
-- 
2.43.0


From f28cb9580946364590b42bf7e93e006b8092b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:31 +0000
Subject: [PATCH 05/18] fix: SkipMap::difference and symmetric_difference keep
 the rest of left once right is exhausted

---
 src/skiplist/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index f191732..be70f34 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -798,8 +798,8 @@ impl<T, U> SkipMap<T, U> {
                         }
                     }
                     (false, true) => {
-                        let next_right_node = *(*right.head).get_pointer(0);
-                        next_node = mem::replace(&mut right.head, next_right_node);
+                        let next_left_node = *(*left.head).get_pointer(0);
+                        next_node = mem::replace(&mut left.head, next_left_node);
                     }
                 }
                 ret.len += 1;
-- 
2.43.0


From 4339c9fcf92bc8c036c1f722a0ed39fbfe61e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:31 +0000
Subject: [PATCH 06/18] fix: SkipMap::intersection does not write past the
 links of a node

---
 src/skiplist/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index be70f34..7659349 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -729,7 +729,7 @@ impl<T, U> SkipMap<T, U> {
                 );
 
                 let links_len = (*next_node).links_len;
-                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len + 1) {
+                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len) {
                     *(**curr_node).get_pointer_mut(i) = next_node;
                     *curr_node = next_node;
                 }
-- 
2.43.0


From ffbe533a7e6e99dad895af16f867d41cdbe852c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:31 +0000
Subject: [PATCH 07/18] fix: dropping a partly consumed skip list iterator
 drops each remaining entry once

---
 src/skiplist/list.rs | 1 -
 src/skiplist/map.rs  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 8689be6..fcbffe1 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -576,7 +576,6 @@ impl<T> Drop for SkipListIntoIter<T> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).value);
                 let next_node = (*self.current).get_pointer(0).next;
                 Node::free(mem::replace(&mut self.current, next_node));
             }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 7659349..5c3ad07 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1018,7 +1018,6 @@ impl<T, U> Drop for SkipMapIntoIter<T, U> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).entry);
                 let next_node = *(*self.current).get_pointer(0);
                 Node::free(mem::replace(&mut self.current, next_node));
             }
-- 
2.43.0


From 47e6beebb5d6eea5feb81f59400895a9a08198f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:31 +0000
Subject: [PATCH 08/18] fix: SkipList::remove keeps the distance of links to
 the end

---
 src/skiplist/list.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index fcbffe1..bcb8d70 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -214,20 +214,18 @@ impl<T> SkipList<T> {
                     curr_node = &mut mem::replace(&mut next_link, next_next_link).next;
                 }
 
-                if !next_link.next.is_null() {
-                    if next_link.distance == index + 1 {
-                        let Link { next, distance } = *next_link;
-                        mem::swap(next_link, (*next).get_pointer_mut(curr_height));
-                        next_link.distance += distance - 1;
-                        if curr_height == 0 {
-                            let ret = ptr::read(&(*next).value);
-                            Node::deallocate(next);
-                            self.len -= 1;
-                            return ret;
-                        }
-                    } else {
-                        next_link.distance -= 1;
+                if !next_link.next.is_null() && next_link.distance == index + 1 {
+                    let Link { next, distance } = *next_link;
+                    mem::swap(next_link, (*next).get_pointer_mut(curr_height));
+                    next_link.distance += distance - 1;
+                    if curr_height == 0 {
+                        let ret = ptr::read(&(*next).value);
+                        Node::deallocate(next);
+                        self.len -= 1;
+                        return ret;
                     }
+                } else {
+                    next_link.distance -= 1;
                 }
 
                 curr_height -= 1;
-- 
2.43.0


From d606e7029007d26fff30e2f547214f56e2525b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:53 +0000
Subject: [PATCH 09/18] fix: SkipMap::iter_mut borrows the map mutably

---
 src/skiplist/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 5c3ad07..d944532 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -927,7 +927,7 @@ impl<T, U> SkipMap<T, U> {
     /// assert_eq!(iterator.next(), Some((&2, &mut 3)));
     /// assert_eq!(iterator.next(), None);
     /// ```
-    pub fn iter_mut(&self) -> SkipMapIterMut<'_, T, U> {
+    pub fn iter_mut(&mut self) -> SkipMapIterMut<'_, T, U> {
         unsafe {
             SkipMapIterMut {
                 current: &mut *(*self.head).get_pointer_mut(0),
-- 
2.43.0


From 62338c7fd391c486cd079739fbc3b7e87d8fda21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:10 +0000
Subject: [PATCH 10/18] fix: skip list nodes are allocated with the alignment
 of their entries

---
 src/skiplist/list.rs | 21 ++++++++++++---------
 src/skiplist/map.rs  | 23 +++++++++++++----------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index bcb8d70..5f52187 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -1,5 +1,6 @@
 use rand::Rng;
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::mem;
 use std::ops::{Add, Index, IndexMut};
 use std::ptr;
@@ -37,18 +38,21 @@ impl<T> Node<T> {
         unsafe { self.links.get_unchecked_mut(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
+    fn get_layout(links_len: usize) -> Layout {
         let base_size = mem::size_of::<Node<T>>();
         let link_size = mem::size_of::<Link<T>>();
-        let u64_size = mem::size_of::<u64>();
+        let align = mem::align_of::<Node<T>>();
 
-        (base_size + link_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(base_size + link_size * links_len, align)
+            .expect("Error: node is too large.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Node<T>;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
@@ -56,9 +60,8 @@ impl<T> Node<T> {
     }
 
     unsafe fn deallocate(ptr: *mut Self) {
-        let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        let layout = Self::get_layout((*ptr).links_len);
+        alloc::dealloc(ptr as *mut u8, layout);
     }
 
     unsafe fn free(ptr: *mut Self) {
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index d944532..600a358 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1,6 +1,7 @@
 use crate::entry::Entry;
 use rand::Rng;
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::borrow::Borrow;
 use std::cmp;
 use std::mem;
@@ -33,18 +34,21 @@ impl<T, U> Node<T, U> {
         unsafe { self.links.get_unchecked_mut(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
+    fn get_layout(links_len: usize) -> Layout {
         let base_size = mem::size_of::<Node<T, U>>();
-        let ptr_size = mem::size_of::<*mut Node<T, U>>();
-        let u64_size = mem::size_of::<u64>();
+        let link_size = mem::size_of::<*mut Node<T, U>>();
+        let align = mem::align_of::<Node<T, U>>();
 
-        (base_size + ptr_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(base_size + link_size * links_len, align)
+            .expect("Error: node is too large.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T, U>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Node<T, U>;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
@@ -52,9 +56,8 @@ impl<T, U> Node<T, U> {
     }
 
     unsafe fn deallocate(ptr: *mut Self) {
-        let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        let layout = Self::get_layout((*ptr).links_len);
+        alloc::dealloc(ptr as *mut u8, layout);
     }
 
     unsafe fn free(ptr: *mut Self) {
-- 
2.43.0


From ac29805d47bc362a4a6e05833b61d554edc874f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:48 +0000
Subject: [PATCH 11/18] fix: skip list links are reached by pointer arithmetic,
 not by indexing an empty array

---
 src/skiplist/list.rs | 12 ++++++------
 src/skiplist/map.rs  | 30 +++++++++++++++---------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 5f52187..08c9b3f 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -31,11 +31,11 @@ impl<T> Node<T> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &Link<T> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut Link<T> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_layout(links_len: usize) -> Layout {
@@ -55,7 +55,7 @@ impl<T> Node<T> {
         }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -440,7 +440,7 @@ impl<T> SkipList<T> {
                 let next_node = (*curr_node).get_pointer(0).next;
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -517,9 +517,9 @@ impl<T> IntoIterator for SkipList<T> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: (*self.head).links.get_unchecked_mut(0).next,
+                current: (*self.head).get_pointer(0).next,
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 600a358..66f7f20 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -27,11 +27,11 @@ impl<T, U> Node<T, U> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &*mut Node<T, U> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut *mut Node<T, U> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_layout(links_len: usize) -> Layout {
@@ -51,7 +51,7 @@ impl<T, U> Node<T, U> {
         }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -399,7 +399,7 @@ impl<T, U> SkipMap<T, U> {
                 let next_node = *(*curr_node).get_pointer(0);
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -592,8 +592,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -629,7 +629,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -684,8 +684,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -726,7 +726,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -759,8 +759,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -808,7 +808,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -959,9 +959,9 @@ impl<T, U> IntoIterator for SkipMap<T, U> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: *(*self.head).links.get_unchecked_mut(0),
+                current: *(*self.head).get_pointer(0),
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
-- 
2.43.0


From 5a39b3215f1a8f4865445a8f935602341bd834e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 12/18] fix: inserting an existing key into a full B+ tree leaf
 keeps its other entries

---
 src/bp_tree/node.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index e4f79b1..82df1c8 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -247,14 +247,15 @@ impl<T, U> LeafNode<T, U> {
         }
         // node is full; have to split
         else {
+            if let Some(index) = self.search(&new_entry.key) {
+                let entry = mem::replace(&mut self.entries[index], Some(new_entry));
+                return entry.map(InsertCases::Entry);
+            }
             let mut split_node = LeafNode::new(leaf_degree);
             for index in 0..leaf_degree {
                 if let Some(ref mut entry) = self.entries[index] {
                     if new_entry <= *entry {
                         mem::swap(entry, &mut new_entry);
-                        if new_entry == *entry {
-                            return Some(InsertCases::Entry(new_entry));
-                        }
                     }
                 }
                 if index > leaf_degree / 2 {
-- 
2.43.0


From cdd6430f4721065088eeafe89b2a35bd882e65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 13/18] fix: pages of a B+ tree hold the encoding of full nodes
 for all key and value types

---
 src/bp_tree/node.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index 82df1c8..9739b8b 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -5,6 +5,7 @@ use std::cmp::{self, Ordering};
 use std::marker::PhantomData;
 use std::mem;
 
+const U32_SIZE: u64 = mem::size_of::<u32>() as u64;
 const U64_SIZE: u64 = mem::size_of::<u64>() as u64;
 const OPT_U64_SIZE: u64 = mem::size_of::<Option<u64>>() as u64;
 pub const BLOCK_SIZE: u64 = 4096;
@@ -372,9 +373,20 @@ impl<T, U> Node<T, U> {
         leaf_degree: usize,
         internal_degree: usize,
     ) -> u64 {
+        // An encoded node starts with the u32 tag of its variant, and every key or entry has a tag
+        // of 1 byte, which `mem::size_of` does not count for types whose `Option` is no larger.
+        let leaf_size = U32_SIZE
+            + U64_SIZE * 3
+            + 1
+            + leaf_degree as u64 * (1 + key_size + value_size);
+        let internal_size =
+            U32_SIZE + U64_SIZE * 4 + internal_degree as u64 * (1 + key_size + U64_SIZE);
         cmp::max(
-            LeafNode::<T, U>::get_max_size(leaf_degree, key_size, value_size),
-            InternalNode::<T, U>::get_max_size(internal_degree, key_size),
+            cmp::max(leaf_size, internal_size),
+            cmp::max(
+                LeafNode::<T, U>::get_max_size(leaf_degree, key_size, value_size),
+                InternalNode::<T, U>::get_max_size(internal_degree, key_size),
+            ),
         )
     }
 }
-- 
2.43.0


From 9110d396951bd4b3b6fcaf666431f07e0a2e5e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 14/18] fix: internal nodes of a B+ tree with internal degree 2
 do not lose their last key

---
 src/bp_tree/map.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bp_tree/map.rs b/src/bp_tree/map.rs
index 80e2f8a..57b1783 100644
--- a/src/bp_tree/map.rs
+++ b/src/bp_tree/map.rs
@@ -4,6 +4,7 @@ use crate::entry::Entry;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use std::borrow::Borrow;
+use std::cmp;
 use std::mem;
 use std::path::Path;
 
@@ -372,11 +373,13 @@ impl<T, U> BpMap<T, U> {
             _ => panic!("Expected a leaf node."),
         }
 
+        // an internal node other than the root has at least two pointers, and so a sibling
+        let min_pointers = cmp::max((self.pager.get_internal_degree() + 1) / 2, 2);
         while let Some((delete_index, curr_page, mut curr_node)) = delete_entry {
             delete_entry = None;
             curr_node.remove_at(delete_index, true);
 
-            let is_underflow = curr_node.len + 1 < (self.pager.get_internal_degree() + 1) / 2;
+            let is_underflow = curr_node.len + 1 < min_pointers;
             if is_underflow {
                 if let Some((parent_page, parent_node, curr_index)) = stack.pop() {
                     let mut parent_node = {
@@ -400,7 +403,7 @@ impl<T, U> BpMap<T, U> {
                         }
                     };
 
-                    if sibling_node.len + 1 == (self.pager.get_internal_degree() + 1) / 2 {
+                    if sibling_node.len + 1 == min_pointers {
                         if sibling_index == curr_index + 1 {
                             let parent_key = parent_node.keys[curr_index]
                                 .clone()
-- 
2.43.0


From 2735c2deefb9bd815df9af852c43e0364173cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:43 +0000
Subject: [PATCH 15/18] fix: an LSM map that was never written to can be opened
 again

---
 src/lsm_tree/compaction/leveled.rs     | 2 ++
 src/lsm_tree/compaction/size_tiered.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index ac7bd62..15702de 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -189,6 +189,8 @@ where
             let curr_metadata = ret.curr_metadata.lock().unwrap();
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            ret.logical_time_file
+                .write_u64::<BigEndian>(ret.curr_logical_time)?;
         }
 
         Ok(ret)
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index bd44d8d..31e9a05 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -243,6 +243,8 @@ impl<T, U> SizeTieredStrategy<T, U> {
             let curr_metadata = ret.curr_metadata.lock().unwrap();
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            ret.logical_time_file
+                .write_u64::<BigEndian>(ret.curr_logical_time)?;
         }
 
         Ok(ret)
-- 
2.43.0


From 187d8df848808140291ebdf06f5f61ae1313aa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 16/18] fix: LsmMap::min and max respect keys that were removed
 or inserted since the last flush

---
 src/lsm_tree/map.rs | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index a5a38d0..b013b43 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -4,7 +4,6 @@ use bincode::serialized_size;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use std::borrow::Borrow;
-use std::cmp;
 use std::collections::BTreeMap;
 use std::hash::Hash;
 use std::mem;
@@ -401,20 +400,8 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn min(&mut self) -> Result<Option<T>> {
-        let in_memory_min = self
-            .in_memory_tree
-            .iter()
-            .find(|entry| entry.1.data.is_some())
-            .map(|entry| entry.0.clone());
-        let disk_min = self.compaction_strategy.min()?;
-
-        if in_memory_min.is_none() {
-            Ok(disk_min)
-        } else if disk_min.is_none() {
-            Ok(in_memory_min)
-        } else {
-            Ok(cmp::min(in_memory_min, disk_min))
-        }
+        self.flush()?;
+        self.compaction_strategy.min()
     }
 
     /// Returns the maximum key of the map. Returns `None` if the map is empty.
@@ -440,14 +427,8 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn max(&mut self) -> Result<Option<T>> {
-        Ok(cmp::max(
-            self.in_memory_tree
-                .iter()
-                .rev()
-                .find(|entry| entry.1.data.is_some())
-                .map(|entry| entry.0.clone()),
-            self.compaction_strategy.max()?,
-        ))
+        self.flush()?;
+        self.compaction_strategy.max()
     }
 
     /// Flushes the in-memory tree into a SSTable if it is not empty. The map must be flushed
-- 
2.43.0


From e2bca0842cda0f5f12b0eac4f0da93981a8cc51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:07 +0000
Subject: [PATCH 17/18] fix: size-tiered compaction that purges tombstones does
 not bring back SSTables it merged

---
 src/lsm_tree/compaction/size_tiered.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 31e9a05..ec2aece 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -33,6 +33,9 @@ struct SizeTieredMetadata<T, U> {
     sstables: Vec<Arc<SSTable<T, U>>>,
 }
 
+// (metadata after a compaction, paths of the SSTables the compaction started from)
+type NextSizeTieredMetadata<T, U> = (SizeTieredMetadata<T, U>, HashSet<PathBuf>);
+
 impl<T, U> SizeTieredMetadata<T, U> {
     pub fn new(
         max_in_memory_size: u64,
@@ -175,7 +178,7 @@ pub struct SizeTieredStrategy<T, U> {
     metadata_lock_count: Rc<Cell<u64>>,
     metadata_file: fs::File,
     curr_metadata: Arc<Mutex<SizeTieredMetadata<T, U>>>,
-    next_metadata: Arc<Mutex<Option<SizeTieredMetadata<T, U>>>>,
+    next_metadata: Arc<Mutex<Option<NextSizeTieredMetadata<T, U>>>>,
 }
 
 impl<T, U> SizeTieredStrategy<T, U> {
@@ -300,7 +303,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
         path: P,
         is_compacting: &Arc<AtomicBool>,
         mut metadata_snapshot: SizeTieredMetadata<T, U>,
-        next_metadata: &Arc<Mutex<Option<SizeTieredMetadata<T, U>>>>,
+        next_metadata: &Arc<Mutex<Option<NextSizeTieredMetadata<T, U>>>>,
         range: (usize, usize),
     ) -> Result<()>
     where
@@ -310,8 +313,13 @@ impl<T, U> SizeTieredStrategy<T, U> {
     {
         println!("Started compacting.");
 
+        let snapshot_paths = metadata_snapshot
+            .sstables
+            .iter()
+            .map(|sstable| sstable.path.clone())
+            .collect();
         metadata_snapshot.compact(path, range)?;
-        *next_metadata.lock().unwrap() = Some(metadata_snapshot);
+        *next_metadata.lock().unwrap() = Some((metadata_snapshot, snapshot_paths));
         is_compacting.store(false, Ordering::Release);
 
         println!("Finished compacting");
@@ -355,17 +363,12 @@ impl<T, U> SizeTieredStrategy<T, U> {
     ) -> Result<bool> {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
-        if let Some(next_metadata) = next_metadata.take() {
-            let logical_time_opt = next_metadata
-                .sstables
-                .iter()
-                .map(|sstable| sstable.summary.logical_time_range.1)
-                .max();
+        if let Some((next_metadata, snapshot_paths)) = next_metadata.take() {
             let old_sstables = mem::replace(&mut curr_metadata.sstables, next_metadata.sstables);
             curr_metadata.sstables.extend(
                 old_sstables
                     .iter()
-                    .filter(|sstable| Some(sstable.summary.logical_time_range.1) > logical_time_opt)
+                    .filter(|sstable| !snapshot_paths.contains(&sstable.path))
                     .map(|sstable| Arc::clone(sstable)),
             );
 
-- 
2.43.0


From 08123216797550708ef252a649fe61397bdf41a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:30 +0000
Subject: [PATCH 18/18] fix: sync::Stack drops each value once

---
 src/sync/stack.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 6570afa..d46e80a 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -1,9 +1,11 @@
 use crossbeam_epoch::{self, Atomic, Owned};
+use std::mem::ManuallyDrop;
 use std::ptr;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 struct Node<T> {
-    value: T,
+    // dropped by the owner of the popped value and not with the node
+    value: ManuallyDrop<T>,
     next: Atomic<Node<T>>,
 }
 
@@ -61,7 +63,7 @@ impl<T> Stack<T> {
     /// ```
     pub fn push(&self, value: T) {
         let mut new_node = Owned::new(Node {
-            value,
+            value: ManuallyDrop::new(value),
             next: Atomic::null(),
         });
 
@@ -112,7 +114,7 @@ impl<T> Stack<T> {
                         unsafe {
                             self.len.fetch_sub(1, Ordering::Release);
                             guard.defer(move || head_shared.into_owned());
-                            return Some(ptr::read(&(*head).value));
+                            return Some(ManuallyDrop::into_inner(ptr::read(&(*head).value)));
                         }
                     }
                 }
@@ -156,6 +158,12 @@ impl<T> Stack<T> {
     }
 }
 
+impl<T> Drop for Stack<T> {
+    fn drop(&mut self) {
+        while self.try_pop().is_some() {}
+    }
+}
+
 impl<T> Default for Stack<T> {
     fn default() -> Self {
         Self::new()
-- 
2.43.0

