From dc2cc62798d580e9864540984e03ed0c3a8c4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 1/6] fix: drop list nodes iteratively whoever releases them
 last

When two threads drop the last two lists sharing a node at the same time both
may see it as shared, and the one that releases it last then drops the rest of
the chain recursively.  The same happens when the drop of an element panics.
---
 src/list/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 1742738..8eae8b3 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -400,17 +400,19 @@ where
     }
 }
 
-// Drop the list iteratively to prevent stack overflow.
-impl<T, P> Drop for List<T, P>
+// Drop the nodes iteratively to prevent stack overflow.  This is done by the node and not by the list
+// because the last handle to a node might also be released by something else than the list owning it:
+// by another thread dropping a list that shares it, or by unwinding.
+impl<T, P> Drop for Node<T, P>
 where
     P: SharedPointerKind,
 {
     fn drop(&mut self) {
-        let mut head = self.head.take();
-        while let Some(node) = head {
+        let mut next = self.next.take();
+        while let Some(node) = next {
             match SharedPointer::try_unwrap(node) {
                 Ok(mut node) => {
-                    head = node.next.take();
+                    next = node.next.take();
                 }
                 _ => {
                     break;
-- 
2.43.0


From cb4b2c0d9308519db5bf5c5e59ce5595d979d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 2/6] fix: do not allocate for the upper bound of an iterator's
 size hint

The upper bound may be arbitrarily larger than the number of elements: building
a list from (0..u64::MAX).filter(..) panicked with a capacity overflow.
---
 src/list/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 8eae8b3..bb1a472 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -383,8 +383,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = T>>(into_iter: I) -> List<T, P> {
         let iter = into_iter.into_iter();
-        let (min_size, max_size_hint) = iter.size_hint();
-        let mut vec: Vec<T> = Vec::with_capacity(max_size_hint.unwrap_or(min_size));
+        let (min_size, _) = iter.size_hint();
+        let mut vec: Vec<T> = Vec::with_capacity(min_size);
 
         for e in iter {
             vec.push(e);
-- 
2.43.0


From e527cb7afd774f669f4e6b4ccd6415f33fd0cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 3/6] fix: do not trust the announced length when deserializing
 a list

Input announcing a huge sequence made the deserialization of lists, stacks and
queues abort or panic instead of reporting an error.
---
 src/list/mod.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index bb1a472..f860ad4 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -513,11 +513,8 @@ pub mod serde {
         where
             A: SeqAccess<'de>,
         {
-            let mut vec: Vec<T> = if let Some(capacity) = seq.size_hint() {
-                Vec::with_capacity(capacity)
-            } else {
-                Vec::new()
-            };
+            // The hint comes from the serialized data, so do not trust it with a large allocation.
+            let mut vec: Vec<T> = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(1024));
 
             while let Some(value) = seq.next_element()? {
                 vec.push(value);
-- 
2.43.0


From df5466d756f3700b350e2a584b346a213282a15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 4/6] fix: keep colliding entries when the equality of a key
 panics

Removing from a bucket of colliding entries took entries out while looking for
the key, and lost them if comparing a key panicked.
---
 src/map/hash_trie_map/mod.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/map/hash_trie_map/mod.rs b/src/map/hash_trie_map/mod.rs
index 4ded787..0cabb75 100644
--- a/src/map/hash_trie_map/mod.rs
+++ b/src/map/hash_trie_map/mod.rs
@@ -473,22 +473,19 @@ mod bucket_utils {
         list: &mut List<T, P>,
         predicate: F,
     ) -> Option<T> {
-        let mut before_needle: Vec<T> = Vec::with_capacity(list.len());
+        // Evaluate the predicate before changing anything, since it might panic.
+        let needle_index = list.iter().position(predicate)?;
+        let mut before_needle: Vec<T> = Vec::with_capacity(needle_index);
         let remaining: &mut List<T, P> = list;
-        let mut removed = None;
-
-        while !remaining.is_empty() {
-            let e: T = remaining.first().unwrap().clone();
 
+        for _ in 0..needle_index {
+            before_needle.push(remaining.first().unwrap().clone());
             remaining.drop_first_mut();
+        }
 
-            if predicate(&e) {
-                removed = Some(e);
-                break;
-            }
+        let removed = remaining.first().cloned();
 
-            before_needle.push(e);
-        }
+        remaining.drop_first_mut();
 
         let new_entries = remaining;
 
-- 
2.43.0


From fc5b583d8f7f6524d59753d5826a3145ceaa3680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 5/6] fix: reject hash trie maps of degree one

Degree one is a power of two but never consumes any of the hash, so inserting a
second key never ended.
---
 src/map/hash_trie_map/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/map/hash_trie_map/mod.rs b/src/map/hash_trie_map/mod.rs
index 0cabb75..78c95d1 100644
--- a/src/map/hash_trie_map/mod.rs
+++ b/src/map/hash_trie_map/mod.rs
@@ -748,6 +748,7 @@ where
     ) -> HashTrieMap<K, V, P, H> {
         assert!(degree.is_power_of_two(), "degree must be a power of two");
         assert!(degree <= DEFAULT_DEGREE, "degree is too big");
+        assert!(degree > 1, "degree is too small");
 
         HashTrieMap {
             root: SharedPointer::new(Node::new_empty_branch()),
-- 
2.43.0


From 895884b90be6edd3c1e7289bdabb99f106ee5dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 6/6] fix: reject vectors with more bits than an index has

The branching factor overflowed with them, and elements were lost.
---
 src/vector/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 5a0d73b..a265675 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -294,6 +294,7 @@ where
     #[must_use]
     pub fn new_with_bits(bits: u8) -> Vector<T, P> {
         assert!(bits > 0, "number of bits for the vector must be positive");
+        assert!(u32::from(bits) < usize::BITS, "number of bits for the vector is too big");
 
         Vector { root: SharedPointer::new(Node::new_empty_leaf()), bits, length: 0 }
     }
-- 
2.43.0

