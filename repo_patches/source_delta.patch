From 1bfceb747679a5f45773bdf0f0c6c02f1d0df238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 01/14] fix: clear the right set when CycleMap::drain is
 dropped early

Dropping a partially consumed DrainIter emptied the left set only. The
leftover right items had no companion, so later calls panicked.
---
 src/cycle_map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 9d1ca7f..a40b786 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -1311,6 +1311,14 @@ pub struct DrainIter<'a, L, R> {
     right_ref: &'a mut RawTable<MappingPair<R>>,
 }
 
+impl<L, R> Drop for DrainIter<'_, L, R> {
+    fn drop(&mut self) {
+        // The left set is emptied by `RawDrain`. If this iterator is dropped before being consumed,
+        // the companions of the remaining left items are still in the right set.
+        self.right_ref.clear();
+    }
+}
+
 impl<'a, L, R> Iterator for DrainIter<'a, L, R>
 where
     L: Hash + Eq,
-- 
2.43.0


From af892c833ec404c991ab4816fafdea75fc01f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 02/14] fix: swap_left and swap_right do nothing when old is
 absent

With old absent but new present, new's cycle was silently removed and
Neither was returned.
---
 src/cycle_map.rs         | 8 ++++++++
 src/partial_cycle_map.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index a40b786..a1cd7ac 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -348,6 +348,10 @@ where
     /// assert!(map.are_paired(&0, &"84".to_string()));
     /// ```
     pub fn swap_left(&mut self, old: &L, new: L) -> OptionalPair<L, (L, R)> {
+        // There is nothing to swap, so nothing should be removed
+        if !self.contains_left(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
@@ -498,6 +502,10 @@ where
     /// assert!(map.are_paired(&84, &"0".to_string()));
     /// ```
     pub fn swap_right(&mut self, old: &R, new: R) -> OptionalPair<R, (L, R)> {
+        // There is nothing to swap, so nothing should be removed
+        if !self.contains_right(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 229d56a..bcc3d98 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -840,6 +840,10 @@ where
     /// assert_eq!(map.swap_left(&4, 5), Neither);
     /// ```
     pub fn swap_left(&mut self, old: &L, new: L) -> OptionalPair<L, OptionalPair<L, R>> {
+        // There is nothing to swap, so nothing should be removed
+        if !self.contains_left(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
@@ -995,6 +999,10 @@ where
     /// assert_eq!(map.swap_right(&"4", "5"), Neither);
     /// ```
     pub fn swap_right(&mut self, old: &R, new: R) -> OptionalPair<R, OptionalPair<L, R>> {
+        // There is nothing to swap, so nothing should be removed
+        if !self.contains_right(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
-- 
2.43.0


From 9b30c668f69d05824acf59a9fdf6c9630ce16898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 03/14] fix: swap_*_or_insert no longer panic when the new
 items displace others

The insert fallback reached unreachable!() when old was absent and the
inserted items were already in the map.
---
 src/cycle_map.rs         |  9 +++------
 src/partial_cycle_map.rs | 18 ++++++++++--------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index a1cd7ac..d368693 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -615,13 +615,10 @@ where
         {
             self.swap_right(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
             match self.insert(to_insert, new) {
-                InsertOptional::Neither => Neither,
-                InsertOptional::SomeRight(pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
-                }
+                Neither => Neither,
+                SomeLeft(pair) | SomeRight(pair) => SomeRight(pair),
+                SomeBoth(l_pair, (_, r)) => SomeBoth(r, l_pair),
             }
         }
     }
diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index bcc3d98..f6b0817 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -951,12 +951,13 @@ where
         if self.left_set.get(old_l_hash, equivalent_key(old)).is_some() {
             self.swap_left(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
             match self.insert(new, to_insert) {
                 (Neither, Neither) => Neither,
-                (Neither, pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
+                (Neither, pair) | (pair, Neither) => SomeRight(pair),
+                (l_pair, r_pair) => {
+                    // `l_pair` held an item equal to the new left item
+                    let (left, _) = l_pair.into();
+                    OptionalPair::from((left, Some(r_pair)))
                 }
             }
         }
@@ -1115,12 +1116,13 @@ where
         {
             self.swap_right(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
             match self.insert(to_insert, new) {
                 (Neither, Neither) => Neither,
-                (pair, Neither) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
+                (pair, Neither) | (Neither, pair) => SomeRight(pair),
+                (l_pair, r_pair) => {
+                    // `r_pair` held an item equal to the new right item
+                    let (_, right) = r_pair.into();
+                    OptionalPair::from((right, Some(l_pair)))
                 }
             }
         }
-- 
2.43.0


From 458793ce362e4ea1307c7669a97f1f7412210146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 04/14] fix: PartialCycleMap::unpair only unpairs items paired
 with each other

Under colliding hashes two items paired with other items were accepted,
as their ids were not compared.
---
 src/partial_cycle_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index f6b0817..996ff31 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -555,7 +555,7 @@ where
         match (opt_left, opt_right) {
             (Some(left), Some(right)) => match (left.hash, right.hash) {
                 (Some(l_h), Some(r_h)) => {
-                    if l_hash == r_h && r_hash == l_h {
+                    if left.id == right.id && l_hash == r_h && r_hash == l_h {
                         left.hash = None;
                         right.hash = None;
                         right.id = self.counter;
-- 
2.43.0


From f823311a8c8ea896940b04e9ad3cc44d5113adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 05/14] fix: PartialCycleMap::drain yields every unpaired right
 item

Each call drained the right set anew and dropped all but one item.
---
 src/partial_cycle_map.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 996ff31..feb0c0d 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1376,7 +1376,8 @@ where
     pub fn drain(&mut self) -> DrainIter<'_, L, R> {
         DrainIter {
             left_iter: self.left_set.drain(),
-            right_ref: &mut self.right_set,
+            right_ref: Some(&mut self.right_set),
+            right_iter: None,
         }
     }
 
@@ -2284,7 +2285,10 @@ where
     R: Eq + Hash,
 {
     left_iter: RawDrain<'a, MappingPair<L>>,
-    right_ref: &'a mut RawTable<MappingPair<R>>,
+    // The right set, until the left set is exhausted
+    right_ref: Option<&'a mut RawTable<MappingPair<R>>>,
+    // The remaining (unpaired) right items, once the left set is exhausted
+    right_iter: Option<RawDrain<'a, MappingPair<R>>>,
 }
 
 impl<'a, L, R> Drop for DrainIter<'a, L, R>
@@ -2323,6 +2327,7 @@ where
                 Some(hash) => {
                     let right = self
                         .right_ref
+                        .as_mut()?
                         .remove_entry(hash, just_id(left.id))
                         .unwrap()
                         .extract();
@@ -2330,11 +2335,15 @@ where
                 }
                 None => Some(SomeLeft(left.extract())),
             },
-            None => self
-                .right_ref
-                .drain()
-                .next()
-                .map(|right| SomeRight(right.extract())),
+            None => {
+                if let Some(right_set) = self.right_ref.take() {
+                    self.right_iter = Some(right_set.drain());
+                }
+                self.right_iter
+                    .as_mut()?
+                    .next()
+                    .map(|right| SomeRight(right.extract()))
+            }
         }
     }
 
-- 
2.43.0


From fed93c05e42af9e3970dd424bb249cc911fc7b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 06/14] fix: PartialCycleMap::drain_filter visits paired items
 only as a pair

Right items of kept pairs were offered again as SomeRight and could be
removed, leaving their left items dangling.
---
 src/partial_cycle_map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index feb0c0d..b9e7b26 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2456,6 +2456,10 @@ impl<L: Eq, R: Eq> DrainFilterInner<'_, L, R> {
         }
         for right in self.right_iter.by_ref() {
             let r_pairing = unsafe { right.as_ref() };
+            // Paired items were already visited together with their left item
+            if r_pairing.hash.is_some() {
+                continue;
+            }
             if f(SomeRight(&r_pairing.value)) {
                 let r = unsafe { self.right_ref.remove(right).extract() };
                 return Some(SomeRight(r));
-- 
2.43.0


From 8f1c68edeb474e15b64dd86d845d87a34b0eced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 07/14] fix: PartialCycleMap::iter visits unpaired right items

Debug, and equality, are built on iter and missed them too. What retain
visits is unchanged.
---
 src/partial_cycle_map.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index b9e7b26..0cdcfbf 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1258,6 +1258,7 @@ where
     pub fn iter(&self) -> Iter<'_, L, R, S> {
         Iter {
             left_iter: unsafe { self.left_set.iter() },
+            right_iter: unsafe { self.right_set.iter() },
             map_ref: self,
         }
     }
@@ -1448,7 +1449,8 @@ where
     {
         let mut to_drop: Vec<(Option<u64>, Option<u64>, u64)> =
             Vec::with_capacity(self.left_set.len());
-        for op in self.iter() {
+        // Right items without a left item are not visited
+        for op in self.iter().filter(|op| op.get_left().is_some()) {
             if f(&op) {
                 let (left, right): (Option<&L>, Option<&R>) = op.into();
                 let l_hash = left.map(|l| make_hash::<L, S>(&self.hash_builder, l));
@@ -1999,6 +2001,7 @@ where
 /// An iterator over the entry items of a `PartialCycleMap`.
 pub struct Iter<'a, L, R, S> {
     left_iter: RawIter<MappingPair<L>>,
+    right_iter: RawIter<MappingPair<R>>,
     map_ref: &'a PartialCycleMap<L, R, S>,
 }
 
@@ -2006,6 +2009,7 @@ impl<L, R, S> Clone for Iter<'_, L, R, S> {
     fn clone(&self) -> Self {
         Self {
             left_iter: self.left_iter.clone(),
+            right_iter: self.right_iter.clone(),
             map_ref: self.map_ref,
         }
     }
@@ -2037,7 +2041,13 @@ where
                 let right = self.map_ref.get_right(left);
                 Some(OptionalPair::from((Some(left), right)))
             },
-            None => None,
+            // Paired right items were already visited together with their left item
+            None => self
+                .right_iter
+                .by_ref()
+                .map(|r| unsafe { r.as_ref() })
+                .find(|r| r.hash.is_none())
+                .map(|r| SomeRight(&r.value)),
         }
     }
 
-- 
2.43.0


From aeadc7f8772d65e9504b2770d3d9ceac77fca6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 08/14] fix: GroupMap swap_right and swap_right_remove update
 both directions

The left items kept the id of the old right item, so get_right lost them
and iter_paired panicked. An existing item equal to the new one was
duplicated.
---
 src/group_map.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index c33b224..53033d8 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -470,6 +470,12 @@ where
     ///
     /// [`swap_right_remove`]: #method.swap_right_remove
     pub fn swap_right(&mut self, old: &R, new: R) {
+        if *old == new && self.contains_right(old) {
+            // All items are already paired with an item equal to `new`
+            return;
+        }
+        // Like in `insert_right`, an equal item is replaced
+        self.remove_right(&new);
         let old_hash = make_hash::<R, S>(&self.hash_builder, old);
         match self.right_set.get_mut(old_hash, equivalent_key_right(old)) {
             None => {
@@ -483,14 +489,14 @@ where
                     pairs: set.clone(),
                     id: self.right_counter,
                 };
+                let new_id = item.id;
                 self.right_set
                     .insert(new_hash, item, make_hasher(&self.hash_builder));
                 self.right_counter += 1;
                 for (hash, id) in set {
-                    self.left_set
-                        .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
+                    let l = self.left_set.get_mut(hash, left_with_left_id(id)).unwrap();
+                    l.hash = new_hash;
+                    l.r_id = new_id;
                 }
             }
         }
@@ -523,6 +529,8 @@ where
                 None
             }
             Some(mut r) => {
+                // Like in `insert_right`, an equal item is replaced
+                self.remove_right(&new);
                 let set: HashSet<(u64, ID)> = r.pairs.drain().collect();
                 let new_hash = make_hash::<R, S>(&self.hash_builder, &new);
                 let item = RightItem {
@@ -530,14 +538,14 @@ where
                     pairs: set.clone(),
                     id: self.right_counter,
                 };
+                let new_id = item.id;
                 self.right_set
                     .insert(new_hash, item, make_hasher(&self.hash_builder));
                 self.right_counter += 1;
                 for (hash, id) in set {
-                    self.left_set
-                        .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
+                    let l = self.left_set.get_mut(hash, left_with_left_id(id)).unwrap();
+                    l.hash = new_hash;
+                    l.r_id = new_id;
                 }
                 Some(r.value)
             }
-- 
2.43.0


From 12b35636f5f0152007c6d266b94b63925d072093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 09/14] fix: GroupMap::retain_paired also updates the right
 items

Removed left items stayed in the pair sets of their right items, and
iterating or removing those panicked later.
---
 src/group_map.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 53033d8..a94e95e 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -991,7 +991,13 @@ where
             }
         }
         for (l_hash, id) in to_drop {
-            self.left_set.remove_entry(l_hash, left_with_left_id(id));
+            if let Some(l) = self.left_set.remove_entry(l_hash, left_with_left_id(id)) {
+                self.right_set
+                    .get_mut(l.hash, right_with_right_id(l.r_id))
+                    .unwrap()
+                    .pairs
+                    .remove(&(l_hash, id));
+            }
         }
     }
 
-- 
2.43.0


From e8b584b91ad94c9f45a112b2a00a2596ab00f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 10/14] fix: GroupMap equality compares both sizes and unpaired
 right items

---
 src/group_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index a94e95e..b55b401 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1079,12 +1079,12 @@ where
     S: BuildHasher,
 {
     fn eq(&self, other: &Self) -> bool {
-        if self.len_left() != other.len_left() && self.len_right() != other.len_right() {
+        if self.len_left() != other.len_left() || self.len_right() != other.len_right() {
             return false;
         }
         self.iter().all(|(l_opt, r)| match l_opt {
             Some(l) => other.are_paired(l, r),
-            None => !other.is_right_paired(r),
+            None => other.contains_right(r) && !other.is_right_paired(r),
         })
     }
 }
-- 
2.43.0


From cb3289cd730b8948885d2589e18648fdb0d8364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 11/14] fix: cloning a GroupMap iterator keeps the group in
 progress

---
 src/group_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index b55b401..c8ba655 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1328,7 +1328,7 @@ impl<L, R, S> Clone for Iter<'_, L, R, S> {
     fn clone(&self) -> Self {
         Self {
             right_iter: self.right_iter.clone(),
-            left_iter: None,
+            left_iter: self.left_iter.clone(),
             map_ref: self.map_ref,
         }
     }
-- 
2.43.0


From bb178bd9cb7512cdf7c6fdb94e40997cca78ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 12/14] fix: size_hint and len of partial and group map
 iterators are exact

They counted one raw table instead of the items to be yielded.
---
 src/group_map.rs         |  6 ++++--
 src/partial_cycle_map.rs | 33 +++++++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index c8ba655..5db6794 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1391,7 +1391,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -1531,7 +1532,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 0cdcfbf..f630a02 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2052,7 +2052,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -2129,7 +2130,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -2209,7 +2211,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -2358,7 +2361,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -2368,7 +2372,18 @@ where
     R: Hash + Eq,
 {
     fn len(&self) -> usize {
-        self.left_iter.len()
+        // Every left item is yielded, and every right item that is not paired with one of them
+        let rights = match (&self.right_ref, &self.right_iter) {
+            (Some(right_set), _) => unsafe {
+                right_set
+                    .iter()
+                    .filter(|r| r.as_ref().hash.is_none())
+                    .count()
+            },
+            (None, Some(right_iter)) => right_iter.len(),
+            (None, None) => 0,
+        };
+        self.left_iter.len() + rights
     }
 }
 
@@ -2418,7 +2433,13 @@ where
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (0, self.inner.left_iter.size_hint().1)
+        // Every remaining left item and every right item might be yielded
+        let rights = if self.inner.reset_right_iter {
+            self.inner.right_ref.len()
+        } else {
+            self.inner.right_iter.len()
+        };
+        (0, Some(self.inner.left_iter.len() + rights))
     }
 }
 
-- 
2.43.0


From e518263a1114b61c6478bd4b21004645dfd66af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 13/14] fix: deserializing a CycleMap does not trust the
 announced length

---
 src/serde.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 62af85a..a202c9c 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -43,8 +43,10 @@ where
     where
         M: SeqAccess<'de>,
     {
+        // The hint is part of the (untrusted) input in some formats, so only small ones are used
+        let capacity = access.size_hint().unwrap_or(0).min(4096);
         let mut map: CycleMap<L, R, S> =
-            CycleMap::with_capacity_and_hasher(access.size_hint().unwrap_or(0), Default::default());
+            CycleMap::with_capacity_and_hasher(capacity, Default::default());
 
         while let Some(entry) = access.next_element::<(L, R)>()? {
             map.insert(entry.0, entry.1);
-- 
2.43.0


From f193c85ac552b04ea600b55e508c531b64094b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 14/14] fix: CycleMap::capacity counts what both sets can hold

---
 src/cycle_map.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index d368693..c3b5424 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -1036,7 +1036,8 @@ impl<L, R, S> CycleMap<L, R, S> {
 
     /// Returns the number of items that the inner sets can hold without reallocation.
     ///
-    /// Note: Only one value is returned since both sets always have the same capacity.
+    /// Note: Only one value is returned. It is what both sets can hold; one of them might be able to
+    /// hold more.
     ///
     /// # Examples
     /// ```rust
@@ -1045,8 +1046,9 @@ impl<L, R, S> CycleMap<L, R, S> {
     /// assert!(map.capacity() >= 100);
     /// ```
     pub fn capacity(&self) -> usize {
-        // The size of the sets is always equal
-        self.left_set.capacity()
+        // The sets always have the same length, but erased items can take up capacity in one of
+        // them only
+        self.left_set.capacity().min(self.right_set.capacity())
     }
 
     /// Returns the number of items in the inner sets.
-- 
2.43.0

