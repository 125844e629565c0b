From 925c94f4534c75b628aa7c82d2525b1b2b33a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 01/18] fix: bin phrases only by boundaries they have reached

finish() never terminated for a phrase id of u32::MAX, and put phrases that
come before the first prefix boundary into the first prefix's cache entry, so
that range queries over that prefix returned phrases outside the range.
---
 rust-src/src/gridstore/builder.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 545ecda..1dd0cdd 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -191,11 +191,9 @@ impl GridStoreBuilder {
 
         let mut bin_seq = self.bin_boundaries.iter().cloned().peekable();
         let mut current_bin = None;
-        let mut next_boundary = 0u32;
         let grouped = somewhat_eager_groupby(self.data.into_iter(), |(key, _value)| {
-            while key.phrase_id >= next_boundary {
+            while bin_seq.peek().map_or(false, |boundary| key.phrase_id >= *boundary) {
                 current_bin = bin_seq.next();
-                next_boundary = *(bin_seq.peek().unwrap_or(&std::u32::MAX));
             }
 
             current_bin
-- 
2.43.0


From 6b982d5560b0020ed1932f37619ad1b8e2135f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 02/18] fix: truncate scores to four bits when building

GridEntry documents that scores are truncated to four bits; without the mask a
larger score spilled into the relevance bits it is packed with.
---
 rust-src/src/gridstore/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 1dd0cdd..bd2bf26 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -22,7 +22,7 @@ pub struct GridStoreBuilder {
 /// Extends a BuildEntry with the given values.
 fn extend_entries(builder_entry: &mut BuilderEntry, values: Vec<GridEntry>) -> () {
     for (rs, rs_values) in somewhat_eager_groupby(values.into_iter(), |value| {
-        (relev_float_to_int(value.relev) << 4) | value.score
+        (relev_float_to_int(value.relev) << 4) | (value.score & 15)
     }) {
         let rs_entry =
             builder_entry.entry(rs).or_insert_with(|| HashMap::with_capacity(rs_values.len()));
@@ -133,7 +133,7 @@ impl GridStoreBuilder {
         let to_append =
             self.data.entry(key.to_owned()).or_insert_with(|| BuilderEntry::with_capacity(1));
 
-        let relev_score = (relev_float_to_int(relev) << 4) | score;
+        let relev_score = (relev_float_to_int(relev) << 4) | (score & 15);
         let id_hash = smallvec![(id << 8) | (source_phrase_hash as u32)];
         let relevance_score_entry =
             to_append.entry(relev_score).or_insert_with(|| HashMap::with_capacity(coords.len()));
-- 
2.43.0


From b36f1750b29bf4ac7c7b392d3c6e28f9e0d93904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 03/18] fix: match the greatest phrase id exactly

An exact match was turned into the range id..id+1, which overflows for a
phrase id of u32::MAX: a panic, or with wrapping arithmetic no matches.
---
 rust-src/src/gridstore/store.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rust-src/src/gridstore/store.rs b/rust-src/src/gridstore/store.rs
index 648a933..404b4f6 100644
--- a/rust-src/src/gridstore/store.rs
+++ b/rust-src/src/gridstore/store.rs
@@ -321,28 +321,26 @@ impl GridStore {
         match_opts: &MatchOpts,
         max_values: usize,
     ) -> Result<impl Iterator<Item = MatchEntry>, Error> {
-        let (fetch_start, fetch_end, fetch_type_marker) = match match_key.match_phrase {
-            MatchPhrase::Exact(id) => (id, id + 1, TypeMarker::SinglePhrase),
+        let fetch_type_marker = match match_key.match_phrase {
+            MatchPhrase::Exact(_) => TypeMarker::SinglePhrase,
             MatchPhrase::Range { start, end } => {
                 if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {
-                    (start, end, TypeMarker::PrefixBin)
+                    TypeMarker::PrefixBin
                 } else {
-                    (start, end, TypeMarker::SinglePhrase)
+                    TypeMarker::SinglePhrase
                 }
             }
         };
 
         let match_opts = match_opts.clone();
 
-        let mut range_key = match_key.clone();
-        range_key.match_phrase = MatchPhrase::Range { start: fetch_start, end: fetch_end };
         let mut db_key: Vec<u8> = Vec::new();
-        range_key.write_start_to(fetch_type_marker, &mut db_key)?;
+        match_key.write_start_to(fetch_type_marker, &mut db_key)?;
 
         let db_iter = self
             .db
             .iterator(IteratorMode::From(&db_key, Direction::Forward))
-            .take_while(|(k, _)| range_key.matches_key(fetch_type_marker, k).unwrap());
+            .take_while(|(k, _)| match_key.matches_key(fetch_type_marker, k).unwrap());
 
         let mut pri_queue = MinMaxHeap::<QueueElement<_>>::new();
 
-- 
2.43.0


From b471f685e4fbbd4ef9cbc8057146df9dab4532ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 04/18] fix: don't panic when asked to match at most zero
 values

---
 rust-src/src/gridstore/store.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rust-src/src/gridstore/store.rs b/rust-src/src/gridstore/store.rs
index 404b4f6..d6c907b 100644
--- a/rust-src/src/gridstore/store.rs
+++ b/rust-src/src/gridstore/store.rs
@@ -351,11 +351,11 @@ impl GridStore {
             if let Some(next_entry) = entry_iter.next() {
                 let queue_element = QueueElement { next_entry, entry_iter };
                 if pri_queue.len() >= max_values {
-                    let worst_entry = pri_queue.peek_min().unwrap();
-                    if worst_entry >= &queue_element {
-                        continue;
-                    } else {
-                        pri_queue.replace_min(queue_element);
+                    match pri_queue.peek_min() {
+                        Some(worst_entry) if worst_entry < &queue_element => {
+                            pri_queue.replace_min(queue_element);
+                        }
+                        _ => continue,
                     }
                 } else {
                     pri_queue.push(queue_element);
-- 
2.43.0


From 44d2a3eaec96ad3408c45766c61cfbb65f54da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 05/18] fix: coalescing an empty stack gives no contexts

It used to panic by indexing the empty stack.
---
 rust-src/src/gridstore/coalesce.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 956f3de..93bcb28 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -25,7 +25,9 @@ pub fn coalesce<T: Borrow<GridStore> + Clone + Debug>(
     stack: Vec<PhrasematchSubquery<T>>,
     match_opts: &MatchOpts,
 ) -> Result<Vec<CoalesceContext>, Error> {
-    let contexts = if stack.len() <= 1 {
+    let contexts = if stack.is_empty() {
+        Vec::new()
+    } else if stack.len() == 1 {
         coalesce_single(&stack[0], match_opts)?
     } else {
         coalesce_multi(stack, match_opts)?
-- 
2.43.0


From f83c57b81f0b0ebc3050e91c7228f6ff9b4aefa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 06/18] fix: don't mistake feature 0 for a repeat when
 coalescing a single subquery

The id of the previous feature started out as 0, so a feature whose id is 0 was
dropped if it came first and had a score of 0.
---
 rust-src/src/gridstore/coalesce.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 93bcb28..345593b 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -88,7 +88,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         bigger_max,
     )?;
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -100,7 +100,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         let coalesce_entry = grid_to_coalesce_entry(&grid, subquery, match_opts, 0);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -142,7 +142,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -151,7 +151,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
@@ -873,7 +873,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
     let bigger_max = 2 * MAX_CONTEXTS;
 
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -885,7 +885,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         let coalesce_entry = grid_to_coalesce_entry(&grid, &subquery, match_opts, phrasematch_id);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -927,7 +927,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -936,7 +936,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
-- 
2.43.0


From 56de5c2438ae62652a96cfb2e9ddad142c9dc2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 07/18] fix: count distinct features when deciding to stop a
 single coalesce

The count went up whenever the feature differed from that of the grid before,
so two features with interleaved tiles could use up the whole allowance and
keep every feature after them out of the results.
---
 rust-src/src/gridstore/coalesce.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 345593b..2fae3b5 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -139,12 +139,10 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
             }
             Entry::Vacant(entry) => {
                 entry.insert(coalesce_entry);
+                feature_count += 1;
             }
         }
 
-        if previous_id != Some(current_id) {
-            feature_count += 1;
-        }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
             break;
         }
@@ -924,12 +922,10 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
             }
             Entry::Vacant(entry) => {
                 entry.insert(coalesce_entry);
+                feature_count += 1;
             }
         }
 
-        if previous_id != Some(current_id) {
-            feature_count += 1;
-        }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
             break;
         }
-- 
2.43.0


From d657e9c4c2e378e4bb59d3d07700f3f55faacc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 08/18] fix: don't overflow when limiting to nearby near the
 far edge at zoom 16

---
 rust-src/src/gridstore/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index 5d3691d..02f50f8 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -169,8 +169,8 @@ impl MatchOpts {
         let mut new_box: [u16; 4] = [
             if prox[0] < padding { 0 } else { prox[0] - padding }, // prevent overflows because this is unsigned
             if prox[1] < padding { 0 } else { prox[1] - padding }, // ditto
-            prox[0] + padding,
-            prox[1] + padding,
+            prox[0].saturating_add(padding),
+            prox[1].saturating_add(padding),
         ];
 
         if let Some(old_box) = constrained.bbox {
-- 
2.43.0


From 5f15b26033f3e37d873efa3801b4d66a9a3ff6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 09/18] fix: a bounding box that is empty matches nothing

Limiting a query to features near a proximity point that is far away from its
bounding box produces an inverted box, which tripped a debug assertion.
---
 rust-src/src/gridstore/spatial.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust-src/src/gridstore/spatial.rs b/rust-src/src/gridstore/spatial.rs
index 38034b5..c2fb0ec 100644
--- a/rust-src/src/gridstore/spatial.rs
+++ b/rust-src/src/gridstore/spatial.rs
@@ -12,6 +12,11 @@ use crate::gridstore::gridstore_format;
 /// Returns (Some(min,max)) if the Coord Vector morton order range overlaps with the bounding box,
 /// [`None`] if the Coord Vector morton order range does not overlaps with the bounding box
 pub fn bbox_range<'a>(coords: UniformVec<'a, Coord>, bbox: [u16; 4]) -> Option<(u32, u32)> {
+    // limiting a bounding box to a disjoint one leaves an empty, inverted box
+    if bbox[0] > bbox[2] || bbox[1] > bbox[3] {
+        return None;
+    }
+
     let min = interleave_morton(bbox[0], bbox[1]);
     let max = interleave_morton(bbox[2], bbox[3]);
     debug_assert!(min <= max, "Invalid bounding box");
-- 
2.43.0


From 9653b2858039b71fa0058b9d0fb8a0b895c797b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 10/18] fix: scale tile coordinates across sixteen zoom levels

Shifting a 16-bit scale by 16 overflows: coalescing a subquery at zoom 16 as the
first of a stack panicked, and moving between zooms 0 and 16 gave wrong tiles.
---
 rust-src/src/gridstore/coalesce.rs | 12 ++++++------
 rust-src/src/gridstore/common.rs   | 13 ++++++++-----
 rust-src/src/gridstore/spatial.rs  | 18 +++++++++---------
 3 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 2fae3b5..9eaf82b 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -230,11 +230,11 @@ fn coalesce_multi<T: Borrow<GridStore> + Clone>(
             // See which other zooms are compatible.
             // These should all be lower zooms, so "zoom out" by dividing by 2^(difference in zooms)
             for other_zoom in compatible_zooms.iter() {
-                let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - *other_zoom);
+                let scale_factor = 1u32 << (subquery.store.borrow().zoom - *other_zoom);
                 let other_zxy = (
                     *other_zoom,
-                    entries[0].grid_entry.x / scale_factor,
-                    entries[0].grid_entry.y / scale_factor,
+                    (u32::from(entries[0].grid_entry.x) / scale_factor) as u16,
+                    (u32::from(entries[0].grid_entry.y) / scale_factor) as u16,
                 );
 
                 if let Some(already_coalesced) = coalesced.get(&other_zxy) {
@@ -702,7 +702,7 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
 
                     let mut phrasematch_contexts: Vec<CoalesceContext> = Vec::new();
 
-                    let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - step.prev_zoom);
+                    let scale_factor = 1u32 << (subquery.store.borrow().zoom - step.prev_zoom);
 
                     let mut state_contexts: Vec<CoalesceContext> = Vec::new();
 
@@ -722,8 +722,8 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                             // we're stacking on top of something that was already there
                             for grid in grids.iter() {
                                 let prev_zoom_xy = (
-                                    grid.grid_entry.x / scale_factor,
-                                    grid.grid_entry.y / scale_factor,
+                                    (u32::from(grid.grid_entry.x) / scale_factor) as u16,
+                                    (u32::from(grid.grid_entry.y) / scale_factor) as u16,
                                 );
 
                                 let entry = grid_to_coalesce_entry(
diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index 02f50f8..34ca8e7 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -132,18 +132,21 @@ impl MatchOpts {
                         // If this is a zoom out, divide by 2 for every level of zooming out.
                         let zoom_levels = self.zoom - target_z;
                         // Shifting to the right by a number is the same as dividing by 2 that number of times.
-                        Some([x >> zoom_levels, y >> zoom_levels])
+                        Some([
+                            (u32::from(*x) >> zoom_levels) as u16,
+                            (u32::from(*y) >> zoom_levels) as u16,
+                        ])
                     } else {
                         // If this is a zoom in, choose the closest to the middle of the possible tiles at the higher zoom level.
                         // The scale of the coordinates for zooming in is 2^(difference in zs).
-                        let scale_multiplier = 1 << (target_z - self.zoom);
+                        let scale_multiplier = 1u32 << (target_z - self.zoom);
                         // Pick a coordinate halfway between the possible higher zoom tiles,
                         // subtracting one to pick the one on the top left of the four middle tiles for consistency.
                         let mid_coord_adjuster = scale_multiplier / 2 - 1;
-                        let adjusted_x = x * scale_multiplier + mid_coord_adjuster;
-                        let adjusted_y = y * scale_multiplier + mid_coord_adjuster;
+                        let adjusted_x = u32::from(*x) * scale_multiplier + mid_coord_adjuster;
+                        let adjusted_y = u32::from(*y) * scale_multiplier + mid_coord_adjuster;
 
-                        Some([adjusted_x, adjusted_y])
+                        Some([adjusted_x as u16, adjusted_y as u16])
                     }
                 }
                 None => None,
diff --git a/rust-src/src/gridstore/spatial.rs b/rust-src/src/gridstore/spatial.rs
index c2fb0ec..201a92a 100644
--- a/rust-src/src/gridstore/spatial.rs
+++ b/rust-src/src/gridstore/spatial.rs
@@ -610,14 +610,14 @@ pub fn adjust_bbox_zoom(bbox: [u16; 4], source_z: u16, target_z: u16) -> [u16; 4
         // If this is a zoom out, divide each coordinate by 2^(number of zoom levels).
         // This is the same as shifting bits to the right by the number of zoom levels.
         [
-            bbox[0] >> zoom_levels,
-            bbox[1] >> zoom_levels,
-            bbox[2] >> zoom_levels,
-            bbox[3] >> zoom_levels,
+            (u32::from(bbox[0]) >> zoom_levels) as u16,
+            (u32::from(bbox[1]) >> zoom_levels) as u16,
+            (u32::from(bbox[2]) >> zoom_levels) as u16,
+            (u32::from(bbox[3]) >> zoom_levels) as u16,
         ]
     } else {
         // If this is a zoom in
-        let scale_multiplier = 1 << (target_z - source_z);
+        let scale_multiplier = 1u32 << (target_z - source_z);
 
         // Scale the top left (min x and y) tile coordinates by 2^(zoom diff).
         // Scale the bottom right (max x and y) tile coordinates by 2^(zoom diff),
@@ -625,10 +625,10 @@ pub fn adjust_bbox_zoom(bbox: [u16; 4], source_z: u16, target_z: u16) -> [u16; 4
         // We subtract 1 from the scale_multiplier before adding to prevent an integer overflow
         // given that we're using a 16bit integer
         [
-            bbox[0] * scale_multiplier,
-            bbox[1] * scale_multiplier,
-            bbox[2] * scale_multiplier + (scale_multiplier - 1),
-            bbox[3] * scale_multiplier + (scale_multiplier - 1),
+            (u32::from(bbox[0]) * scale_multiplier) as u16,
+            (u32::from(bbox[1]) * scale_multiplier) as u16,
+            (u32::from(bbox[2]) * scale_multiplier + (scale_multiplier - 1)) as u16,
+            (u32::from(bbox[3]) * scale_multiplier + (scale_multiplier - 1)) as u16,
         ]
     }
 }
-- 
2.43.0


From 1960cd4824865a3b949cd0c5f0a361f47009d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 11/18] fix: don't stack an index on any index it can't overlap

The accumulated set of non-overlapping indexes was never looked at, so only the
directly enclosing phrasematch was checked, not the ones further up.
---
 rust-src/src/gridstore/stackable.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust-src/src/gridstore/stackable.rs b/rust-src/src/gridstore/stackable.rs
index ae87be8..06c31ce 100644
--- a/rust-src/src/gridstore/stackable.rs
+++ b/rust-src/src/gridstore/stackable.rs
@@ -226,6 +226,7 @@ fn binned_stackable<'b, 'a: 'b, T: Borrow<GridStore> + Clone + Debug>(
         for phrasematch in phrasematch_group.phrasematches.iter() {
             if (node.mask & phrasematch.mask) == 0
                 && phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false
+                && node.bmask.contains(phrasematch.idx as usize) == false
             {
                 let target_relev = relev_so_far + phrasematch.weight;
                 let max_possible_relev = target_relev + *phrasematch_group.max_relev_after_this;
-- 
2.43.0


From b79d627fb788b21acd76a27a68d174dfa06d8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 12/18] fix: keep every match key when collapsing phrasematches

Only the first match key of a phrasematch survived being merged into another.
---
 rust-src/src/gridstore/coalesce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 9eaf82b..88413c3 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -961,7 +961,7 @@ pub fn collapse_phrasematches<T: Borrow<GridStore> + Clone + Debug>(
                 entry.insert(phrasematch);
             }
             IndexMapEntry::Occupied(mut grouped_phrasematch) => {
-                grouped_phrasematch.get_mut().match_keys.push(phrasematch.match_keys[0].clone());
+                grouped_phrasematch.get_mut().match_keys.extend(phrasematch.match_keys);
             }
         }
     }
-- 
2.43.0


From 1ad5bfde257294e28c925823ebe049aae7bdc425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 13/18] hook: expose the record format to external checks
 behind cfg(carmen_verif)

---
 rust-src/src/gridstore/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust-src/src/gridstore/mod.rs b/rust-src/src/gridstore/mod.rs
index 3267774..b5b54be 100644
--- a/rust-src/src/gridstore/mod.rs
+++ b/rust-src/src/gridstore/mod.rs
@@ -13,6 +13,12 @@ pub use spatial::global_bbox_for_zoom;
 pub use stackable::stackable;
 pub use store::*;
 
+/// Access to the private record format, for external checks only
+#[cfg(carmen_verif)]
+pub mod verif_hooks {
+    pub use super::gridstore_format::*;
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b1eb7a1dc5597c29e7990ca76cc00e980cc2f1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:07 +0000
Subject: [PATCH 14/18] fix: process the steps already taken up before stopping
 a coalesce

---
 rust-src/src/gridstore/coalesce.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 88413c3..7223403 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -496,7 +496,8 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                     if step.node.max_relev
                         <= contexts.peek_min().expect("contexts can't be empty").relev
                     {
-                        complete = true;
+                        // the steps already taken up in this chunk may still lead to better ones
+                        complete = step_chunk.is_empty();
                         break;
                     }
                 }
-- 
2.43.0


From d6c9332a989724e07a0a7d986b2d7c1749427567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 15/18] fix: do not reserve memory for a JavaScript array's
 length before reading it

The length is whatever the caller says (new Array(4294967295) holds nothing),
and reserving room for that many subqueries ends the process.
---
 native/src/gridstore.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/native/src/gridstore.rs b/native/src/gridstore.rs
index 864afec..f416ab3 100644
--- a/native/src/gridstore.rs
+++ b/native/src/gridstore.rs
@@ -510,8 +510,7 @@ fn deserialize_phrasesubq<'j, C>(
 where
     C: Context<'j>,
 {
-    let mut phrasematches: Vec<PhrasematchSubquery<ArcGridStore>> =
-        Vec::with_capacity(js_phrase_subq_array.len() as usize);
+    let mut phrasematches: Vec<PhrasematchSubquery<ArcGridStore>> = Vec::new();
     for i in 0..js_phrase_subq_array.len() {
         let js_phrasematch =
             js_phrase_subq_array.get(cx, i)?.downcast::<JsObject>().or_throw(cx)?;
-- 
2.43.0


From 5919a9d469cfe47c12aa011b3b106c0bdee51ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 16/18] fix: refuse JavaScript numbers that do not fit the type
 they are taken for

'as u32' and the like silently saturate or truncate, so that compactAppend,
insert, get, language sets and the fuzzy phrase lookups used another phrase id,
score, id, hash, language or distance than the caller passed (-1 became 0, 256
became 255, 1.5 became 1, NaN became 0). Convert them as all others are.
---
 native/src/fuzzy_phrase.rs | 48 +++++++++++++++++++++++++++++++-------
 native/src/gridstore.rs    | 46 ++++++++++++++++++++++--------------
 2 files changed, 69 insertions(+), 25 deletions(-)

diff --git a/native/src/fuzzy_phrase.rs b/native/src/fuzzy_phrase.rs
index 590cb40..5896db5 100644
--- a/native/src/fuzzy_phrase.rs
+++ b/native/src/fuzzy_phrase.rs
@@ -151,8 +151,16 @@ declare_types! {
                 Err(e) => return cx.throw_type_error(e.to_string())
             };
 
-            let max_word_dist = cx.argument::<JsNumber>(1)?.value() as u8;
-            let max_phrase_dist = cx.argument::<JsNumber>(2)?.value() as u8;
+            let js_max_word_dist = cx.argument::<JsValue>(1)?;
+            let max_word_dist: u8 = match neon_serde::from_value(&mut cx, js_max_word_dist) {
+                Ok(v) => v,
+                Err(e) => return cx.throw_type_error(e.to_string())
+            };
+            let js_max_phrase_dist = cx.argument::<JsValue>(2)?;
+            let max_phrase_dist: u8 = match neon_serde::from_value(&mut cx, js_max_phrase_dist) {
+                Ok(v) => v,
+                Err(e) => return cx.throw_type_error(e.to_string())
+            };
 
             let js_ending_type = cx.argument::<JsValue>(3)?;
             let ending_type: EndingType = match neon_serde::from_value(&mut cx, js_ending_type) {
@@ -187,8 +195,16 @@ declare_types! {
                 Err(e) => return cx.throw_type_error(e.to_string())
             };
 
-            let max_word_dist = cx.argument::<JsNumber>(1)?.value() as u8;
-            let max_phrase_dist = cx.argument::<JsNumber>(2)?.value() as u8;
+            let js_max_word_dist = cx.argument::<JsValue>(1)?;
+            let max_word_dist: u8 = match neon_serde::from_value(&mut cx, js_max_word_dist) {
+                Ok(v) => v,
+                Err(e) => return cx.throw_type_error(e.to_string())
+            };
+            let js_max_phrase_dist = cx.argument::<JsValue>(2)?;
+            let max_phrase_dist: u8 = match neon_serde::from_value(&mut cx, js_max_phrase_dist) {
+                Ok(v) => v,
+                Err(e) => return cx.throw_type_error(e.to_string())
+            };
 
             let js_ending_type = cx.argument::<JsValue>(3)?;
             let ending_type: EndingType = match neon_serde::from_value(&mut cx, js_ending_type) {
@@ -223,8 +239,16 @@ declare_types! {
                 Err(e) => return cx.throw_type_error(e.to_string())
             };
 
-            let max_word_dist = cx.argument::<JsNumber>(1)?.value() as u8;
-            let max_phrase_dist = cx.argument::<JsNumber>(2)?.value() as u8;
+            let js_max_word_dist = cx.argument::<JsValue>(1)?;
+            let max_word_dist: u8 = match neon_serde::from_value(&mut cx, js_max_word_dist) {
+                Ok(v) => v,
+                Err(e) => return cx.throw_type_error(e.to_string())
+            };
+            let js_max_phrase_dist = cx.argument::<JsValue>(2)?;
+            let max_phrase_dist: u8 = match neon_serde::from_value(&mut cx, js_max_phrase_dist) {
+                Ok(v) => v,
+                Err(e) => return cx.throw_type_error(e.to_string())
+            };
 
             let mut this = cx.this();
 
@@ -247,7 +271,11 @@ declare_types! {
         }
 
         method getByPhraseId(mut cx) {
-            let phrase_id: u32 = cx.argument::<JsNumber>(0)?.value() as u32;
+            let js_phrase_id = cx.argument::<JsValue>(0)?;
+            let phrase_id: u32 = match neon_serde::from_value(&mut cx, js_phrase_id) {
+                Ok(v) => v,
+                Err(e) => return cx.throw_type_error(e.to_string())
+            };
 
             let mut this = cx.this();
 
@@ -266,7 +294,11 @@ declare_types! {
         }
 
         method getPrefixBins(mut cx) {
-            let max_bin_size: usize = cx.argument::<JsNumber>(0)?.value() as usize;
+            let js_max_bin_size = cx.argument::<JsValue>(0)?;
+            let max_bin_size: usize = match neon_serde::from_value(&mut cx, js_max_bin_size) {
+                Ok(v) => v,
+                Err(e) => return cx.throw_type_error(e.to_string())
+            };
 
             let mut this = cx.this();
 
diff --git a/native/src/gridstore.rs b/native/src/gridstore.rs
index f416ab3..4168ee3 100644
--- a/native/src/gridstore.rs
+++ b/native/src/gridstore.rs
@@ -160,11 +160,11 @@ declare_types! {
 
         method compactAppend(mut cx) {
             let grid_key = cx.argument::<JsObject>(0)?;
-            let phrase_id: u32 = grid_key
-                .get(&mut cx, "phrase_id")?
-                .downcast::<JsNumber>()
-                .or_throw(&mut cx)?
-                .value() as u32;
+            let js_phrase_id = grid_key.get(&mut cx, "phrase_id")?;
+            let phrase_id: u32 = match neon_serde::from_value(&mut cx, js_phrase_id) {
+                Ok(v) => v,
+                Err(e) => return cx.throw_type_error(e.to_string())
+            };
 
             let js_lang_set = grid_key.get(&mut cx, "lang_set")?;
             let lang_set: u128 = match langarray_to_langset(&mut cx, js_lang_set) {
@@ -175,9 +175,21 @@ declare_types! {
             let key = GridKey { phrase_id, lang_set };
 
             let relev = cx.argument::<JsNumber>(1)?.value() as f64;
-            let score = cx.argument::<JsNumber>(2)?.value() as u8;
-            let id = cx.argument::<JsNumber>(3)?.value() as u32;
-            let source_phrase_hash = cx.argument::<JsNumber>(4)?.value() as u8;
+            let js_score = cx.argument::<JsValue>(2)?;
+            let score: u8 = match neon_serde::from_value(&mut cx, js_score) {
+                Ok(v) => v,
+                Err(e) => return cx.throw_type_error(e.to_string())
+            };
+            let js_id = cx.argument::<JsValue>(3)?;
+            let id: u32 = match neon_serde::from_value(&mut cx, js_id) {
+                Ok(v) => v,
+                Err(e) => return cx.throw_type_error(e.to_string())
+            };
+            let js_source_phrase_hash = cx.argument::<JsValue>(4)?;
+            let source_phrase_hash: u8 = match neon_serde::from_value(&mut cx, js_source_phrase_hash) {
+                Ok(v) => v,
+                Err(e) => return cx.throw_type_error(e.to_string())
+            };
             let js_coords = cx.argument::<JsValue>(5)?;
             let coords: Vec<(u16, u16)> = match neon_serde::from_value(&mut cx, js_coords) {
                 Ok(v) => v,
@@ -324,11 +336,11 @@ declare_types! {
         method get(mut cx) {
             let grid_key = cx.argument::<JsObject>(0)?;
 
-            let phrase_id: u32 = grid_key
-                .get(&mut cx, "phrase_id")?
-                .downcast::<JsNumber>()
-                .or_throw(&mut cx)?
-                .value() as u32;
+            let js_phrase_id = grid_key.get(&mut cx, "phrase_id")?;
+            let phrase_id: u32 = match neon_serde::from_value(&mut cx, js_phrase_id) {
+                Ok(v) => v,
+                Err(e) => return cx.throw_type_error(e.to_string())
+            };
 
             let js_lang_set = grid_key.get(&mut cx, "lang_set")?;
             let lang_set: u128 = match langarray_to_langset(&mut cx, js_lang_set) {
@@ -431,8 +443,8 @@ where
     if let Ok(lang_array) = maybe_lang_array.downcast::<JsArray>() {
         let mut out = 0u128;
         for i in 0..lang_array.len() {
-            let converted_lang_array =
-                lang_array.get(cx, i)?.downcast::<JsNumber>().or_throw(cx)?.value() as usize;
+            let js_lang = lang_array.get(cx, i)?;
+            let converted_lang_array: usize = neon_serde::from_value(cx, js_lang)?;
             if converted_lang_array >= 128 {
                 continue;
             } else {
@@ -589,8 +601,8 @@ fn prep_for_insert<'j, T: neon::object::This>(
     let grid_key = cx.argument::<JsObject>(0)?;
     let grid_entry = cx.argument::<JsValue>(1)?;
     let values: Vec<GridEntry> = neon_serde::from_value(cx, grid_entry)?;
-    let phrase_id: u32 =
-        grid_key.get(cx, "phrase_id")?.downcast::<JsNumber>().or_throw(cx)?.value() as u32;
+    let js_phrase_id = grid_key.get(cx, "phrase_id")?;
+    let phrase_id: u32 = neon_serde::from_value(cx, js_phrase_id)?;
 
     let js_lang_set = grid_key.get(cx, "lang_set")?;
     let lang_set: u128 = langarray_to_langset(cx, js_lang_set)?;
-- 
2.43.0


From 523f56f7883fcf0ffcf96f256c2da191cbf0387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 17/18] fix: honour exclusions that only the later subquery
 declares beyond its parent

---
 rust-src/src/gridstore/stackable.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/stackable.rs b/rust-src/src/gridstore/stackable.rs
index 06c31ce..95fca3c 100644
--- a/rust-src/src/gridstore/stackable.rs
+++ b/rust-src/src/gridstore/stackable.rs
@@ -189,6 +189,7 @@ pub fn stackable<'a, T: Borrow<GridStore> + Clone + Debug>(
         &binned_phrasematches,
         None,
         FixedBitSet::with_capacity(128),
+        FixedBitSet::with_capacity(128),
         0,
         129,
         0.0,
@@ -203,6 +204,7 @@ fn binned_stackable<'b, 'a: 'b, T: Borrow<GridStore> + Clone + Debug>(
     binned_phrasematches: &'b Vec<PhrasematchBin<'a, T>>,
     current_phrasematch: Option<&'a PhrasematchSubquery<T>>,
     bmask: FixedBitSet,
+    stacked_indexes: FixedBitSet,
     mask: u32,
     idx: u16,
     relev_so_far: f64,
@@ -225,7 +227,7 @@ fn binned_stackable<'b, 'a: 'b, T: Borrow<GridStore> + Clone + Debug>(
     {
         for phrasematch in phrasematch_group.phrasematches.iter() {
             if (node.mask & phrasematch.mask) == 0
-                && phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false
+                && phrasematch.non_overlapping_indexes.is_disjoint(&stacked_indexes)
                 && node.bmask.contains(phrasematch.idx as usize) == false
             {
                 let target_relev = relev_so_far + phrasematch.weight;
@@ -237,11 +239,15 @@ fn binned_stackable<'b, 'a: 'b, T: Borrow<GridStore> + Clone + Debug>(
                 let target_mask = &phrasematch.mask | node.mask;
                 let mut target_bmask: FixedBitSet = node.bmask.clone();
                 target_bmask.union_with(&phrasematch.non_overlapping_indexes);
+                let mut target_indexes = stacked_indexes.clone();
+                target_indexes.grow(phrasematch.idx as usize + 1);
+                target_indexes.insert(phrasematch.idx as usize);
 
                 let child_node = binned_stackable(
                     &binned_phrasematches,
                     Some(&phrasematch),
                     target_bmask,
+                    target_indexes,
                     target_mask,
                     phrasematch.idx,
                     target_relev,
-- 
2.43.0


From 88faa7fea6223e01e96fe3e05e52aa46475d2a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 18/18] fix: count a lookup in a high-zoom index once, however
 many stacks of a chunk need it

---
 rust-src/src/gridstore/coalesce.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 7223403..b5ad987 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -570,7 +570,10 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                         }
 
                         // quotas for high-zoom indexes other than single-word ones
-                        if subquery.store.borrow().might_be_slow() && !key_group.nearby_only {
+                        if subquery.store.borrow().might_be_slow()
+                            && !key_group.nearby_only
+                            && !unique_keys.contains(&(key_group.id, is_single))
+                        {
                             if is_range {
                                 if all_high_zoom_range_count < ALL_HIGH_ZOOM_RANGE_QUOTA {
                                     all_high_zoom_range_count += 1;
-- 
2.43.0

