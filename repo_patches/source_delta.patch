From 8113531589c8db5f1f5aa6d7fe889e5f6e8bccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 01/16] fix: a filtered search returned its starting point
 although the filter rejects it

---
 src/hnsw.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index d23eb58..a4f426c 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1517,6 +1517,13 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         let neighbours_heap = self.search_layer(data, pivot, ef, layer_to_search, filter);
         // go from heap of points with negative dist to a sorted vec of increasing points with > 0 distances.
         let neighbours = neighbours_heap.into_sorted_vec();
+        // when no point satisfying the filter was found, search_layer returns the point it started from,
+        // which the filter can reject
+        if let Some(f) = filter {
+            if neighbours.len() == 1 && !f.hnsw_filter(&neighbours[0].point_ref.origin_id) {
+                return Vec::<Neighbour>::new();
+            }
+        }
         // get the min of K and ef points into a vector.
         //
         let last = knbn.min(ef).min(neighbours.len());
-- 
2.43.0


From 6db9ac0cfb51df9a4b9ee874d7477bf82ab7c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 02/16] fix: a filtered search with knbn and ef equal to 0
 panicked

---
 src/hnsw.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index a4f426c..ba8b7f8 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1502,8 +1502,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
                 pivot = Arc::clone(new_pivot.as_ref().unwrap());
             }
         } // end on for on layers
-          // ef must be greater than knbn. Possibly it should be between knbn and self.max_nb_connection
-        let ef = ef_arg.max(knbn);
+          // ef must be greater than knbn (and not null, search_layer keeps at least one point). Possibly it should be between knbn and self.max_nb_connection
+        let ef = ef_arg.max(knbn).max(1);
         log::debug!("pivot changed , current pivot {:?}", pivot.get_point_id());
         // search lowest non empty layer (in case of search with incomplete lower layer at beginning of hnsw filling)
         let mut l = 0u8;
-- 
2.43.0


From c7a9bb18ae3d2fed2cf0ad628abcb9f17f88efb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 03/16] fix: iterating over an empty index, or past the end,
 panicked

---
 src/hnsw.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index ba8b7f8..3773436 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -651,6 +651,10 @@ impl<'b, T: Clone + Send + Sync> Iterator for IterPoint<'_, 'b, T> {
             self.layer = 0;
             self.slot_in_layer = 0;
         }
+        if self.layer as usize >= self.pi_guard.len() {
+            // iteration has already ended
+            return None;
+        }
         if (self.slot_in_layer as usize) < self.pi_guard[self.layer as usize].len() {
             let slot = self.slot_in_layer as usize;
             self.slot_in_layer += 1;
@@ -661,7 +665,10 @@ impl<'b, T: Clone + Send + Sync> Iterator for IterPoint<'_, 'b, T> {
             // must reach a non empty layer if possible
             let entry_point_ref = self.point_indexation.entry_point.read();
             let points_by_layer = self.point_indexation.points_by_layer.read();
-            let entry_point_level = entry_point_ref.as_ref().unwrap().p_id.0;
+            let entry_point_level = match entry_point_ref.as_ref() {
+                Some(arc_point) => arc_point.p_id.0,
+                None => return None, // no point at all
+            };
             while (self.layer as u8) <= entry_point_level
                 && points_by_layer[self.layer as usize].is_empty()
             {
-- 
2.43.0


From 337483d9a4fe1fffdf712cd18f212605d54f28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 04/16] fix: concurrent insertions could deadlock in
 reverse_update_neighborhood_simple

---
 src/hnsw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 3773436..ab654b2 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1228,7 +1228,9 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         );
         let level = new_point.p_id.0;
         for l in (0..level + 1).rev() {
-            for q in &new_point.neighbours.read()[l as usize] {
+            // do not keep a lock on new_point while waiting for a lock on its neighbours: other threads do the converse
+            let neighbours_l = new_point.neighbours.read()[l as usize].clone();
+            for q in &neighbours_l {
                 if new_point.p_id != q.point_ref.p_id {
                     // as new point is in global table, do not loop and deadlock!!
                     let q_point = &q.point_ref;
-- 
2.43.0


From 8f82fd2eb7ba9f38b8be93e9bd97d64090c3c95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 05/16] verification hook: entry point and neighbour selection,
 under --cfg hnsw_verif

---
 src/hnsw.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index ab654b2..9b62baf 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1606,6 +1606,36 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
     } // end of insert_parallel
 } // end of Hnsw
 
+// access to internals for external verification harnesses, compiled only with --cfg hnsw_verif
+#[cfg(hnsw_verif)]
+impl<T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'_, T, D> {
+    /// position of the current entry point
+    pub fn verif_entry_point(&self) -> Option<PointId> {
+        let entry = self.layer_indexed_points.entry_point.read();
+        entry.as_ref().map(|p| p.p_id)
+    }
+    /// runs select_neighbours on the candidates given by their positions
+    pub fn verif_select_neighbours(
+        &self,
+        data: &[T],
+        candidates: &[PointId],
+        nb_asked: usize,
+        extend: bool,
+        layer: u8,
+        keep_pruned: bool,
+    ) -> Vec<(PointId, f32)> {
+        let mut heap = BinaryHeap::new();
+        for id in candidates {
+            let p = self.layer_indexed_points.points_by_layer.read()[id.0 as usize][id.1 as usize].clone();
+            let d = self.dist_f.eval(data, p.data.get_v());
+            heap.push(Arc::new(PointWithOrder::new(&p, -d)));
+        }
+        let mut selected = Vec::new();
+        self.select_neighbours(data, &mut heap, nb_asked, extend, layer, keep_pruned, &mut selected);
+        selected.iter().map(|s| (s.point_ref.p_id, s.dist_to_ref)).collect()
+    }
+}
+
 // This function takes a binary heap with points declared with a negative distance
 // and returns a vector of points with their correct positive distance to some reference distance
 // The vector is sorted by construction
-- 
2.43.0


From 9a2b3aa6e864c8753cccfadb9bba94eedd1a60dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 06/16] fix: of concurrent first insertions one could be left
 unlinked

A second thread seeing point_rank > 1 while entry_point was still None only
called check_entry_point and returned, so its point had no link; a thread of
rank 1 seeing an entry point set by another one returned without linking.
---
 src/hnsw.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 9b62baf..9bf3120 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1064,7 +1064,7 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         let (data, origin_id) = data_with_id;
         let keep_pruned = self.keep_pruned;
         // insert in indexation and get point_id adn generate a new entry_point if necessary
-        let (new_point, point_rank) = self
+        let (new_point, _point_rank) = self
             .layer_indexed_points
             .generate_new_point(data, origin_id);
         trace!("Hnsw insert generated new point {:?} ", new_point.p_id);
@@ -1078,19 +1078,18 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
             // I open a read lock on an option
             if let Some(arc_point) = self.layer_indexed_points.entry_point.read().as_ref() {
                 enter_point_copy = Some(Arc::clone(arc_point));
-                if point_rank == 1 {
-                    debug!(
-                        "Hnsw  stored first point , direct return  {:?} ",
-                        new_point.p_id
-                    );
-                    return;
-                }
                 max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
             }
         }
         if enter_point_copy.is_none() {
-            self.layer_indexed_points.check_entry_point(&new_point);
-            return;
+            // another thread can have set the entry point in between, new_point must then be linked to it
+            let mut entry_point_ref = self.layer_indexed_points.entry_point.write();
+            if entry_point_ref.is_none() {
+                *entry_point_ref = Some(Arc::clone(&new_point));
+                return;
+            }
+            enter_point_copy = entry_point_ref.clone();
+            max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
         }
         let mut dist_to_entry = self
             .dist_f
-- 
2.43.0


From 97e36fd38564fd13dc6de3d09376ffd02e319062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 07/16] fix: a reloaded index got its level scale multiplied by
 the default one

---
 src/hnsw.rs   |  9 ++-------
 src/hnswio.rs | 10 +++++-----
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 9bf3120..ce3d367 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -334,16 +334,11 @@ impl LayerGenerator {
     }
 
     // new when we know scale used. Should replace the one without scale
-    pub(crate) fn new_with_scale(
-        max_nb_connection: usize,
-        scale_factor: f64,
-        maxlevel: usize,
-    ) -> Self {
-        let scale_default = 1. / (max_nb_connection as f64).ln();
+    pub(crate) fn new_with_scale(scale: f64, maxlevel: usize) -> Self {
         LayerGenerator {
             rng: Arc::new(Mutex::new(StdRng::from_entropy())),
             unif: Uniform::<f64>::new(0., 1.),
-            scale: scale_default * scale_factor,
+            scale,
             maxlevel,
         }
     }
diff --git a/src/hnswio.rs b/src/hnswio.rs
index ea845f5..f47dd14 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -770,11 +770,11 @@ impl HnswIo {
             max_nb_connection: descr.max_nb_connection as usize,
             max_layer: NB_LAYER_MAX as usize,
             points_by_layer: Arc::new(RwLock::new(points_by_layer)),
-            layer_g: LayerGenerator::new_with_scale(
-                descr.max_nb_connection as usize,
-                descr.level_scale,
-                NB_LAYER_MAX as usize,
-            ),
+            // the scale itself is dumped since version 4, before that it could only be the default
+            layer_g: match descr.format_version {
+                4 => LayerGenerator::new_with_scale(descr.level_scale, NB_LAYER_MAX as usize),
+                _ => LayerGenerator::new(descr.max_nb_connection as usize, NB_LAYER_MAX as usize),
+            },
             nb_point: Arc::new(RwLock::new(nb_points_loaded)), // CAVEAT , we should increase , the whole thing is to be able to increment graph ?
             entry_point: Arc::new(RwLock::new(Some(entry_point))),
         };
-- 
2.43.0


From 626365f5e5ed0ad072c57c4b2ccceab6bfc0dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 08/16] fix: reloading vectors of varying lengths read outside
 the record or truncated them

---
 src/hnswio.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index f47dd14..c07294f 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1156,12 +1156,7 @@ where
     let v: Vec<T> = if std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>() {
         match descr.format_version {
             2 => bincode::deserialize(&v_serialized).unwrap(),
-            3 | 4 => {
-                let slice_t = unsafe {
-                    std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, descr.dimension)
-                };
-                slice_t.to_vec()
-            }
+            3 | 4 => vector_from_bytes(&v_serialized)?,
             _ => {
                 error!(
                     "error in load_point, unknow format_version : {:?}",
@@ -1177,6 +1172,21 @@ where
     Ok(v)
 } // end of load_point_data
 
+// the vector which dump_point wrote as these bytes. Vectors can have different lengths, so the dimension is not used.
+fn vector_from_bytes<T: Clone>(bytes: &[u8]) -> Result<Vec<T>> {
+    let size = std::mem::size_of::<T>();
+    if size == 0 || bytes.len() % size != 0 {
+        return Err(anyhow!("length of data incoherent with size of data type"));
+    }
+    let len = bytes.len() / size;
+    let mut v = Vec::<T>::with_capacity(len);
+    unsafe {
+        std::ptr::copy_nonoverlapping(bytes.as_ptr(), v.as_mut_ptr() as *mut u8, bytes.len());
+        v.set_len(len);
+    }
+    Ok(v)
+}
+
 // We need to maintain coherence in data and graph stream, so we read to keep in phase
 fn skip_point_data(origin_id: usize, data_in: &mut dyn Read, _descr: &Description) -> Result<()> {
     //
-- 
2.43.0


From 8fbbba365d286f037d8070dbd66a78da7f07c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 09/16] fix: a truncated data file ended the whole process
 instead of making the reload fail

---
 src/hnswio.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index c07294f..b8939a8 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -813,12 +813,8 @@ impl HnswIo {
         //
         let point = match point_use_mmap {
             false => {
-                let v = load_point_data::<T>(origin_id, data_in, descr);
-                if v.is_err() {
-                    error!("loading point {:?}", origin_id);
-                    std::process::exit(1);
-                }
-                Point::<T>::new(v.unwrap(), origin_id, p_id)
+                let v = load_point_data::<T>(origin_id, data_in, descr)?;
+                Point::<T>::new(v, origin_id, p_id)
             }
             true => {
                 skip_point_data(origin_id, data_in, descr)?; // keep cohrence between data file and graph file!
-- 
2.43.0


From 870ce1ed7a5dc5519ea76ac7679e8c9c86d2db24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 10/16] fix: a memory map could not be made from a relative
 directory (the process ended)

---
 src/datamap.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 3bce7c3..854b7bf 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -47,7 +47,6 @@ impl DataMap {
     ) -> Result<DataMap, String> {
         // reload description to have data type, and check for dump version
         let mut graphpath = PathBuf::from(dir);
-        graphpath.push(dir);
         let mut filename = file_name.to_string();
         filename.push_str(".hnsw.graph");
         graphpath.push(filename);
-- 
2.43.0


From ef45220db2c299fefe30101c0bd22ff024e5b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 11/16] fix: a memory map of vectors of varying lengths missed
 records and read out of bounds

---
 src/datamap.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 854b7bf..9aea878 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -147,7 +147,8 @@ impl DataMap {
         }
         //
         // now we know that each record consists in
-        //   - MAGICDATAP (u32), DataId  (u64), dimension (u64) and then  (length of type in bytes * dimension)
+        //   - MAGICDATAP (u32), DataId  (u64), length in bytes (u64) and then the bytes of the vector.
+        // Vectors do not need to have the same length, so the number of records is only an estimation
         //
         let record_size = std::mem::size_of::<u32>()
             + 2 * std::mem::size_of::<u64>()
@@ -168,7 +169,8 @@ impl DataMap {
         //
         // now we loop on records
         //
-        for i in 0..nb_record {
+        let mut i = 0;
+        while current_mmap_addr < mapped_slice.len() {
             debug!("Record i : {}, addr : {}", i, current_mmap_addr);
             // decode Magic
             u32_slice.copy_from_slice(
@@ -198,18 +200,11 @@ impl DataMap {
             if i == 0 {
                 debug!("serialized bytes len to reload {:?}", serialized_len);
             }
-            let mut v_serialized = vec![0; serialized_len];
-            v_serialized.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + serialized_len],
-            );
+            // the record must lie inside the file
+            let v_serialized = &mapped_slice[current_mmap_addr..current_mmap_addr + serialized_len];
+            trace!("Serialized v : {:?}", v_serialized);
             current_mmap_addr += serialized_len;
-            let slice_t =
-                unsafe { std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, dimension) };
-            trace!(
-                "Deserialized v : {:?} address : {:?} ",
-                slice_t,
-                v_serialized.as_ptr() as *const T
-            );
+            i += 1;
         } // end of for on record
           //
         debug!("End of DataMap::from_hnsw.");
@@ -282,10 +277,15 @@ impl DataMap {
         let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
         current_mmap_addr += std::mem::size_of::<u64>();
         trace!("Serialized bytes len to reload {:?}", serialized_len);
+        // the vector is as long as its record says, which can differ from dimension
+        let nb_elem = match std::mem::size_of::<T>() {
+            0 => self.dimension,
+            size => serialized_len / size,
+        };
         let slice_t = unsafe {
             std::slice::from_raw_parts(
                 mapped_slice[current_mmap_addr..].as_ptr() as *const T,
-                self.dimension,
+                nb_elem,
             )
         };
         Some(slice_t)
-- 
2.43.0


From 4f688ce8f567acecdf6eba649d5deb77a92ecc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 12/16] fix: asking for memory mapping panicked when no data
 map was available

---
 src/hnswio.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index b8939a8..e6ba920 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -652,6 +652,8 @@ impl HnswIo {
         let mut nb_points_loaded: usize = 0;
         let mut nb_still_to_load = descr.nb_point as i64;
         let (use_mmap, max_nbpoint_in_memory) = self.options.use_mmap();
+        // without a data map (it could not be made, or this reload does not make one) points go to memory
+        let use_mmap = use_mmap && self.datamap.is_some();
         //
         for l in 0..nb_layer as usize {
             // read and check magic
-- 
2.43.0


From 36fe862e6624a47bd74f3a2ced0d61f85e99a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 13/16] fix: a dump could overwrite the mapped data file of an
 index reloaded with load_hnsw_with_dist

---
 src/hnswio.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index e6ba920..25d6b4c 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -603,7 +603,8 @@ impl HnswIo {
             data_dimension: data_dim,
             dist_f: f,
             searching: false,
-            datamap_opt: false,
+            // a data map made by a previous call to load_hnsw is used here too
+            datamap_opt: self.datamap.is_some(),
         };
         //
         debug!("load_hnsw_with_dist completed");
-- 
2.43.0


From a463a8c2a417367122adf5d241b1da7598aff729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 14/16] fix: the description returned through the C interface
 always said 0 points

---
 src/libext.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libext.rs b/src/libext.rs
index 76bfd62..d19fc55 100644
--- a/src/libext.rs
+++ b/src/libext.rs
@@ -1195,6 +1195,7 @@ pub unsafe extern "C" fn load_hnsw_description(
                 ffi_description.max_nb_connection = description.max_nb_connection;
                 ffi_description.nb_layer = description.nb_layer;
                 ffi_description.ef = description.ef;
+                ffi_description.nb_point = description.nb_point;
                 ffi_description.data_dimension = description.dimension;
                 ffi_description.distname_len = distname_len;
                 ffi_description.distname = distname_ptr;
-- 
2.43.0


From ef515aa40f889ff780fdb90f1badaeae44e0c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:26 +0000
Subject: [PATCH 15/16] fix: check_data_type compared the first part of the
 type names instead of the last

---
 src/datamap.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 9aea878..55ef634 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -232,19 +232,19 @@ impl DataMap {
         // we check last part of name of type
         let tname_vec = self.t_name.rsplit_terminator("::").collect::<Vec<&str>>();
 
-        if tname_vec.last().is_none() {
+        if tname_vec.first().is_none() {
             let errmsg = "DataMap::check_data_type() cannot determine data type name ";
             error!("DataMap::check_data_type() cannot determine data type name ");
             std::panic!("DataMap::check_data_type(), {}", errmsg);
         }
-        let tname_last = tname_vec.last().unwrap();
+        let tname_last = tname_vec.first().unwrap();
         //
         let datat_name_arg = std::any::type_name::<T>().to_string();
         let datat_name_vec = datat_name_arg
             .rsplit_terminator("::")
             .collect::<Vec<&str>>();
 
-        let datat_name_arg_last = datat_name_vec.last().unwrap();
+        let datat_name_arg_last = datat_name_vec.first().unwrap();
         //
         if datat_name_arg_last == tname_last {
             true
-- 
2.43.0


From 2285114b17cfe12b550ef1808ef1f218540b997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:19 +0000
Subject: [PATCH 16/16] fix: iterating over an index while another thread
 inserts could block both for ever

---
 src/hnsw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index ce3d367..3a65324 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -659,7 +659,8 @@ impl<'b, T: Clone + Send + Sync> Iterator for IterPoint<'_, 'b, T> {
             self.layer += 1;
             // must reach a non empty layer if possible
             let entry_point_ref = self.point_indexation.entry_point.read();
-            let points_by_layer = self.point_indexation.points_by_layer.read();
+            // the iterator already has a read lock on the layers: asking for it again blocks when a writer waits in between
+            let points_by_layer = &self.pi_guard;
             let entry_point_level = match entry_point_ref.as_ref() {
                 Some(arc_point) => arc_point.p_id.0,
                 None => return None, // no point at all
-- 
2.43.0

