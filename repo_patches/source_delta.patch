From 0a2aee4a7954b55e55857bdf9d8cabe945a1c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:58 +0000
Subject: [PATCH 01/17] fix: query_one must accept a match exactly at the
 threshold

All other query forms use >=, so a point at the threshold was found by query
but not by query_one.
---
 gaoya/src/minhash/minhash_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 8a7d996..30d2012 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -539,7 +539,7 @@ where
             .map(|id| (id, self.id_signatures.get(&id)))
             .filter(|(id, sig)| sig.is_some())
             .map(|(id, sig)| (id, compute_minhash_similarity(sig.unwrap(), query_signature)))
-            .filter(|pair| pair.1 > self.threshold)
+            .filter(|pair| pair.1 >= self.threshold)
             .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
     }
 
-- 
2.43.0


From f1cf69098ab831c0a12325e96bb16d253ccca505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:58 +0000
Subject: [PATCH 02/17] fix: bulk_remove must pair each signature with its own
 id

With an absent or repeated id in the list the removed signatures were paired
with the wrong ids, and the bands kept entries of removed ids.
---
 gaoya/src/minhash/minhash_index.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 30d2012..cc68618 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -700,13 +700,13 @@ where
         where
             Id: Hash + Eq + Clone + Send + Sync,
             T: Send + Sync {
-        let sigs: Vec<Vec<T>> = ids.iter()
-            .filter_map(|id| self.id_signatures.remove(id))
-            .collect();
+        let (removed_ids, sigs): (Vec<&Id>, Vec<Vec<T>>) = ids.iter()
+            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))
+            .unzip();
 
         self.bands.par_iter_mut()
             .for_each(|band| {
-                sigs.iter().zip(ids)
+                sigs.iter().zip(removed_ids.iter())
                     .for_each(|(sig, id)| band.remove(id, sig))
             });
         sigs
-- 
2.43.0


From 4f92e2e0a9fbae3e531d8114863d3bbfceef0c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:58 +0000
Subject: [PATCH 03/17] fix: inserting an existing id must replace its
 signature in the bands

The bands kept the replaced signature, so queries returned ids that share no
band with the query, and query_top_k and query_owned_return_similarity panicked
on it once the id was removed.
---
 gaoya/src/minhash/minhash_index.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index cc68618..2337c60 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -419,6 +419,8 @@ where
     #[inline]
     pub fn insert(&mut self, id: Id, signature: Vec<T>) {
         assert_eq!(self.num_hashes(), signature.len());
+        // The bands must not keep the signature that is being replaced
+        self.remove(&id);
         for band in &mut self.bands {
             band.insert(id.clone(), &signature);
         }
@@ -434,11 +436,13 @@ where
             assert_eq!(self.num_hashes(), signatures[0].len());
         }
 
+        // The bands must not keep the signatures that are being replaced.
+        // If an id is repeated, its last signature counts.
+        self.bulk_remove(&ids);
+        let latest: HashMap<&Id, &Vec<T>> = ids.iter().zip(signatures.iter()).collect();
         self.bands.par_iter_mut().for_each(|band| {
-            for item in signatures.iter().zip(ids.iter()) {
-                let hashes = item.0;
-                let id = item.1.clone();
-                band.insert(id, hashes);
+            for (id, hashes) in latest.iter() {
+                band.insert((*id).clone(), hashes);
             }
         });
 
@@ -452,18 +456,8 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
-        self.bands.par_iter_mut().for_each(|band| {
-            for item in id_signature_pairs.iter() {
-                let i: &(Id, Vec<T>) = item;
-                let (a, b) = i;
-                let k: Id = a.clone();
-                band.insert(k, b);
-            }
-        });
-
-        for id_hash in id_signature_pairs {
-            self.id_signatures.insert(id_hash.0, id_hash.1);
-        }
+        let (ids, signatures) = id_signature_pairs.into_iter().unzip();
+        self.par_bulk_insert(ids, signatures);
     }
 
     pub fn shrink_to_fit(&mut self)
-- 
2.43.0


From 15161b776f7e429ce36c31133eba279ebd3cf115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:58 +0000
Subject: [PATCH 04/17] fix: shrink_to must not panic when all bands are
 distinct or the index is empty

The ratio of band size to index size is 1 if no two signatures share the band,
and 0/0 for an empty index.
---
 gaoya/src/minhash/minhash_index.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 2337c60..ec90952 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -480,8 +480,7 @@ where
             .for_each(|band| {
                 // On average the size of every band will be lower than the size of
                 // id_signatures. We adjust the desired capacity.
-                let ratio = band.hash_table.len() as f64 / self.id_signatures.len() as f64;
-                assert!(ratio < 1.0);
+                let ratio = band.hash_table.len() as f64 / self.id_signatures.len().max(1) as f64;
                 let adjusted_capacity = (min_capacity as f64 * ratio) as usize;
                 band.shrink_to(adjusted_capacity)
             });
-- 
2.43.0


From b1ed67dfccba3c4f63cc25f1bbbeff235d90608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:58 +0000
Subject: [PATCH 05/17] fix: reject signatures of the wrong length everywhere

Bulk inserts looked at the first signature only, and query_top_k and
query_owned_return_similarity answered longer signatures from a part of them.
---
 gaoya/src/minhash/minhash_index.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index ec90952..c921188 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -432,8 +432,8 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
-        if !signatures.is_empty() {
-            assert_eq!(self.num_hashes(), signatures[0].len());
+        for signature in &signatures {
+            assert_eq!(self.num_hashes(), signature.len());
         }
 
         // The bands must not keep the signatures that are being replaced.
@@ -615,6 +615,7 @@ where
         where
             Id: Hash + Eq + Clone,
     {
+        assert_eq!(self.num_hashes(), query_signature.len());
         let mut match_ids = HashSet::with_capacity(10);
         for band in &self.bands {
             band.query_to_owned(query_signature, &mut match_ids);
@@ -634,6 +635,7 @@ where
 
 
     pub fn query_top_k(&self, query_signature: &[T], k: usize) -> Vec<(Id, f64)> {
+        assert_eq!(self.num_hashes(), query_signature.len());
         let mut match_ids = HashSet::with_capacity(10);
         for band in &self.bands {
             band.query_to_owned(query_signature, &mut match_ids);
-- 
2.43.0


From d6f968aee402413e65cd2750cf3379f42251d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:36 +0000
Subject: [PATCH 06/17] fix: similarity_greater_than_threshold must not round
 the threshold down

The number of matches required was truncated, so signatures below the threshold
were accepted.
---
 gaoya/src/minhash/mod.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/gaoya/src/minhash/mod.rs b/gaoya/src/minhash/mod.rs
index d8f69d1..db7702d 100644
--- a/gaoya/src/minhash/mod.rs
+++ b/gaoya/src/minhash/mod.rs
@@ -145,19 +145,7 @@ pub fn similarity_greater_than_threshold<T>(
     where
         T: Eq,
 {
-    assert_eq!(min_hashes_1.len(), min_hashes_2.len());
-    let num_hashes = min_hashes_1.len();
-    let expected_matches = (num_hashes as f64 * threshold) as u32;
-    let mut num_matches: u32 = 0;
-    for pair in min_hashes_1.iter().zip(min_hashes_2.iter()) {
-        if pair.0 == pair.1 {
-            num_matches += 1;
-        }
-        if num_matches >= expected_matches {
-            return true;
-        }
-    }
-    false
+    compute_minhash_similarity(min_hashes_1, min_hashes_2) >= threshold
 }
 
 fn minhash_centroid<T>(signatures: &[Vec<T>]) -> Vec<T>
-- 
2.43.0


From 60e43769f8901dcadeeb9e151886349b0091f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:36 +0000
Subject: [PATCH 07/17] fix: SimHash queries must include signatures at the
 configured distance

The tables are laid out to find all signatures within the configured number of
differing bits, but those at exactly that distance were filtered out.
---
 gaoya/src/simhash/sim_hash_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index ac56fe0..22df6f3 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -54,7 +54,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     });
                 match_ids.extend(matches);
             }
@@ -75,7 +75,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     }).cloned();
                 match_ids.extend(matches);
             }
-- 
2.43.0


From 5e062da59fe09e74f575933f4384ee45f31c5c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:36 +0000
Subject: [PATCH 08/17] fix: SimHashIndex::size must report the number of ids

The size field was never updated.
---
 gaoya/src/simhash/sim_hash_index.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index 22df6f3..1a3b542 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -102,7 +102,6 @@ where
     hash_tables: Vec<SimHashTable<S, Id>>,
     id_signatures: AHashMap<Id, S>,
     marker: PhantomData<(S, Id)>,
-    size: usize,
 }
 
 impl<S, Id> SimHashIndex<S, Id>
@@ -123,7 +122,6 @@ where
                 .collect()),
             id_signatures: AHashMap::default(),
             marker: PhantomData,
-            size: 0,
         }
     }
 
@@ -225,7 +223,7 @@ where
     }
 
     pub fn size(&self) -> usize {
-        self.size
+        self.id_signatures.len()
     }
 
     fn avg_bucket_count(&self) -> usize {
-- 
2.43.0


From 4d76dd7bb4eb3a5efbefde14f9849e253e0cfaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:36 +0000
Subject: [PATCH 09/17] fix: MultiShingles must produce the short shingles at
 the end of the text

The iterator ended at the first size of the range that no longer fits, dropping
the shorter shingles that start further on.
---
 gaoya/src/text/multi_shingles.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gaoya/src/text/multi_shingles.rs b/gaoya/src/text/multi_shingles.rs
index ff8ab62..78f12d5 100644
--- a/gaoya/src/text/multi_shingles.rs
+++ b/gaoya/src/text/multi_shingles.rs
@@ -28,6 +28,11 @@ impl<'a, T> Iterator for MultiShingles<'a, [T]> {
     type Item = &'a [T];
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.data.len() < self.size && self.size > self.from_size {
+            // too short for the rest of the range, continue at the next step position
+            self.size = self.from_size;
+            self.data = &self.data[self.step..];
+        }
         if self.data.len() >= self.size {
             let ret = &self.data[0..self.size];
             self.size += 1;
@@ -78,9 +83,12 @@ impl<'a> Iterator for MultiShingles<'a, str> {
             None
         };
 
+        // too short for the rest of the range, continue at the next step position
+        let too_short = ret.is_none() && self.size > self.from_size;
+
         // move data slice to next step position
         self.size += 1;
-        if self.size > self.to_size {
+        if self.size > self.to_size || too_short {
             self.size = self.from_size;
             if pos_next != 0 {
                 self.data = &self.data[pos_next..];
@@ -89,6 +97,9 @@ impl<'a> Iterator for MultiShingles<'a, str> {
             }
         }
 
+        if too_short {
+            return self.next();
+        }
         ret
     }
 }
-- 
2.43.0


From 2b2bf8cca0ef2e5f08fb7fbd1ce3ff09bb599467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:05 +0000
Subject: [PATCH 10/17] fix: load_from_file_parallel must not reuse the id of
 the last document

Ids are assigned after incrementing doc_id everywhere else, so the first line of
the file replaced the document inserted before it.
---
 gaoya/src/minhash/string_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index 4f8e947..b899fc1 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -80,7 +80,7 @@ impl MinHashStringIndex {
                 let lines: Vec<(u64, String)> = reader
                     .lines()
                     .enumerate()
-                    .map(|v| (v.0 as u64 + self.doc_id, v.1.unwrap()))
+                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1.unwrap()))
                     .collect();
                 let minhashes = lines
                     .par_iter()
-- 
2.43.0


From d624bb336e3906f9e67624dd5c55c3c216261379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:06 +0000
Subject: [PATCH 11/17] fix: loading lines must survive invalid UTF-8 and end
 on read errors

load_from_lines never returned if the reader kept failing (a directory, for
example), and load_from_file_parallel panicked on any line that is not UTF-8.
---
 gaoya/src/minhash/string_index.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index b899fc1..9737fe1 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -6,7 +6,7 @@ use std::collections::HashMap;
 use std::fmt;
 use std::fmt::{Display, Formatter, write};
 use std::fs::File;
-use std::io::{BufRead, BufReader, Error};
+use std::io::{BufRead, BufReader, Error, ErrorKind};
 use std::io::{Read, Write};
 use fnv::FnvBuildHasher;
 
@@ -51,14 +51,21 @@ impl MinHashStringIndex {
     }
 
     pub fn load_from_lines<R: Read>(&mut self, reader: &mut BufReader<R>) {
-        for line_result in reader.lines() {
-            match line_result {
-                Ok(line) => self.insert(line),
-                Err(e) => (),
-            }
+        for line in Self::read_lines(reader) {
+            self.insert(line);
         }
     }
 
+    /// Lines that are not valid UTF-8 are skipped, any other error ends the input.
+    fn read_lines<R: BufRead>(reader: R) -> impl Iterator<Item = String> {
+        reader.lines()
+            .take_while(|line| match line {
+                Ok(_) => true,
+                Err(e) => e.kind() == ErrorKind::InvalidData,
+            })
+            .filter_map(|line| line.ok())
+    }
+
     pub fn load_from_file(&mut self, file_name: &str) -> Result<usize, Error> {
         match File::open(file_name) {
             Ok(file) => {
@@ -77,10 +84,9 @@ impl MinHashStringIndex {
             Ok(file) => {
                 let current_size = self.size();
                 let mut reader: BufReader<File> = BufReader::new(file);
-                let lines: Vec<(u64, String)> = reader
-                    .lines()
+                let lines: Vec<(u64, String)> = Self::read_lines(reader)
                     .enumerate()
-                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1.unwrap()))
+                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1))
                     .collect();
                 let minhashes = lines
                     .par_iter()
-- 
2.43.0


From b8d3db6d2f9219abae70064c67325418351aaa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:06 +0000
Subject: [PATCH 12/17] fix: the serial clusterer must not reuse cluster ids

The sequence was never written back, so a second call started again at 1.
---
 gaoya/src/clustering/clustering_serial.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gaoya/src/clustering/clustering_serial.rs b/gaoya/src/clustering/clustering_serial.rs
index 492ba30..994741a 100644
--- a/gaoya/src/clustering/clustering_serial.rs
+++ b/gaoya/src/clustering/clustering_serial.rs
@@ -90,7 +90,6 @@ impl<Id> Clusterer<Id>
                    points: &mut Vec<ClusterPoint<Id>>,
                    query_index: & (dyn QueryIndex<Id=ClusterPoint<Id>> )) -> Vec<Box<Cluster<Id>>> {
         let mut clusters = Vec::new();
-        let mut cluster_id_seq = self.cluster_id_sequence;
         for point in points {
             if point.cluster.get().is_some() {
                 continue;
@@ -100,8 +99,8 @@ impl<Id> Clusterer<Id>
                 .filter(|point| point.cluster.get().is_none())
                 .map(|p| p.clone()).collect();
             if similar_points.len() > self.min_cluster_size {
-                cluster_id_seq += 1;
-                let cluster = self.create_new_cluster(similar_points, cluster_id_seq);
+                let cluster_id = self.new_cluster_id();
+                let cluster = self.create_new_cluster(similar_points, cluster_id);
                 clusters.push(cluster);
             }
         }
-- 
2.43.0


From 5bb8a352aa813ecb1d4b4b23aa5c30925d0f17ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:06 +0000
Subject: [PATCH 13/17] fix: cluster_par must work with fewer points than
 threads

The chunk size was 0, which panics.
---
 gaoya/src/clustering/clusterer_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index ef5ede1..e08045e 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -167,7 +167,7 @@ where
         points: &mut Vec<ClusterPoint<Id>>,
         query_index: &MinHashIndex<T, ClusterPoint<Id>, C>,
     ) -> Vec<Box<Cluster<Id>>> {
-        let chunk_size = points.len() / self.n_threads;
+        let chunk_size = (points.len() / self.n_threads.max(1)).max(1);
         let result: Vec<_> = points.par_chunks_mut(chunk_size)
             .map(|chunk| self.cluster_slice(chunk, query_index))
             .collect();
-- 
2.43.0


From 114c2a78dbf7f094dd89503208886c1b2b1edbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:06 +0000
Subject: [PATCH 14/17] fix: concurrent cluster creation must not lose, share
 or dangle points

Two threads that met on a point read each other's cluster, which may have been
freed already; COMMITTED and ROLLED_BACK were the same value, a rolled back
cluster kept assigning points, and the winner of a conflict recorded a member
that still pointed to the loser. Creating a cluster is short, so let one thread
at a time do it.
---
 gaoya/src/clustering/clusterer_parallel.rs | 46 ++++++----------------
 1 file changed, 13 insertions(+), 33 deletions(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index e08045e..3d8cd98 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -9,6 +9,7 @@ use std::pin::Pin;
 use std::ptr;
 use std::ptr::null_mut;
 use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU8, Ordering};
+use std::sync::{Mutex, PoisonError};
 use triomphe::Arc;
 
 /// Implementation of a parallel,  multi-threaded clustering algorithm.
@@ -86,7 +87,7 @@ impl<Id> Eq for ClusterPointInner<Id> where Id: Eq {}
 pub type ClusterPoint<Id> = Arc<ClusterPointInner<Id>>;
 
 const COMMITTED: u8 = 1;
-const ROLLED_BACK: u8 = 1;
+const ROLLED_BACK: u8 = 2;
 
 pub struct Cluster<Id> {
     pub points: Vec<ClusterPoint<Id>>,
@@ -138,6 +139,7 @@ pub struct Clusterer<T, Id> {
     phandom: PhantomData<(T, Id)>,
     n_threads: usize,
     min_cluster_size: usize,
+    create_lock: Mutex<()>,
 }
 
 impl<T, Id> Clusterer<T, Id>
@@ -151,6 +153,7 @@ where
             phandom: PhantomData,
             n_threads: n_threads,
             min_cluster_size: min_cluster_size,
+            create_lock: Mutex::new(()),
         }
     }
 
@@ -221,49 +224,26 @@ where
 
     /// Creates a new cluster given the points.
     /// During parallel clustering two threads may attempt to create a cluster from
-    /// similar points.
+    /// similar points. Only one of them assigns its points at a time, therefore
+    /// a point that is already assigned belongs to a cluster that has been commited.
     fn try_create_cluster(&self, points: &mut Vec<ClusterPoint<Id>>) -> Option<Box<Cluster<Id>>> {
+        let _guard = self.create_lock.lock().unwrap_or_else(PoisonError::into_inner);
         let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;
         let mut cluster: Box<Cluster<Id>> =
             Box::new(Cluster::new(cluster_id, self.min_cluster_size));
         let cluster_const_ptr: *const Cluster<Id> = &*cluster;
         let cluster_ptr = cluster_const_ptr as *mut Cluster<Id>;
 
-        for mut i in 0..points.len() {
-            // Another thread may rolled us back
-            if cluster.is_rolled_back() {
-                self.rollback_cluster_points(&mut cluster, cluster_ptr);
-            }
-            let point = &points[i];
+        for point in points.iter() {
             match point.assign_cluster(cluster_ptr) {
                 Ok(_) => {
                     cluster.points.push(point.clone());
                 }
-                Err(conflict_ptr) => {
-                    // This point has already been assigned a cluster by another thread,
-                    // but if the conflict cluster has not been commited we still can win this point
-                    let conflict_cluster: &mut Cluster<Id> = unsafe { &mut *conflict_ptr };
-                    if conflict_cluster.is_commited() {
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else if conflict_cluster.is_rolled_back() {
-                        i = i - 1; // go back and retry
-                    } else if (cluster_id > conflict_cluster.cluster_id) {
-                        // We loose because conflict_cluster was first
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else {
-                        if conflict_cluster.rollback() {
-                            cluster.points.push(point.clone());
-                        } else {
-                            // We are too late
-                            cluster.rollback();
-                            self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                            return None;
-                        }
-                    }
+                Err(_) => {
+                    // We loose because another thread was first
+                    cluster.rollback();
+                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
+                    return None;
                 }
             }
         }
-- 
2.43.0


From 93acae9b01655424f2c21c5df06b0bbc2fd9b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:04 +0000
Subject: [PATCH 15/17] fix: the Python SimHash index must call query methods
 that exist

Queries that return distances, and bulk queries with a callable analyzer,
failed with AttributeError.
---
 py-gaoya/gaoya/simhash.py |  8 ++++----
 py-gaoya/src/sim_hash.rs  | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 3c53b67..621f847 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -102,12 +102,12 @@ class SimHashStringIndex:
         """
         if callable(self.analyzer):
             if return_hamming_distance:
-                return self.index.query_tokens_return_similarity(self.analyzer(doc))
+                return self.index.query_tokens_return_distance(self.analyzer(doc))
             else:
                 return self.index.query_tokens(self.analyzer(doc))
         else:
             if return_hamming_distance:
-                return self.index.query_return_similarity(doc)
+                return self.index.query_return_distance(doc)
             else:
                 return self.index.query(doc)
 
@@ -132,11 +132,11 @@ class SimHashStringIndex:
         if callable(self.analyzer):
             analyzed_docs = [self.analyzer(doc) for doc in docs]
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(analyzed_docs)
+                return self.index.par_bulk_query_tokens_return_similarity(analyzed_docs)
             else:
                 return self.index.par_bulk_query_tokens(analyzed_docs)
         else:
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(docs)
+                return self.index.par_bulk_query_return_distance(docs)
             else:
                 return self.index.par_bulk_query(docs)
diff --git a/py-gaoya/src/sim_hash.rs b/py-gaoya/src/sim_hash.rs
index 1fc9454..9b5d022 100644
--- a/py-gaoya/src/sim_hash.rs
+++ b/py-gaoya/src/sim_hash.rs
@@ -156,6 +156,16 @@ macro_rules! py_simhash_index {
                 self.inner.par_bulk_query_return_distance(&signatures)
             }
 
+            pub fn par_bulk_query_tokens(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<i64>> {
+                let signatures = doc_tokens.par_iter()
+                    .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
+                    .collect();
+                self.inner.par_bulk_query(&signatures)
+                    .into_iter()
+                    .map(|set| set.into_iter().collect())
+                    .collect()
+            }
+
             pub fn par_bulk_query_tokens_return_similarity(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<(i64, usize)>> {
                 let signatures = doc_tokens.par_iter()
                     .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
-- 
2.43.0


From 0cc1589b9aa25992aec9ae03be2db36b0826fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:04 +0000
Subject: [PATCH 16/17] fix: the Python SimHash index must reject num_blocks
 outside 3..32

The condition could never be true.
---
 py-gaoya/gaoya/simhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 621f847..fdd5ae0 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -50,7 +50,7 @@ class SimHashStringIndex:
 
         if hash_size not in [64, 128]:
             raise ValueError(f"Invalid hash_size {hash_size}. hash_size must be one of of 64 or 128")
-        if num_blocks < 3 and num_blocks > 32:
+        if num_blocks < 3 or num_blocks > 32:
             raise ValueError(f"Invalid num_blocks {num_blocks}. num_blocks must be between 3 and 32")
         if hamming_distance >= num_blocks:
             raise ValueError(f"Number of blocks must be greater than hamming distance")
-- 
2.43.0


From 5fb8ef395f1334551431a3230f571e9e3198ec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:21 +0000
Subject: [PATCH 17/17] fix: mix high bits into MinHash values before narrowing
 them

MinHasher8 and MinHasher16 kept the low bits of hash * a + b, which depend on
the low bits of the token's hash alone: two tokens whose hashes agree there
agreed on about half of all positions, whatever the number of hashes.
---
 gaoya/src/minhash/min_hasher.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/min_hasher.rs b/gaoya/src/minhash/min_hasher.rs
index fabf952..30fb05e 100644
--- a/gaoya/src/minhash/min_hasher.rs
+++ b/gaoya/src/minhash/min_hasher.rs
@@ -90,7 +90,9 @@ macro_rules! make_min_hasher {
                                 })
                                 .min()
                                 .unwrap();
-                            h as $type
+                            // The low bits of `hash * a + b` depend on the low bits of `hash` alone,
+                            // mix in the high bits before narrowing
+                            (h ^ (h >> 16)) as $type
                         })
                         .collect(),
                     _ => vec![0; self.num_hashes],
-- 
2.43.0

