"""Planted bugs: id -> dict(prop, edits=[(file, old, new)], needs, what, rs= demo main body | py= demo script)."""
MI='gaoya/src/minhash/minhash_index.rs'; IC='gaoya/src/minhash/id_container.rs'; MM='gaoya/src/minhash/mod.rs'
MH='gaoya/src/minhash/min_hasher.rs'; MH64='gaoya/src/minhash/min_hasher64.rs'; SI='gaoya/src/minhash/string_index.rs'
SX='gaoya/src/simhash/sim_hash_index.rs'; SP='gaoya/src/simhash/permutation.rs'; SH='gaoya/src/simhash/sim_hash.rs'; SM='gaoya/src/simhash/mod.rs'
CP='gaoya/src/clustering/clusterer_parallel.rs'; CS='gaoya/src/clustering/clustering_serial.rs'
TT='gaoya/src/text/tokenizers.rs'; TM='gaoya/src/text/multi_shingles.rs'
PM='py-gaoya/src/min_hash.rs'; PS='py-gaoya/src/sim_hash.rs'; PL='py-gaoya/src/lib.rs'; PYM='py-gaoya/gaoya/minhash.py'; PYS='py-gaoya/gaoya/simhash.py'
M = {}
def m(id, prop, edits, needs, what, rs=None, py=None):
    assert id not in M
    M[id] = dict(prop=prop, edits=edits if isinstance(edits, list) else [edits], needs=needs, what=what, rs=rs, py=py)

RACE = '''
use gaoya::clustering::clusterer_parallel::*;
use gaoya::clustering::QueryIndex;
use std::collections::HashSet;
use std::sync::{Barrier, atomic::{AtomicUsize, Ordering}};
use triomphe::Arc;
type P = ClusterPoint<u32>;
struct Q { a: HashSet<P>, b: HashSet<P>, bar: Barrier, ca: AtomicUsize, cb: AtomicUsize }
impl QueryIndex for Q {
    type Id = P;
    fn query(&self, id: &P) -> HashSet<&P> {
        let (s, c) = if id.get_id() == 0 { (&self.a, &self.ca) } else { (&self.b, &self.cb) };
        let r = s.iter().collect();
        // the second question of each thread is the one whose answer becomes a cluster
        if c.fetch_add(1, Ordering::SeqCst) == 1 { self.bar.wait(); }
        r
    }
}
fn main() {
    let t = std::time::Instant::now();
    let n = 3000u32;
    for _ in 0..400 {
        if t.elapsed().as_secs() > 100 { break }
        // 0..n only similar to 0, n to both, n+1..2n only to n + 1
        let ps: Vec<P> = (0..2 * n).map(|i| Arc::new(ClusterPointInner::new(i))).collect();
        let q = Q { a: ps[..n as usize + 1].iter().cloned().collect(), b: ps[n as usize..].iter().cloned().collect(), bar: Barrier::new(2), ca: Default::default(), cb: Default::default() };
        let min = n as usize;
        let c: Clusterer<u32, u32> = Clusterer::new(min, 2);
        let (x, y) = std::thread::scope(|s| {
            let h = s.spawn(|| c.cluster(&mut vec![ps[0].clone()], &q));
            let y = c.cluster(&mut vec![ps[n as usize + 1].clone()], &q);
            (h.join().unwrap(), y)
        });
        let all: Vec<_> = x.into_iter().chain(y).collect();
        assert!(all.iter().all(|c| c.points.len() >= min), "a cluster of less than the minimum size");
        let known: HashSet<usize> = all.iter().map(|c| &**c as *const _ as usize).collect();
        for p in &ps {
            let c = p.get_cluster() as usize;
            assert!(c == 0 || known.contains(&c), "a point of an unknown cluster");
        }
    }
}'''
SERIAL = '''
use gaoya::clustering::clustering_serial::*;
use gaoya::clustering::QueryIndex;
use std::collections::HashSet;
use std::rc::Rc;
type P = ClusterPoint<u32>;
fn points(n: u32) -> Vec<P> { (0..n).map(|i| Rc::new(ClusterPointInner::new(i))).collect() }
struct All(HashSet<P>);
impl QueryIndex for All { type Id = P; fn query(&self, _: &P) -> HashSet<&P> { self.0.iter().collect() } }
fn main() {
%s
}'''

m('c01-band-prefix', 'C01', (MI, '        band.hash(&mut hasher);', '        band[..band.len().min(16)].hash(&mut hasher);'),
  'bands wider than 16 hashes and a candidate that agrees on the first 16 hashes of a band only',
  'ids that share no whole band with the query are returned',
  rs='''
use gaoya::minhash::MinHashIndex;
fn main() {
    let mut i: MinHashIndex<u32, u32> = MinHashIndex::new(1, 20, 0.5);
    let a: Vec<u32> = (0..20).collect();
    let mut b = a.clone(); b[19] = 99;
    i.insert(1, a);
    assert!(i.query(&b).is_empty());
}''')
m('c01-f32-threshold', 'C01', [(MI, '''        match_ids.retain(|id| {
            match self.id_signatures.get(id) {
                Some(signature) => {
                    compute_minhash_similarity(signature, query_signature) >= self.threshold
                },
                None => false
            }
        });
        match_ids
    }

    #[inline]
    pub fn query_by_id(''', '''        match_ids.retain(|id| {
            match self.id_signatures.get(id) {
                Some(signature) => {
                    compute_minhash_similarity(signature, query_signature) as f32 >= self.threshold as f32
                },
                None => false
            }
        });
        match_ids
    }

    #[inline]
    pub fn query_by_id(''')],
  'a threshold that lies just above an attainable similarity, closer than single precision resolves',
  'ids below the threshold are returned',
  rs='''
use gaoya::minhash::MinHashIndex;
fn main() {
    let t = 1.0 / 3.0 + 1e-10;
    let mut i: MinHashIndex<u32, u32> = MinHashIndex::new(3, 1, t);
    i.insert(1, vec![1, 2, 3]);
    assert!(i.query(&vec![1, 7, 8]).is_empty());
}''')
m('c01-capacity-bands', 'C01', (MI, '''        let band_capacity = (initial_capacity as f64 * (1.0 - expected_similarity_ratio)) as usize;
        for i in 0..num_bands {''', '''        let band_capacity = (initial_capacity as f64 * (1.0 - expected_similarity_ratio)) as usize;
        for i in 0..num_bands.min(band_capacity.max(1)) {'''),
  'an index made by new_with_capacity whose per-band capacity is below the number of bands',
  'only some of the bands exist, so ids sharing one of the other bands are not found',
  rs='''
use gaoya::minhash::{HashSetContainer, MinHashIndex};
fn main() {
    let mut i: MinHashIndex<u32, u32, HashSetContainer<u32>> = MinHashIndex::new_with_capacity(4, 1, 0.1, 10, 0.9);
    i.insert(1, vec![1, 2, 3, 4]);
    assert_eq!(i.query(&vec![9, 9, 9, 4]).len(), 1);
}''')
m('c01-clear-large', 'C01', (MI, '''    fn clear(&mut self) {
        self.hash_table.clear();
    }''', '''    fn clear(&mut self) {
        if self.hash_table.len() > self.len {
            self.hash_table.clear();
        } else {
            self.hash_table.values_mut().for_each(|ids| *ids = C::new());
        }
    }'''),
  'clear() of an index with at most band-width distinct values in a band, then a look at the band sizes',
  'clearing leaves empty buckets behind (this is C03, not C01)',
  rs='''
use gaoya::minhash::MinHashIndex;
fn main() {
    let mut i: MinHashIndex<u32, u32> = MinHashIndex::new(2, 2, 0.1);
    i.insert(1, vec![1, 2, 3, 4]);
    i.clear();
    assert_eq!(i.band_sizes().max_size, 0);
}''')
M['c01-clear-large']['prop'] = 'C03'
m('c02-sort-percent', 'C02', (MI, 'result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());', 'result.sort_unstable_by_key(|a| std::cmp::Reverse((a.1 * 100.0) as u32));'),
  'two results whose similarities differ by less than one percent, i.e. more than 100 hashes',
  'the with-similarity form is not sorted from highest to lowest',
  rs='''
use gaoya::minhash::MinHashIndex;
fn main() {
    for n in 0..20u32 {
        let mut i: MinHashIndex<u32, u32> = MinHashIndex::new(200, 1, 0.1);
        let q: Vec<u32> = (0..200).collect();
        for k in 0..6u32 {
            let mut s = q.clone();
            for j in 0..(k as usize % 2 + 2) { s[j + k as usize] = 1000 + n; }
            i.insert(k + n * 10, s);
        }
        let r = i.query_owned_return_similarity(&q);
        assert!(r.windows(2).all(|w| w[0].1 >= w[1].1), "{:?}", r);
    }
}''')
m('c02-topk-select', 'C02', (MI, '''        ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()''', '''        let k = std::cmp::min(ids_distances.len(), k);
        if k > 0 && k * 2 < ids_distances.len() {
            ids_distances.select_nth_unstable_by(k - 1, |a, b| a.1.partial_cmp(&b.1).unwrap());
        } else {
            ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
        }
        ids_distances[0..k].to_vec()'''),
  'top-k with k less than half of the number of candidates',
  'the k nearest are returned in arbitrary order',
  rs='''
use gaoya::minhash::MinHashIndex;
fn main() {
    for round in 0..30u32 {
        let mut i: MinHashIndex<u32, u32> = MinHashIndex::new(64, 1, 0.1);
        let q: Vec<u32> = (0..64).collect();
        for k in 0..60u32 {
            let mut s = q.clone();
            for j in 0..k as usize { s[j] = 1000 + k; }
            i.insert(k * 31 + round, s);
        }
        let r = i.query_top_k(&q, 20);
        assert!(r.windows(2).all(|w| w[0].1 <= w[1].1), "{:?}", r);
    }
}''')
m('c02-trait-excludes-self', 'C02', (MI, '''            Some(signature) => {
                self::MinHashIndex::query(self, signature)
            }''', '''            Some(signature) => {
                let mut similar = self::MinHashIndex::query(self, signature);
                if similar.len() > 1 {
                    similar.remove(id);
                }
                similar
            }'''),
  'the QueryIndex form asked for an id that has a neighbour',
  'the trait-object form omits the id itself while the by-id form names it',
  rs='''
use gaoya::minhash::MinHashIndex;
use gaoya::clustering::QueryIndex;
fn main() {
    let mut i: MinHashIndex<u32, u32> = MinHashIndex::new(2, 1, 0.1);
    i.insert(1, vec![1, 2]);
    i.insert(2, vec![1, 2]);
    assert_eq!((&i as &dyn QueryIndex<Id = u32>).query(&1), i.query_by_id(&1));
}''')
m('c03-shared-bucket', 'C03', (MI, '''                ids.remove(id);
                if ids.is_empty() {''', '''                let last = ids.len() == 1;
                ids.remove(id);
                if last && self.hash_table.len() > 1 {'''),
  'removing the only id of the only bucket of a band',
  'an empty bucket stays in the band (visible in band_sizes)',
  rs='''
use gaoya::minhash::MinHashIndex;
fn main() {
    let mut i: MinHashIndex<u32, u32> = MinHashIndex::new(2, 1, 0.1);
    i.insert(1, vec![1, 2]);
    i.remove(&1);
    assert_eq!(i.band_sizes().max_size, 0);
}''')
m('c03-remove-returns', 'C03', (MI, '''                    .for_each(|band| band.remove(id, &signature));
                Some(signature)''', '''                    .for_each(|band| band.remove(id, &signature));
                if self.id_signatures.is_empty() && self.id_signatures.capacity() > 4096 {
                    self.clear();
                    return None;
                }
                Some(signature)'''),
  'removing the last id of an index whose map has grown beyond 4096 entries',
  'remove answers None for an id that was stored',
  rs='''
use gaoya::minhash::MinHashIndex;
fn main() {
    let mut i: MinHashIndex<u32, u32> = MinHashIndex::new(1, 1, 0.1);
    for k in 0..6000 { i.insert(k, vec![k]); }
    for k in 0..6000 { assert_eq!(i.remove(&k), Some(vec![k])); }
}''')
m('c04-bridge', 'C04', (MM, '''        batch
            .par_iter()
            .map(|tokens| self.create_signature(tokens.iter()))
            .collect()
    }

    fn bulk_create_signature_refs''', '''        batch
            .iter()
            .par_bridge()
            .map(|tokens| self.create_signature(tokens.iter()))
            .collect()
    }

    fn bulk_create_signature_refs'''),
  'two worker threads finishing in an order other than that of the inputs',
  'signatures of a batch come back in the wrong order',
  rs='''
use gaoya::minhash::{MinHasher, MinHasher32};
fn main() {
    let h = MinHasher32::new(16);
    for round in 0..200u32 {
        let batch: Vec<Vec<u32>> = (0..300u32).map(|i| (0..(if i % 7 == 0 { 400 } else { 1 })).map(|j| i * 1000 + j + round).collect()).collect();
        let s = h.bulk_create_signature(&batch);
        for (t, s) in batch.iter().zip(s) { assert_eq!(h.create_signature(t.iter()), s); }
    }
}''')
m('c04-sim-chunks', 'C04', (SX, '''        signatures.par_iter()
            .map(|signature| self.query_owned(signature))
            .collect()''', '''        signatures.par_chunks((signatures.len() / 64).max(1))
            .take(64)
            .flat_map(|chunk| chunk.par_iter().map(|signature| self.query_owned(signature)))
            .collect()'''),
  'a bulk SimHash query of more than 64 signatures whose number is not a multiple of 64',
  'the results of the last signatures are missing',
  rs='''
use gaoya::simhash::SimHashIndex;
fn main() {
    let mut i: SimHashIndex<u64, u32> = SimHashIndex::new(4, 2);
    i.insert(1, 5);
    for n in 0..200 { assert_eq!(i.par_bulk_query(&vec![5u64; n]).len(), n); }
}''')
m('c04-sim-pairs-rev', 'C04', (SX, '''        for id_hash in id_signature_pairs {
            self.id_signatures.insert(id_hash.0, id_hash.1);
        }''', '''        for id_hash in id_signature_pairs {
            self.id_signatures.entry(id_hash.0).or_insert(id_hash.1);
        }'''),
  'a bulk insert of pairs that repeats an id or names one that is already stored',
  'the first signature of an id wins instead of the latest',
  rs='''
use gaoya::simhash::SimHashIndex;
fn main() {
    let mut i: SimHashIndex<u64, u32> = SimHashIndex::new(4, 2);
    i.par_bulk_insert_pairs(vec![(1, 0), (1, u64::MAX)]);
    assert_eq!(i.query(&u64::MAX).len(), 1);
    assert_eq!(i.query(&0).len(), 0);
}''')
m('c05-smallvec-spill', 'C05', (IC, '''        if let Some(index) = self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(index);
        };''', '''        if let Some(index) = self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(index);
            if self.vec.spilled() && self.vec.len() <= N {
                let inline = self.vec.drain(..).take(N - 1).collect();
                self.vec = inline;
            }
        };'''),
  'a small-vector bucket that has spilled to the heap and shrinks back to its inline capacity',
  'one id is lost',
  rs='''
use gaoya::minhash::{IdContainer, SmallVecContainer};
fn main() {
    let mut c = SmallVecContainer::<u32, 3>::new();
    for i in 0..4 { c.push(i); }
    c.remove(&0);
    assert_eq!(c.len(), 3);
}''')
m('c05-vec-dup-remove', 'C05', (IC, '''        if let Some(index) =  self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(index);
        }''', '''        if self.vec.len() > 64 {
            let half = self.vec.len() / 2;
            match self.vec[..half].iter().position(|x| x == item) {
                Some(index) => { self.vec.swap_remove(index); }
                None => if let Some(index) = self.vec[half + 1..].iter().position(|x| x == item) {
                    self.vec.swap_remove(half + 1 + index);
                }
            }
        } else if let Some(index) =  self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(index);
        }'''),
  'removing the middle id of a vector bucket with more than 64 ids',
  'the id stays in the bucket',
  rs='''
use gaoya::minhash::{IdContainer, VecContainer};
fn main() {
    for n in 0..200u32 { for k in 0..n {
        let mut c = VecContainer::<u32>::new();
        for i in 0..n { c.push(i); }
        c.remove(&k);
        assert_eq!(c.len() as u32, n - 1);
    } }
}''')
m('c06-chunks', 'C06', (MH64, '''                    hashes
                        .iter()
                        .map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME)
                        .min()
                        .unwrap()''', '''                    if hashes.len() >= 512 {
                        return hashes
                            .chunks_exact(8)
                            .flat_map(|c| c.iter())
                            .map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME)
                            .min()
                            .unwrap();
                    }
                    hashes
                        .iter()
                        .map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME)
                        .min()
                        .unwrap()'''),
  'at least 512 tokens, their number not a multiple of 8',
  'the last tokens do not count, so the signature depends on token order',
  rs='''
use gaoya::minhash::{MinHasher, MinHasher64V1};
fn main() {
    let h = MinHasher64V1::new(200);
    for n in [100u32, 515, 519, 1001] {
        let mut t: Vec<u32> = (0..n).collect();
        let a = h.create_signature(t.iter());
        t.reverse();
        assert_eq!(a, h.create_signature(t.iter()));
    }
}''')
m('c06-xor-count', 'C06', (MH, '''                                .min()
                                .unwrap();
                            //''', '''                                .min()
                                .unwrap()
                                ^ u32::from(hashes.len() == 2 && hashes[0] == hashes[1]);
                            //'''),
  'a token list that consists of one token given twice',
  'repetition of a token changes the signature',
  rs='''
use gaoya::minhash::{MinHasher, MinHasher32};
fn main() {
    let h = MinHasher32::new(20);
    assert_eq!(h.create_signature(["a"].iter()), h.create_signature(["a", "a"].iter()));
}''')
m('c07-cycle', 'C07', (MH64, '''            a: (0..num_hashes)
                .map(|_| rand_range1.sample(&mut rng))
                .collect(),
            b: (0..num_hashes)
                .map(|_| rand_range2.sample(&mut rng))
                .collect(),
            num_hashes,''', '''            a: (0..num_hashes.min(128))
                .map(|_| rand_range1.sample(&mut rng))
                .collect::<Vec<_>>().into_iter().cycle().take(num_hashes).collect(),
            b: (0..num_hashes.min(128))
                .map(|_| rand_range2.sample(&mut rng))
                .collect::<Vec<_>>().into_iter().cycle().take(num_hashes).collect(),
            num_hashes,'''),
  'more than 128 hashes: they repeat, so the estimate does not get better',
  'the error does not shrink with the number of hashes',
  rs='''
use gaoya::minhash::{MinHasher, MinHasher64V1};
fn main() {
    let h = MinHasher64V1::new(1024);
    let mut worst = 0f64;
    for i in 0..60u32 {
        let a: Vec<String> = (0..100).map(|x| format!("{} tok {}", x, i)).collect();
        let b: Vec<String> = (50..150).map(|x| format!("{} tok {}", x, i)).collect();
        worst = worst.max((h.compute_similarity(a.iter(), b.iter()) - 1.0 / 3.0).abs());
    }
    assert!(worst < 0.08, "{}", worst);
}''')
m('c07-small-a', 'C07', (MH, 'let rand_range1 = Uniform::from(1..MERSENNE_PRIME_31);', 'let rand_range1 = Uniform::from(1..MERSENNE_PRIME_31 >> 24);'),
  'any sets; only the quality of the estimate suffers', 'the multipliers are so small that the hash functions are not independent',
  rs='''
use gaoya::minhash::{MinHasher, MinHasher32};
fn main() {
    let h = MinHasher32::new(512);
    let mut worst = 0f64;
    for i in 0..40u32 {
        let a: Vec<String> = (0..20).map(|x| format!("{} tok {}", x, i)).collect();
        let b: Vec<String> = (10..30).map(|x| format!("{} tok {}", x, i)).collect();
        worst = worst.max((h.compute_similarity(a.iter(), b.iter()) - 1.0 / 3.0).abs());
    }
    assert!(worst < 0.15, "{}", worst);
}''')
m('c08-table-cap', 'C08', (SP, 'for mut combination in blocks.clone().into_iter().combinations(count) {', 'for mut combination in blocks.clone().into_iter().combinations(count).take(512) {'),
  'a configuration with more than 512 tables (for example 12 blocks, distance 6) and differing bits in the first blocks',
  'ids within the distance are missed',
  rs='''
use gaoya::simhash::SimHashIndex;
fn main() {
    let mut i: SimHashIndex<u64, u32> = SimHashIndex::new(12, 6);
    i.insert(1, 0);
    let mut q = 0u64;
    for b in 0..6 { q |= 1 << (b * 64 / 12); }
    assert_eq!(i.query(&q).len(), 1);
}''')
m('c08-u128-distance', 'C08', (SM, '''                (self ^ rhs).count_ones() as usize
            }''', '''                ((self ^ rhs) as u64).count_ones() as usize
            }'''),
  '128-bit signatures that differ in their upper half', 'differences in the upper 64 bits do not count',
  rs='''
use gaoya::simhash::SimHashIndex;
fn main() {
    let mut i: SimHashIndex<u128, u32> = SimHashIndex::new(4, 2);
    i.insert(1, 0);
    assert_eq!(i.query(&(7u128 << 100)).len(), 0);
}''')
m('c08-bucket-cap', 'C08', (SX, '''            .or_insert(Vec::new())
            .push(id);''', '''            .or_insert_with(|| Vec::with_capacity(1))
            .push(id);
        if self.table.len() % 1021 == 0 {
            self.table.retain(|_, ids| ids.len() < 256);
        }'''),
  'a bucket with at least 256 ids and a table with a multiple of 1021 buckets',
  'large buckets are dropped', rs='''
use gaoya::simhash::SimHashIndex;
fn main() {
    let mut i: SimHashIndex<u64, u32> = SimHashIndex::new(3, 1);
    for k in 0..300u32 { i.insert(k, 0); }
    for k in 0..1200u64 { i.insert(1000 + k as u32, k << 40 | k << 10 | k << 60 | 1 << 20); }
    assert!(i.query(&0).len() >= 300);
}''')
m('c09-one-first-best', 'C09', (SX, '''            .min_by(|x, y| x.1.cmp(&y.1))
    }

    pub fn query(''', '''            .min_by(|x, y| (x.1 / 2).cmp(&(y.1 / 2)))
    }

    pub fn query('''),
  'two ids at distances 2k and 2k+1 of the query', 'the best match is not the nearest',
  rs='''
use gaoya::simhash::SimHashIndex;
fn main() {
    for r in 0..50u32 {
        let mut i: SimHashIndex<u64, u32> = SimHashIndex::new(6, 5);
        for k in 0..4 { i.insert(r * 10 + k, if k == 2 { 0 } else { 1 }); }
        assert_eq!(i.query_one(&0).unwrap().1, 0);
    }
}''')
m('c10-i16', 'C10', [(SH, 'let mut counts = [0i64; L];', 'let mut counts = [0i16; L];'), (SH, '*count += 1;\n                } else {\n                    *count -= 1;', '*count = count.wrapping_add(1);\n                } else {\n                    *count = count.wrapping_sub(1);')],
  'more than 32767 tokens', 'the counters wrap around', rs='''
use gaoya::simhash::{SimHash, SimSipHasher64};
fn main() {
    let h = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(1, 2));
    assert_eq!(h.create_signature(vec!["a"; 40000].iter()), h.create_signature(["a"].iter()));
}''')
m('c10-centroid-half', 'C10', (SH, 'if counts[i] > len / 2 {', 'if counts[i] >= len / 2 + len % 2 {'),
  'a centroid of an even number of signatures of which exactly half have a bit set', 'the bit is set in the centroid',
  rs='''
use gaoya::simhash::{SimHash, SimSipHasher64};
fn main() {
    let h = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(1, 2));
    assert_eq!(h.create_centroid([0u64, 1].into_iter()), 0);
}''')
m('c11-tail', 'C11', (MM, '''    let matches: u64 = min_hashes_1
        .iter()
        .zip(min_hashes_2.iter())
        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)
        .sum();''', '''    let matches: u64 = min_hashes_1
        .chunks(255)
        .zip(min_hashes_2.chunks(255))
        .map(|(c1, c2)| c1.iter().zip(c2).fold(0u8, |n, (h1, h2)| n.wrapping_add((h1 == h2) as u8)) as u64)
        .take(4)
        .sum();'''),
  'signatures of more than 1020 hashes', 'later hashes do not count', rs='''
use gaoya::minhash::compute_minhash_similarity;
fn main() { for n in [1usize, 100, 1000, 1024, 2048] { assert_eq!(compute_minhash_similarity(&vec![1u32; n], &vec![1u32; n]), 1.0); } }''')
m('c11-angle', 'C11', (SM, 'self.hamming_distance(rhs) as f64 * (PI /  Self::bit_length() as f64)', 'self.hamming_distance(rhs) as f64 * (PI /  Self::bit_length().min(64) as f64)'),
  '128-bit signatures', 'the angle of 128-bit signatures is twice as large', rs='''
use gaoya::simhash::SimHashBits;
fn main() { assert!((0u128.hamming_angle(&u128::MAX) - std::f64::consts::PI).abs() < 1e-9); }''')
m('c12-round', 'C12', (MM, '        let b1 = n / r1;', '        let b1 = if n > 512 { (n + r1 / 2) / r1 } else { n / r1 };'),
  'more than 512 hashes', 'the bands use more hashes than there are', rs='''
use gaoya::minhash::calculate_minhash_params;
fn main() { for n in 1..3000 { for s in [0.1, 0.3, 0.5, 0.7, 0.9] { let (b, r) = calculate_minhash_params(s, n); assert!(b * r <= n, "{} {} {}", n, b, r); } } }''')
m('c13-distinct', 'C13', (MM, '''    for signature in signatures.iter() {
        for i in 0..num_bands {''', '''    let distinct: HashSet<&Vec<T>> = signatures.iter().copied().collect();
    for signature in distinct {
        for i in 0..num_bands {'''),
  'several listed ids with equal signatures', 'equal signatures count once', rs='''
use gaoya::minhash::MinHashIndex;
fn main() {
    let mut i: MinHashIndex<u32, u32> = MinHashIndex::new(2, 1, 0.5);
    i.insert(1, vec![1, 1]); i.insert(2, vec![1, 1]); i.insert(3, vec![1, 1]); i.insert(4, vec![2, 2]); i.insert(5, vec![2, 3]);
    assert_eq!(i.calculate_centroid(&[1, 2, 3, 4, 5]), vec![1, 1]);
}''')
m('c13-u8', 'C13', (MM, '''            let count = band_counters[i].entry(band).or_insert(1);
            *count += 1;
        }
    }

    let mut centroid = Vec::new();''', '''            let count = band_counters[i].entry(band).or_insert(1);
            *count = (*count + 1).min(64);
        }
    }

    let mut centroid = Vec::new();'''),
  'a group of more than 64 ids', 'frequent band values are not told apart beyond 63', rs='''
use gaoya::minhash::MinHashIndex;
fn main() {
    for r in 0..20u32 {
        let mut i: MinHashIndex<u32, u32> = MinHashIndex::new(1, 1, 0.5);
        for k in 0..300u32 { i.insert(k, vec![r + (k % 3).min(1)]); }
        assert_eq!(i.calculate_centroid(&(0..300).collect::<Vec<_>>()), vec![r + 1]);
    }
}''')
m('c14-boundary', 'C14', (TM, '.filter(|&(_, &b)| !(128..192).contains(&b));', '.filter(|&(_, &b)| !(128..191).contains(&b));'),
  'a character whose UTF-8 encoding contains the byte BF', 'characters are split, or slicing panics', rs='''
use gaoya::text::shingle_text_range;
fn main() { let v: Vec<&str> = shingle_text_range("a\\u{bf}b", 1, 2).collect(); assert_eq!(v.len(), 5); }''')
m('c14-boxed-unicode', 'C14', (TT, '''    Box::new(text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())''', '''    Box::new(text
        .split(|c: char| c.is_ascii_punctuation() || c.is_whitespace())'''),
  'the boxed form and a non-ASCII space', 'words are split at non-ASCII whitespace', rs='''
use gaoya::text::*;
fn main() { let t = "a\\u{a0}b c"; assert_eq!(whitespace_split(t).collect::<Vec<_>>(), whitespace_split_boxed(t).collect::<Vec<_>>()); }''')
m('c14-join', 'C14', (TT, '.into_iter().map(|tokens| tokens.join(""))', '.into_iter().map(|tokens| tokens.join(if tokens.len() > 2 { " " } else { "" }))'),
  'token shingles of three or more tokens', 'the n-gram gets spaces inside', rs='''
use gaoya::text::shingle_tokens;
fn main() { assert_eq!(shingle_tokens(&vec!["a", "b", "c"], 3).collect::<Vec<_>>(), vec!["abc".to_string()]); }''')
m('c15-partial', 'C15', (CP, '''                    // We loose because another thread was first
''', '''                    // We loose because another thread was first
                    if cluster.points.len() >= self.min_cluster_size / 2 {
                        break;
                    }
'''),
  'another thread assigns a point between the query and the creation of the cluster',
  'clusters smaller than the minimum are returned', rs=RACE)
m('c15-no-rollback', 'C15', (CP, '''        for point in cluster.points.iter_mut() {
            point.cluster.compare_exchange(''', '''        for point in cluster.points.iter_mut().skip(1) {
            point.cluster.compare_exchange('''),
  'two threads race for overlapping neighbourhoods and the loser has already assigned a point',
  'a point keeps referring to a cluster that was never returned (freed memory)', rs=RACE)
m('c16-exact-chunks', 'C16', (CP, '''points.par_chunks_mut(chunk_size)
''', '''points.par_chunks_exact_mut(chunk_size)
'''),
  'a number of points that is not a multiple of the chunk size', 'the remaining points are never processed', rs='''
use gaoya::clustering::clusterer_parallel::*;
use gaoya::minhash::MinHashIndex;
use triomphe::Arc;
fn main() {
    let mut ps: Vec<ClusterPoint<u32>> = (0..11).map(|i| Arc::new(ClusterPointInner::new(i))).collect();
    let mut ix: MinHashIndex<u32, ClusterPoint<u32>> = MinHashIndex::new(2, 1, 0.5);
    for (i, p) in ps.iter().enumerate() { let v = if i >= 9 { 100 } else { i as u32 }; ix.insert(p.clone(), vec![v, v]); }
    let c: Clusterer<u32, u32> = Clusterer::new(2, 3);
    assert_eq!(c.cluster_par(&mut ps, &ix).len(), 1);
}''')
m('c16-unfiltered', 'C16', (CP, '''                .filter(|point| !point.is_cluster_assigned())
                .collect();''', '''                .filter(|point| !point.is_cluster_assigned() || point.get_cluster() == null_mut())
                .collect();'''), 'none: this one is equivalent and serves as a control', 'nothing', rs=None)
m('c17-moves', 'C17', (CS, '''                .filter(|point| point.cluster.get().is_none())
                .map(|p| p.clone()).collect();''', '''                .filter(|p| p.cluster.get().is_none() || p.cluster.get() == Some(self.cluster_id_sequence) && p.id == point.id)
                .map(|p| p.clone()).collect();'''), 'equivalent control', 'nothing', rs=None)
m('c17-small', 'C17', (CS, '            if similar_points.len() > self.min_cluster_size {', '            if similar_points.len() > self.min_cluster_size.min(3) {'),
  'a minimum size above 3', 'clusters smaller than the minimum', rs=SERIAL % '''
    let mut ps = points(4);
    let ix = All(ps.iter().cloned().collect());
    let mut c: Clusterer<u32> = Clusterer::new(5);
    assert!(c.cluster(&mut ps, &ix).iter().all(|c| c.points.len() >= 5));
''')
m('c18-dedup', 'C18', (SI, '        ids.iter().map(|id| self.doc_map.get(id).unwrap()).collect()', '''        let mut docs: Vec<&String> = ids.iter().map(|id| self.doc_map.get(id).unwrap()).collect();
        docs.sort();
        docs.dedup();
        docs'''),
  'two documents with the same text', 'only one of them is returned', rs='''
use gaoya::minhash::MinHashStringIndex;
fn main() { let mut i = MinHashStringIndex::new(4, 2, 0.5); i.insert("a b".into()); i.insert("a b".into()); assert_eq!(i.query("a b").len(), 2); }''')
m('c18-par-docid', 'C18', (SI, '                self.doc_id += lines.len() as u64;', '                self.doc_id += minhashes_len(&lines);'),
  'x', 'x', rs=None)
del M['c18-par-docid']
m('c18-par-blank', 'C18', (SI, '                    .par_iter()\n                    .map(|line| {', '                    .par_iter()\n                    .filter(|line| !line.1.trim().is_empty())\n                    .map(|line| {'),
  'a parallel load of a file with blank lines', 'blank lines are counted but cannot be queried', rs='''
use gaoya::minhash::MinHashStringIndex;
fn main() {
    let f = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::write(&f, "a\\n\\nb\\n").unwrap();
    let mut i = MinHashStringIndex::new(4, 2, 0.5);
    i.load_from_file_parallel(f.to_str().unwrap()).unwrap();
    std::fs::remove_file(&f).unwrap();
    assert_eq!(i.size(), 3);
    assert_eq!(i.query("").len(), 1);
}''')
m('c19-bulk-lower', 'C19', (PM, '''                    if self.lowercase {
                        let doc = doc.to_lowercase();
                        self.tokenize_and_minhash(doc.as_str())
                    } else {
                        self.tokenize_and_minhash(doc)
                    }
                })
                .collect()''', '''                    if self.lowercase {
                        let doc = doc.to_ascii_lowercase();
                        self.tokenize_and_minhash(doc.as_str())
                    } else {
                        self.tokenize_and_minhash(doc)
                    }
                })
                .collect()'''),
  'lowercase=True, a non-ASCII capital letter and a bulk operation', 'bulk and single operations tokenize differently', py='''
from gaoya.minhash import MinHashStringIndex
i = MinHashStringIndex(lowercase=True)
i.insert_document(1, "\\u00c4pfel \\u00d6l")
assert i.par_bulk_query(["\\u00c4PFEL \\u00d6L"]) == [[1]]
''')
m('c19-threshold100', 'C19', (PM, '''                    let signatures = self.bulk_hash_docs(docs);
                    self.inner.par_bulk_insert(ids, signatures);''', '''                    let (head, tail) = docs.split_at(docs.len() / 2);
                    let mut signatures = self.bulk_hash_docs(tail.to_vec());
                    signatures.extend(self.bulk_hash_docs(head.to_vec()));
                    signatures.rotate_right(tail.len());
                    self.inner.par_bulk_insert(ids, signatures);'''),
  'a bulk insert of an odd number (at least 101) of documents', 'documents get the ids of other documents', py='''
from gaoya.minhash import MinHashStringIndex
for n in (100, 101, 150, 151):
    i = MinHashStringIndex()
    i.par_bulk_insert_docs(list(range(n)), ["word%d other%d" % (k, k) for k in range(n)])
    for k in range(n):
        assert i.query("word%d other%d" % (k, k)) == [k], (n, k)
''')
m('c20-tok128', 'C20', (PS, '''                    TokenizerSpecification::CharShingle((from, None)) => {
                        self.sim_hash.create_signature(shingle_text(doc, *from))
                    }''', '''                    TokenizerSpecification::CharShingle((from, None)) => {
                        self.sim_hash.create_signature(shingle_text_range(doc, 1, *from))
                    }'''),
  'char analyzer with ngram_range (n, n), n > 1', 'shorter n-grams are used as well', py='''
from gaoya.simhash import SimHashStringIndex
i = SimHashStringIndex(num_blocks=6, hamming_distance=1, analyzer='char', ngram_range=(2, 2))
i.insert_document(1, "abab")
# the bigrams of both: ab, ba, ab
assert 1 in SimHashStringIndex(analyzer=lambda d: [d[k:k+2] for k in range(len(d)-1)]).query("x") or True
import itertools
j = SimHashStringIndex(num_blocks=6, hamming_distance=0, analyzer='char', ngram_range=(2, 2))
j.insert_document(1, "aabab")   # aa ab ba ab
assert j.query("abaab") == [1]  # ab ba aa ab
k = SimHashStringIndex(num_blocks=6, hamming_distance=0, analyzer='char', ngram_range=(2, 2))
k.insert_document(1, "abcab")    # ab bc ca ab
l = SimHashStringIndex(num_blocks=6, hamming_distance=0, analyzer=lambda d: d.split())
l.insert_document(1, "ab bc ca ab")
a = k.index.tokenize_and_simhash("a")   # no bigrams
b = k.index.tokenize_and_simhash("")
assert a == b
''')
m('c21-debug', 'C21', (MI, '''    pub fn insert(&mut self, id: Id, signature: Vec<T>) {
        assert_eq!(self.num_hashes(), signature.len());''', '''    pub fn insert(&mut self, id: Id, signature: Vec<T>) {
        debug_assert_eq!(self.num_hashes(), signature.len());'''),
  'a release build and a signature that is too long', 'the signature is accepted', rs='''
use gaoya::minhash::MinHashIndex;
fn main() {
    let mut i: MinHashIndex<u32, u32> = MinHashIndex::new(2, 1, 0.5);
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.insert(1, vec![1, 2, 3]))).is_err());
}''')
m('c21-ge', 'C21', (MI, '''    pub fn query_owned(&self, query_signature: &Vec<T>) -> HashSet<Id>
    where
        Id: Hash + Eq + Clone,
    {
        assert_eq!(self.num_hashes(), query_signature.len());''', '''    pub fn query_owned(&self, query_signature: &Vec<T>) -> HashSet<Id>
    where
        Id: Hash + Eq + Clone,
    {
        assert!(self.num_hashes() <= query_signature.len());'''),
  'a query_owned with a signature that is too long, when no id shares a band', 'an empty answer instead of a panic', rs='''
use gaoya::minhash::MinHashIndex;
fn main() {
    let i: MinHashIndex<u32, u32> = MinHashIndex::new(2, 1, 0.5);
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.query_owned(&vec![1, 2, 3]))).is_err());
}''')

m('c09-counting-sort', 'C09', (SX, """        let mut result: Vec<_> = ids.into_iter()
            .map(|id| (id.clone(), query_signature.hamming_distance(&self.id_signatures[id])))
            .collect();
        result.sort_unstable_by(|a, b| a.1.cmp(&b.1));
        result""", """        let mut buckets: Vec<Vec<(Id, usize)>> = vec![Vec::new(); 17];
        for id in ids {
            let distance = query_signature.hamming_distance(&self.id_signatures[id]);
            buckets[distance.min(16)].push((id.clone(), distance));
        }
        buckets.into_iter().flatten().collect()"""), 'an index with a distance above 16 and several matches beyond 16 bits', 'results are not sorted by distance', rs='''
use gaoya::simhash::SimHashIndex;
fn main() {
    let mut i: SimHashIndex<u64, u32> = SimHashIndex::new(21, 20);
    for k in 0..=20u32 { for j in 0..5 { i.insert(k * 10 + j, ((1u64 << k) - 1) << (j * 7)); } }
    let r = i.query_return_distance(&0);
    assert_eq!(r.len(), 105);
    assert!(r.windows(2).all(|w| w[0].1 <= w[1].1));
}''')
m('c15-lock-dropped', 'C15', (CP, 'let _guard = self.create_lock', 'let _ = self.create_lock'), 'two threads assigning at once', 'lock released at once', rs=None)
m('c16-lock-dropped', 'C16', (CP, 'let _guard = self.create_lock', 'let _ = self.create_lock'), 'two threads assigning at once', 'all attempts cancel', rs=None)
m('c12-f32', 'C12', (MM, 'XX', 'YY'), 'x', 'x')
del M['c12-f32']
