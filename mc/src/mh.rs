//! MinHash index: C01 (threshold query), C02 (query forms), C03 (map semantics), C05 (containers),
//! C13 (centroid), C21 (wrong lengths).
use crate::fw::ensure;
use crate::fw::*;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::{HashSetContainer, IdContainer, MinHashIndex, MinHashType, SmallVecContainer, VecContainer};
use mcstd::rt;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::Arc;

pub trait Ty: MinHashType + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn vals() -> [Self; 4];
    fn num(i: usize) -> Self;
}
macro_rules! ty {
    ($($t:ident),*) => { $( impl Ty for $t {
        const NAME: &'static str = stringify!($t);
        fn vals() -> [Self; 4] { [0, 1, $t::MAX, if $t::MIN == 0 { $t::MAX / 2 + 1 } else { $t::MIN }] }
        fn num(i: usize) -> Self { i as $t }
    } )* };
}
ty!(u8, u16, u32, u64, i8, i16, i32, i64);

pub trait IdT: Hash + Eq + Clone + Ord + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn mk(i: usize) -> Self;
}
macro_rules! idt {
    ($($t:ty, $n:expr, $f:expr);* $(;)?) => { $( impl IdT for $t {
        const NAME: &'static str = $n;
        fn mk(i: usize) -> Self { let f: fn(usize) -> $t = $f; f(i) }
    } )* };
}
idt! {
    u8, "u8", |i| i as u8;
    u32, "u32", |i| i as u32;
    u64, "u64", |i| u64::MAX - i as u64;
    i64, "i64", |i| i as i64 - 1;
    usize, "usize", |i| i;
    String, "String", |i| if i == 0 { String::new() } else { format!("doc{}", i) };
    Arc<String>, "Arc<String>", |i| Arc::new(format!("document number {}", i));
    (u32, String), "(u32,String)", |i| (i as u32 % 2, format!("{}", i / 2));
}

/// An id type whose values all hash alike: only equality tells them apart.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Coll(pub usize);
impl Hash for Coll {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u32(7)
    }
}
impl IdT for Coll {
    const NAME: &'static str = "Coll";
    fn mk(i: usize) -> Self {
        Coll(i)
    }
}

/// Signatures are written as digit strings; digit d stands for T::vals()[d].
pub fn sig<T: Ty>(d: &[u8]) -> Vec<T> {
    d.iter().map(|&x| T::vals()[x as usize]).collect()
}

/// The reference model: id -> latest signature.
#[derive(Clone, Default, Debug, PartialEq, Eq, Hash)]
pub struct Model {
    pub map: BTreeMap<usize, Vec<u8>>,
}
#[derive(Clone, Copy, Debug)]
pub struct Layout {
    pub b: usize,
    pub r: usize,
    pub thr: f64,
}
pub fn matches(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).filter(|(x, y)| x == y).count()
}
impl Model {
    pub fn shares_band(l: Layout, a: &[u8], b: &[u8]) -> bool {
        (0..l.b).any(|i| a[i * l.r..(i + 1) * l.r] == b[i * l.r..(i + 1) * l.r])
    }
    /// (id, number of equal hashes) of the ids that share a band with q
    pub fn candidates(&self, l: Layout, q: &[u8]) -> Vec<(usize, usize)> {
        self.map.iter().filter(|(_, s)| Self::shares_band(l, s, q)).map(|(i, s)| (*i, matches(s, q))).collect()
    }
    pub fn query(&self, l: Layout, q: &[u8]) -> BTreeMap<usize, f64> {
        let n = (l.b * l.r) as f64;
        self.candidates(l, q).into_iter().map(|(i, m)| (i, m as f64 / n)).filter(|(_, s)| *s >= l.thr).collect()
    }
    pub fn band_values(&self, l: Layout) -> Vec<usize> {
        (0..l.b).map(|i| self.map.values().map(|s| &s[i * l.r..(i + 1) * l.r]).collect::<BTreeSet<_>>().len()).collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Ins(usize, usize),
    Bulk(Vec<(usize, usize)>),
    Pairs(Vec<(usize, usize)>),
    Rem(usize),
    BulkRem(Vec<usize>),
    Clear,
    Fit,
    To(usize),
}

pub struct Sut<T: Ty, I: IdT, C: IdContainer<I>> {
    pub ix: MinHashIndex<T, I, C>,
    pub m: Model,
    pub l: Layout,
    pub ids: Vec<I>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Make {
    New,
    Cap(usize, u32),
}

impl<T: Ty, I: IdT, C: IdContainer<I>> Sut<T, I, C> {
    pub fn new(l: Layout, mk: Make, nids: usize) -> Self {
        let ix = match mk {
            Make::New => MinHashIndex::new_index(l.b, l.r, l.thr),
            Make::Cap(c, p) => MinHashIndex::new_with_capacity(l.b, l.r, l.thr, c, p as f64 / 100.0),
        };
        Sut { ix, m: Model::default(), l, ids: (0..nids).map(I::mk).collect() }
    }
    fn back(&self, i: &I) -> Option<usize> {
        self.ids.iter().position(|x| x == i)
    }
    /// Applies op to both; `rets`: compare return values with the model.
    pub fn apply(&mut self, op: &Op, al: &[Vec<u8>], rets: bool) -> R {
        let s = |i: usize| sig::<T>(&al[i]);
        match op {
            Op::Ins(i, a) => {
                self.ix.insert(self.ids[*i].clone(), s(*a));
                self.m.map.insert(*i, al[*a].clone());
            }
            Op::Bulk(v) => {
                self.ix.par_bulk_insert(v.iter().map(|x| self.ids[x.0].clone()).collect(), v.iter().map(|x| s(x.1)).collect());
                for (i, a) in v {
                    self.m.map.insert(*i, al[*a].clone());
                }
            }
            Op::Pairs(v) => {
                self.ix.par_bulk_insert_pairs(v.iter().map(|x| (self.ids[x.0].clone(), s(x.1))).collect());
                for (i, a) in v {
                    self.m.map.insert(*i, al[*a].clone());
                }
            }
            Op::Rem(i) => {
                let r = self.ix.remove(&self.ids[*i]);
                let e = self.m.map.remove(i).map(|d| sig::<T>(&d));
                ensure!(!rets || r == e, "remove({}) returned {:?}, expected {:?}", i, r, e);
            }
            Op::BulkRem(v) => {
                let r = self.ix.bulk_remove(&v.iter().map(|i| self.ids[*i].clone()).collect());
                let e: Vec<Vec<T>> = v.iter().filter_map(|i| self.m.map.remove(i)).map(|d| sig::<T>(&d)).collect();
                ensure!(!rets || r == e, "bulk_remove({:?}) returned {:?}, expected {:?}", v, r, e);
            }
            Op::Clear => {
                self.ix.clear();
                self.m.map.clear();
            }
            Op::Fit => self.ix.shrink_to_fit(),
            Op::To(c) => self.ix.shrink_to(*c),
        }
        Ok(())
    }

    fn set_of<'a>(&self, it: impl Iterator<Item = &'a I>, what: &str) -> Result<BTreeSet<usize>, String> {
        let mut out = BTreeSet::new();
        for i in it {
            match self.back(i) {
                Some(k) => {
                    ensure!(out.insert(k), "{} names id {:?} twice", what, i);
                }
                None => return Err(format!("{} returned an id never inserted: {:?}", what, i)),
            }
        }
        Ok(out)
    }

    /// C01
    pub fn check_query(&self, q: &[u8]) -> R {
        let qs = sig::<T>(q);
        let got = self.set_of(self.ix.query(&qs).into_iter(), "query")?;
        let exp: BTreeSet<usize> = self.m.query(self.l, q).into_keys().collect();
        ensure!(got == exp, "query({:?}) = {:?}, expected {:?}; contents {:?}, {:?}", q, got, exp, self.m.map, self.l);
        let got = self.set_of(self.ix.query_owned(&qs).iter(), "query_owned")?;
        ensure!(got == exp, "query_owned({:?}) = {:?}, expected {:?}; contents {:?}, {:?}", q, got, exp, self.m.map, self.l);
        let sims = self.ix.query_owned_return_similarity(&qs);
        let got = self.set_of(sims.iter().map(|x| &x.0), "query_owned_return_similarity")?;
        ensure!(got == exp, "query_owned_return_similarity({:?}) names {:?}, expected {:?}; contents {:?}, {:?}", q, got, exp, self.m.map, self.l);
        Ok(())
    }

    /// C02
    pub fn check_forms(&self, queries: &[Vec<u8>]) -> R {
        let n = (self.l.b * self.l.r) as f64;
        let mut base_all = Vec::new();
        let close = |a: f64, b: f64| (a - b).abs() < 1e-12;
        for q in queries {
            let qs = sig::<T>(q);
            let base = self.set_of(self.ix.query(&qs).into_iter(), "query")?;
            let owned = self.set_of(self.ix.query_owned(&qs).iter(), "query_owned")?;
            ensure!(base == owned, "query({:?}) = {:?} but query_owned = {:?}; contents {:?}", q, base, owned, self.m.map);
            let sims = self.ix.query_owned_return_similarity(&qs);
            self.check_sims(q, &sims, &base, "query_owned_return_similarity")?;
            match self.ix.query_one(&qs) {
                None => ensure!(base.is_empty(), "query_one({:?}) = None but query = {:?}; contents {:?}, {:?}", q, base, self.m.map, self.l),
                Some((i, s)) => {
                    let k = self.back(i).ok_or("query_one returned an unknown id")?;
                    ensure!(base.contains(&k), "query_one({:?}) = {} which is not in query = {:?}; contents {:?}", q, k, base, self.m.map);
                    let e = matches(&self.m.map[&k], q) as f64 / n;
                    ensure!(close(s, e), "query_one({:?}) reports similarity {} for {}, exact {}", q, s, k, e);
                    let best = base.iter().map(|k| matches(&self.m.map[k], q)).max().unwrap() as f64 / n;
                    ensure!(close(s, best), "query_one({:?}) has similarity {}, but {} is available", q, s, best);
                }
            }
            let mut cand = self.m.candidates(self.l, q);
            cand.sort_by_key(|c| std::cmp::Reverse(c.1));
            let c = cand.len();
            for k in [0, 1, 2, c.saturating_sub(1), c, c + 1, usize::MAX] {
                let top = self.ix.query_top_k(&qs, k);
                ensure!(top.len() == c.min(k), "query_top_k({:?}, {}) returned {} ids, expected {}; contents {:?}", q, k, top.len(), c.min(k), self.m.map);
                let mut seen = BTreeSet::new();
                for (j, (i, d)) in top.iter().enumerate() {
                    let id = self.back(i).ok_or("query_top_k returned an unknown id")?;
                    ensure!(seen.insert(id), "query_top_k({:?}, {}) names {} twice", q, k, id);
                    let m = cand.iter().find(|x| x.0 == id).ok_or_else(|| format!("query_top_k({:?}, {}) returned {} which shares no band; contents {:?}", q, k, id, self.m.map))?.1;
                    ensure!(close(*d, 1.0 - m as f64 / n), "query_top_k({:?}, {}) reports distance {} for {}, exact {}", q, k, d, id, 1.0 - m as f64 / n);
                    ensure!(close(*d, 1.0 - cand[j].1 as f64 / n), "query_top_k({:?}, {}): rank {} has distance {}, but {} was available", q, k, j, d, 1.0 - cand[j].1 as f64 / n);
                    ensure!(j == 0 || top[j - 1].1 <= *d, "query_top_k({:?}, {}) is not sorted", q, k);
                }
            }
            base_all.push(base);
        }
        let qv: Vec<Vec<T>> = queries.iter().map(|q| sig::<T>(q)).collect();
        let bulk = self.ix.par_bulk_query(&qv);
        ensure!(bulk.len() == qv.len(), "par_bulk_query returned {} results for {} queries", bulk.len(), qv.len());
        let bs = self.ix.par_bulk_query_return_similarity(&qv);
        ensure!(bs.len() == qv.len(), "par_bulk_query_return_similarity returned {} results for {} queries", bs.len(), qv.len());
        for (i, q) in queries.iter().enumerate() {
            let s = self.set_of(bulk[i].iter(), "par_bulk_query")?;
            ensure!(s == base_all[i], "par_bulk_query[{}] = {:?} but query = {:?}; contents {:?}", i, s, base_all[i], self.m.map);
            self.check_sims(q, &bs[i], &base_all[i], "par_bulk_query_return_similarity")?;
        }
        let dynq: &dyn QueryIndex<Id = I> = &self.ix;
        for (k, id) in self.ids.iter().enumerate() {
            let a = self.set_of(self.ix.query_by_id(id).into_iter(), "query_by_id")?;
            let b = self.set_of(self.ix.query_by_id_owned(id).iter(), "query_by_id_owned")?;
            let e = match self.m.map.get(&k) {
                Some(s) => self.set_of(self.ix.query(&sig::<T>(s)).into_iter(), "query")?,
                None => BTreeSet::new(),
            };
            ensure!(a == e, "query_by_id({}) = {:?} but query of its signature = {:?}; contents {:?}", k, a, e, self.m.map);
            ensure!(b == e, "query_by_id_owned({}) = {:?} but query of its signature = {:?}; contents {:?}", k, b, e, self.m.map);
            let d = self.set_of(dynq.query(id).into_iter(), "QueryIndex::query")?;
            ensure!(d == e, "QueryIndex::query({}) = {:?} but query of its signature = {:?}; contents {:?}", k, d, e, self.m.map);
        }
        Ok(())
    }

    fn check_sims(&self, q: &[u8], sims: &[(I, f64)], base: &BTreeSet<usize>, what: &str) -> R {
        let n = (self.l.b * self.l.r) as f64;
        let ids = self.set_of(sims.iter().map(|x| &x.0), what)?;
        ensure!(ids == *base, "{}({:?}) names {:?} but query = {:?}; contents {:?}", what, q, ids, base, self.m.map);
        for (j, (i, s)) in sims.iter().enumerate() {
            let k = self.back(i).unwrap();
            let sg = self.m.map.get(&k).ok_or_else(|| format!("{} names {} which is not stored", what, k))?;
            let e = matches(sg, q) as f64 / n;
            ensure!((s - e).abs() < 1e-12, "{}({:?}) reports {} for {}, exact {}", what, q, s, k, e);
            ensure!(j == 0 || sims[j - 1].1 >= *s, "{}({:?}) is not sorted from highest to lowest", what, q);
        }
        Ok(())
    }

    /// C03
    pub fn check_map(&self) -> R {
        ensure!(self.ix.size() == self.m.map.len(), "size() = {}, expected {}; contents {:?}", self.ix.size(), self.m.map.len(), self.m.map);
        ensure!(self.ix.num_hashes() == self.l.b * self.l.r, "num_hashes() = {}", self.ix.num_hashes());
        ensure!(self.ix.capacity() >= self.ix.size(), "capacity() = {} < size() = {}", self.ix.capacity(), self.ix.size());
        for (k, id) in self.ids.iter().enumerate() {
            let e = self.m.map.get(&k).map(|d| sig::<T>(d));
            let g = self.ix.get_signature(id);
            ensure!(g == e.as_ref(), "get_signature({}) = {:?}, expected {:?}", k, g, e);
        }
        let mp = self.ix.get_id_signature_map();
        ensure!(mp.len() == self.m.map.len(), "the id-to-signature map has {} entries, expected {}", mp.len(), self.m.map.len());
        for (i, s) in mp {
            let k = self.back(i).ok_or("unknown id in the map")?;
            let e = self.m.map.get(&k).map(|d| sig::<T>(d));
            ensure!(Some(s) == e.as_ref(), "map[{}] = {:?}, expected {:?}", k, s, e);
        }
        let st = self.ix.band_sizes();
        let e = self.m.band_values(self.l);
        ensure!(st.sizes == e, "band sizes {:?}, distinct band values of the stored signatures {:?}; contents {:?}", st.sizes, e, self.m.map);
        ensure!(Some(&st.min_size) == e.iter().min() && Some(&st.max_size) == e.iter().max(), "band size extremes {}..{}, sizes {:?}", st.min_size, st.max_size, e);
        let d = format!("{}", self.ix);
        ensure!(d.contains(&format!("size = {}", self.m.map.len())) || !d.contains("size = "), "Display says {:?} with {} ids", d, self.m.map.len());
        Ok(())
    }

    pub fn check(&self, p: Prop, queries: &[Vec<u8>]) -> R {
        match p {
            Prop::C01 => {
                for q in queries {
                    self.check_query(q)?;
                }
                let qv: Vec<Vec<T>> = queries.iter().map(|q| sig::<T>(q)).collect();
                let bulk = self.ix.par_bulk_query(&qv);
                let bs = self.ix.par_bulk_query_return_similarity(&qv);
                for (i, q) in queries.iter().enumerate() {
                    let exp: BTreeSet<usize> = self.m.query(self.l, q).into_keys().collect();
                    let a = self.set_of(bulk[i].iter(), "par_bulk_query")?;
                    let b = self.set_of(bs[i].iter().map(|x| &x.0), "par_bulk_query_return_similarity")?;
                    ensure!(a == exp && b == exp, "par_bulk_query({:?}) = {:?}, with similarity {:?}, expected {:?}; contents {:?}, {:?}", q, a, b, exp, self.m.map, self.l);
                }
                Ok(())
            }
            Prop::C02 => self.check_forms(queries),
            Prop::C03 => self.check_map(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prop {
    C01,
    C02,
    C03,
}
impl Prop {
    fn calls(self, nq: usize, ids: usize) -> usize {
        match self {
            Prop::C01 => nq * 3 + 2,
            Prop::C02 => nq * 11 + 2 + ids * 3,
            Prop::C03 => ids + 4,
        }
    }
}

/// digit strings of length n over 0..v
pub fn all_sigs(v: usize, n: usize) -> Vec<Vec<u8>> {
    seqs(v, n).into_iter().map(|s| s.into_iter().map(|x| x as u8).collect()).collect()
}

pub fn alphabet22() -> Vec<Vec<u8>> {
    vec![vec![0, 0, 0, 0], vec![0, 0, 1, 1], vec![0, 1, 0, 0], vec![1, 1, 1, 1]]
}

/// The full operation alphabet over 3 ids and the 4 signatures of alphabet22.
pub fn ops_full() -> Vec<Op> {
    let mut v = Vec::new();
    for i in 0..3 {
        for a in 0..4 {
            v.push(Op::Ins(i, a));
        }
        v.push(Op::Rem(i));
    }
    for b in [vec![], vec![(0, 0), (1, 1)], vec![(0, 0), (0, 1)], vec![(1, 2), (0, 0), (1, 3)], vec![(2, 0), (1, 0), (0, 0)], vec![(1, 1), (1, 1)], vec![(0, 1), (0, 0), (0, 1)]] {
        v.push(Op::Bulk(b.clone()));
        v.push(Op::Pairs(b));
    }
    for b in [vec![], vec![0], vec![0, 1], vec![2, 0], vec![1, 1], vec![0, 0, 1], vec![2, 1, 0], vec![0, 2, 1, 0]] {
        v.push(Op::BulkRem(b));
    }
    v.extend([Op::Clear, Op::Fit, Op::To(0), Op::To(1), Op::To(4)]);
    v
}
/// A smaller alphabet for deeper histories.
pub fn ops_small() -> Vec<Op> {
    vec![
        Op::Ins(0, 0),
        Op::Ins(0, 1),
        Op::Ins(1, 0),
        Op::Ins(1, 2),
        Op::Rem(0),
        Op::Rem(1),
        Op::Bulk(vec![(0, 2), (1, 0)]),
        Op::Pairs(vec![(1, 1), (0, 1), (1, 0)]),
        Op::BulkRem(vec![2, 0]),
        Op::BulkRem(vec![1, 0]),
        Op::Clear,
        Op::To(1),
    ]
}

fn histories<T: Ty, I: IdT, C: IdContainer<I>>(cx: &Cx, p: Prop, l: Layout, al: &[Vec<u8>], ops: &[Op], depth: usize, mk: Make, tag: &str) {
    let queries = if l.b * l.r <= 4 { all_sigs(2, l.b * l.r) } else { al.to_vec() };
    let nids = 3;
    // split by the first one or two operations
    let heads = if depth >= 2 { seqs(ops.len(), 2) } else { seqs(ops.len(), depth) };
    cx.par(heads, |head| {
        for tail in seqs(ops.len(), depth.saturating_sub(2)) {
            let h: Vec<usize> = head.iter().chain(tail.iter()).copied().collect();
            cx.case(
                || format!("{}<{},{}> {:?} {:?}", tag, T::NAME, I::NAME, l, h.iter().map(|&i| &ops[i]).collect::<Vec<_>>()),
                |k| {
                    let mut s = Sut::<T, I, C>::new(l, mk, nids);
                    for &o in &h {
                        s.apply(&ops[o], al, p == Prop::C03)?;
                    }
                    k.step(h.len() + p.calls(queries.len(), nids));
                    k.trace();
                    k.state(&(tag, T::NAME, I::NAME, l.b, l.r, &s.m));
                    s.check(p, &queries)
                },
            );
            if cx.stopped() {
                return;
            }
        }
    });
}

/// All short histories in layouts of many bands; every band is probed on its own after each.
fn wide_histories<C: IdContainer<u32>>(cx: &Cx, p: Prop, tag: &str, b: usize, r: usize, depth: usize) {
    let n = b * r;
    let al: Vec<Vec<u8>> = vec![vec![0; n], vec![1; n], (0..n).map(|i| (i / r % 2) as u8).collect()];
    let probe = |band: usize, d: u8| -> Vec<u8> { (0..n).map(|i| if i / r == band { d } else { 3 }).collect() };
    let mut queries: Vec<Vec<u8>> = al.clone();
    for band in 0..b {
        if p != Prop::C02 || band == 0 || band == b / 2 || band == b - 1 {
            queries.push(probe(band, 0));
            queries.push(probe(band, 1));
        }
    }
    let ops = ops_small();
    let l = Layout { b, r, thr: 0.0 };
    cx.par(seqs(ops.len(), 2), |head| {
        for tail in seqs(ops.len(), depth - 2) {
            let h: Vec<usize> = head.iter().chain(tail.iter()).copied().collect();
            cx.case(
                || format!("{} {:?} {:?}", tag, l, h.iter().map(|&i| &ops[i]).collect::<Vec<_>>()),
                |k| {
                    let mut s = Sut::<u32, u32, C>::new(l, Make::Cap(2, 0), 3);
                    for &o in &h {
                        s.apply(&ops[o], &al, p == Prop::C03)?;
                    }
                    k.step(h.len() + p.calls(queries.len(), 3));
                    k.trace();
                    k.state(&(tag, l.b, l.r, &s.m));
                    s.check(p, &queries)
                },
            );
            if cx.stopped() {
                return;
            }
        }
    });
}

/// Every signature over `v` values of a small layout is stored at once; every one is queried.
fn closure<T: Ty, I: IdT, C: IdContainer<I>>(cx: &Cx, p: Prop, tag: &str, v: usize, b: usize, r: usize) {
    let n = b * r;
    let al = all_sigs(v, n);
    let mut thrs: Vec<f64> = (0..=n).map(|k| k as f64 / n as f64).collect();
    thrs.extend([0.3, 0.5, 0.7, 0.85, 0.99, f64::MIN_POSITIVE, 1.0 - f64::EPSILON]);
    for thr in thrs {
        for order in 0..3 {
            let l = Layout { b, r, thr };
            cx.case(
                || format!("{}<{},{}> all {}-valued signatures {:?} load order {}", tag, T::NAME, I::NAME, v, l, order),
                |k| {
                    let mut s = Sut::<T, I, C>::new(l, if order == 2 { Make::New } else { Make::Cap(8, 50) }, al.len());
                    match order {
                        0 => {
                            for i in 0..al.len() {
                                s.apply(&Op::Ins(i, i), &al, true)?;
                            }
                        }
                        1 => s.apply(&Op::Bulk((0..al.len()).rev().map(|i| (i, i)).collect()), &al, true)?,
                        _ => s.apply(&Op::Pairs((0..al.len()).map(|i| (i, i)).collect()), &al, true)?,
                    }
                    k.step(al.len() + p.calls(al.len(), al.len()));
                    k.trace();
                    k.state(&(tag, T::NAME, I::NAME, b, r, order, &s.m));
                    s.check(p, &al)?;
                    // drop every second id again, and check what is left
                    let half: Vec<usize> = (0..al.len()).filter(|i| i % 2 == order % 2).collect();
                    if order == 1 {
                        s.apply(&Op::BulkRem(half), &al, p == Prop::C03)?;
                    } else {
                        for i in half {
                            s.apply(&Op::Rem(i), &al, p == Prop::C03)?;
                        }
                    }
                    k.step(al.len() / 2 + p.calls(al.len(), al.len()));
                    k.trace();
                    s.check(p, &al)
                },
            );
        }
    }
}

/// Band layouts: every single band must be able to produce a candidate, a broken band must not.
fn band_layouts<T: Ty>(cx: &Cx, p: Prop, maxb: usize, maxr: usize, more: &[(usize, usize)]) {
    let mut items: Vec<(usize, usize)> = (1..=maxb).flat_map(|b| (1..=maxr).map(move |r| (b, r))).collect();
    items.extend(more.iter().rev());
    items.reverse();
    cx.par(items, |(b, r)| {
        for thr in [0.0, 1.0 / b as f64, 0.5] {
            let l = Layout { b, r, thr };
            cx.case(
                || format!("layout {}x{} thr {} {}", b, r, thr, T::NAME),
                |k| {
                    let n = b * r;
                    let base: Vec<u8> = vec![0; n];
                    // al[j]: agrees exactly on band j; al[b + x]: all but one hash of every band, missing position x % r
                    let mut al: Vec<Vec<u8>> = Vec::new();
                    for j in 0..b {
                        let mut s = vec![1u8; n];
                        s[j * r..(j + 1) * r].fill(0);
                        al.push(s);
                    }
                    for x in 0..r {
                        let mut s = base.clone();
                        for j in 0..b {
                            s[j * r + x] = 2;
                        }
                        al.push(s);
                    }
                    al.push(base.clone());
                    let mut s = Sut::<T, u32, HashSetContainer<u32>>::new(l, Make::Cap(16, 0), al.len());
                    for i in 0..al.len() {
                        s.apply(&Op::Ins(i, i), &al, true)?;
                    }
                    let mut qs = vec![base.clone(), vec![1; n], vec![2; n]];
                    qs.extend(al.iter().cloned());
                    k.step(al.len() + p.calls(qs.len(), al.len()));
                    k.trace();
                    k.state(&(b, r, T::NAME, &s.m));
                    s.check(p, &qs)?;
                    for i in 0..b {
                        s.apply(&Op::Rem(i), &al, true)?;
                    }
                    k.step(b + p.calls(qs.len(), al.len()));
                    k.trace();
                    s.check(p, &qs)
                },
            );
        }
    });
}

/// Similarity k/n against thresholds, for all n and k.
fn threshold_sweep<T: Ty>(cx: &Cx, p: Prop, ns: Vec<usize>) {
    cx.par(ns, |n| {
        let mut thrs: Vec<f64> = (0..=n).map(|k| k as f64 / n as f64).collect();
        thrs.extend((1..20).map(|i| i as f64 * 0.05));
        thrs.extend((1..100).filter(|i| (n * i) % 100 == 0).map(|i| i as f64 * 0.01));
        if n <= 12 {
            // the neighbours of the attainable values
            let near: Vec<f64> = thrs.iter().filter(|t| **t > 0.0).flat_map(|t| [t * (1.0 - 1e-10), t * (1.0 + 1e-10)]).collect();
            thrs.extend(near);
        }
        if n > 40 {
            let m = thrs.len();
            thrs = thrs.into_iter().enumerate().filter(|(i, _)| i % (m / 25).max(1) == 0 || *i > m - 6).map(|x| x.1).collect();
        }
        for thr in thrs {
            for (b, r) in [(n, 1), (1, n)] {
                let l = Layout { b, r, thr };
                // with one wide band only an identical signature is a candidate: interesting for thr > 0 only
                if r == n && n > 1 && thr < 0.9 {
                    continue;
                }
                cx.case(
                    || format!("threshold {} of {} hashes ({}x{}) {}", thr, n, b, r, T::NAME),
                    |k| {
                        let ks: Vec<usize> = if n <= 40 {
                            (0..=n).collect()
                        } else {
                            let c = (thr * n as f64) as usize;
                            (c.saturating_sub(3)..=(c + 3).min(n)).chain([0, 1, n - 1, n]).collect()
                        };
                        let al: Vec<Vec<u8>> = ks.iter().map(|&m| (0..n).map(|i| if i < m { 0 } else { 1 }).collect()).collect();
                        let mut s = Sut::<T, u32, VecContainer<u32>>::new(l, Make::Cap(16, 0), al.len());
                        for i in 0..al.len() {
                            s.apply(&Op::Ins(i, i), &al, true)?;
                        }
                        let qs = vec![vec![0u8; n], vec![1u8; n], (0..n).map(|i| (i % 2) as u8).collect()];
                        k.step(al.len() + p.calls(qs.len(), al.len()));
                        k.trace();
                        k.state(&(n, b, thr.to_bits(), T::NAME));
                        s.check(p, &qs)
                    },
                );
            }
        }
    });
}

/// Many ids: everything in one bucket, everything apart, and pairs; grown and emptied in three orders.
fn big<I: IdT, C: IdContainer<I>>(cx: &Cx, p: Prop, tag: &str, ns: Vec<usize>) {
    let l = Layout { b: 2, r: 2, thr: 0.5 };
    let items: Vec<(usize, usize, usize)> = ns.iter().flat_map(|&n| (0..5).flat_map(move |shape| (0..4).map(move |ord| (n, shape, ord)))).collect();
    cx.par(items, |(n, shape, ord)| {
        if I::NAME == "u8" && n > 255 {
            return;
        }
        cx.case(
            || format!("{}<{}> {} ids, shape {}, order {}", tag, I::NAME, n, shape, ord),
            |k| big_case::<I, C>(k, p, l, n, shape, ord),
        );
    });
}
fn digits(mut x: usize) -> Vec<u32> {
    let mut v = Vec::new();
    for _ in 0..2 {
        v.push((x % 70000) as u32);
        x /= 70000;
    }
    v
}
fn big_sig(shape: usize, i: usize) -> Vec<u32> {
    match shape {
        // all equal
        0 => vec![7, 7, 7, 7],
        // same first band, second band distinct
        1 => {
            let d = digits(i);
            vec![7, 7, d[0] + 10, d[1] + 10]
        }
        // every second one equal, the others apart
        3 if i % 2 == 0 => vec![7, 7, 9, 9],
        3 => {
            let d = digits(i);
            vec![d[0] + 10, 5, d[0] + 10, d[1] + 20]
        }
        // every second one shares the first band with the query, the others the second band
        4 => {
            let d = digits(i);
            if i % 2 == 0 { vec![7, 7, d[0] + 10, d[1] + 10] } else { vec![d[0] + 10, d[1] + 10, 9, 9] }
        }
        // groups of three
        _ => {
            let d = digits(i / 3);
            vec![d[0] + 100, 5, 6, d[0] + 100]
        }
    }
}
fn big_case<I: IdT, C: IdContainer<I>>(k: &mut K, p: Prop, l: Layout, n: usize, shape: usize, ord: usize) -> R {
    let mut ix: MinHashIndex<u32, I, C> = if ord % 2 == 0 { MinHashIndex::new_index(l.b, l.r, l.thr) } else { MinHashIndex::new_with_capacity(l.b, l.r, l.thr, n / 2, 0.9) };
    let ids: Vec<I> = (0..n).map(I::mk).collect();
    let back: BTreeMap<&I, usize> = ids.iter().enumerate().map(|(i, x)| (x, i)).collect();
    match ord {
        0 => {
            for i in 0..n {
                ix.insert(ids[i].clone(), big_sig(shape, i));
            }
        }
        1 => ix.par_bulk_insert(ids.clone(), (0..n).map(|i| big_sig(shape, i)).collect()),
        2 => ix.par_bulk_insert_pairs((0..n).map(|i| (ids[i].clone(), big_sig(shape, i))).collect()),
        _ => {
            // first all under another signature, then replaced
            for i in 0..n {
                ix.insert(ids[i].clone(), big_sig(1, i + 5));
            }
            ix.par_bulk_insert(ids.clone(), (0..n).map(|i| big_sig(shape, i)).collect());
        }
    }
    k.step(n);
    let mut live: BTreeSet<usize> = (0..n).collect();
    let verify = |ix: &MinHashIndex<u32, I, C>, live: &BTreeSet<usize>, k: &mut K| -> R {
        k.trace();
        k.state(&(n, shape, ord, live.len()));
        let probes: Vec<usize> = [0, 1, n / 2, n.saturating_sub(1)].into_iter().filter(|&x| x < n).collect();
        for q in probes {
            let qs = if shape == 4 { vec![7, 7, 9, 9] } else { big_sig(shape, q) };
            let group = |i: usize| match shape {
                0 => true,
                1 | 4 => true,
                3 => i == q || i % 2 == 0 && q % 2 == 0,
                _ => i / 3 == q / 3,
            };
            let exp: BTreeSet<usize> = live.iter().copied().filter(|&i| group(i)).collect();
            let simof = |i: usize| matches(&[0, 0, 0, 0], &big_sig(shape, i).iter().zip(&qs).map(|(a, b)| (a != b) as u8).collect::<Vec<_>>()) as f64 / 4.0;
            match p {
                Prop::C01 => {
                    let got: BTreeSet<usize> = ix.query(&qs).into_iter().map(|i| back[i]).collect();
                    ensure!(got == exp, "query of signature {} gives {} ids, expected {} (missing {:?}, extra {:?})", q, got.len(), exp.len(),
                        exp.difference(&got).take(3).collect::<Vec<_>>(), got.difference(&exp).take(3).collect::<Vec<_>>());
                    let got: BTreeSet<usize> = ix.query_owned(&qs).into_iter().map(|i| back[&i]).collect();
                    ensure!(got == exp, "query_owned of signature {} gives {} ids, expected {}", q, got.len(), exp.len());
                    let got: BTreeSet<usize> = ix.query_owned_return_similarity(&qs).into_iter().map(|i| back[&i.0]).collect();
                    ensure!(got == exp, "query_owned_return_similarity of signature {} gives {} ids, expected {}", q, got.len(), exp.len());
                    k.step(3);
                }
                Prop::C02 => {
                    let base: HashSet<I> = ix.query(&qs).into_iter().cloned().collect();
                    ensure!(base == ix.query_owned(&qs), "query and query_owned differ");
                    let batch = vec![qs.clone(), vec![3, 3, 3, 3], qs.clone(), qs.clone()];
                    let b2 = ix.par_bulk_query(&batch);
                    ensure!(b2.len() == 4 && b2[0] == base && b2[2] == base && b2[3] == base && b2[1].is_empty(), "par_bulk_query differs from query");
                    let b3 = ix.par_bulk_query_return_similarity(&batch);
                    ensure!(b3.len() == 4 && b3[1].is_empty(), "par_bulk_query_return_similarity gives {} results", b3.len());
                    for j in [0, 2, 3] {
                        ensure!(b3[j].len() == base.len() && b3[j].iter().all(|x| base.contains(&x.0) && (x.1 - simof(back[&x.0])).abs() < 1e-12) && b3[j].windows(2).all(|w| w[0].1 >= w[1].1), "par_bulk_query_return_similarity differs from query at place {}", j);
                    }
                    let sims = ix.query_owned_return_similarity(&qs);
                    ensure!(sims.len() == base.len(), "{} ids with similarity, {} without", sims.len(), base.len());
                    ensure!(sims.windows(2).all(|w| w[0].1 >= w[1].1), "similarities are not sorted");
                    for (i, s) in &sims {
                        ensure!(base.contains(i), "extra id with similarity");
                        ensure!((s - simof(back[i])).abs() < 1e-12, "similarity {} for id {}, exact {}", s, back[i], simof(back[i]));
                    }
                    let one = ix.query_one(&qs);
                    ensure!(one.is_some() == !base.is_empty(), "query_one {:?} with {} matches", one, base.len());
                    if let Some((i, s)) = one {
                        ensure!(base.contains(i) && s == sims[0].1, "query_one reports {}, best is {}", s, sims[0].1);
                    }
                    for kk in [1, exp.len() / 2, exp.len(), exp.len() + 1] {
                        let top = ix.query_top_k(&qs, kk);
                        ensure!(top.len() == exp.len().min(kk), "query_top_k({}) returned {} of {}", kk, top.len(), exp.len());
                        ensure!(top.iter().map(|x| &x.0).collect::<HashSet<_>>().len() == top.len(), "query_top_k repeats an id");
                        let mut ds: Vec<f64> = exp.iter().map(|&i| 1.0 - simof(i)).collect();
                        ds.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        for (j, t) in top.iter().enumerate() {
                            ensure!((t.1 - ds[j]).abs() < 1e-12, "query_top_k({}): rank {} has distance {}, expected {}", kk, j, t.1, ds[j]);
                            ensure!((t.1 - (1.0 - simof(back[&t.0]))).abs() < 1e-12, "query_top_k: wrong distance for an id");
                        }
                    }
                    k.step(9);
                }
                Prop::C03 => {}
            }
        }
        if p == Prop::C03 {
            ensure!(ix.size() == live.len(), "size {} expected {}", ix.size(), live.len());
            ensure!(ix.get_id_signature_map().len() == live.len(), "map size {}", ix.get_id_signature_map().len());
            for i in 0..n {
                let e = if live.contains(&i) { Some(big_sig(shape, i)) } else { None };
                ensure!(ix.get_signature(&ids[i]) == e.as_ref(), "get_signature({}) = {:?}", i, ix.get_signature(&ids[i]));
            }
            let sz = ix.band_sizes().sizes;
            for b in 0..l.b {
                let e = live.iter().map(|&i| big_sig(shape, i)[b * 2..b * 2 + 2].to_vec()).collect::<HashSet<_>>().len();
                ensure!(sz[b] == e, "band {} holds {} values, expected {} with {} ids", b, sz[b], e, live.len());
            }
            k.step(n + 3);
        }
        Ok(())
    };
    verify(&ix, &live, k)?;
    match ord {
        1 => ix.shrink_to_fit(),
        2 => ix.shrink_to(n / 4),
        3 => ix.shrink_to(0),
        _ => {}
    }
    verify(&ix, &live, k)?;
    let mut order: Vec<usize> = match ord {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).step_by(2).chain((0..n).skip(1).step_by(2)).collect(),
        _ => (0..n).map(|i| (i + n / 2) % n.max(1)).collect(),
    };
    while !order.is_empty() {
        let take = if ord == 2 { (order.len() / 2).max(1) } else { (order.len() / 3).max(1) };
        let part: Vec<usize> = order.drain(..take).collect();
        if ord == 2 {
            let got = ix.bulk_remove(&part.iter().map(|&i| ids[i].clone()).collect());
            ensure!(p != Prop::C03 || got == part.iter().map(|&i| big_sig(shape, i)).collect::<Vec<_>>(), "bulk_remove of {} ids returned {} signatures", part.len(), got.len());
        } else {
            for &i in &part {
                let got = ix.remove(&ids[i]);
                ensure!(p != Prop::C03 || got == Some(big_sig(shape, i)), "remove({}) = {:?}", i, got);
            }
        }
        for i in &part {
            live.remove(i);
        }
        match order.len() % 3 {
            // removal order 0 leaves the capacities as they grew
            _ if ord == 0 => {}
            _ if ord == 3 => ix.shrink_to(0),
            0 => ix.shrink_to_fit(),
            1 => ix.shrink_to(live.len() / 2),
            _ => {}
        }
        k.step(part.len() + 1);
        verify(&ix, &live, k)?;
    }
    // refill after emptying
    for i in 0..n.min(5) {
        ix.insert(ids[i].clone(), big_sig(shape, i));
        live.insert(i);
    }
    verify(&ix, &live, k)?;
    ix.clear();
    verify(&ix, &BTreeSet::new(), k)
}

/// Hash values that differ in single bits: no two of them may be taken for one another.
fn hash_values<T: Ty>(cx: &Cx, p: Prop) {
    let w = std::mem::size_of::<T>() * 8;
    let (one, zero) = (T::one(), T::zero());
    let mut vals: Vec<T> = vec![zero, !zero];
    for k in 0..w {
        vals.push(one << k);
        vals.push(!(one << k));
        vals.push((one << k).swap_bytes());
        vals.push(!(!zero << k));
        vals.push(one.rotate_left(k as u32) | one);
        vals.push(T::num(k * 37 + 11));
        vals.push(T::num(k + 2));
    }
    let mut seen = HashSet::new();
    vals.retain(|v| seen.insert(*v));
    for (b, r) in [(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 1), (2, 5)] {
        for pos in 0..b * r {
            for base in [zero, one, !zero] {
                for thr in [0.0, (b * r - 1) as f64 / (b * r) as f64] {
                    cx.case(
                        || format!("hash values {} {}x{} varying hash {} rest {:?} thr {}", T::NAME, b, r, pos, base, thr),
                        |k| {
                            let n = b * r;
                            let mut ix: MinHashIndex<T, u32, HashSetContainer<u32>> = MinHashIndex::new_with_capacity(b, r, thr, 4, 0.0);
                            let sigs: Vec<Vec<T>> = vals.iter().map(|v| (0..n).map(|i| if i == pos { *v } else { base }).collect()).collect();
                            for (i, s) in sigs.iter().enumerate() {
                                ix.insert(i as u32, s.clone());
                            }
                            k.step(sigs.len());
                            k.state(&(T::NAME, b, r, pos, thr.to_bits()));
                            if p == Prop::C03 {
                                let sz = ix.band_sizes().sizes;
                                for x in 0..b {
                                    let e = if pos / r == x { vals.len() } else { 1 };
                                    ensure!(sz[x] == e, "band {} holds {} values, expected {}", x, sz[x], e);
                                }
                                for (i, s) in sigs.iter().enumerate() {
                                    ensure!(ix.get_signature(&(i as u32)) == Some(s), "get_signature({}) = {:?}, inserted {:?}", i, ix.get_signature(&(i as u32)), s);
                                }
                            }
                            for (i, q) in sigs.iter().enumerate() {
                                let exp: BTreeSet<u32> = (0..sigs.len())
                                    .filter(|&j| (0..b).any(|x| sigs[j][x * r..(x + 1) * r] == q[x * r..(x + 1) * r]))
                                    .filter(|&j| (0..n).filter(|&x| sigs[j][x] == q[x]).count() as f64 / n as f64 >= thr)
                                    .map(|j| j as u32)
                                    .collect();
                                let got: BTreeSet<u32> = ix.query(q).into_iter().copied().collect();
                                ensure!(got == exp, "query({:?}) = {:?}, expected {:?}", q, got, exp);
                                if p == Prop::C02 {
                                    let f: BTreeMap<u32, f64> = ix.query_owned_return_similarity(q).into_iter().collect();
                                    for j in &exp {
                                        let e = if *j as usize == i { 1.0 } else { (n - 1) as f64 / n as f64 };
                                        ensure!(f.get(j).map_or(false, |x| (x - e).abs() < 1e-12), "similarity of {:?} and {:?} reported as {:?}", q, sigs[*j as usize], f.get(j));
                                    }
                                    ensure!(f.len() == exp.len(), "query_owned_return_similarity names {} ids, expected {}", f.len(), exp.len());
                                }
                                k.step(1);
                            }
                            k.trace();
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}

/// One index that holds the query signature, all signatures that differ from it in one position, in two positions one third
/// of the length apart, and those that agree with it in exactly one band; thresholds 1, (n-1)/n, (n-2)/n, r/n and 0.
fn positions<T: Ty>(cx: &Cx, p: Prop, layouts: &[(usize, usize)]) {
    let items: Vec<(usize, usize, usize)> = layouts.iter().flat_map(|&(b, r)| (0..6).map(move |t| (b, r, t))).collect();
    cx.par(items, |(b, r, t)| {
        cx.case(
            || format!("<{}> {} bands of {}, threshold {}", T::NAME, b, r, t),
            |k| {
                let n = b * r;
                let thr = [1.0, (n - 1) as f64 / n as f64, n.saturating_sub(2) as f64 / n as f64, r as f64 / n as f64, (r + 1).min(n) as f64 / n as f64, 0.0][t];
                let q = vec![0u8; n];
                let mut sigs: Vec<Vec<u8>> = vec![q.clone()];
                for i in 0..n {
                    let mut s = q.clone();
                    s[i] = 1;
                    sigs.push(s.clone());
                    s[(i + n / 3 + 1) % n] = 2;
                    sigs.push(s);
                }
                for x in 0..b {
                    let mut s = vec![3u8; n];
                    s[x * r..(x + 1) * r].fill(0);
                    sigs.push(s.clone());
                    s[(x + 1) * r % n] = 0;
                    sigs.push(s);
                }
                let conv = |s: &[u8]| -> Vec<T> { s.iter().map(|&x| T::vals()[x as usize]).collect() };
                let mut ix: MinHashIndex<T, u32> = MinHashIndex::new(b, r, thr);
                for (i, s) in sigs.iter().enumerate() {
                    ix.insert(i as u32, conv(s));
                }
                let agree = |i: u32| sigs[i as usize].iter().filter(|&&x| x == 0).count();
                let near: BTreeSet<u32> = (0..sigs.len() as u32).filter(|&i| (0..b).any(|x| sigs[i as usize][x * r..(x + 1) * r].iter().all(|&y| y == 0))).collect();
                let exp: BTreeSet<u32> = near.iter().copied().filter(|&i| agree(i) as f64 / n as f64 >= thr).collect();
                let qc = conv(&q);
                let ensure_set = |what: &str, got: BTreeSet<u32>| -> R {
                    ensure!(got == exp, "{} gives {} ids, expected {}; extra {:?} missing {:?}", what, got.len(), exp.len(),
                        got.difference(&exp).take(2).map(|&i| &sigs[i as usize]).collect::<Vec<_>>(), exp.difference(&got).take(2).map(|&i| &sigs[i as usize]).collect::<Vec<_>>());
                    Ok(())
                };
                ensure_set("query", ix.query(&qc).into_iter().copied().collect())?;
                ensure_set("query_owned", ix.query_owned(&qc).into_iter().collect())?;
                ensure_set("query_by_id", ix.query_by_id(&0).into_iter().copied().collect())?;
                ensure_set("query_by_id_owned", ix.query_by_id_owned(&0).into_iter().collect())?;
                ensure_set("query_owned_return_similarity", ix.query_owned_return_similarity(&qc).into_iter().map(|x| x.0).collect())?;
                ensure_set("par_bulk_query", ix.par_bulk_query(&vec![qc.clone()]).pop().ok_or("no result")?.into_iter().collect())?;
                k.step(6);
                if p == Prop::C02 {
                    for (i, s) in ix.query_owned_return_similarity(&qc) {
                        ensure!((s - agree(i) as f64 / n as f64).abs() < 1e-12, "similarity {} for {:?}, exact {}", s, sigs[i as usize], agree(i) as f64 / n as f64);
                    }
                    let top = ix.query_top_k(&qc, sigs.len());
                    ensure!(top.iter().map(|x| x.0).collect::<BTreeSet<_>>() == near && top.len() == near.len(), "query_top_k names {} ids, {} share a band", top.len(), near.len());
                    for (i, d) in top {
                        ensure!((d - (1.0 - agree(i) as f64 / n as f64)).abs() < 1e-12, "distance {} for {:?}", d, sigs[i as usize]);
                    }
                    let one = ix.query_one(&qc);
                    ensure!(one.map_or(false, |x| x.1 == 1.0 && sigs[*x.0 as usize] == q), "query_one gives {:?}, id 0 is equal", one);
                    // and with every single position as the query
                    for i in (0..n).step_by(n / 130 + 1) {
                        let one = ix.query_one(&conv(&sigs[1 + 2 * i]));
                        ensure!(one.map_or(false, |x| x.1 == 1.0 && sigs[*x.0 as usize] == sigs[1 + 2 * i]), "query_one of the signature that differs in position {} gives {:?}", i, one);
                    }
                    k.step(n + 3);
                }
                k.state(&(T::NAME, b, r, t));
                k.trace();
                Ok(())
            },
        );
    });
}

/// Rankings over many candidates: id i agrees with the query on score(i) of n hashes, one hash per band.
fn ranking<C: IdContainer<u32>>(cx: &Cx, tag: &str) {
    let mut items: Vec<(usize, usize, usize, usize)> = Vec::new();
    for h in [1usize, 2, 3, 7, 16, 100, 128] {
        for n in (1..=cx.q(40, 80)).chain([63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 513, 1025]) {
            if n > cx.q(300, 1025) && h != 16 && h != 100 {
                continue;
            }
            for ord in 0..5 {
                for thr in 0..2 {
                    items.push((n, h, ord, thr));
                }
            }
        }
    }
    items.reverse();
    cx.par(items, |(n, h, ord, thr)| {
        cx.case(
            || format!("ranking {} of {} candidates, {} hashes, order {}, threshold {}", tag, n, h, ord, thr),
            |k| {
                let score = |i: usize| -> usize {
                    1 + match ord {
                        0 => i % h,
                        1 => (h - 1) - i % h,
                        2 => (i * 7 + i / 3) % h,
                        3 => (i * i) % h,
                        // nearly all at one value, single ones elsewhere
                        _ => if i % 17 == 5 { (i / 17 + 1) % h } else { h / 2 },
                    }
                };
                let q: Vec<u32> = vec![0; h];
                let mut ix: MinHashIndex<u32, u32, C> = MinHashIndex::new_index(h, 1, if thr == 0 { 0.0 } else { 0.5 });
                let sg = |i: usize| -> Vec<u32> { (0..h).map(|j| if (j + i) % h < score(i) { 0 } else { 1 + i as u32 }).collect() };
                for i in 0..n {
                    ix.insert(i as u32, sg(i));
                }
                k.step(n);
                k.state(&(n, h, ord, thr));
                let mut best: Vec<usize> = (0..n).map(score).collect();
                best.sort_by(|a, b| b.cmp(a));
                let dist = |m: usize| 1.0 - m as f64 / h as f64;
                let ks: Vec<usize> = if n <= 40 { (0..=n + 2).collect() } else { vec![1, 2, 3, 5, 10, 16, 17, 20, 31, 32, 33, 50, 64, 100, n / 3, n / 2, n - 2, n - 1, n, n + 1, 2 * n] };
                for kk in ks {
                    let top = ix.query_top_k(&q, kk);
                    ensure!(top.len() == kk.min(n), "query_top_k({}) returned {} of {}", kk, top.len(), n);
                    let mut seen = HashSet::new();
                    for (j, (i, d)) in top.iter().enumerate() {
                        ensure!((*i as usize) < n && seen.insert(*i), "query_top_k({}) repeats or invents id {}", kk, i);
                        ensure!((d - dist(score(*i as usize))).abs() < 1e-12, "query_top_k({}): distance {} for id {}, exact {}", kk, d, i, dist(score(*i as usize)));
                        ensure!((d - dist(best[j])).abs() < 1e-12, "query_top_k({}): rank {} has distance {}, but {} was available", kk, j, d, dist(best[j]));
                        ensure!(j == 0 || top[j - 1].1 <= *d, "query_top_k({}) is not sorted at rank {}", kk, j);
                    }
                    k.step(1);
                }
                let t = if thr == 0 { 0.0 } else { 0.5 };
                let exp: Vec<usize> = best.iter().copied().filter(|&m| m as f64 / h as f64 >= t).collect();
                let base = ix.query_owned(&q);
                ensure!(base.len() == exp.len(), "query_owned returned {} ids, expected {}", base.len(), exp.len());
                for (what, sims) in [("query_owned_return_similarity", ix.query_owned_return_similarity(&q)), ("par_bulk_query_return_similarity", ix.par_bulk_query_return_similarity(&vec![q.clone()]).pop().ok_or("no result")?)] {
                    ensure!(sims.len() == exp.len(), "{} returned {} ids, expected {}", what, sims.len(), exp.len());
                    for (j, (i, s)) in sims.iter().enumerate() {
                        ensure!(base.contains(i), "{} names {} which query_owned does not", what, i);
                        ensure!((s - score(*i as usize) as f64 / h as f64).abs() < 1e-12, "{} reports {} for {}", what, s, i);
                        ensure!((s - exp[j] as f64 / h as f64).abs() < 1e-12, "{}: rank {} has similarity {}, expected {}", what, j, s, exp[j] as f64 / h as f64);
                        ensure!(j == 0 || sims[j - 1].1 >= *s, "{} is not sorted at rank {}", what, j);
                    }
                }
                match ix.query_one(&q) {
                    None => ensure!(exp.is_empty(), "query_one found nothing, {} match", exp.len()),
                    Some((i, s)) => {
                        ensure!(!exp.is_empty() && base.contains(i), "query_one returned {} which does not match", i);
                        ensure!(s == score(*i as usize) as f64 / h as f64 && s == exp[0] as f64 / h as f64, "query_one reports {} for {}, best {}", s, i, exp[0] as f64 / h as f64);
                    }
                }
                k.step(4);
                k.trace();
                Ok(())
            },
        );
    });
}

/// Long regular histories: insert/replace/remove cycles on few ids.
fn cycles<I: IdT, C: IdContainer<I>>(cx: &Cx, p: Prop, tag: &str, rounds: usize) {
    let al = alphabet22();
    let l = Layout { b: 2, r: 2, thr: 0.5 };
    let queries = all_sigs(2, 4);
    cx.par((0..16usize).collect(), |pat| {
        cx.case(
            || format!("{}<{}> {} rounds of pattern {}", tag, I::NAME, rounds, pat),
            |k| {
                let mut s = Sut::<u16, I, C>::new(l, Make::Cap(4, 0), 5);
                for t in 0..rounds {
                    let i = (t * (1 + pat % 3) + pat / 4) % 5;
                    let a = (t / 2 + t * (pat % 2) + t / 7) % 4;
                    let op = match (t + pat) % (3 + pat % 5) {
                        0 => Op::Rem(i),
                        1 if pat & 1 == 1 => Op::Pairs(vec![(i, a), ((i + 1) % 5, (a + 1) % 4), (i, (a + 2) % 4)]),
                        2 if pat & 2 == 2 => Op::BulkRem(vec![(i + 2) % 5, i, (i + 2) % 5]),
                        3 if pat & 4 == 4 => Op::Bulk(vec![((i + 3) % 5, a), (i, a)]),
                        5 if t % 37 == 0 => Op::Clear,
                        6 if t % 11 == 0 => Op::To(2),
                        _ => Op::Ins(i, a),
                    };
                    s.apply(&op, &al, p == Prop::C03).map_err(|e| format!("round {}: {}", t, e))?;
                    k.step(1 + p.calls(queries.len(), 5));
                    k.state(&(tag, I::NAME, &s.m));
                    s.check(p, &queries).map_err(|e| format!("round {} after {:?}: {}", t, op, e))?;
                }
                k.trace();
                Ok(())
            },
        );
    });
}

pub fn index_property(cx: &Cx, p: Prop) {
    let l22 = Layout { b: 2, r: 2, thr: 0.5 };
    let al = alphabet22();
    let full = ops_full();
    let small = ops_small();
    type HS<I> = HashSetContainer<I>;
    cx.section("histories", "all histories of the full operation alphabet (3 ids, 4 signatures, 2 bands of 2), every 0/1 query after each", || {
        for d in 0..=cx.q(if p == Prop::C02 { 3 } else { 4 }, 4) {
            histories::<u32, u32, HS<u32>>(cx, p, l22, &al, &full, d, Make::Cap(4, 0), "hashset");
        }
        for d in 1..=3 {
            histories::<u32, u32, VecContainer<u32>>(cx, p, l22, &al, &full, d, Make::Cap(4, 0), "vec");
            histories::<u64, String, SmallVecContainer<String, 1>>(cx, p, l22, &al, &full, d, Make::New, "small1");
            histories::<u8, u8, SmallVecContainer<u8, 2>>(cx, p, l22, &al, &full, d, Make::Cap(0, 100), "small2");
        }
    });
    cx.section("deep histories", "all histories of the small alphabet to a larger depth, for every container", || {
        let d = if p == Prop::C02 { cx.q(5, 6) } else { cx.q(6, 7) };
        let d2 = cx.q(5, 6);
        histories::<u16, u32, HS<u32>>(cx, p, l22, &al, &small, d, Make::Cap(2, 0), "hashset");
        histories::<u16, u32, VecContainer<u32>>(cx, p, l22, &al, &small, d2, Make::Cap(2, 0), "vec");
        histories::<u16, u32, SmallVecContainer<u32, 1>>(cx, p, l22, &al, &small, d2, Make::Cap(2, 0), "small1");
    });
    cx.section("thresholds in histories", "small-alphabet histories under thresholds 0, 0.25, 0.75, 1 and other layouts", || {
        for thr in [0.0, 0.25, 0.75, 1.0] {
            histories::<i32, u32, HS<u32>>(cx, p, Layout { thr, ..l22 }, &al, &small, cx.q(3, 4), Make::Cap(2, 0), "hashset");
        }
        for thr in [-0.5, f64::MIN_POSITIVE, 1.0 + f64::EPSILON, 2.0, f64::INFINITY] {
            histories::<u32, u64, HS<u64>>(cx, p, Layout { thr, ..l22 }, &al, &small, 3, Make::Cap(2, 0), "hashset");
        }
        histories::<u32, Coll, HS<Coll>>(cx, p, l22, &al, &small, cx.q(4, 5), Make::Cap(2, 0), "hashset");
        histories::<u32, Coll, SmallVecContainer<Coll, 2>>(cx, p, l22, &al, &small, 3, Make::New, "small2");
        for (b, r) in [(4, 1), (1, 4)] {
            for thr in [0.25, 0.75] {
                histories::<i8, i64, VecContainer<i64>>(cx, p, Layout { b, r, thr }, &al, &small, 3, Make::Cap(2, 0), "vec");
            }
        }
    });
    cx.section("wide layouts", "all histories of the small alphabet in layouts of up to 257 bands, threshold 0; every band asked on its own afterwards", || {
        let d = cx.q(if p == Prop::C03 { 3 } else { 2 }, 3);
        for (b, r) in [(3, 1), (5, 2), (6, 1), (8, 1), (9, 3), (12, 1), (16, 1), (17, 1), (20, 5), (25, 2), (32, 1), (33, 2), (42, 3), (50, 1), (64, 1), (65, 1), (100, 1), (128, 1), (129, 1), (200, 1), (257, 1)] {
            let d = if b > 70 && p != Prop::C03 { 2 } else { d };
            wide_histories::<HS<u32>>(cx, p, "hashset", b, r, d);
            if b % 2 == 0 || cx.thorough {
                wide_histories::<SmallVecContainer<u32, 2>>(cx, p, "small2", b, r, 2);
                wide_histories::<VecContainer<u32>>(cx, p, "vec", b, r, 2);
            }
        }
        if p == Prop::C03 {
            wide_histories::<HS<u32>>(cx, p, "hashset", 1025, 1, 2);
        }
    });
    cx.section("signature closure", "indexes that hold every signature of a layout at once, every hash type, all thresholds k/n", || {
        macro_rules! types { ($($t:ty),*) => { $(
            for (v, b, r) in [(2, 2, 2), (3, 1, 3), (3, 3, 1), (4, 2, 1), (4, 1, 1)] {
                closure::<$t, u32, HS<u32>>(cx, p, "hashset", v, b, r);
            } )* } }
        types!(u8, u16, u32, u64, i8, i16, i32, i64);
        for (v, b, r) in [(2, 3, 2), (2, 2, 3), (2, 5, 1), (3, 2, 2)] {
            closure::<u32, u64, VecContainer<u64>>(cx, p, "vec", v, b, r);
            closure::<u64, (u32, String), SmallVecContainer<(u32, String), 4>>(cx, p, "small4", v, b, r);
            closure::<u8, Arc<String>, HS<Arc<String>>>(cx, p, "hashset", v, b, r);
        }
    });
    cx.section("hash values", "hash values that differ in single bits, in every position of small layouts, every hash type: all are told apart", || {
        cx.par((0..8usize).collect(), |t| match t {
            0 => hash_values::<u8>(cx, p),
            1 => hash_values::<u16>(cx, p),
            2 => hash_values::<u32>(cx, p),
            3 => hash_values::<u64>(cx, p),
            4 => hash_values::<i8>(cx, p),
            5 => hash_values::<i16>(cx, p),
            6 => hash_values::<i32>(cx, p),
            _ => hash_values::<i64>(cx, p),
        });
    });
    cx.section("band layouts", "all layouts b x r in range: agreement in each single band, and near misses in all bands", || {
        let wide = [(1, 16), (1, 17), (2, 20), (3, 25), (1, 31), (1, 32), (1, 33), (4, 32), (2, 40), (1, 63), (1, 64), (1, 65), (2, 64), (8, 16), (16, 16), (1, 100),
            (1, 127), (1, 128), (1, 129), (2, 128), (1, 256), (1, 257), (32, 4), (32, 8), (33, 3), (40, 5), (42, 3), (50, 4), (63, 2), (64, 2), (64, 4), (65, 2), (100, 1), (100, 2), (100, 3),
            (127, 1), (128, 1), (128, 2), (129, 1)];
        let huge = [(128, 4), (200, 1), (200, 5), (255, 1), (256, 1), (256, 2), (257, 1), (300, 1), (1, 512), (1, 1024), (4, 256)];
        band_layouts::<u32>(cx, p, cx.q(26, 50), cx.q(12, 20), &wide);
        band_layouts::<u8>(cx, p, cx.q(12, 20), cx.q(8, 12), &wide);
        band_layouts::<u64>(cx, p, cx.q(12, 20), cx.q(8, 12), &wide);
        band_layouts::<i32>(cx, p, cx.q(5, 20), cx.q(5, 12), if cx.thorough { &wide } else { &[] });
        if p != Prop::C02 || cx.thorough {
            band_layouts::<u16>(cx, p, 4, 4, &huge);
        }
    });
    cx.section("threshold sweep", "for every number of hashes n: signatures with k agreeing hashes against thresholds j/n and multiples of 0.05", || {
        let ns: Vec<usize> = [2049, 2048, 2000, 1025, 1024, 1023, 1001, 1000, 999, 800, 768, 513, 512, 511, 501, 500, 450, 400, 384, 300, 257, 256, 255, 250, 200, 192, 150, 129, 128, 127, 126, 120, 112, 100, 96, 90, 84, 80, 72, 65, 64, 63]
            .into_iter()
            .chain((1..=cx.q(60, 130)).rev())
            .collect();
        threshold_sweep::<u32>(cx, p, ns);
        threshold_sweep::<i64>(cx, p, (1..=cx.q(24, 64)).collect());
        if cx.thorough {
            threshold_sweep::<u8>(cx, p, (1..=64).collect());
        }
    });
    if p != Prop::C03 {
        cx.section("single positions", "layouts in use: all signatures that differ from the query in one position, in two, or agree with it in one band only, in one index; thresholds at the values that separate them", || {
            let mut ls: Vec<(usize, usize)> = vec![(42, 3), (20, 5), (64, 2), (128, 1), (16, 8), (40, 1), (100, 1), (33, 1), (25, 5), (256, 1), (17, 2), (9, 9), (50, 4), (32, 4), (2, 64), (10, 10), (125, 2), (300, 1), (20, 6), (512, 1)];
            for b in 1..=cx.q(12, 24) {
                for r in 1..=cx.q(6, 12) {
                    ls.push((b, r));
                }
            }
            positions::<u32>(cx, p, &ls);
            positions::<u64>(cx, p, &ls);
            positions::<u16>(cx, p, &ls);
            positions::<u8>(cx, p, &ls);
        });
    }
    cx.section("many ids", "index sizes around powers of two and round numbers, three bucket shapes, four load and removal orders", || {
        let m = if p == Prop::C02 { cx.q(1025, 4100) } else { cx.q(4100, 10001) };
        let mut ns = sizes(m);
        ns.reverse();
        big::<u32, HS<u32>>(cx, p, "hashset", ns);
        let top: Vec<usize> = if cx.thorough { vec![32769, 50001, 65537, 100003, 200003] } else { vec![5001, 8193, 10001, 16385, 20011, 32769, 65537] };
        // one bucket of this many ids makes the quadratic containers too slow; the hash set is what the index uses by default
        let items: Vec<(usize, usize, usize)> = top.iter().rev().flat_map(|&n| if p == Prop::C02 { vec![(n, 2, 1), (n, 1, 2), (n.min(65537), 4, 1)] } else { vec![(n, 0, 0), (n, 1, 1), (n, 2, 2), (n, 2, 3), (n.min(65537), 3, 3), (n.min(65537), 4, 0)] }).collect();
        cx.par(items, |(n, shape, ord)| {
            cx.case(|| format!("hashset<u64> {} ids, shape {}, order {}", n, shape, ord), |k| big_case::<u64, HS<u64>>(k, p, l22, n, shape, ord));
        });
        big::<u32, VecContainer<u32>>(cx, p, "vec", sizes(cx.q(1025, 4100)));
        big::<u32, SmallVecContainer<u32, 2>>(cx, p, "small2", sizes(cx.q(1025, 4100)));
        big::<u8, SmallVecContainer<u8, 8>>(cx, p, "small8", sizes(cx.q(255, 255)));
        big::<String, HS<String>>(cx, p, "hashset", sizes(cx.q(300, 1025)));
    });
    if p != Prop::C02 {
        cx.section("many band values", "so many different values in every band of one index that any key of fewer than about 36 bits would confuse some, threshold 0, every id queried", || {
            let n: usize = cx.q(1 << 18, 1 << 20);
            cx.par(vec![(4usize, 1usize), (2, 2), (1, 3)], |(b, r)| {
                cx.case(|| format!("{} ids, {} bands of {}", n, b, r), |k| {
                    let sig = |i: usize| -> Vec<u64> { (0..b * r).map(|j| (i * b * r + j) as u64).collect() };
                    let mut ix: MinHashIndex<u64, usize, VecContainer<usize>> = MinHashIndex::new_index(b, r, 0.0);
                    for i in 0..n {
                        ix.insert(i, sig(i));
                    }
                    k.step(n);
                    k.state(&("many band values", n, b, r));
                    k.trace();
                    if p == Prop::C01 {
                        for i in 0..n {
                            let got = ix.query_owned(&sig(i));
                            ensure!(got.len() == 1 && got.contains(&i), "query of the signature of id {} gives {:?}", i, got);
                        }
                        k.step(n);
                    } else {
                        let sz = ix.band_sizes().sizes;
                        ensure!(sz.iter().all(|&x| x == n), "{} different values in every band, band sizes {:?}", n, sz);
                    }
                    Ok(())
                });
            });
        });
    }
    if p == Prop::C02 {
        cx.section("ranking", "n candidates of one query whose similarities run through all values in several orders and mixtures, every k", || {
            ranking::<HS<u32>>(cx, "hashset");
            ranking::<VecContainer<u32>>(cx, "vec");
        });
    }
    cx.section("constructors", "both constructors, initial capacities from 0 to a million, expected similarity ratios from 0 to 1, several layouts: a short history that uses every band, checked after every operation", || {
        let mut all: Vec<(usize, usize, Make)> = Vec::new();
        for (b, r) in [(1usize, 1usize), (1, 4), (2, 2), (4, 1), (3, 2), (8, 1), (7, 1)] {
            all.push((b, r, Make::New));
            for c in [0usize, 1, 2, 3, 10, 100, 127, 128, 1000, 4096, 10_000, 10_001, 65_536, 100_003, 1 << 20] {
                for ratio in [0u32, 1, 5, 10, 25, 33, 50, 75, 80, 90, 95, 96, 99, 100] {
                    if c > 20_000 && ratio < 90 && !cx.thorough && (ratio != 0 || b > 2) {
                        continue;
                    }
                    all.push((b, r, Make::Cap(c, ratio)));
                }
            }
        }
        cx.par(all, |(b, r, mk)| {
            let n = b * r;
            // one signature per band that agrees with signature 0 there and nowhere else, and one that agrees nowhere
            let mut al: Vec<Vec<u8>> = vec![vec![0; n]];
            for band in 0..b {
                al.push((0..n).map(|i| if i / r == band { 0 } else { 1 + band as u8 % 2 }).collect());
            }
            al.push(vec![3; n]);
            let d = match mk {
                Make::New => "new_index".to_string(),
                Make::Cap(c, x) => format!("capacity {} ratio {}%", c, x),
            };
            cx.case(|| format!("{} bands of {}, {}", b, r, d), |k| {
                let mut s = Sut::<u32, u32, VecContainer<u32>>::new(Layout { b, r, thr: 0.0 }, mk, al.len());
                let mut ops: Vec<Op> = (0..al.len()).map(|i| Op::Ins(i, i)).collect();
                ops.extend([Op::Fit, Op::Bulk(vec![(0, 1), (1, 0)]), Op::To(1), Op::Rem(0), Op::Clear, Op::Pairs((0..al.len()).map(|i| (i, i)).collect()), Op::BulkRem(vec![1, 0])]);
                for (t, op) in ops.iter().enumerate() {
                    s.apply(op, &al, p == Prop::C03).map_err(|e| format!("step {} {:?}: {}", t, op, e))?;
                    k.step(1 + p.calls(al.len(), al.len()));
                    k.state(&("constructors", b, r, &s.m));
                    s.check(p, &al).map_err(|e| format!("after step {} {:?}: {}", t, op, e))?;
                }
                k.trace();
                Ok(())
            });
        });
    });
    cx.section("long cycles", "long regular insert/replace/remove histories, checked after every operation", || {
        let n = cx.q(1200, 20000);
        cycles::<u32, HS<u32>>(cx, p, "hashset", n);
        cycles::<String, VecContainer<String>>(cx, p, "vec", n);
        cycles::<u64, SmallVecContainer<u64, 2>>(cx, p, "small2", n);
    });
}

// ------------------------------------------------------------------ C05

/// Everything observable about an index, in a form independent of the container.
fn observe<T: Ty, I: IdT, C: IdContainer<I>>(s: &Sut<T, I, C>, queries: &[Vec<u8>]) -> Result<Vec<String>, String> {
    let mut o = Vec::new();
    for q in queries {
        let qs = sig::<T>(q);
        let a: BTreeSet<I> = s.ix.query(&qs).into_iter().cloned().collect();
        let b: BTreeSet<I> = s.ix.query_owned(&qs).into_iter().collect();
        let c: BTreeSet<(u64, I)> = s.ix.query_owned_return_similarity(&qs).into_iter().map(|(i, f)| (f.to_bits(), i)).collect();
        let n = s.ix.query_owned_return_similarity(&qs).len();
        let one = s.ix.query_one(&qs).map(|x| x.1.to_bits());
        let top: BTreeSet<(u64, I)> = s.ix.query_top_k(&qs, usize::MAX).into_iter().map(|(i, f)| (f.to_bits(), i)).collect();
        let tn = s.ix.query_top_k(&qs, 2).len();
        let ids: Vec<BTreeSet<I>> = s.ids.iter().map(|i| s.ix.query_by_id_owned(i).into_iter().collect()).collect();
        o.push(format!("{:?} {:?} {:?} {} {:?} {:?} {} {:?}", a, b, c, n, one, top, tn, ids));
    }
    o.push(format!("{} {:?}", s.ix.size(), s.ix.band_sizes().sizes));
    Ok(o)
}

fn c05_history<I: IdT>(cx: &Cx, l: Layout, al: &[Vec<u8>], ops: &[Op], depth: usize, queries: &[Vec<u8>]) {
    let heads = seqs(ops.len(), depth.min(2));
    cx.par(heads, |head| {
        for tail in seqs(ops.len(), depth.saturating_sub(2)) {
            let h: Vec<usize> = head.iter().chain(tail.iter()).copied().collect();
            cx.case(
                || format!("containers<{}> {:?} {:?}", I::NAME, l, h.iter().map(|&i| &ops[i]).collect::<Vec<_>>()),
                |k| {
                    let mut reference: Option<Vec<String>> = None;
                    macro_rules! one { ($c:ty, $n:expr) => {{
                        let mut s = Sut::<u32, I, $c>::new(l, Make::Cap(2, 0), 3);
                        for &o in &h { s.apply(&ops[o], al, false)?; }
                        k.step(h.len() + queries.len() * 10);
                        k.trace();
                        k.state(&($n, &s.m));
                        let o = observe(&s, queries)?;
                        match &reference {
                            None => reference = Some(o),
                            Some(r) => for (i, (x, y)) in r.iter().zip(&o).enumerate() {
                                ensure!(x == y, "container {} observes {} where the hash set container observes {} (query {:?})", $n, y, x, queries.get(i));
                            },
                        }
                    }} }
                    one!(HashSetContainer<I>, "HashSet");
                    one!(VecContainer<I>, "Vec");
                    one!(SmallVecContainer<I, 1>, "SmallVec1");
                    one!(SmallVecContainer<I, 2>, "SmallVec2");
                    one!(SmallVecContainer<I, 4>, "SmallVec4");
                    Ok(())
                },
            );
            if cx.stopped() {
                return;
            }
        }
    });
}

/// A container alone: all push/remove histories (an id is pushed only while absent, as the index does).
fn container_alone<I: IdT, C: IdContainer<I>>(cx: &Cx, tag: &str, ids: usize, depth: usize) {
    // operation 2i: push i, 2i+1: remove i
    let ops = seqs(2 * ids, depth);
    let chunks: Vec<Vec<Vec<usize>>> = ops.chunks(4096).map(|c| c.to_vec()).collect();
    cx.par(chunks, |chunk| {
        for h in chunk {
            // skip histories that push an id already held
            let mut m: BTreeSet<usize> = BTreeSet::new();
            if h.iter().any(|o| if o % 2 == 0 { !m.insert(o / 2) } else { m.remove(&(o / 2)); false }) {
                continue;
            }
            cx.case(
                || format!("{}<{}> push/remove history {:?}", tag, I::NAME, h),
                |k| {
                    let mut c = C::new();
                    let mut m: BTreeSet<usize> = BTreeSet::new();
                    container_check(&c, &m)?;
                    for o in &h {
                        let id = I::mk(o / 2);
                        if o % 2 == 0 {
                            c.push(id);
                            m.insert(o / 2);
                        } else {
                            c.remove(&id);
                            m.remove(&(o / 2));
                        }
                        k.step(1);
                        k.state(&(tag, &m));
                        container_check::<I, C>(&c, &m)?;
                    }
                    k.trace();
                    Ok(())
                },
            );
        }
    });
}
fn container_check<I: IdT, C: IdContainer<I>>(c: &C, m: &BTreeSet<usize>) -> R {
    let e: BTreeSet<I> = m.iter().map(|&i| I::mk(i)).collect();
    ensure!(c.len() == m.len(), "len() = {} with {:?} held", c.len(), m);
    ensure!(c.is_empty() == m.is_empty(), "is_empty() = {} with {:?} held", c.is_empty(), m);
    let mut s: HashSet<I> = HashSet::new();
    c.copy_to(&mut s);
    ensure!(s.iter().cloned().collect::<BTreeSet<_>>() == e, "copy_to gives {:?}, held {:?}", s, e);
    let mut r: HashSet<&I> = HashSet::new();
    c.copy_refs_to(&mut r);
    ensure!(r.iter().map(|x| (*x).clone()).collect::<BTreeSet<_>>() == e, "copy_refs_to gives {:?}, held {:?}", r, e);
    // copying adds to what is already in the set
    let other = I::mk(900_000);
    let mut s2: HashSet<I> = HashSet::from([other.clone()]);
    c.copy_to(&mut s2);
    ensure!(s2.contains(&other) && s2.len() == e.len() + 1, "copy_to disturbs the target set");
    let mut r2: HashSet<&I> = HashSet::from([&other]);
    c.copy_refs_to(&mut r2);
    ensure!(r2.contains(&other) && r2.len() == e.len() + 1, "copy_refs_to disturbs the target set");
    Ok(())
}
fn container_big<I: IdT, C: IdContainer<I>>(cx: &Cx, tag: &str, ns: Vec<usize>) {
    for n in ns {
        for order in 0..4 {
            cx.case(
                || format!("{}<{}> {} ids, removal order {}", tag, I::NAME, n, order),
                |k| {
                    let mut c = C::new();
                    let mut m = BTreeSet::new();
                    for round in 0..2 {
                        for i in 0..n {
                            c.push(I::mk(i + 200_000 * round));
                            m.insert(i + 200_000 * round);
                            k.step(1);
                            if n <= 40 || (n <= 300 && i % 16 == 0) || (n > 300 && i % (n / 8) == 0) {
                                container_check::<I, C>(&c, &m)?;
                            }
                        }
                        container_check::<I, C>(&c, &m)?;
                        let rem: Vec<usize> = match order {
                            0 => (0..n).collect(),
                            1 => (0..n).rev().collect(),
                            2 => (0..n).step_by(2).chain((0..n).skip(1).step_by(2)).collect(),
                            _ => (0..n).map(|i| (i * 7 + 3) % n.max(1)).collect(),
                        };
                        for i in rem {
                            c.remove(&I::mk(i + 200_000 * round));
                            m.remove(&(i + 200_000 * round));
                            k.step(1);
                            if n <= 40 || (n <= 300 && i % 16 == 0) || (n > 300 && i % (n / 8) == 0) {
                                container_check::<I, C>(&c, &m)?;
                            }
                        }
                        container_check::<I, C>(&c, &m)?;
                        k.state(&(tag, n, round));
                    }
                    k.trace();
                    Ok(())
                },
            );
        }
    }
}

pub fn c05(cx: &Cx) {
    let l22 = Layout { b: 2, r: 2, thr: 0.5 };
    let al = alphabet22();
    let q = all_sigs(2, 4);
    let q4 = vec![q[0].clone(), q[3].clone(), q[4].clone(), q[15].clone(), q[5].clone()];
    cx.section("index histories", "every history on five containers in lock step, all observations compared", || {
        for d in 0..=2 {
            c05_history::<u32>(cx, l22, &al, &ops_full(), d, &q);
        }
        c05_history::<u32>(cx, l22, &al, &ops_full(), 3, &q4);
        for d in 3..=cx.q(5, 6) {
            c05_history::<u32>(cx, l22, &al, &ops_small(), d, &q4);
        }
        c05_history::<String>(cx, Layout { b: 4, r: 1, thr: 0.25 }, &al, &ops_small(), 3, &q4);
        c05_history::<u32>(cx, Layout { b: 1, r: 4, thr: 0.0 }, &al, &ops_small(), 3, &q4);
        c05_history::<u32>(cx, Layout { b: 2, r: 2, thr: 0.0 }, &al, &ops_small(), 3, &q4);
    });
    cx.section("container alone", "all push/remove histories over 3 ids (4 thorough), each id pushed only while absent", || {
        let d = cx.q(7, 9);
        container_alone::<u32, HashSetContainer<u32>>(cx, "HashSet", 3, d);
        container_alone::<u32, VecContainer<u32>>(cx, "Vec", 3, d);
        container_alone::<u32, SmallVecContainer<u32, 1>>(cx, "SmallVec1", 3, d);
        container_alone::<u32, SmallVecContainer<u32, 2>>(cx, "SmallVec2", 3, d);
        container_alone::<String, SmallVecContainer<String, 2>>(cx, "SmallVec2", 4, cx.q(6, 7));
        container_alone::<String, SmallVecContainer<String, 3>>(cx, "SmallVec3", 4, cx.q(6, 7));
        container_alone::<String, VecContainer<String>>(cx, "Vec", 4, cx.q(6, 7));
    });
    cx.section("large containers", "container sizes, four removal orders, two rounds", || {
        let mut ns = sizes(cx.q(300, 1000));
        ns.extend([511, 512, 513, 1023, 1024, 1025, 2049, 4097, 10001]);
        if cx.thorough {
            ns.extend([8193, 16385]);
        }
        ns.sort();
        ns.dedup();
        container_big::<u32, HashSetContainer<u32>>(cx, "HashSet", ns.clone());
        container_big::<u32, VecContainer<u32>>(cx, "Vec", ns.clone());
        container_big::<u32, SmallVecContainer<u32, 1>>(cx, "SmallVec1", ns.clone());
        container_big::<u32, SmallVecContainer<u32, 2>>(cx, "SmallVec2", ns.clone());
        container_big::<u32, SmallVecContainer<u32, 8>>(cx, "SmallVec8", ns.clone());
        container_big::<u64, SmallVecContainer<u64, 16>>(cx, "SmallVec16", ns.clone());
        container_big::<String, SmallVecContainer<String, 4>>(cx, "SmallVec4", sizes(100));
    });
    cx.section("large buckets", "indexes whose buckets grow through the inline capacity and shrink back, all containers against the model", || {
        for p in [Prop::C01, Prop::C02, Prop::C03] {
            big::<u32, HashSetContainer<u32>>(cx, p, "hashset", sizes(cx.q(65, 300)));
            big::<u32, VecContainer<u32>>(cx, p, "vec", sizes(cx.q(65, 300)));
            big::<u32, SmallVecContainer<u32, 1>>(cx, p, "small1", sizes(cx.q(40, 300)));
            big::<u32, SmallVecContainer<u32, 2>>(cx, p, "small2", sizes(cx.q(40, 300)));
            big::<u32, SmallVecContainer<u32, 8>>(cx, p, "small8", sizes(cx.q(40, 300)));
            big::<u64, SmallVecContainer<u64, 32>>(cx, p, "small32", sizes(cx.q(65, 300)));
            let huge = cx.q(vec![129, 257, 513], vec![129, 257, 513, 1025]);
            big::<u32, VecContainer<u32>>(cx, p, "vec", huge.clone());
            big::<u32, SmallVecContainer<u32, 2>>(cx, p, "small2", huge.clone());
            big::<u64, SmallVecContainer<u64, 32>>(cx, p, "small32", huge.clone());
        }
    });
}

// ------------------------------------------------------------------ C13

fn check_centroid<T: Ty, I: IdT, C: IdContainer<I>>(s: &Sut<T, I, C>, list: &[usize]) -> R {
    let ids: Vec<I> = list.iter().map(|&i| s.ids[i].clone()).collect();
    let stored: Vec<&Vec<u8>> = list.iter().filter_map(|i| s.m.map.get(i)).collect();
    if stored.is_empty() {
        return Ok(());
    }
    let c = s.ix.calculate_centroid(&ids);
    ensure!(c.len() == s.l.b * s.l.r, "centroid of {:?} has {} hashes, expected {}", list, c.len(), s.l.b * s.l.r);
    for b in 0..s.l.b {
        let mut counts: BTreeMap<Vec<T>, usize> = BTreeMap::new();
        for g in &stored {
            *counts.entry(sig::<T>(&g[b * s.l.r..(b + 1) * s.l.r])).or_default() += 1;
        }
        let max = *counts.values().max().unwrap();
        let v = &c[b * s.l.r..(b + 1) * s.l.r];
        ensure!(counts.get(v) == Some(&max), "centroid of {:?}: band {} is {:?}, which occurs {:?} times; the most frequent occurs {} times; contents {:?}", list, b, v, counts.get(v), max, s.m.map);
    }
    Ok(())
}

pub fn c13(cx: &Cx) {
    // all id lists without repetition out of 5 (id 4 may be absent)
    let lists: Vec<Vec<usize>> = seqs_upto(5, 5).into_iter().filter(|l| l.iter().collect::<BTreeSet<_>>().len() == l.len() && !l.is_empty()).collect();
    let run = |tag: &'static str, b: usize, r: usize, al: Vec<Vec<u8>>, nids: usize| {
        let assigns = seqs(al.len(), nids);
        cx.par(assigns, |a| {
            cx.case(
                || format!("{} layout {}x{} signatures {:?}", tag, b, r, a.iter().map(|&i| &al[i]).collect::<Vec<_>>()),
                |k| {
                    let mut s = Sut::<u32, u32, HashSetContainer<u32>>::new(Layout { b, r, thr: 0.5 }, Make::Cap(4, 0), 5);
                    for (i, &x) in a.iter().enumerate() {
                        s.apply(&Op::Ins(i, x), &al, true)?;
                    }
                    k.state(&(b, r, &s.m));
                    for l in &lists {
                        check_centroid(&s, l)?;
                    }
                    k.step(lists.len());
                    k.trace();
                    Ok(())
                },
            );
        });
    };
    cx.section("assignments", "all assignments of an alphabet of signatures to up to 5 ids, all repetition-free id lists in all orders, stored and absent ids", || {
        run("band values", 2, 2, vec![vec![0, 0, 0, 0], vec![0, 0, 1, 1], vec![1, 0, 1, 1], vec![2, 2, 0, 0]], 4);
        run("band values", 2, 2, vec![vec![0, 1, 0, 0], vec![1, 0, 0, 1], vec![1, 1, 3, 1]], 5);
        run("single rows", 3, 1, vec![vec![0, 0, 0], vec![0, 1, 2], vec![1, 1, 1], vec![3, 0, 2]], 4);
        run("one band", 1, 3, vec![vec![0, 0, 0], vec![0, 0, 1], vec![1, 0, 0], vec![0, 1, 0]], 4);
        run("few ids", 2, 2, all_sigs(2, 4), 2);
        run("one id", 2, 2, all_sigs(4, 4), 1);
        if cx.thorough {
            run("band values", 2, 2, vec![vec![0, 0, 0, 0], vec![0, 0, 1, 1], vec![1, 0, 1, 1], vec![2, 2, 0, 0], vec![0, 1, 1, 0]], 5);
            run("few ids", 2, 2, all_sigs(2, 4), 3);
        }
    });
    cx.section("histories", "all histories of the small alphabet, centroids of all id lists afterwards", || {
        let al = alphabet22();
        let ops = ops_small();
        let l3: Vec<Vec<usize>> = lists.iter().filter(|l| l.iter().all(|&x| x < 3)).cloned().collect();
        cx.par(seqs(ops.len(), 2), |head| {
            for tail in seqs_upto(ops.len(), cx.q(2, 3)) {
                let h: Vec<usize> = head.iter().chain(&tail).copied().collect();
                cx.case(
                    || format!("history {:?}", h.iter().map(|&i| &ops[i]).collect::<Vec<_>>()),
                    |k| {
                        let mut s = Sut::<u64, String, VecContainer<String>>::new(Layout { b: 2, r: 2, thr: 0.5 }, Make::Cap(4, 0), 3);
                        for &o in &h {
                            s.apply(&ops[o], &al, false)?;
                        }
                        k.state(&s.m);
                        for l in &l3 {
                            check_centroid(&s, l)?;
                        }
                        k.step(h.len() + l3.len());
                        k.trace();
                        Ok(())
                    },
                );
            }
        });
    });
    cx.section("group sizes", "groups of n ids in which two or three band values compete with all possible counts", || {
        let ns: Vec<usize> = (1..=cx.q(40, 80)).chain([64, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097, 10001, 65537]).collect();
        macro_rules! one { ($t:ty, $n:expr) => {{
            let n = $n;
            let js: Vec<usize> = if n <= 40 { (0..=n).collect() } else { vec![0, 1, n / 2 - 1, n / 2, n / 2 + 1, n / 3, n - 1, n] };
            for j in js {
                cx.case(|| format!("{} of {} {}", j, n, stringify!($t)), |k| {
                    // band 0: j times value 1, the rest 0; band 1: three kinds
                    let al: Vec<Vec<u8>> = (0..n).map(|i| vec![(i < j) as u8, 0, if i < j { 3 } else { (i % 2) as u8 }, 1]).collect();
                    let mut s = Sut::<$t, u32, VecContainer<u32>>::new(Layout { b: 2, r: 2, thr: 0.5 }, Make::Cap(4, 0), n);
                    s.apply(&Op::Bulk((0..n).map(|i| (i, i)).collect()), &al, true)?;
                    let fwd: Vec<usize> = (0..n).collect();
                    let rev: Vec<usize> = (0..n).rev().collect();
                    let mix: Vec<usize> = (0..n).step_by(2).chain((0..n).skip(1).step_by(2)).collect();
                    k.state(&(stringify!($t), n, j));
                    k.step(3); k.trace();
                    check_centroid(&s, &fwd)?;
                    check_centroid(&s, &rev)?;
                    check_centroid(&s, &mix)
                });
            }
        }} }
        cx.par(ns, |n| {
            one!(u32, n);
            if n < 10000 || cx.thorough {
                one!(u8, n);
                one!(i64, n);
            }
        });
    });
    cx.section("wide layouts", "every band of larger layouts takes its own majority", || {
        let ls: Vec<(usize, usize)> = (1..=cx.q(20, 50)).flat_map(|b| (1..=cx.q(6, 10)).map(move |r| (b, r))).chain([(1, 16), (1, 33), (2, 64), (1, 128), (1, 257), (33, 2), (64, 1), (65, 2), (42, 3), (128, 1), (129, 3), (257, 1)]).collect();
        cx.par(ls, |(b, r)| {
            cx.case(
                || format!("layout {}x{}", b, r),
                |k| {
                    // id i deviates in band j iff bit pattern says so; majority differs per band
                    let n = b * r;
                    let al: Vec<Vec<u8>> = (0..5usize)
                        .map(|i| (0..n).map(|x| { let j = x / r; if (j + i) % 5 < 2 { 1 } else if (j + i) % 5 == 4 { 2 } else { 0 } }).map(|v| v as u8).enumerate().map(|(x, v)| if x % r == (x / r) % r { v } else { 3 }).collect())
                        .collect();
                    let mut s = Sut::<u16, u32, HashSetContainer<u32>>::new(Layout { b, r, thr: 0.5 }, Make::Cap(4, 0), 5);
                    for i in 0..5 {
                        s.apply(&Op::Ins(i, i), &al, true)?;
                    }
                    k.state(&(b, r));
                    for l in &lists {
                        check_centroid(&s, l)?;
                    }
                    k.step(lists.len());
                    k.trace();
                    Ok(())
                },
            );
        });
    });
}

// ------------------------------------------------------------------ C21

fn c21_run<T: Ty, I: IdT, C: IdContainer<I> + Send + Sync>(cx: &Cx, b: usize, r: usize, thr: f64, batches: Vec<usize>) {
        let n = b * r;
        let m_ids = batches.iter().copied().max().unwrap_or(0).max(8) + 8;
        let mut lens: Vec<usize> = vec![0, 1, n - 1, n + 1, n + 2, 2 * n, 3 * n, r, n - r, n + r, n / 2, n + 3 * r, n + 64];
    if n <= 12 {
        lens.extend(0..=4 * n);
    } else {
        lens.extend(n - 4..=n + 8);
        lens.extend((1..=2 * b).map(|x| x * r));
    }
    // lengths that agree with n in the low bits
    if n <= 12 && batches.len() <= 4 {
        lens.extend([n + 128, n + 256, n + 512, n + 1024, n + 4096, n + 65_536, n + 131_072, 256 * n, 65_536 * n]);
    }
        lens.sort();
        lens.dedup();
        lens.retain(|&x| x != n);
        let fills: Vec<Vec<usize>> = vec![vec![], vec![0], vec![0, 1, 2]];
        let items: Vec<(usize, Vec<usize>, u8)> = lens.iter().flat_map(|&len| fills.iter().flat_map(move |f| (0..3u8).map(move |d| (len, f.clone(), d)))).collect();
        let batches = &batches;
        cx.par(items, |(len, fill, digit)| {
            // digit 0 and 1 continue stored band values, 2 is a stranger
            let al: Vec<Vec<u8>> = vec![vec![0; n], (0..n).map(|i| (i >= r) as u8).collect(), vec![1; n]];
            let bad: Vec<T> = sig::<T>(&vec![digit; len]);
            let good: Vec<T> = sig::<T>(&al[1]);
            let mut queries = al.clone();
            queries.push(vec![2; n]);
            let attempt = |name: String, k: &mut K, f: &dyn Fn(&mut MinHashIndex<T, I, C>)| -> R {
                let mut s = Sut::<T, I, C>::new(Layout { b, r, thr }, Make::Cap(4, 0), m_ids);
                for &i in &fill {
                    s.apply(&Op::Ins(i, i), &al, true)?;
                }
                let res = rt::quietly(|| f(&mut s.ix));
                ensure!(res.is_err(), "{} accepted a signature of {} hashes in an index of {} hashes ({}x{}) with {} ids", name, len, n, b, r, fill.len());
                k.step(2);
                k.trace();
                // the index is as before
                s.check_map().map_err(|e| format!("after the rejected {}: {}", name, e))?;
                for q in &queries {
                    s.check_query(q).map_err(|e| format!("after the rejected {}: {}", name, e))?;
                }
                s.check_forms(&queries).map_err(|e| format!("after the rejected {}: {}", name, e))
            };
            let key = |what: String| format!("<{},{}> {} with {} hashes of digit {} in {}x{} thr {} holding {:?}", T::NAME, I::NAME, what, len, digit, b, r, thr, fill);
            for id in [0usize, 7] {
                cx.case(|| key(format!("insert id {}", id)), |k| attempt("insert".into(), k, &|ix| ix.insert(I::mk(id), bad.clone())));
            }
            cx.case(|| key("query".into()), |k| attempt("query".into(), k, &|ix| { ix.query(&bad); }));
            cx.case(|| key("query_owned".into()), |k| attempt("query_owned".into(), k, &|ix| { ix.query_owned(&bad); }));
            cx.case(|| key("query_one".into()), |k| attempt("query_one".into(), k, &|ix| { ix.query_one(&bad); }));
            cx.case(|| key("query_owned_return_similarity".into()), |k| attempt("query_owned_return_similarity".into(), k, &|ix| { ix.query_owned_return_similarity(&bad); }));
            for kk in [0usize, 1, 5] {
                cx.case(|| key(format!("query_top_k {}", kk)), |k| attempt("query_top_k".into(), k, &|ix| { ix.query_top_k(&bad, kk); }));
            }
            for &m in batches {
                for pos in 0..m {
                    if m > 8 && ![0, 1, m / 2, m - 2, m - 1].contains(&pos) {
                        continue;
                    }
                    let ids: Vec<I> = (0..m).map(I::mk).collect();
                    let sigs: Vec<Vec<T>> = (0..m).map(|i| if i == pos { bad.clone() } else { good.clone() }).collect();
                    let pairs: Vec<(I, Vec<T>)> = ids.iter().cloned().zip(sigs.iter().cloned()).collect();
                    cx.case(|| key(format!("par_bulk_insert {} of {}", pos, m)), |k| attempt(format!("par_bulk_insert (element {} of {})", pos, m), k, &|ix| ix.par_bulk_insert(ids.clone(), sigs.clone())));
                    cx.case(|| key(format!("par_bulk_insert_pairs {} of {}", pos, m)), |k| attempt(format!("par_bulk_insert_pairs (element {} of {})", pos, m), k, &|ix| ix.par_bulk_insert_pairs(pairs.clone())));
                    cx.case(|| key(format!("par_bulk_query {} of {}", pos, m)), |k| attempt(format!("par_bulk_query (element {} of {})", pos, m), k, &|ix| { ix.par_bulk_query(&sigs); }));
                    cx.case(|| key(format!("par_bulk_query_return_similarity {} of {}", pos, m)), |k| attempt(format!("par_bulk_query_return_similarity (element {} of {})", pos, m), k, &|ix| { ix.par_bulk_query_return_similarity(&sigs); }));
                }
            }
            cx.state(&(b, r, len, &fill, digit));
        });
}

pub fn c21(cx: &Cx) {
    cx.section("wrong lengths", "every insert and query form, every wrong length of a list, every position in the batch, empty and filled indexes", || {
        c21_run::<u32, u32, HashSetContainer<u32>>(cx, 2, 2, 0.5, vec![1, 2, 3, 4]);
        c21_run::<u32, u32, HashSetContainer<u32>>(cx, 1, 3, 0.5, vec![1, 2, 3]);
        c21_run::<u32, u32, HashSetContainer<u32>>(cx, 3, 1, 0.0, vec![1, 2, 3]);
        c21_run::<u32, u32, HashSetContainer<u32>>(cx, 4, 2, 1.0, vec![1, 2, 5]);
        c21_run::<u32, u32, HashSetContainer<u32>>(cx, 1, 1, 0.5, vec![1, 2]);
        c21_run::<u8, u64, VecContainer<u64>>(cx, 2, 2, 0.5, vec![1, 2, 3]);
        c21_run::<u64, String, SmallVecContainer<String, 2>>(cx, 2, 2, 0.5, vec![1, 2, 3]);
        c21_run::<i64, u32, VecContainer<u32>>(cx, 3, 2, 0.3, vec![1, 2]);
        c21_run::<u16, u64, SmallVecContainer<u64, 4>>(cx, 5, 1, 0.9, vec![1, 2]);
        c21_run::<u32, String, HashSetContainer<String>>(cx, 1, 6, 0.0, vec![1, 2]);
    });
    cx.section("larger batches", "the wrong signature first, second, in the middle and last of larger batches", || {
        c21_run::<u32, u32, HashSetContainer<u32>>(cx, 2, 2, 0.5, cx.q(vec![16, 100, 129, 257, 513, 1025, 4097, 10001], vec![16, 33, 64, 65, 100, 101, 128, 129, 257, 513, 1025, 2049, 4097, 10001, 65537]));
        if cx.thorough {
            c21_run::<u32, u32, HashSetContainer<u32>>(cx, 42, 3, 0.5, vec![1, 2, 3, 100]);
        }
    });
    cx.section("standard layouts", "layouts in daily use", || {
        c21_run::<u32, u32, HashSetContainer<u32>>(cx, 42, 3, 0.5, vec![1, 2]);
        c21_run::<u32, u32, HashSetContainer<u32>>(cx, 25, 5, 0.7, vec![1, 2]);
    });
    cx.section("right lengths", "no call with signatures of the right length panics", || {
        for (b, r) in [(2, 2), (1, 3), (3, 1), (42, 3)] {
            cx.case(
                || format!("{}x{}", b, r),
                |k| {
                    let n = b * r;
                    let al = vec![vec![0u8; n], vec![1; n], (0..n).map(|i| (i % 2) as u8).collect()];
                    let mut s = Sut::<u32, u32, HashSetContainer<u32>>::new(Layout { b, r, thr: 0.5 }, Make::Cap(4, 0), 130);
                    for op in [Op::Bulk(vec![]), Op::Pairs(vec![]), Op::Ins(0, 0), Op::Bulk(vec![(1, 1), (2, 2)]), Op::Pairs(vec![(3, 1), (0, 2)]), Op::BulkRem(vec![1, 9])] {
                        s.apply(&op, &al, true)?;
                        s.check_map()?;
                        s.check_forms(&al)?;
                        k.step(3);
                    }
                    k.state(&s.m);
                    k.trace();
                    Ok(())
                },
            );
        }
    });
}
