//! C04: bulk and parallel operations equal their one-at-a-time counterparts, under every schedule.
use crate::clust::{schedules, selftest};
use crate::fw::ensure;
use crate::fw::*;
use crate::mh::{all_sigs, alphabet22, sig, IdT, Layout};
use crate::sh::Bits;
use gaoya::minhash::{HashSetContainer, IdContainer, MinHashIndex, MinHasher, MinHasher16, MinHasher32, MinHasher64V1, MinHasher8, SmallVecContainer, VecContainer};
use gaoya::simhash::SimHashIndex;
use mcstd::rt;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};

/// An id whose clones are scheduling points.
#[derive(PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct PId(pub usize);
impl Clone for PId {
    fn clone(&self) -> Self {
        rt::point("clone id");
        PId(self.0)
    }
}
impl IdT for PId {
    const NAME: &'static str = "scheduling id";
    fn mk(i: usize) -> Self {
        PId(i)
    }
}
/// A token whose hashing is a scheduling point.
#[derive(Clone)]
struct PTok(u64);
impl Hash for PTok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        rt::point("hash token");
        self.0.hash(h)
    }
}

/// Everything a user can see of a MinHash index, for the given ids and queries.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Obs {
    size: usize,
    sigs: Vec<Option<Vec<u32>>>,
    bands: Vec<usize>,
    /// per query: ids of `query`, and (id, similarity) of the similarity form
    answers: Vec<(BTreeSet<usize>, BTreeSet<(usize, u64)>)>,
}
fn pos<I: IdT>(ids: &[I], x: &I) -> usize {
    ids.iter().position(|y| y == x).unwrap_or(usize::MAX)
}
fn observe<I: IdT, C: IdContainer<I>>(ix: &MinHashIndex<u32, I, C>, ids: &[I], queries: &[Vec<u8>]) -> Obs {
    Obs {
        size: ix.size(),
        sigs: ids.iter().map(|i| ix.get_signature(i).cloned()).collect(),
        bands: ix.band_sizes().sizes,
        answers: queries
            .iter()
            .map(|q| {
                let s = sig::<u32>(q);
                (ix.query(&s).into_iter().map(|i| pos(ids, i)).collect(), ix.query_owned_return_similarity(&s).iter().map(|(i, d)| (pos(ids, i), d.to_bits())).collect())
            })
            .collect(),
    }
}

#[derive(Clone, Debug, PartialEq)]
enum B {
    Ins(Vec<(usize, usize)>),
    Pairs(Vec<(usize, usize)>),
    Rem(Vec<usize>),
}
fn bulk<I: IdT, C: IdContainer<I>>(ix: &mut MinHashIndex<u32, I, C>, ids: &[I], al: &[Vec<u8>], op: &B) -> Vec<Vec<u32>> {
    match op {
        B::Ins(v) => {
            ix.par_bulk_insert(v.iter().map(|x| I::mk(x.0)).collect(), v.iter().map(|x| sig(&al[x.1])).collect());
            vec![]
        }
        B::Pairs(v) => {
            ix.par_bulk_insert_pairs(v.iter().map(|x| (I::mk(x.0), sig(&al[x.1]))).collect());
            vec![]
        }
        B::Rem(v) => {
            let _ = ids;
            ix.bulk_remove(&v.iter().map(|&x| I::mk(x)).collect())
        }
    }
}
fn single<I: IdT, C: IdContainer<I>>(ix: &mut MinHashIndex<u32, I, C>, al: &[Vec<u8>], op: &B) -> Vec<Vec<u32>> {
    match op {
        B::Ins(v) | B::Pairs(v) => {
            for x in v {
                ix.insert(I::mk(x.0), sig(&al[x.1]));
            }
            vec![]
        }
        B::Rem(v) => v.iter().filter_map(|&x| ix.remove(&I::mk(x))).collect(),
    }
}
fn mk<I: IdT, C: IdContainer<I>>(l: Layout, cap: bool) -> MinHashIndex<u32, I, C> {
    if cap {
        MinHashIndex::new_with_capacity(l.b, l.r, l.thr, 4, 0.5)
    } else {
        MinHashIndex::new_index(l.b, l.r, l.thr)
    }
}

/// A history of bulk operations against the same history of single ones; compared after every operation.
fn history<I: IdT, C: IdContainer<I>>(k: &mut K, l: Layout, cap: bool, al: &[Vec<u8>], queries: &[Vec<u8>], pre: &[(usize, usize)], ops: &[B], nids: usize) -> R {
    let ids: Vec<I> = (0..nids).map(I::mk).collect();
    let mut a: MinHashIndex<u32, I, C> = mk(l, cap);
    let mut b: MinHashIndex<u32, I, C> = mk(l, cap);
    for (i, s) in pre {
        a.insert(I::mk(*i), sig(&al[*s]));
        b.insert(I::mk(*i), sig(&al[*s]));
    }
    for op in ops {
        let (ra, rb) = (bulk(&mut a, &ids, al, op), single(&mut b, al, op));
        k.step(1);
        ensure!(ra == rb, "{:?} returned {:?}, one at a time {:?}", op, ra, rb);
        let (oa, ob) = (observe(&a, &ids, queries), observe(&b, &ids, queries));
        ensure!(oa == ob, "after {:?}: {:?}, one at a time {:?}", op, oa, ob);
        k.state(&(l.b, l.r, &ob));
    }
    // bulk queries
    let qs: Vec<Vec<u32>> = queries.iter().map(|q| sig(q)).collect();
    bulk_queries(&a, &ids, &qs)?;
    k.step(2);
    k.trace();
    Ok(())
}
fn bulk_queries<I: IdT, C: IdContainer<I>>(a: &MinHashIndex<u32, I, C>, ids: &[I], qs: &Vec<Vec<u32>>) -> R {
    let r1 = a.par_bulk_query(qs);
    let r2 = a.par_bulk_query_return_similarity(qs);
    ensure!(r1.len() == qs.len() && r2.len() == qs.len(), "{} queries gave {} and {} results", qs.len(), r1.len(), r2.len());
    for (i, q) in qs.iter().enumerate() {
        let e: BTreeSet<usize> = a.query_owned(q).iter().map(|x| pos(ids, x)).collect();
        let g: BTreeSet<usize> = r1[i].iter().map(|x| pos(ids, x)).collect();
        ensure!(g == e, "par_bulk_query[{}] = {:?}, query = {:?}", i, g, e);
        let e = a.query_owned_return_similarity(q);
        let key = |v: &Vec<(I, f64)>| -> (Vec<u64>, BTreeSet<(usize, u64)>) { (v.iter().map(|x| x.1.to_bits()).collect(), v.iter().map(|x| (pos(ids, &x.0), x.1.to_bits())).collect()) };
        ensure!(key(&r2[i]) == key(&e), "par_bulk_query_return_similarity[{}] = {:?}, one at a time {:?}", i, r2[i], e);
    }
    Ok(())
}

fn batches(n: usize) -> Vec<Vec<(usize, usize)>> {
    seqs_upto(9, n).into_iter().map(|s| s.into_iter().map(|x| (x / 3, x % 3)).collect()).collect()
}

/// The bulk operations on batches of n against single ones: a first batch, a second one that
/// overlaps it (half of its ids are there already, with other signatures), queries, removals with
/// absent and repeated ids, and a last batch into what is left.
fn batch_size(k: &mut K, n: usize, b: usize, r: usize, modulus: usize, idmod: usize) -> R {
    let s = |i: usize| -> Vec<u32> {
        let j = i % modulus;
        (0..b * r).map(|p| (j / (p % 3 + 1) + p * (j & 1)) as u32).collect()
    };
    let new = || -> MinHashIndex<u32, usize> { MinHashIndex::new_with_capacity(b, r, 0.4, 4, 0.5) };
    let (mut one, mut blk, mut prs) = (new(), new(), new());
    let sample: Vec<usize> = (0..n).filter(|i| n <= 64 || i % (n / 32) == 0 || *i + 3 > n).collect();
    let same = |a: &MinHashIndex<u32, usize>, b: &MinHashIndex<u32, usize>, what: &str| -> R {
        ensure!(a.size() == b.size(), "{}: size {} and {}", what, a.size(), b.size());
        ensure!(a.get_id_signature_map() == b.get_id_signature_map(), "{}: the signatures differ", what);
        ensure!(a.band_sizes().sizes == b.band_sizes().sizes, "{}: band sizes {:?} and {:?}", what, a.band_sizes().sizes, b.band_sizes().sizes);
        for &i in &sample {
            ensure!(a.query_owned(&s(i)) == b.query_owned(&s(i)), "{}: query {} differs", what, i);
        }
        Ok(())
    };
    let put = |one: &mut MinHashIndex<u32, usize>, blk: &mut MinHashIndex<u32, usize>, prs: &mut MinHashIndex<u32, usize>, batch: Vec<(usize, Vec<u32>)>, what: &str| -> R {
        for (i, x) in &batch {
            one.insert(*i, x.clone());
        }
        blk.par_bulk_insert(batch.iter().map(|x| x.0).collect(), batch.iter().map(|x| x.1.clone()).collect());
        prs.par_bulk_insert_pairs(batch);
        same(blk, one, &format!("{}, par_bulk_insert", what))?;
        same(prs, one, &format!("{}, par_bulk_insert_pairs", what))
    };
    put(&mut one, &mut blk, &mut prs, (0..n).map(|i| (i % idmod, s(i))).collect(), "first batch")?;
    let ids: Vec<usize> = (0..2 * n + 2).collect();
    let qs: Vec<Vec<u32>> = (0..n + 1).map(s).collect();
    if n <= 128 || modulus > 7 {
        bulk_queries(&blk, &ids, &qs)?;
    }
    // overlaps the first batch: ids n/2.., other signatures
    put(&mut one, &mut blk, &mut prs, (0..n).map(|i| (n / 2 + i % idmod, s(i + 1))).collect(), "second batch")?;
    if n <= 64 {
        bulk_queries(&blk, &ids, &qs)?;
    }
    // every second id, absent ones in between, some twice
    let rem: Vec<usize> = (0..n).filter(|i| i % 2 == 0).flat_map(|i| if i % 4 == 0 { vec![i, 3 * n + i] } else { vec![i] }).chain([3 * n, 3 * n + 1]).chain((0..n.min(3)).rev()).collect();
    let e: Vec<Vec<u32>> = rem.iter().filter_map(|i| one.remove(i)).collect();
    let g = blk.bulk_remove(&rem);
    ensure!(g == e, "bulk_remove of {} ids returned {} signatures, one at a time {}, or in another order", rem.len(), g.len(), e.len());
    same(&blk, &one, "bulk_remove")?;
    prs.bulk_remove(&rem);
    put(&mut one, &mut blk, &mut prs, (0..n / 2 + 1).map(|i| (i, s(i + 2))).collect(), "batch after removals")?;
    let all: Vec<usize> = (0..2 * n).rev().collect();
    let e: Vec<Vec<u32>> = all.iter().filter_map(|i| one.remove(i)).collect();
    let g = blk.bulk_remove(&all);
    ensure!(g == e, "bulk_remove of all returned {} signatures, one at a time {}, or in another order", g.len(), e.len());
    same(&blk, &one, "bulk_remove of all")?;
    prs.bulk_remove(&all);
    put(&mut one, &mut blk, &mut prs, vec![(0, s(0))], "batch into the emptied index")?;
    k.step(12);
    k.trace();
    k.state(&(n, modulus, idmod, b, r));
    Ok(())
}

// ---- SimHash

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct SObs {
    size: usize,
    answers: Vec<(BTreeSet<usize>, BTreeSet<(usize, usize)>)>,
}
fn sobserve<S: Bits, I: IdT>(ix: &SimHashIndex<S, I>, ids: &[I], qs: &[S]) -> SObs {
    SObs {
        size: ix.size(),
        answers: qs
            .iter()
            .map(|q| (ix.query(q).into_iter().map(|i| pos(ids, i)).collect(), ix.query_return_distance(q).iter().map(|(i, d)| (pos(ids, i), *d)).collect()))
            .collect(),
    }
}
/// batch as (id, signature) pairs; compares both bulk paths with single inserts, then the bulk queries.
fn sim_batch<S: Bits, I: IdT>(k: &mut K, blocks: usize, dist: usize, pre: &[(usize, S)], batch: &[(usize, S)], qs: &[S], nids: usize) -> R {
    let ids: Vec<I> = (0..nids).map(I::mk).collect();
    let new = || {
        let mut ix: SimHashIndex<S, I> = SimHashIndex::new(blocks, dist);
        for (i, s) in pre {
            ix.insert(I::mk(*i), *s);
        }
        ix
    };
    let mut one = new();
    for (i, s) in batch {
        one.insert(I::mk(*i), *s);
    }
    let e = sobserve(&one, &ids, qs);
    let mut a = new();
    a.par_bulk_insert(batch.iter().map(|x| I::mk(x.0)).collect(), batch.iter().map(|x| x.1).collect());
    let o = sobserve(&a, &ids, qs);
    ensure!(o == e, "after par_bulk_insert of {} pairs: {:?}, one at a time {:?}", batch.len(), o, e);
    let mut b = new();
    b.par_bulk_insert_pairs(batch.iter().map(|x| (I::mk(x.0), x.1)).collect());
    let o = sobserve(&b, &ids, qs);
    ensure!(o == e, "after par_bulk_insert_pairs of {} pairs: {:?}, one at a time {:?}", batch.len(), o, e);
    sim_bulk_queries(&a, &ids, &qs.to_vec())?;
    k.step(4);
    k.trace();
    k.state(&(blocks, dist, &e));
    Ok(())
}
fn sim_bulk_queries<S: Bits, I: IdT>(a: &SimHashIndex<S, I>, ids: &[I], v: &Vec<S>) -> R {
    let r1 = a.par_bulk_query(v);
    let r2 = a.par_bulk_query_return_distance(v);
    ensure!(r1.len() == v.len() && r2.len() == v.len(), "{} queries gave {} and {} results", v.len(), r1.len(), r2.len());
    for (i, q) in v.iter().enumerate() {
        let g: BTreeSet<usize> = r1[i].iter().map(|x| pos(ids, x)).collect();
        let w: BTreeSet<usize> = a.query_owned(q).iter().map(|x| pos(ids, x)).collect();
        ensure!(g == w, "par_bulk_query[{}] = {:?}, query = {:?}", i, g, w);
        let key = |v: &Vec<(I, usize)>| -> (Vec<usize>, BTreeSet<(usize, usize)>) { (v.iter().map(|x| x.1).collect(), v.iter().map(|x| (pos(ids, &x.0), x.1)).collect()) };
        let w = a.query_return_distance(q);
        ensure!(key(&r2[i]) == key(&w), "par_bulk_query_return_distance[{}] = {:?}, one at a time {:?}", i, r2[i], w);
    }
    Ok(())
}

/// Indexes in which one query matches every id, one half of them, one none; the bulk answers to all
/// short sequences of these queries against the single answers.
fn large_answers(k: &mut K, n: usize) -> R {
    let s = |i: usize| -> Vec<u32> { vec![7, 7 + (i % 2) as u32, 7 + (i % 3) as u32, 7 + (i % 5) as u32] };
    let mut ix: MinHashIndex<u32, usize> = MinHashIndex::new_index(4, 1, 0.25);
    ix.par_bulk_insert((0..n).collect(), (0..n).map(s).collect());
    let qs: Vec<Vec<u32>> = vec![vec![7; 4], vec![0, 8, 9, 10], vec![1; 4]];
    let key = |v: &Vec<(usize, f64)>| -> (Vec<u64>, BTreeSet<(usize, u64)>) { (v.iter().map(|x| x.1.to_bits()).collect(), v.iter().map(|x| (x.0, x.1.to_bits())).collect()) };
    let e1: Vec<_> = qs.iter().map(|q| ix.query_owned(q)).collect();
    let e2: Vec<_> = qs.iter().map(|q| key(&ix.query_owned_return_similarity(q))).collect();
    ensure!(e1[0].len() == n, "a query that shares a hash with each of {} ids names {}", n, e1[0].len());
    for seq in seqs_upto(3, 3) {
        let v: Vec<Vec<u32>> = seq.iter().map(|&i| qs[i].clone()).collect();
        let (r1, r2) = (ix.par_bulk_query(&v), ix.par_bulk_query_return_similarity(&v));
        ensure!(r1.len() == v.len() && r2.len() == v.len(), "{} queries gave {} and {} results", v.len(), r1.len(), r2.len());
        for (i, &q) in seq.iter().enumerate() {
            ensure!(r1[i] == e1[q], "queries {:?}: par_bulk_query[{}] names {} ids, the single query {}", seq, i, r1[i].len(), e1[q].len());
            ensure!(key(&r2[i]) == e2[q], "queries {:?}: par_bulk_query_return_similarity[{}] has {} entries, the single query {}, or they differ", seq, i, r2[i].len(), e2[q].0.len());
        }
        k.step(2);
    }
    k.state(&("large answers", n));
    k.trace();
    Ok(())
}
/// n ids with n signatures, loaded by the three ways, all asked in one batch.
fn sim_many(k: &mut K, n: usize) -> R {
    let s = |i: usize| -> u64 { (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) };
    let sigs: Vec<u64> = (0..n).map(s).collect();
    let new = || -> SimHashIndex<u64, usize> { SimHashIndex::new(2, 1) };
    let (mut one, mut blk, mut prs) = (new(), new(), new());
    for i in 0..n {
        one.insert(i, s(i));
    }
    blk.par_bulk_insert((0..n).collect(), sigs.clone());
    prs.par_bulk_insert_pairs((0..n).map(|i| (i, s(i))).collect());
    let qs: Vec<u64> = (0..n + 3).map(|i| s(i) ^ (1u64 << (i % 64))).collect();
    for (name, ix) in [("single inserts", &one), ("par_bulk_insert", &blk), ("par_bulk_insert_pairs", &prs)] {
        ensure!(ix.size() == n, "size {} after {} of {} ids", ix.size(), name, n);
        let (r1, r2) = (ix.par_bulk_query(&qs), ix.par_bulk_query_return_distance(&qs));
        ensure!(r1.len() == qs.len() && r2.len() == qs.len(), "{} queries gave {} and {} results", qs.len(), r1.len(), r2.len());
        for (i, q) in qs.iter().enumerate() {
            let e = one.query_owned(q);
            ensure!(r1[i] == e, "after {} of {} ids: par_bulk_query[{}] = {:?}, one at a time {:?}", name, n, i, r1[i], e);
            ensure!(r2[i].iter().map(|x| x.0).collect::<BTreeSet<_>>() == e.iter().copied().collect::<BTreeSet<_>>() && r2[i].len() == e.len(), "after {} of {} ids: par_bulk_query_return_distance[{}] = {:?}, one at a time {:?}", name, n, i, r2[i], e);
            ensure!(i >= n || e.contains(&i), "a signature one bit from that of id {} does not find it", i);
        }
        k.step(3);
    }
    k.state(&("sim many", n));
    k.trace();
    Ok(())
}
fn sim_large_answers(k: &mut K, n: usize) -> R {
    let s = |i: usize| -> u64 { [0u64, 1, 1 << 63, 3, 0x8001][i % 5] };
    let mut ix: SimHashIndex<u64, usize> = SimHashIndex::new(4, 2);
    ix.par_bulk_insert((0..n).collect(), (0..n).map(s).collect());
    let qs: Vec<u64> = vec![0, 0xf, 0xff00];
    let key = |v: &Vec<(usize, usize)>| -> (Vec<usize>, BTreeSet<(usize, usize)>) { (v.iter().map(|x| x.1).collect(), v.iter().copied().collect()) };
    let e1: Vec<BTreeSet<usize>> = qs.iter().map(|q| ix.query_owned(q).into_iter().collect()).collect();
    let e2: Vec<_> = qs.iter().map(|q| key(&ix.query_return_distance(q))).collect();
    ensure!(e1[0].len() == n, "a query within 2 bits of each of {} ids names {}", n, e1[0].len());
    for seq in seqs_upto(3, 3) {
        let v: Vec<u64> = seq.iter().map(|&i| qs[i]).collect();
        let (r1, r2) = (ix.par_bulk_query(&v), ix.par_bulk_query_return_distance(&v));
        ensure!(r1.len() == v.len() && r2.len() == v.len(), "{} queries gave {} and {} results", v.len(), r1.len(), r2.len());
        for (i, &q) in seq.iter().enumerate() {
            ensure!(r1[i].iter().copied().collect::<BTreeSet<_>>() == e1[q], "queries {:?}: par_bulk_query[{}] names {} ids, the single query {}", seq, i, r1[i].len(), e1[q].len());
            ensure!(key(&r2[i]) == e2[q], "queries {:?}: par_bulk_query_return_distance[{}] has {} entries, the single query {}, or they differ", seq, i, r2[i].len(), e2[q].0.len());
        }
        k.step(2);
    }
    k.state(&("sim large answers", n));
    k.trace();
    Ok(())
}

/// A signature as a value: `bulk` against `create_signature`.
fn signatures<H: MinHasher + Sync + Send, U: Hash + Sync + Clone>(k: &mut K, h: &H, batch: &Vec<Vec<U>>) -> R
where
    H::V: std::fmt::Debug + Hash,
{
    let e: Vec<Vec<H::V>> = batch.iter().map(|t| h.create_signature(t.iter())).collect();
    let g = h.bulk_create_signature(batch);
    ensure!(g == e, "bulk_create_signature of {} token lists differs from create_signature (first difference at {:?})", batch.len(), g.iter().zip(&e).position(|(a, b)| a != b));
    let g = h.bulk_create_signature_refs(&batch.iter().collect());
    ensure!(g == e, "bulk_create_signature_refs of {} token lists differs from create_signature (first difference at {:?})", batch.len(), g.iter().zip(&e).position(|(a, b)| a != b));
    k.step(2 + batch.len());
    k.trace();
    k.state(&e);
    Ok(())
}

pub fn c04(cx: &Cx) {
    selftest(cx);
    let al: Vec<Vec<u8>> = alphabet22()[..3].to_vec();
    let l22 = Layout { b: 2, r: 2, thr: 0.5 };
    let qs22 = all_sigs(2, 4);
    for mode in 0..4 {
        rt::set_task_order(mode);
        let n = if mode == 0 { cx.q(3, 4) } else { cx.q(2, 3) };
        cx.section(&format!("insert batches, task order {}", mode), "all batches of (id, signature) pairs over 3 ids and 3 signatures, into three prior states, both bulk insert functions, three containers", || {
            let pres: Vec<Vec<(usize, usize)>> = vec![vec![], vec![(0, 0)], vec![(0, 1), (1, 1), (2, 2)]];
            cx.par(batches(n), |b| {
                for pre in &pres {
                    for (c, op) in [(0, B::Ins(b.clone())), (1, B::Pairs(b.clone())), (2, B::Ins(b.clone())), (0, B::Pairs(b.clone()))] {
                        cx.case(
                            || format!("prior {:?} {:?} container {}", pre, op, c),
                            |k| match c {
                                0 => history::<u32, HashSetContainer<u32>>(k, l22, false, &al, &qs22, pre, &[op.clone()], 3),
                                1 => history::<u32, VecContainer<u32>>(k, l22, true, &al, &qs22, pre, &[op.clone()], 3),
                                _ => history::<String, SmallVecContainer<String, 2>>(k, l22, false, &al, &qs22, pre, &[op.clone()], 3),
                            },
                        );
                    }
                }
            });
        });
        cx.section(&format!("remove batches, task order {}", mode), "all lists of up to 4 of 4 ids (one of them absent, repetitions allowed), from prior states with equal and different signatures, three containers", || {
            let pres: Vec<Vec<(usize, usize)>> = vec![vec![], vec![(0, 0), (1, 1), (2, 2)], vec![(0, 0), (1, 0), (2, 0)], vec![(0, 1), (1, 0), (0, 0), (2, 1)], vec![(2, 0), (1, 1)]];
            cx.par(seqs_upto(4, if mode == 0 { cx.q(4, 5) } else { 3 }), |v| {
                for pre in &pres {
                    for c in 0..3 {
                        let op = B::Rem(v.clone());
                        cx.case(
                            || format!("prior {:?} {:?} container {}", pre, op, c),
                            |k| match c {
                                0 => history::<u64, HashSetContainer<u64>>(k, l22, false, &al, &qs22, pre, &[op.clone()], 4),
                                1 => history::<u32, VecContainer<u32>>(k, l22, true, &al, &qs22, pre, &[op.clone()], 4),
                                _ => history::<String, SmallVecContainer<String, 2>>(k, l22, false, &al, &qs22, pre, &[op.clone()], 4),
                            },
                        );
                    }
                }
            });
        });
        cx.section(&format!("bulk histories, task order {}", mode), "all sequences of bulk operations from an alphabet of 12, compared with single operations after each", || {
            let ops: Vec<B> = vec![
                B::Ins(vec![(0, 0)]),
                B::Ins(vec![(0, 0), (1, 0)]),
                B::Ins(vec![(0, 1), (1, 2), (2, 0)]),
                B::Ins(vec![(0, 0), (0, 1)]),
                B::Pairs(vec![(2, 2), (1, 1)]),
                B::Pairs(vec![(1, 0), (0, 2), (1, 1)]),
                B::Pairs(vec![]),
                B::Rem(vec![0]),
                B::Rem(vec![1, 0]),
                B::Rem(vec![2, 3, 1]),
                B::Rem(vec![1, 1]),
                B::Rem(vec![]),
            ];
            for l in [l22, Layout { b: 4, r: 1, thr: 0.25 }, Layout { b: 1, r: 4, thr: 1.0 }] {
                cx.par(seqs(12, if mode == 0 { cx.q(3, 4) } else { cx.q(2, 3) }), |s| {
                    let h: Vec<B> = s.iter().map(|&i| ops[i].clone()).collect();
                    cx.case(|| format!("{:?} {:?}", l, h), |k| history::<u32, HashSetContainer<u32>>(k, l, false, &al, &qs22, &[], &h, 4));
                    cx.case(|| format!("{:?} {:?} small vectors", l, h), |k| history::<u32, SmallVecContainer<u32, 2>>(k, l, true, &al, &qs22, &[], &h, 4));
                });
            }
        });
        cx.section(&format!("batch sizes, task order {}", mode), "insert, remove and query batches of every size up to 40 and around powers of two and ten; signatures with few and many collisions", || {
            cx.par(sizes(cx.q(4100, 16385)), |n| {
                for (b, r) in [(3usize, 1usize), (2, 4), (40, 1), (129, 1), (257, 1)] {
                    for modulus in [2usize, 7, usize::MAX] {
                        if b >= 40 && (modulus == 2 || n > 1100 || b > 40 && n > 65) {
                            continue;
                        }
                        for idmod in [usize::MAX, n / 2 + 1] {
                            cx.case(|| format!("{} pairs, {} bands of {}, ids mod {}, signatures mod {}", n, b, r, idmod, modulus), |k| batch_size(k, n, b, r, modulus, idmod));
                        }
                    }
                }
            });
            let top: Vec<(usize, usize)> = cx.q(vec![10_001, 65_537], vec![32_769, 65_537, 100_003]).into_iter().flat_map(|n| [(n, usize::MAX), (n, n / 2 + 1)]).collect();
            cx.par(top, |(n, idmod)| {
                cx.case(|| format!("{} pairs, 3 bands of 1, ids mod {}", n, idmod), |k| batch_size(k, n, 3, 1, usize::MAX, idmod));
            });
        });
        cx.section(&format!("large answers, task order {}", mode), "bulk queries whose single answers hold up to 10001 ids (MinHash) and 5003 ids (SimHash): all sequences of up to 3 of 3 queries, repetitions included", || {
            let ns: Vec<usize> = cx.q(vec![10_001, 5003, 4097, 2049, 1025, 1001, 513, 257, 101, 65], vec![65_537, 32_769, 16_385, 10_001, 5003, 4097, 2049, 1025, 1001, 513, 257, 129, 101, 65, 33, 17]);
            let ns: Vec<usize> = if mode == 0 { ns } else { ns.into_iter().filter(|n| *n < 4000).collect() };
            cx.par(ns, |n| {
                cx.case(|| format!("minhash, {} ids", n), |k| large_answers(k, n));
                cx.case(|| format!("simhash, {} ids", n.min(20_000) / 2 + 2), |k| sim_large_answers(k, n.min(20_000) / 2 + 2));
            });
        });
        cx.section(&format!("signatures, task order {}", mode), "bulk_create_signature and its by-reference form for batches of every size up to 40 and around powers of two and ten, four hashers", || {
            cx.par(sizes(cx.q(4100, 16385)), |n| {
                let batch: Vec<Vec<u64>> = (0..n).map(|i| (0..i % 5).map(|j| (i * 7 + j) as u64).collect()).collect();
                cx.case(|| format!("{} lists, u8", n), |k| signatures(k, &MinHasher8::new(7), &batch));
                cx.case(|| format!("{} lists, u16", n), |k| signatures(k, &MinHasher16::new(3), &batch));
                cx.case(|| format!("{} lists, u32", n), |k| signatures(k, &MinHasher32::new(5), &batch));
                cx.case(|| format!("{} lists, u64", n), |k| signatures(k, &MinHasher64V1::new(4), &batch));
                let sb: Vec<Vec<String>> = batch.iter().map(|t| t.iter().map(|x| format!("w{}", x)).collect()).collect();
                cx.case(|| format!("{} lists of words, u32", n), |k| signatures(k, &MinHasher32::new(9), &sb));
            });
            // larger batches, and batches of long lists
            let mut more: Vec<(usize, usize)> = cx.q(vec![(65_537, 1), (20_011, 1), (10_001, 2), (8193, 2)], vec![(200_003, 1), (131_073, 1), (65_537, 2), (32_769, 2), (20_011, 1), (10_001, 2), (8193, 2)]);
            for len in cx.q(vec![10_001usize, 4097, 1025, 1001, 257, 129, 65], vec![65_537, 32_769, 10_001, 8193, 4097, 2049, 1025, 1001, 513, 257, 129, 101, 65, 64, 63]) {
                more.extend([(1, len), (2, len), (3, len)]);
                if len < 1100 {
                    more.push((101, len));
                }
            }
            cx.par(more, |(n, len)| {
                let batch: Vec<Vec<u64>> = (0..n).map(|i| (0..len + i % 2).map(|j| (j * n + i) as u64).collect()).collect();
                cx.case(|| format!("{} lists of {} numbers, u64", n, len), |k| signatures(k, &MinHasher64V1::new(8), &batch));
                cx.case(|| format!("{} lists of {} numbers, u32", n, len), |k| signatures(k, &MinHasher32::new(8), &batch));
                cx.case(|| format!("{} lists of {} numbers, u16", n, len), |k| signatures(k, &MinHasher16::new(3), &batch));
                cx.case(|| format!("{} lists of {} numbers, u8", n, len), |k| signatures(k, &MinHasher8::new(3), &batch));
            });
        });
        cx.section(&format!("simhash batches, task order {}", mode), "all batches over 3 ids and 3 signatures into two prior states (u64 and u128), batch sizes as above", || {
            let al64: Vec<u64> = vec![0, 0b111, u64::MAX];
            let al128: Vec<u128> = vec![0, 1 << 127 | 1, u128::MAX];
            cx.par(batches(n.min(3)), |b| {
                for pre in [vec![], vec![(0usize, 1usize), (2, 0)]] {
                    let f64s = |v: &[(usize, usize)]| v.iter().map(|x| (x.0, al64[x.1])).collect::<Vec<_>>();
                    let f128s = |v: &[(usize, usize)]| v.iter().map(|x| (x.0, al128[x.1])).collect::<Vec<_>>();
                    cx.case(|| format!("u64 prior {:?} batch {:?}", pre, b), |k| sim_batch::<u64, u32>(k, 4, 3, &f64s(&pre), &f64s(&b), &[0, 1, 7, 15, u64::MAX, u64::MAX - 7], 3));
                    cx.case(|| format!("u128 prior {:?} batch {:?}", pre, b), |k| sim_batch::<u128, String>(k, 5, 2, &f128s(&pre), &f128s(&b), &[0, 1, 1 << 127, 3, u128::MAX], 3));
                }
            });
            cx.par(sizes(cx.q(4100, 16385)), |n| {
                for m in [2usize, 50] {
                    cx.case(
                        || format!("{} pairs, signatures mod {}", n, m),
                        |k| {
                            let b: Vec<(usize, u64)> = (0..n).map(|i| (i, u64::pat(i % m) & 0xFFFF_00FF)).collect();
                            let qs: Vec<u64> = (0..4).map(|i| u64::pat(i) & 0xFFFF_00FF).collect();
                            if n > 300 && m == 2 {
                                // quadratic observation: a few ids are enough
                                return sim_batch::<u64, usize>(k, 4, 3, &[], &b[..300], &qs[..2], 300);
                            }
                            sim_batch::<u64, usize>(k, 4, 3, &[], &b, &qs, n)
                        },
                    );
                    cx.case(
                        || format!("{} pairs over an earlier batch, signatures mod {}", n, m),
                        |k| {
                            let n = if m == 2 { n.min(300) } else { n };
                            let pre: Vec<(usize, u64)> = (0..n).map(|i| (i, u64::pat(i % m) & 0xFFFF_00FF)).collect();
                            let b: Vec<(usize, u64)> = (0..n).map(|i| (n / 2 + i, u64::pat((i + 1) % m) & 0xFFFF_00FF)).collect();
                            let qs: Vec<u64> = (0..3).map(|i| u64::pat(i) & 0xFFFF_00FF).collect();
                            sim_batch::<u64, usize>(k, 4, 3, &pre, &b, &qs, 2 * n)
                        },
                    );
                    cx.case(
                        || format!("{} queries, signatures mod {}", n, m),
                        |k| {
                            let mut ix: SimHashIndex<u64, usize> = SimHashIndex::new(4, 3);
                            for i in 0..20 {
                                ix.insert(i, u64::pat(i % m));
                            }
                            let ids: Vec<usize> = (0..20).collect();
                            k.step(n);
                            k.trace();
                            sim_bulk_queries(&ix, &ids, &(0..n).map(|i| u64::pat(i % 25)).collect())
                        },
                    );
                }
            });
            cx.par(cx.q(vec![65_537, 20_011, 10_001], vec![200_003, 65_537, 32_769, 20_011, 10_001]), |n| {
                cx.case(|| format!("{} different signatures", n), |k| sim_many(k, n));
            });
        });
    }
    rt::set_task_order(0);
    schedule_sections(cx, &al);
}

fn schedule_sections(cx: &Cx, al: &[Vec<u8>]) {
    let cap = cx.q(60_000, 2_000_000);
    let qs22 = all_sigs(2, 4);
    let l22 = Layout { b: 2, r: 2, thr: 0.5 };
    let l41 = Layout { b: 4, r: 1, thr: 0.25 };
    cx.section("schedules of inserts and removals", "bulk inserts and removals with scheduling points at every clone of an id: all small batches, all schedules up to the preemption bound", || {
        let mut items: Vec<(Layout, Vec<(usize, usize)>, B, usize)> = Vec::new();
        let small: Vec<Vec<(usize, usize)>> = seqs_upto(4, 2).into_iter().map(|s| s.into_iter().map(|x| (x / 2, x % 2)).collect()).collect();
        for b in &small {
            for pre in [vec![], vec![(0usize, 0usize)], vec![(0, 1), (1, 0)]] {
                items.push((l22, pre.clone(), B::Ins(b.clone()), cx.q(3, 4)));
                items.push((l22, pre.clone(), B::Pairs(b.clone()), cx.q(2, 3)));
            }
        }
        for v in seqs_upto(3, 3) {
            for pre in [vec![(0usize, 0usize), (1, 1)], vec![(0, 0), (1, 0)]] {
                items.push((l22, pre, B::Rem(v.clone()), cx.q(3, 4)));
            }
        }
        for b in [vec![(0, 0), (1, 1), (2, 2)], vec![(0, 0), (0, 1), (1, 1)]] {
            items.push((l41, vec![(0, 0)], B::Ins(b.clone()), cx.q(0, 1)));
            items.push((l41, vec![(0, 0), (1, 1)], B::Rem(b.iter().map(|x| x.0).collect()), cx.q(0, 1)));
        }
        cx.par(items, |(l, pre, op, bound)| {
            let key = format!("{:?} prior {:?} {:?} bound {}", l, pre, op, bound);
            cx.case(
                || key.clone(),
                |k| {
                    let ids: Vec<PId> = (0..4).map(PId).collect();
                    let new = || {
                        let mut ix: MinHashIndex<u32, PId, VecContainer<PId>> = mk(l, true);
                        for (i, s) in &pre {
                            ix.insert(PId(*i), sig(&al[*s]));
                        }
                        ix
                    };
                    let mut one = new();
                    let er = single(&mut one, al, &op);
                    let e = observe(&one, &ids, &qs22);
                    schedules(cx, k, bound, cap, &key, &|| {
                        let mut ix = new();
                        let r = bulk(&mut ix, &ids, al, &op);
                        let ok = rt::unscheduled(|| {
                            ensure!(r == er, "{:?} returned {:?}, one at a time {:?}", op, r, er);
                            let o = observe(&ix, &ids, &qs22);
                            ensure!(o == e, "after {:?}: {:?}, one at a time {:?}", op, o, e);
                            Ok(())
                        });
                        ((), ok)
                    })
                },
            );
        });
    });
    cx.section("schedules of queries", "bulk queries with scheduling points at every clone of an id: all lists of up to 3 of 3 queries, all schedules up to the preemption bound", || {
        cx.par(seqs_upto(3, 3), |v| {
            for bound in [cx.q(2, 3)] {
                let key = format!("queries {:?} bound {}", v, bound);
                cx.case(
                    || key.clone(),
                    |k| {
                        let ids: Vec<PId> = (0..4).map(PId).collect();
                        let mut ix: MinHashIndex<u32, PId, VecContainer<PId>> = mk(l22, true);
                        for (i, s) in [(0, 0), (1, 1), (2, 1)] {
                            ix.insert(PId(i), sig(&al[s]));
                        }
                        let mut sx: SimHashIndex<u64, PId> = SimHashIndex::new(4, 3);
                        for (i, s) in [(0, 0u64), (1, 7), (2, 7)] {
                            sx.insert(PId(i), s);
                        }
                        let qs: Vec<Vec<u32>> = v.iter().map(|&i| sig(&al[i])).collect();
                        let es: Vec<(BTreeSet<usize>, BTreeSet<(usize, u64)>)> = observe(&ix, &ids, &v.iter().map(|&i| al[i].clone()).collect::<Vec<_>>()).answers;
                        let sq: Vec<u64> = v.iter().map(|&i| [0u64, 7, 31][i]).collect();
                        let se = sobserve(&sx, &ids, &sq).answers;
                        for form in 0..4 {
                            schedules(cx, k, bound, cap, &format!("{} form {}", key, form), &|| {
                                let bad = match form {
                                    0 => {
                                        let r = ix.par_bulk_query(&qs);
                                        let g: Vec<BTreeSet<usize>> = r.iter().map(|s| s.iter().map(|i| i.0).collect()).collect();
                                        (g != es.iter().map(|e| e.0.clone()).collect::<Vec<_>>()).then(|| format!("par_bulk_query = {:?}, one at a time {:?}", g, es))
                                    }
                                    1 => {
                                        let r = ix.par_bulk_query_return_similarity(&qs);
                                        let g: Vec<BTreeSet<(usize, u64)>> = r.iter().map(|s| s.iter().map(|i| (i.0 .0, i.1.to_bits())).collect()).collect();
                                        (g != es.iter().map(|e| e.1.clone()).collect::<Vec<_>>()).then(|| format!("par_bulk_query_return_similarity = {:?}, one at a time {:?}", g, es))
                                    }
                                    2 => {
                                        let r = sx.par_bulk_query(&sq);
                                        let g: Vec<BTreeSet<usize>> = r.iter().map(|s| s.iter().map(|i| i.0).collect()).collect();
                                        (g != se.iter().map(|e| e.0.clone()).collect::<Vec<_>>()).then(|| format!("SimHash par_bulk_query = {:?}, one at a time {:?}", g, se))
                                    }
                                    _ => {
                                        let r = sx.par_bulk_query_return_distance(&sq);
                                        let g: Vec<BTreeSet<(usize, usize)>> = r.iter().map(|s| s.iter().map(|i| (i.0 .0, i.1)).collect()).collect();
                                        (g != se.iter().map(|e| e.1.clone()).collect::<Vec<_>>()).then(|| format!("SimHash par_bulk_query_return_distance = {:?}, one at a time {:?}", g, se))
                                    }
                                };
                                ((), bad.map_or(Ok(()), Err))
                            })?;
                        }
                        Ok(())
                    },
                );
            }
        });
    });
    cx.section("schedules of signatures", "bulk signatures with a scheduling point at every hashed token: all batches of up to 3 lists of up to 2 tokens", || {
        let lists: Vec<Vec<u64>> = vec![vec![], vec![1], vec![2, 3]];
        cx.par(seqs_upto(3, 3), |v| {
            let key = format!("batch {:?}", v);
            cx.case(
                || key.clone(),
                |k| {
                    let batch: Vec<Vec<PTok>> = v.iter().map(|&i| lists[i].iter().map(|&t| PTok(t)).collect()).collect();
                    let h = MinHasher32::new(2);
                    let e: Vec<Vec<u32>> = batch.iter().map(|t| h.create_signature(t.iter())).collect();
                    for refs in [false, true] {
                        schedules(cx, k, cx.q(3, 4), cap, &format!("{} refs {}", key, refs), &|| {
                            let g = if refs { h.bulk_create_signature_refs(&batch.iter().collect()) } else { h.bulk_create_signature(&batch) };
                            ((), if g == e { Ok(()) } else { Err(format!("bulk signatures {:?}, one at a time {:?}", g, e)) })
                        })?;
                    }
                    Ok(())
                },
            );
        });
    });
    cx.section("schedules of SimHash inserts", "SimHash bulk inserts with scheduling points at every clone of an id: all batches of up to 2 over 2 ids and 2 signatures", || {
        let small: Vec<Vec<(usize, u64)>> = seqs_upto(4, 2).into_iter().map(|s| s.into_iter().map(|x| (x / 2, [0u64, 7][x % 2])).collect()).collect();
        cx.par(small, |b| {
            for pre in [vec![], vec![(0usize, 7u64)]] {
                let key = format!("prior {:?} batch {:?}", pre, b);
                cx.case(
                    || key.clone(),
                    |k| {
                        let ids: Vec<PId> = (0..2).map(PId).collect();
                        let qs = [0u64, 1, 7, 15];
                        let new = || {
                            // two blocks, distance one: two tables
                            let mut ix: SimHashIndex<u64, PId> = SimHashIndex::new(2, 1);
                            for (i, s) in &pre {
                                ix.insert(PId(*i), *s);
                            }
                            ix
                        };
                        let mut one = new();
                        for (i, s) in &b {
                            one.insert(PId(*i), *s);
                        }
                        let e = sobserve(&one, &ids, &qs);
                        for pairs in [false, true] {
                            schedules(cx, k, cx.q(2, 3), cap, &format!("{} pairs {}", key, pairs), &|| {
                                let mut ix = new();
                                if pairs {
                                    ix.par_bulk_insert_pairs(b.iter().map(|x| (PId(x.0), x.1)).collect());
                                } else {
                                    ix.par_bulk_insert(b.iter().map(|x| PId(x.0)).collect(), b.iter().map(|x| x.1).collect());
                                }
                                let o = rt::unscheduled(|| sobserve(&ix, &ids, &qs));
                                ((), if o == e { Ok(()) } else { Err(format!("after the bulk insert: {:?}, one at a time {:?}", o, e)) })
                            })?;
                        }
                        Ok(())
                    },
                );
            }
        });
    });
}
