//! SimHash: C08 (exact Hamming ball), C09 (query forms, size), C10 (bitwise majorities).
use crate::fw::ensure;
use crate::fw::*;
use crate::mh::IdT;
use gaoya::simhash::{SimHash, SimHashBits, SimHashIndex, SimSipHasher128, SimSipHasher64};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub trait Bits: SimHashBits + Send + Sync + std::hash::Hash + Ord + std::fmt::LowerHex + 'static {
    const NAME: &'static str;
    const L: usize;
    fn bit(i: usize) -> Self;
    fn ones() -> Self;
    fn pat(i: usize) -> Self;
    fn dist(a: Self, b: Self) -> usize;
}
macro_rules! bits { ($($t:ident),*) => { $( impl Bits for $t {
    const NAME: &'static str = stringify!($t);
    const L: usize = $t::BITS as usize;
    fn bit(i: usize) -> Self { 1 << i }
    fn ones() -> Self { $t::MAX }
    fn pat(i: usize) -> Self { let mut x: $t = 0x9E37; for k in 0..40u32 { x = x.rotate_left(13) ^ (0x5851F42Du32 as $t).wrapping_mul((i as $t) + (k as $t) + 1); } x }
    fn dist(a: Self, b: Self) -> usize { let mut x = a ^ b; let mut n = 0; while x != 0 { n += (x & 1) as usize; x >>= 1; } n }
} )* } }
bits!(u64, u128);

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum P {
    C08,
    C09,
}

pub fn check_sim<S: Bits, I: IdT>(ix: &SimHashIndex<S, I>, m: &BTreeMap<usize, S>, ids: &BTreeMap<I, usize>, d: usize, q: S, p: P) -> R {
    let exp: BTreeSet<usize> = m.iter().filter(|(_, s)| S::dist(**s, q) <= d).map(|(i, _)| *i).collect();
    let got: BTreeSet<usize> = ix.query(&q).into_iter().map(|i| ids[i]).collect();
    if p == P::C08 {
        ensure!(got == exp, "query({:x}) with distance {} returns {} ids, expected {}; missing {:?} extra {:?}", q, d, got.len(), exp.len(),
            exp.difference(&got).take(3).map(|i| format!("{}:{:x}", i, m[i])).collect::<Vec<_>>(), got.difference(&exp).take(3).map(|i| format!("{}:{:x}", i, m[i])).collect::<Vec<_>>());
        let own: BTreeSet<usize> = ix.query_owned(&q).iter().map(|i| ids[i]).collect();
        ensure!(own == exp, "query_owned({:x}) with distance {} returns {} ids, expected {}", q, d, own.len(), exp.len());
        let wd: BTreeSet<usize> = ix.query_return_distance(&q).iter().map(|i| ids[&i.0]).collect();
        ensure!(wd == exp, "query_return_distance({:x}) with distance {} returns {} ids, expected {}", q, d, wd.len(), exp.len());
        return Ok(());
    }
    let own: BTreeSet<usize> = ix.query_owned(&q).iter().map(|i| ids[i]).collect();
    ensure!(own == got, "query({:x}) = {:?} but query_owned = {:?}", q, got, own);
    let wd = ix.query_return_distance(&q);
    check_dist(&wd, &got, m, ids, q)?;
    match ix.query_one(&q) {
        None => ensure!(got.is_empty(), "query_one({:x}) = None but query = {:?}", q, got),
        Some((i, dd)) => {
            let k = ids[i];
            ensure!(got.contains(&k), "query_one({:x}) = {} which is not in query = {:?}", q, k, got);
            ensure!(dd == S::dist(m[&k], q), "query_one reports distance {} for {}, exact {}", dd, k, S::dist(m[&k], q));
            let best = got.iter().map(|i| S::dist(m[i], q)).min().unwrap();
            ensure!(dd == best, "query_one has distance {}, but {} is available", dd, best);
        }
    }
    ensure!(ix.size() == m.len(), "size() = {} with {} distinct ids inserted", ix.size(), m.len());
    Ok(())
}
fn check_dist<S: Bits, I: IdT>(wd: &[(I, usize)], got: &BTreeSet<usize>, m: &BTreeMap<usize, S>, ids: &BTreeMap<I, usize>, q: S) -> R {
    let set: BTreeSet<usize> = wd.iter().map(|x| ids[&x.0]).collect();
    ensure!(set == *got && wd.len() == got.len(), "query_return_distance({:x}) names {:?} ({} entries) but query = {:?}", q, set, wd.len(), got);
    for (j, (i, d)) in wd.iter().enumerate() {
        ensure!(*d == S::dist(m[&ids[i]], q), "distance {} reported for {}, exact {}", d, ids[i], S::dist(m[&ids[i]], q));
        ensure!(j == 0 || wd[j - 1].1 <= *d, "distances are not sorted from lowest to highest: {:?}", wd.iter().map(|x| x.1).collect::<Vec<_>>());
    }
    Ok(())
}
pub fn check_sim_bulk<S: Bits, I: IdT>(ix: &SimHashIndex<S, I>, m: &BTreeMap<usize, S>, ids: &BTreeMap<I, usize>, qs: &[S]) -> R {
    let v = qs.to_vec();
    let a = ix.par_bulk_query(&v);
    let b = ix.par_bulk_query_return_distance(&v);
    ensure!(a.len() == v.len() && b.len() == v.len(), "bulk queries returned {} and {} results for {}", a.len(), b.len(), v.len());
    for (j, q) in qs.iter().enumerate() {
        let base: BTreeSet<usize> = ix.query(q).into_iter().map(|i| ids[i]).collect();
        let s: BTreeSet<usize> = a[j].iter().map(|i| ids[i]).collect();
        ensure!(s == base, "par_bulk_query[{}] = {:?} but query = {:?}", j, s, base);
        check_dist(&b[j], &base, m, ids, *q)?;
    }
    Ok(())
}

fn binom(n: usize, k: usize) -> usize {
    let k = k.min(n - k);
    let mut r = 1usize;
    for i in 0..k {
        r = r.saturating_mul(n - i) / (i + 1);
    }
    r
}

fn block_of<S: Bits>(blocks: usize, i: usize) -> (usize, usize) {
    ((i * S::L) / blocks, ((i + 1) * S::L) / blocks)
}

/// Signatures at all distances up to d+2 of a base, with differing bits at block edges, spread and concentrated.
fn ball<S: Bits>(blocks: usize, d: usize, cap: usize) -> Vec<S> {
    let mut out: BTreeSet<S> = BTreeSet::new();
    out.insert(S::zero());
    // single bits everywhere
    for i in 0..S::L {
        out.insert(S::bit(i));
    }
    // block edges: all subsets up to weight 3, and d-1..d+2 if few
    let mut edges: BTreeSet<usize> = BTreeSet::new();
    for b in 0..blocks {
        let (s, e) = block_of::<S>(blocks, b);
        edges.insert(s);
        edges.insert(e - 1);
    }
    let edges: Vec<usize> = edges.into_iter().collect();
    for w in 1..=(d + 2).min(edges.len()) {
        if binom(edges.len(), w) <= cap {
            combos(&edges, w, &mut |c| {
                out.insert(c.iter().fold(S::zero(), |a, &i| a | S::bit(i)));
            });
        }
    }
    for w in [d.saturating_sub(1), d, d + 1, d + 2] {
        if w == 0 {
            continue;
        }
        // one differing bit in each of w chosen blocks (middle of the block)
        let mids: Vec<usize> = (0..blocks).map(|b| { let (s, e) = block_of::<S>(blocks, b); (s + e) / 2 }).collect();
        if w <= blocks && binom(blocks, w) <= cap {
            combos(&mids, w, &mut |c| {
                out.insert(c.iter().fold(S::zero(), |a, &i| a | S::bit(i)));
            });
        }
        // w consecutive bits anywhere, and strided
        if w <= S::L {
            for s in 0..=S::L - w {
                out.insert((s..s + w).fold(S::zero(), |a, i| a | S::bit(i)));
            }
        }
        for stride in [2, 3, 7, S::L / w.max(1)] {
            if stride > 0 && w * stride <= S::L {
                for s in 0..=(S::L - w * stride) {
                    out.insert((0..w).fold(S::zero(), |a, i| a | S::bit(s + i * stride)));
                }
            }
        }
    }
    out.insert(S::ones());
    out.into_iter().collect()
}
fn combos(v: &[usize], w: usize, f: &mut dyn FnMut(&[usize])) {
    fn rec(v: &[usize], w: usize, from: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if cur.len() == w {
            f(cur);
            return;
        }
        for i in from..=v.len() - (w - cur.len()) {
            cur.push(v[i]);
            rec(v, w, i + 1, cur, f);
            cur.pop();
        }
    }
    rec(v, w, 0, &mut Vec::new(), f)
}

fn hamming_ball<S: Bits>(cx: &Cx, p: P, blocks: usize, d: usize, cap: usize) {
    for base in [S::zero(), S::ones(), S::pat(3)] {
        for load in 0..3 {
            if load > 0 && (base != S::zero() || binom(blocks, d) > 60) {
                continue;
            }
            cx.case(
                || format!("{} {} blocks distance {} around {:x}, load {}", S::NAME, blocks, d, base, load),
                |k| {
                    let masks = ball::<S>(blocks, d, cap);
                    let mut ix: SimHashIndex<S, u32> = SimHashIndex::new(blocks, d);
                    let m: BTreeMap<usize, S> = masks.iter().enumerate().map(|(i, x)| (i, *x ^ base)).collect();
                    let ids: BTreeMap<u32, usize> = (0..masks.len()).map(|i| (i as u32, i)).collect();
                    match load {
                        0 => {
                            for (i, s) in &m {
                                ix.insert(*i as u32, *s);
                            }
                        }
                        1 => ix.par_bulk_insert(m.keys().map(|i| *i as u32).collect(), m.values().copied().collect()),
                        _ => ix.par_bulk_insert_pairs(m.iter().map(|(i, s)| (*i as u32, *s)).collect()),
                    }
                    let mut qs = vec![base, base ^ S::bit(0), base ^ S::bit(S::L - 1), base ^ S::bit(S::L / 2), base ^ S::ones()];
                    qs.extend(masks.iter().step_by((masks.len() / 12).max(1)).map(|x| *x ^ base));
                    k.step(masks.len() + qs.len());
                    for q in &qs {
                        check_sim(&ix, &m, &ids, d, *q, p)?;
                        k.state(&(S::NAME, blocks, d, load, base, *q));
                    }
                    if p == P::C09 {
                        check_sim_bulk(&ix, &m, &ids, &qs)?;
                    }
                    k.trace();
                    Ok(())
                },
            );
        }
    }
}

/// Many tables: few stored signatures, queried at exactly d and d + 1 differing bits in every choice of blocks.
fn many_tables<S: Bits>(cx: &Cx, p: P, blocks: usize, d: usize) {
    let place = [0usize, 1, 2];
    for pl in place {
        if pl > 0 && binom(blocks, d) > cx.q(1000, 5000) {
            continue;
        }
        cx.case(
            || format!("{} {} blocks distance {}: every choice of blocks, place {} in the block", S::NAME, blocks, d, pl),
            |k| {
                let mut ix: SimHashIndex<S, u32> = SimHashIndex::new(blocks, d);
                let m: BTreeMap<usize, S> = [S::zero(), S::ones(), S::pat(5)].into_iter().enumerate().collect();
                let ids: BTreeMap<u32, usize> = (0..3).map(|i| (i as u32, i)).collect();
                for (i, s) in &m {
                    ix.insert(*i as u32, *s);
                }
                let at: Vec<usize> = (0..blocks)
                    .map(|b| {
                        let (s, e) = block_of::<S>(blocks, b);
                        [s, e - 1, (s + e) / 2][pl]
                    })
                    .collect();
                let mut qs: Vec<S> = Vec::new();
                combos(&at, d, &mut |c| qs.push(c.iter().fold(S::zero(), |a, &i| a | S::bit(i))));
                let limit = cx.q(200_000_000, 900_000_000) / binom(blocks, d);
                let stride = (qs.len() / limit.max(1)).max(1);
                let mut qs: Vec<S> = qs.into_iter().step_by(stride).collect();
                if stride > 1 {
                    cx.note(format!("{} blocks distance {}: every {}th choice of blocks", blocks, d, stride));
                }
                let over: Vec<S> = qs.iter().step_by(7).filter_map(|q| at.iter().find(|&&i| (*q >> i) & S::one() == S::zero()).map(|&i| *q | S::bit(i))).collect();
                qs.extend(over);
                k.step(qs.len() + 3);
                for q in &qs {
                    check_sim(&ix, &m, &ids, d, *q, p)?;
                    k.state(&(S::NAME, blocks, d, pl, *q));
                }
                k.trace();
                Ok(())
            },
        );
    }
}

#[derive(Clone, Debug)]
enum Op {
    Ins(usize, usize),
    Bulk(Vec<(usize, usize)>),
    Pairs(Vec<(usize, usize)>),
}

fn histories<S: Bits, I: IdT>(cx: &Cx, p: P, blocks: usize, d: usize, depth: usize) {
    // signatures at mutual distances 0..2d+2, differing in different blocks
    let mk = |w: usize, off: usize| (0..w).fold(S::zero(), |a, i| a | S::bit((off + i * (S::L / blocks + 1)) % S::L));
    let al: Vec<S> = vec![S::zero(), mk(d, 0), mk(d + 1, 5), S::ones(), mk(1, S::L - 1)];
    let mut ops: Vec<Op> = Vec::new();
    for i in 0..3 {
        for a in 0..al.len() {
            ops.push(Op::Ins(i, a));
        }
    }
    for b in [vec![], vec![(0, 1), (1, 0)], vec![(0, 0), (0, 2)], vec![(1, 3), (0, 1), (1, 4)], vec![(2, 0), (2, 0)]] {
        ops.push(Op::Bulk(b.clone()));
        ops.push(Op::Pairs(b));
    }
    let mut qs: Vec<S> = al.clone();
    qs.extend([mk(d + 2, 1), S::bit(0), S::bit(S::L - 1), S::ones() ^ S::bit(S::L / 2)]);
    let ids: BTreeMap<I, usize> = (0..3).map(|i| (I::mk(i), i)).collect();
    let heads = seqs(ops.len(), depth.min(2));
    let (ops, al, qs, ids) = (&ops, &al, &qs, &ids);
    cx.par(heads, |head| {
        for tail in seqs(ops.len(), depth.saturating_sub(2)) {
            let h: Vec<usize> = head.iter().chain(&tail).copied().collect();
            cx.case(
                || format!("{}<{}> {} blocks distance {} {:?}", S::NAME, I::NAME, blocks, d, h.iter().map(|&i| &ops[i]).collect::<Vec<_>>()),
                |k| {
                    let mut ix: SimHashIndex<S, I> = SimHashIndex::new(blocks, d);
                    let mut m: BTreeMap<usize, S> = BTreeMap::new();
                    for &o in &h {
                        match &ops[o] {
                            Op::Ins(i, a) => {
                                ix.insert(I::mk(*i), al[*a]);
                                m.insert(*i, al[*a]);
                            }
                            Op::Bulk(v) => {
                                ix.par_bulk_insert(v.iter().map(|x| I::mk(x.0)).collect(), v.iter().map(|x| al[x.1]).collect());
                                m.extend(v.iter().map(|x| (x.0, al[x.1])));
                            }
                            Op::Pairs(v) => {
                                ix.par_bulk_insert_pairs(v.iter().map(|x| (I::mk(x.0), al[x.1])).collect());
                                m.extend(v.iter().map(|x| (x.0, al[x.1])));
                            }
                        }
                    }
                    k.step(h.len() + qs.len());
                    k.state(&(S::NAME, I::NAME, blocks, d, &m));
                    for q in qs {
                        check_sim(&ix, &m, ids, d, *q, p)?;
                    }
                    if p == P::C09 {
                        check_sim_bulk(&ix, &m, ids, qs)?;
                    }
                    k.trace();
                    Ok(())
                },
            );
            if cx.stopped() {
                return;
            }
        }
    });
}

fn many<S: Bits>(cx: &Cx, p: P, ns: Vec<usize>) {
    let items: Vec<(usize, usize, usize)> = ns.iter().flat_map(|&n| (0..3).flat_map(move |load| (0..3).map(move |shape| (n, load, shape)))).collect();
    cx.par(items, |(n, load, shape)| {
        cx.case(
            || format!("{} {} ids load {} shape {}", S::NAME, n, load, shape),
            |k| {
                let (blocks, d) = (6, 3);
                let sg = |i: usize| -> S {
                    match shape {
                        // all equal
                        0 => S::pat(1),
                        // growing distance, wrapping
                        1 => (0..i % 9).fold(S::zero(), |a, b| a | S::bit((b * 11 + i) % S::L)),
                        // scattered
                        _ => S::pat(i),
                    }
                };
                let mut ix: SimHashIndex<S, u32> = SimHashIndex::new(blocks, d);
                let m: BTreeMap<usize, S> = (0..n).map(|i| (i, sg(i))).collect();
                let ids: BTreeMap<u32, usize> = (0..n).map(|i| (i as u32, i)).collect();
                match load {
                    0 => m.iter().for_each(|(i, s)| ix.insert(*i as u32, *s)),
                    1 => {
                        // everything was there before, with another signature
                        ix.par_bulk_insert_pairs(m.iter().map(|(i, s)| (*i as u32, !*s)).collect());
                        ix.par_bulk_insert(m.keys().map(|i| *i as u32).collect(), m.values().copied().collect())
                    }
                    _ => ix.par_bulk_insert_pairs(m.iter().map(|(i, s)| (*i as u32, *s)).collect()),
                }
                let qs = vec![S::zero(), S::pat(1), S::pat(1) ^ S::bit(0) ^ S::bit(17) ^ S::bit(40), S::pat(n / 2), !S::pat(1), S::bit(3)];
                k.step(n + qs.len());
                k.state(&(S::NAME, n, load, shape));
                for q in &qs {
                    check_sim(&ix, &m, &ids, d, *q, p)?;
                }
                if p == P::C09 {
                    check_sim_bulk(&ix, &m, &ids, &qs)?;
                    // bulk queries of n elements
                    let nq = if shape == 2 || n <= 1100 { n } else { 300 };
                    let big: Vec<S> = (0..nq).map(|i| sg(n - 1 - i)).collect();
                    let r = ix.par_bulk_query_return_distance(&big);
                    let r2 = ix.par_bulk_query(&big);
                    ensure!(r.len() == nq && r2.len() == nq, "bulk of {} queries returned {} and {}", nq, r.len(), r2.len());
                    for i in (0..nq).step_by((nq / 40).max(1)) {
                        let got: BTreeSet<usize> = ix.query(&big[i]).into_iter().map(|i| ids[i]).collect();
                        check_dist(&r[i], &got, &m, &ids, big[i])?;
                        ensure!(r2[i].iter().map(|x| ids[x]).collect::<BTreeSet<_>>() == got, "par_bulk_query[{}] of {} differs from query", i, n);
                    }
                }
                k.trace();
                Ok(())
            },
        );
    });
}

pub fn index_property(cx: &Cx, p: P) {
    cx.section("Hamming balls", "all (blocks, distance) with distance <= blocks: stored signatures at every distance up to d+2, differing bits at all positions, block edges, spread and concentrated", || {
        let mut items = Vec::new();
        for blocks in 1..=cx.q(11, 14) {
            for d in 0..=blocks {
                if binom(blocks, d) <= cx.q(250, 1000) {
                    items.push((blocks, d));
                }
            }
        }
        for x in [(12, 2), (16, 1), (16, 2), (16, 15), (32, 1), (64, 1), (63, 1), (10, 9), (12, 11), (12, 10), (5, 0), (64, 0)] {
            items.push(x);
        }
        items.sort_by_key(|x| std::cmp::Reverse(binom(x.0, x.1)));
        items.dedup();
        let cap = if p == P::C08 { cx.q(3000, 20000) } else { cx.q(600, 3000) };
        cx.par(items, |(b, d)| {
            hamming_ball::<u64>(cx, p, b, d, cap);
            hamming_ball::<u128>(cx, p, b, d, cap);
        });
        if cx.thorough {
            cx.par(vec![(128, 1), (127, 1), (20, 2)], |(b, d)| hamming_ball::<u128>(cx, p, b, d, cap));
        }
    });
    cx.section("many tables", "layouts with up to 12870 tables: every choice of d blocks, one differing bit in each, and one bit more", || {
        let mut items = vec![(16, 8), (15, 7), (128, 2), (32, 3), (14, 7), (13, 6), (14, 5), (24, 3), (64, 2), (64, 62), (20, 3), (12, 6), (12, 7), (13, 4), (12, 5), (11, 5), (10, 5), (32, 2), (48, 2), (30, 28), (20, 18), (17, 2),
            (64, 63), (64, 64), (64, 1), (40, 1), (33, 1), (128, 1), (127, 1), (127, 127), (128, 128)];
        if cx.thorough {
            items.extend([(17, 8), (20, 5), (20, 16), (18, 6), (64, 3)]);
        }
        items.sort_by_key(|x| std::cmp::Reverse(binom(x.0, x.1)));
        cx.par(items, |(b, d)| {
            if b <= 64 {
                many_tables::<u64>(cx, p, b, d);
            }
            many_tables::<u128>(cx, p, b, d);
        });
    });
    cx.section("all pairs of bits", "every pair of differing bits for distances 1 and 2", || {
        let mut items = Vec::new();
        for (b, d) in [(4, 1), (6, 2), (5, 2), (3, 2), (2, 1)] {
            for part in 0..8 {
                items.push((b, d, part));
            }
        }
        fn pairs<S: Bits>(cx: &Cx, p: P, b: usize, d: usize, part: usize) {
            cx.case(
                || format!("{} {} blocks distance {} part {}", S::NAME, b, d, part),
                |k| {
                    let mut ix: SimHashIndex<S, u32> = SimHashIndex::new(b, d);
                    let mut m = BTreeMap::new();
                    for i in (part..S::L).step_by(8) {
                        for j in 0..S::L {
                            let s = S::bit(i) | S::bit(j);
                            m.insert(m.len(), s);
                            ix.insert(m.len() as u32 - 1, s);
                        }
                    }
                    let ids: BTreeMap<u32, usize> = m.keys().map(|i| (*i as u32, *i)).collect();
                    let qs = [S::zero(), S::bit(part), S::bit(S::L - 1 - part), S::ones()];
                    for q in qs {
                        check_sim(&ix, &m, &ids, d, q, p)?;
                        k.state(&(S::NAME, b, d, part, q));
                    }
                    k.step(m.len() + qs.len());
                    k.trace();
                    Ok(())
                },
            );
        }
        cx.par(items, |(b, d, part)| {
            pairs::<u64>(cx, p, b, d, part);
            pairs::<u128>(cx, p, b, d, part);
        });
    });
    cx.section("histories", "all histories of single and bulk inserts and re-inserts over 3 ids and 5 signatures", || {
        for dep in 0..=cx.q(if p == P::C08 { 4 } else { 3 }, 4) {
            histories::<u64, u32>(cx, p, 6, 3, dep);
        }
        for dep in 1..=cx.q(2, 3) {
            histories::<u128, String>(cx, p, 6, 4, dep);
            histories::<u64, u64>(cx, p, 4, 1, dep);
            histories::<u128, u8>(cx, p, 5, 0, dep);
            histories::<u64, Arc<String>>(cx, p, 8, 6, dep);
            histories::<u64, (u32, String)>(cx, p, 3, 3, dep);
        }
    });
    cx.section("many ids", "index sizes around powers of two and round numbers, three shapes, three load orders", || {
        let mut ns = sizes(cx.q(4100, 20011));
        ns.extend(cx.q(if p == P::C08 { vec![10001, 20011, 65537] } else { vec![10001, 20011] }, vec![40009, 65537]));
        ns.reverse();
        many::<u64>(cx, p, ns);
        many::<u128>(cx, p, sizes(cx.q(1025, 4100)));
    });
}

// ------------------------------------------------------------------ C10

fn majority<S: Bits>(items: &[(S, usize)], tie: S) -> S {
    let mut r = S::zero();
    for b in 0..S::L {
        let (mut one, mut zero) = (0usize, 0usize);
        for (s, n) in items {
            if (*s >> b) & S::one() == S::one() {
                one += n
            } else {
                zero += n
            }
        }
        if one > zero || (one == zero && (tie >> b) & S::one() == S::one()) {
            r |= S::bit(b);
        }
    }
    r
}

macro_rules! c10_impl {
    ($name:ident, $s:ty, $h:ty, $l:expr) => {
        fn $name(cx: &Cx, k1: u64, k2: u64) {
            type SH = SimHash<$h, $s, $l>;
            let new = || SH::new(<$h>::new(k1, k2));
            let words: Vec<&str> = vec!["a", "b", "", "the", "日本", "x y", "zebra"];
            let h = new();
            let single: Vec<$s> = words.iter().map(|w| h.create_signature(std::iter::once(w))).collect();
            // the tie value: what the empty list gives must hold for every tie
            let tie: $s = h.create_signature(std::iter::empty::<&str>());
            cx.section(&format!("{} multisets keys {} {}", stringify!($s), k1, k2), "all multisets of 5 (6) tokens up to size 6 (8): every bit is the majority of the single tokens' bits; other orders and instances agree", || {
                cx.case(|| "ties".into(), |k| {
                    ensure!(tie == 0 || tie == <$s>::MAX, "the signature of no tokens, {:x}, resolves ties differently per bit", tie);
                    k.step(1); k.trace(); k.state(&"tie");
                    let distinct: BTreeSet<$s> = single.iter().copied().collect();
                    ensure!(distinct.len() == words.len(), "different single tokens share a signature: {:x?}", single);
                    Ok(())
                });
                let kinds = cx.q(5, 6);
                let ms = multisets(kinds, cx.q(6, 8));
                cx.par(ms.chunks(64).map(|c| c.to_vec()).collect(), |chunk| {
                    for c in chunk {
                        cx.case(|| format!("counts {:?}", c), |k| {
                            let h2 = new();
                            let list: Vec<&str> = c.iter().enumerate().flat_map(|(i, &n)| std::iter::repeat(words[i]).take(n)).collect();
                            let e = majority(&c.iter().enumerate().map(|(i, &n)| (single[i], n)).collect::<Vec<_>>(), tie);
                            let g = h2.create_signature(list.iter());
                            ensure!(g == e, "signature of {:?} is {:x}, the majority of its tokens is {:x}", list, g, e);
                            ensure!(h2.create_signature(list.iter().rev()) == e, "reversed tokens of {:?} give another signature", list);
                            let n = list.len();
                            for r in 1..n.min(4) {
                                ensure!(h2.create_signature((0..n).map(|i| list[(i * 5 + r) % n])) == e || n % 5 == 0, "reordered tokens of {:?} give another signature", list);
                                ensure!(h2.create_signature((0..n).map(|i| list[(i + r) % n].to_string())) == e, "rotated owned tokens of {:?} give another signature", list);
                            }
                            k.step(8); k.trace(); k.state(&(stringify!($s), k1, &c));
                            Ok(())
                        });
                    }
                });
            });
            cx.section(&format!("{} orders keys {} {}", stringify!($s), k1, k2), "all orders of up to 5 distinct tokens", || {
                for n in 1..=5usize {
                    let e = majority(&(0..n).map(|i| (single[i], 1)).collect::<Vec<_>>(), tie);
                    for p in perms(n) {
                        cx.case(|| format!("order {:?}", p), |k| {
                            let g = h.create_signature(p.iter().map(|&i| words[i]));
                            ensure!(g == e, "order {:?} gives {:x}, expected {:x}", p, g, e);
                            k.step(1); k.trace(); k.state(&(stringify!($s), &p));
                            Ok(())
                        });
                    }
                }
            });
            cx.section(&format!("{} long documents keys {} {}", stringify!($s), k1, k2), "two or three tokens with repetition counts around counter limits", || {
                let ns: Vec<usize> = vec![1, 2, 31, 63, 64, 100, 127, 128, 129, 255, 256, 257, 300, 500, 1000, 4096].into_iter().chain(if cx.thorough { vec![16383, 32767, 32768, 65535, 65536, 65537, 200000] } else { vec![32767, 32768, 32769, 65536, 70000] }).collect();
                cx.par(ns, |n| {
                    for (x, y) in [(n, 0), (n, n), (n + 1, n), (n, n + 1), (n, 1), (n, n.saturating_sub(1))] {
                        cx.case(|| format!("{} x a, {} x b, 1 x the", x, y), |k| {
                            for third in [0usize, 1] {
                                let e = majority(&[(single[0], x), (single[1], y), (single[3], third)], tie);
                                let it = std::iter::repeat(words[0]).take(x).chain(std::iter::repeat(words[1]).take(y)).chain(std::iter::repeat(words[3]).take(third));
                                let g = h.create_signature(it);
                                ensure!(g == e, "{} x a, {} x b, {} x the: {:x}, majority {:x}", x, y, third, g, e);
                                k.step(1);
                            }
                            k.trace(); k.state(&(stringify!($s), x, y));
                            Ok(())
                        });
                    }
                });
                // documents of n distinct tokens
                cx.par(sizes(cx.q(4100, 16385)), |n| {
                    cx.case(|| format!("{} distinct tokens", n), |k| {
                        let toks: Vec<String> = (0..n).map(|i| format!("token {}", i)).collect();
                        let e = majority(&toks.iter().map(|t| (h.create_signature(std::iter::once(t)), 1)).collect::<Vec<_>>(), tie);
                        ensure!(h.create_signature(toks.iter()) == e, "signature of {} distinct tokens is not the majority", n);
                        ensure!(h.create_signature(toks.iter().rev()) == e, "signature of {} distinct tokens depends on order", n);
                        k.step(n + 2); k.trace(); k.state(&(stringify!($s), "distinct", n));
                        Ok(())
                    });
                });
            });
            cx.section(&format!("{} token types keys {} {}", stringify!($s), k1, k2), "integers, bytes, tuples and chars as tokens", || {
                macro_rules! types { ($t:expr, $nm:expr) => {{
                    let v = $t;
                    for l in seqs_upto(v.len(), 4) {
                        cx.case(|| format!("{} {:?}", $nm, l), |k| {
                            let e = majority(&l.iter().map(|&i| (h.create_signature(std::iter::once(&v[i])), 1)).collect::<Vec<_>>(), tie);
                            let g = h.create_signature(l.iter().map(|&i| &v[i]));
                            ensure!(g == e, "{} {:?}: {:x}, majority {:x}", $nm, l, g, e);
                            k.step(1 + l.len()); k.trace(); k.state(&(stringify!($s), $nm, &l));
                            Ok(())
                        });
                    }
                }} }
                types!([0u64, 1, u64::MAX, 1 << 40], "u64");
                types!([0u8, 1, 255], "u8");
                types!([('a', 1u32), ('a', 2), ('b', 1)], "tuple");
                types!([vec![1u32, 2], vec![], vec![2, 1]], "vec");
            });
            cx.section(&format!("{} centroids keys {} {}", stringify!($s), k1, k2), "all lists of up to 5 (6) of 5 signatures; all counts k of n for n up to 70 and around counter limits", || {
                let al: Vec<$s> = vec![0, <$s>::MAX, <$s as Bits>::pat(1), (1 << ($l - 1)) | 1, <$s>::MAX / 3];
                let strict = |items: &[$s]| -> $s {
                    let mut r: $s = 0;
                    for b in 0..$l { if 2 * items.iter().filter(|s| (**s >> b) & 1 == 1).count() > items.len() { r |= 1 << b; } }
                    r
                };
                cx.par(seqs_upto(al.len(), cx.q(5, 6)).chunks(256).map(|c| c.to_vec()).collect(), |chunk| {
                    for l in chunk {
                        cx.case(|| format!("list {:?}", l), |k| {
                            let items: Vec<$s> = l.iter().map(|&i| al[i]).collect();
                            let g = new().create_centroid(items.iter().copied());
                            ensure!(g == strict(&items), "centroid of {:x?} is {:x}, expected {:x}", items, g, strict(&items));
                            k.step(1); k.trace(); k.state(&(stringify!($s), "centroid", &l));
                            Ok(())
                        });
                    }
                });
                let ns: Vec<usize> = (1..=70).chain([99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4096, 4097]).rev().collect();
                cx.par(ns, |n| {
                    let js: Vec<usize> = if n <= 70 { (0..=n).collect() } else { vec![0, 1, n / 2 - 1, n / 2, n / 2 + 1, n - 1, n] };
                    for j in js {
                        cx.case(|| format!("{} of {}", j, n), |k| {
                            // every bit has its own count: bit b is set in the signatures i with i < j rotated by b
                            let items: Vec<$s> = (0..n).map(|i| { let mut s: $s = 0; for b in 0..$l { if (i + b) % n < j { s |= 1 << b } } s }).collect();
                            let g = h.create_centroid(items.iter().copied());
                            ensure!(g == strict(&items), "bits set in {} of {} signatures: centroid {:x}, expected {:x}", j, n, g, strict(&items));
                            k.step(1); k.trace(); k.state(&(stringify!($s), "count", n, j));
                            Ok(())
                        });
                    }
                });
                for n in [65535usize, 65536, 65537, 131072] {
                    cx.case(|| format!("{} signatures", n), |k| {
                        for j in [n / 2, n / 2 + 1, n] {
                            let g = h.create_centroid((0..n).map(|i| if i < j { 1 as $s } else { 2 }));
                            let e: $s = (if 2 * j > n { 1 } else { 0 }) | (if 2 * (n - j) > n { 2 } else { 0 });
                            ensure!(g == e, "{} of {}: centroid {:x}, expected {:x}", j, n, g, e);
                            k.step(1);
                        }
                        k.trace(); k.state(&(stringify!($s), "huge", n));
                        Ok(())
                    });
                }
            });
        }
    };
}
c10_impl!(c10_64, u64, SimSipHasher64, 64);
c10_impl!(c10_128, u128, SimSipHasher128, 128);

/// Signatures of some token lists.
pub fn digest() -> Vec<(String, String)> {
    let words: Vec<&str> = vec!["a", "b", "", "the", "日本", "x y", "zebra"];
    let mut r = Vec::new();
    for (k1, k2) in [(0u64, 0u64), (1, 2), (u64::MAX, 5)] {
        let h = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(k1, k2));
        let g = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(k1, k2));
        for set in [0usize, 1, 0b101, 0b1110, 0x7f] {
            let l: Vec<&str> = (0..words.len()).filter(|i| set >> i & 1 == 1).map(|i| words[i]).collect();
            r.push((format!("keys {} {} signature of {:?}", k1, k2, l), format!("{:x} {:x}", h.create_signature(l.iter()), g.create_signature(l.iter()))));
        }
    }
    r
}

/// A signature of L bits is made of the lower L bits, decided as in the full-width signature.
fn fewer<const L: usize>(cx: &Cx) {
    let words: Vec<&str> = vec!["a", "b", "", "the", "日本", "x y", "zebra"];
    cx.par((1..=cx.q(4usize, 6)).flat_map(|n| multisets(5, n)).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>(), |c| {
        cx.case(|| format!("{} bits, counts {:?}", L, c), |k| {
            let list: Vec<&str> = c.iter().enumerate().flat_map(|(i, &n)| std::iter::repeat(words[i]).take(n)).collect();
            let m: u64 = if L >= 64 { u64::MAX } else { (1u64 << L) - 1 };
            let full = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(1, 2));
            let low = SimHash::<SimSipHasher64, u64, L>::new(SimSipHasher64::new(1, 2));
            let (a, b) = (full.create_signature(list.iter()), low.create_signature(list.iter()));
            ensure!(a & m == b & m, "the lower {} bits of the signature of {:?} are {:x} at full width, {:x} otherwise", L, list, a & m, b & m);
            let sigs: Vec<u64> = list.iter().map(|w| full.create_signature(std::iter::once(w))).collect();
            let (a, b) = (full.create_centroid(sigs.iter().copied()), low.create_centroid(sigs.iter().copied()));
            ensure!(a & m == b & m, "the lower {} bits of the centroid of {:?} are {:x} at full width, {:x} otherwise", L, list, a & m, b & m);
            let m: u128 = if L >= 128 { u128::MAX } else { (1u128 << L) - 1 };
            let full = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(1, 2));
            let low = SimHash::<SimSipHasher128, u128, L>::new(SimSipHasher128::new(1, 2));
            let (a, b) = (full.create_signature(list.iter()), low.create_signature(list.iter()));
            ensure!(a & m == b & m, "the lower {} bits of the 128 bit signature of {:?} are {:x} at full width, {:x} otherwise", L, list, a & m, b & m);
            let sigs: Vec<u128> = list.iter().map(|w| full.create_signature(std::iter::once(w))).collect();
            let (a, b) = (full.create_centroid(sigs.iter().copied()), low.create_centroid(sigs.iter().copied()));
            ensure!(a & m == b & m, "the lower {} bits of the 128 bit centroid of {:?} are {:x} at full width, {:x} otherwise", L, list, a & m, b & m);
            k.step(8);
            k.state(&(L, &c));
            k.trace();
            Ok(())
        });
    });
}

pub fn c10(cx: &Cx) {
    cx.section("fewer bits", "signatures and centroids of fewer bits than the type has: all multisets of 5 tokens up to a size, several lengths", || {
        fewer::<1>(cx);
        fewer::<7>(cx);
        fewer::<8>(cx);
        fewer::<16>(cx);
        fewer::<31>(cx);
        fewer::<32>(cx);
        fewer::<33>(cx);
        fewer::<48>(cx);
        fewer::<63>(cx);
        fewer::<64>(cx);
    });
    cx.section("other threads and processes", "the signatures of token lists computed in other threads and other processes", || elsewhere(cx, "C10", digest));
    for (a, b) in [(1u64, 2u64), (0, 0), (u64::MAX, 5)] {
        c10_64(cx, a, b);
        c10_128(cx, a, b);
    }
}
