//! C06 (signatures are consistent min-wise functions of the token set) and C07 (they estimate Jaccard similarity).
use crate::fw::ensure;
use crate::fw::*;
use fnv::FnvBuildHasher;
use gaoya::minhash::{MinHasher, MinHasher16, MinHasher32, MinHasher64V1, MinHasher8, Sha1Hasher, SipHasher24BuildHasher};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};

/// Hashes integers to themselves, to reach extreme hash values.
#[derive(Default, Clone)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 << 8) | *x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
pub type IdentBuild = BuildHasherDefault<Ident>;
type ShaBuild = BuildHasherDefault<Sha1Hasher>;

/// A hasher under test together with the way to make it.
trait Mk: Sync {
    type H: MinHasher + Sync + Send;
    const NAME: &'static str;
    fn mk(n: usize, seed: Option<u64>) -> Self::H;
    fn num(h: &Self::H) -> usize;
}
macro_rules! mk {
    ($($m:ident, $h:ident, $b:ty, $name:expr);* $(;)?) => { $(
        struct $m;
        impl Mk for $m {
            type H = $h<$b>;
            const NAME: &'static str = $name;
            fn mk(n: usize, seed: Option<u64>) -> Self::H {
                match seed {
                    None => $h::new_with_hasher(n, <$b>::default()),
                    Some(s) => $h::new_with_hasher_and_seed(n, <$b>::default(), s),
                }
            }
            fn num(h: &Self::H) -> usize { h.num_hashes() }
        } )* };
}
mk! {
    F8, MinHasher8, FnvBuildHasher, "MinHasher8<Fnv>";
    F16, MinHasher16, FnvBuildHasher, "MinHasher16<Fnv>";
    F32, MinHasher32, FnvBuildHasher, "MinHasher32<Fnv>";
    F64, MinHasher64V1, FnvBuildHasher, "MinHasher64V1<Fnv>";
    S8, MinHasher8, SipHasher24BuildHasher, "MinHasher8<Sip>";
    S16, MinHasher16, SipHasher24BuildHasher, "MinHasher16<Sip>";
    S32, MinHasher32, SipHasher24BuildHasher, "MinHasher32<Sip>";
    S64, MinHasher64V1, SipHasher24BuildHasher, "MinHasher64V1<Sip>";
    A32, MinHasher32, ShaBuild, "MinHasher32<Sha1>";
    A64, MinHasher64V1, ShaBuild, "MinHasher64V1<Sha1>";
    I8, MinHasher8, IdentBuild, "MinHasher8<identity>";
    I16, MinHasher16, IdentBuild, "MinHasher16<identity>";
    I32, MinHasher32, IdentBuild, "MinHasher32<identity>";
    I64, MinHasher64V1, IdentBuild, "MinHasher64V1<identity>";
}

type V<M> = <<M as Mk>::H as MinHasher>::V;

fn words() -> Vec<&'static str> {
    vec!["the", "quick", "brown", "", "fox", "日本語", "jumps", "over", "a", "lazy", "dog", "ab", "c", "abc", "The", "\u{1F600}"]
}

/// All subsets of a universe: consistency of the selection at every position.
fn subsets<M: Mk, U: Hash + Clone + Debug + Sync>(cx: &Cx, uni: &[U], n: usize, seed: Option<u64>, tag: &str)
where
    V<M>: Debug,
{
    cx.case(
        || format!("{} {} hashes seed {:?} universe {} {:?}", M::NAME, n, seed, tag, uni),
        |k| {
            let h = M::mk(n, seed);
            let h2 = M::mk(n, seed);
            ensure!(M::num(&h) == n, "num_hashes() = {} of {}", M::num(&h), n);
            let m = uni.len();
            let sets: Vec<Vec<U>> = (0..1usize << m).map(|s| (0..m).filter(|i| s >> i & 1 == 1).map(|i| uni[i].clone()).collect()).collect();
            let sigs: Vec<Vec<V<M>>> = sets.iter().map(|s| h.create_signature(s.iter())).collect();
            k.step(sigs.len());
            for (s, g) in sigs.iter().enumerate() {
                ensure!(g.len() == n, "signature of {:?} has {} hashes, expected {}", sets[s], g.len(), n);
                k.state(&(M::NAME, n, seed, tag, s));
            }
            // another instance, owned tokens, reversed and repeated tokens, batch forms
            let batch = h2.bulk_create_signature(&sets);
            let refs = h2.bulk_create_signature_refs(&sets.iter().collect());
            ensure!(batch.len() == sets.len() && refs.len() == sets.len(), "bulk_create_signature returned {} and {} signatures for {} token lists", batch.len(), refs.len(), sets.len());
            for (s, set) in sets.iter().enumerate() {
                ensure!(h2.create_signature(set.iter()) == sigs[s], "a second hasher instance gives another signature for {:?}", set);
                ensure!(h.create_signature(set.iter().cloned()) == sigs[s], "owned tokens give another signature than borrowed ones for {:?}", set);
                ensure!(h.create_signature(set.iter().rev()) == sigs[s], "reversed tokens give another signature for {:?}", set);
                ensure!(h.create_signature(set.iter().chain(set.iter())) == sigs[s], "repeated tokens give another signature for {:?}", set);
                ensure!(h.create_signature(set.iter().chain(set.iter().take(1)).chain(set.iter().rev().take(2))) == sigs[s], "partly repeated tokens give another signature for {:?}", set);
                ensure!(batch[s] == sigs[s], "bulk_create_signature[{}] differs from create_signature for {:?}", s, set);
                ensure!(refs[s] == sigs[s], "bulk_create_signature_refs[{}] differs from create_signature for {:?}", s, set);
                k.step(7);
            }
            for i in 0..n {
                let val = |t: usize| sigs[1 << t][i];
                // beats(s, t): observed on the pair
                let beats = |s: usize, t: usize| val(s) != val(t) && sigs[(1 << s) | (1 << t)][i] == val(s);
                for s in 1..1usize << m {
                    let v = sigs[s][i];
                    let ok = (0..m).any(|w| s >> w & 1 == 1 && val(w) == v && !(0..m).any(|t| s >> t & 1 == 1 && beats(t, w)));
                    ensure!(ok, "position {} of the signature of {:?} is {:?}: not the token selected by the ordering seen on pairs (values {:?})", i, sets[s], v, (0..m).filter(|t| s >> t & 1 == 1).map(val).collect::<Vec<_>>());
                }
                for s in 0..m {
                    for t in 0..s {
                        let v = sigs[(1 << s) | (1 << t)][i];
                        ensure!(v == val(s) || v == val(t), "position {} of the pair {:?} {:?} is {:?}, neither token's value", i, uni[s], uni[t], v);
                    }
                }
            }
            k.trace();
            Ok(())
        },
    );
}

/// Token sets grown one at a time: each position keeps its value or takes the new token's, as decided by the pair.
fn growth<M: Mk>(cx: &Cx, n: usize, seed: Option<u64>, size: usize)
where
    V<M>: Debug,
{
    cx.case(
        || format!("{} {} hashes seed {:?}, set grown to {} tokens", M::NAME, n, seed, size),
        |k| {
            let h = M::mk(n, seed);
            let toks: Vec<String> = (0..size).map(|i| format!("token{}", i)).collect();
            let single: Vec<Vec<V<M>>> = toks.iter().map(|t| h.create_signature(std::iter::once(t))).collect();
            // per position: the tokens that may be the selected one (more than one only if their values coincide)
            let mut winner: Vec<Vec<usize>> = vec![vec![0]; n];
            let check_every = if size <= 70 { 1 } else { size / 23 };
            for j in 1..size {
                let mut tmp: Vec<(usize, Vec<V<M>>)> = Vec::new();
                let full = if j % check_every == 0 || j == size - 1 { Some(h.create_signature(toks[..=j].iter())) } else { None };
                for i in 0..n {
                    let mut next = Vec::with_capacity(1);
                    let mut lost = false;
                    for &w in &winner[i] {
                        let at = match tmp.iter().position(|x| x.0 == w) {
                            Some(a) => a,
                            None => {
                                tmp.push((w, h.create_signature([&toks[w], &toks[j]].into_iter())));
                                k.step(1);
                                tmp.len() - 1
                            }
                        };
                        let v = tmp[at].1[i];
                        ensure!(v == single[w][i] || v == single[j][i], "position {}: the pair ({}, {}) has a value of neither token", i, w, j);
                        if v == single[w][i] {
                            next.push(w);
                            lost |= v != single[j][i];
                        }
                    }
                    if !lost {
                        next.push(j);
                    }
                    winner[i] = next;
                    if let Some(f) = &full {
                        let e = winner[i][0];
                        ensure!(f[i] == single[e][i], "position {} of the set of the first {} tokens is {:?}; the ordering on pairs selects token {} with {:?}", i, j + 1, f[i], e, single[e][i]);
                    }
                }
                k.state(&(M::NAME, n, seed, size, j));
            }
            if size > 0 {
                let full = h.create_signature(toks.iter());
                let rev = h.create_signature(toks.iter().rev());
                let rot = h.create_signature(toks[size / 2..].iter().chain(toks[..size / 2].iter()));
                let dup = h.create_signature(toks.iter().flat_map(|t| [t, t, &toks[0]]));
                let twice = h.create_signature(toks.iter().chain(toks.iter()));
                let riffle = h.create_signature((0..size).map(|i| &toks[if i % 2 == 0 { i / 2 } else { size - 1 - i / 2 }]));
                ensure!(full == rev && full == rot && full == dup && full == twice && full == riffle, "the signature of {} tokens depends on their order or repetition", size);
                let b = h.bulk_create_signature(&vec![toks.clone(), vec![], toks.clone()]);
                ensure!(b.len() == 3 && b[0] == full && b[2] == full && b[1] == h.create_signature(std::iter::empty::<&str>()), "batch signatures of {} tokens differ", size);
                let (none, half) = (vec![], toks[..size / 2].to_vec());
                let b = h.bulk_create_signature_refs(&vec![&toks, &none, &half, &toks]);
                ensure!(b.len() == 4 && b[0] == full && b[3] == full && b[1] == h.create_signature(std::iter::empty::<&str>()) && b[2] == h.create_signature(half.iter()), "batch signatures (refs) of {} tokens differ", size);
                k.step(9);
            }
            k.trace();
            Ok(())
        },
    );
}

pub fn c06(cx: &Cx) {
    macro_rules! every { ($f:ident, [$($m:ident),*], $a:expr, $b:expr, $c:expr, $d:expr) => { $( $f::<$m, _>(cx, $a, $b, $c, $d); )* } }
    macro_rules! grow { ([$($m:ident),*], $a:expr, $b:expr, $c:expr) => { $( growth::<$m>(cx, $a, $b, $c); )* } }
    let w = words();
    cx.section("number of hashes", "every number of hashes in range, all subsets of a word universe", || {
        let ns: Vec<usize> = (0..=cx.q(40, 130)).chain([50, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 150, 200, 255, 256, 257, 300, 399, 400, 500, 511, 512, 513, 600, 768, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097]).rev().collect();
        cx.par(ns, |n| {
            every!(subsets, [F8, F16, F32, F64], &w[..3], n, None, "words");
        });
    });
    cx.section("subsets", "all subsets of universes of 8 (10) tokens for every hasher and hash builder, several seeds", || {
        let m = cx.q(8, 10);
        let seeds = [None, Some(0u64), Some(1), Some(2), Some(3), Some(42), Some(1 << 32), Some(u64::MAX)];
        cx.par(seeds.to_vec(), |seed| {
            for n in [1usize, 2, 8, 100] {
                every!(subsets, [F8, F16, F32, F64, S8, S16, S32, S64, A32, A64], &w[..m], n, seed, "words");
            }
            every!(subsets, [F8, F16, F32, F64], &w[16 - m..], 64, seed, "more words");
            let nums: Vec<u64> = (0..m as u64).collect();
            every!(subsets, [F8, F16, F32, F64, S64], &nums, 64, seed, "integers");
            let bytes: Vec<u8> = vec![0, 1, 2, 127, 128, 255];
            every!(subsets, [F8, F16, F32, F64, A32], &bytes, 64, seed, "bytes");
            let tup: Vec<(u32, String)> = (0..m as u32).map(|i| (i % 2, format!("{}", i / 2))).collect();
            every!(subsets, [F32, F64], &tup, 33, seed, "tuples");
            let chars: Vec<char> = "aé日\u{1F600}zA".chars().collect();
            every!(subsets, [F8, F16, F32, F64], &chars, 33, seed, "chars");
        });
    });
    cx.section("extreme token hashes", "universes of tokens whose hashes are at the edges of 31, 32, 61 and 64 bits", || {
        let p31 = (1u64 << 31) - 1;
        let p61 = (1u64 << 61) - 1;
        let unis: Vec<Vec<u64>> = vec![
            vec![0, 1, p31 - 1, p31, p31 + 1, u32::MAX as u64],
            vec![0, 1 << 31, 1 << 32, (1 << 32) - 1, (1 << 32) + 1, u64::MAX],
            vec![p61 - 1, p61, p61 + 1, 1 << 61, 1 << 63, u64::MAX],
            vec![u64::MAX, u64::MAX - 1, u64::MAX >> 1, 3, 2, 1],
        ];
        cx.par(unis, |u| {
            for n in [1usize, 16, 128] {
                for seed in [None, Some(7)] {
                    every!(subsets, [I8, I16, I32, I64], &u, n, seed, "hash values");
                }
            }
        });
    });
    cx.section("growing sets", "token sets of many sizes grown one token at a time", || {
        let mut sz = cx.q(sizes(10001), sizes(65537));
        if !cx.thorough {
            sz.push(65537);
        }
        sz.reverse();
        cx.par(sz, |s| {
            grow!([F8, F16, F32, F64], if s > 1100 { 4 } else { 16 }, None, s);
            if cx.thorough || s % 7 == 0 || s > 500 {
                grow!([S8, S16, S32, S64, A64], if s > 1100 { 3 } else { 8 }, Some(5), s);
            }
        });
    });
    cx.section("batches", "batches of every size in range, lists of 0 to 7 tokens: each place holds the signature of its own list", || {
        let mut items: Vec<usize> = sizes(cx.q(4100, 65537));
        items.reverse();
        macro_rules! batch { ($($m:ident),*) => { $(
            cx.par(items.clone(), |n| cx.case(|| format!("{} batch of {}", $m::NAME, n), |k| {
                let h = $m::mk(5, None);
                let lists: Vec<Vec<String>> = (0..n).map(|i| (0..i % 8).map(|j| format!("w{}", (i + j * j) % 97)).collect()).collect();
                let a = h.bulk_create_signature(&lists);
                let b = h.bulk_create_signature_refs(&lists.iter().collect());
                ensure!(a.len() == n && b.len() == n, "{} and {} signatures for a batch of {}", a.len(), b.len(), n);
                for i in 0..n {
                    let e = h.create_signature(lists[i].iter());
                    ensure!(a[i] == e, "bulk_create_signature: place {} of {} does not hold the signature of its own list", i, n);
                    ensure!(b[i] == e, "bulk_create_signature_refs: place {} of {} does not hold the signature of its own list", i, n);
                }
                k.step(n + 2); k.state(&($m::NAME, n)); k.trace();
                Ok(())
            }));
        )* } }
        batch!(F8, F16, F32, F64);
    });
    cx.section("orders", "all orders of up to 5 (6) tokens, all repetition patterns of short lists", || {
        let m = cx.q(5, 6);
        macro_rules! orders { ($($m:ident),*) => { $(
            cx.case(|| format!("{} permutations", $m::NAME), |k| {
                let h = $m::mk(48, None);
                for s in 1..=m {
                    let base = h.create_signature(w[..s].iter());
                    for p in perms(s) {
                        let g = h.create_signature(p.iter().map(|&i| w[i]));
                        ensure!(g == base, "order {:?} of {:?} gives another signature", p, &w[..s]);
                        k.step(1);
                        k.state(&($m::NAME, s, &p));
                    }
                }
                for l in seqs_upto(3, 5) {
                    let set: BTreeSet<usize> = l.iter().copied().collect();
                    let g = h.create_signature(l.iter().map(|&i| w[i]));
                    ensure!(g == h.create_signature(set.iter().map(|&i| w[i])), "token list {:?} gives another signature than its set", l);
                    k.step(2);
                    k.state(&($m::NAME, "list", &l));
                }
                // compute_similarity is the similarity of the two signatures
                for a in 0..8usize { for b in 0..8usize {
                    let sa: Vec<&str> = (0..3).filter(|i| a >> i & 1 == 1).map(|i| w[i]).collect();
                    let sb: Vec<&str> = (0..3).filter(|i| b >> i & 1 == 1).map(|i| w[i]).collect();
                    let s = h.compute_similarity(sa.iter(), sb.iter());
                    let (x, y) = (h.create_signature(sa.iter()), h.create_signature(sb.iter()));
                    let e = x.iter().zip(&y).filter(|(p, q)| p == q).count() as f64 / 48.0;
                    ensure!((s - e).abs() < 1e-12, "compute_similarity({:?}, {:?}) = {}, signatures agree on {}", sa, sb, s, e);
                    k.step(3);
                }}
                k.trace();
                Ok(())
            });
        )* } }
        orders!(F8, F16, F32, F64, S8, S16, S32, S64, A32, A64);
    });
    cx.section("other threads and processes", "the signatures of token lists under every hasher, computed in other threads and other processes", || elsewhere(cx, "C06", digest));
    cx.section("string types", "equal text gives equal signatures whether borrowed, owned or boxed; default constructors match", || {
        cx.case(
            || "str / String / Box<str>".into(),
            |k| {
                let texts = words();
                let owned: Vec<String> = texts.iter().map(|s| s.to_string()).collect();
                let boxed: Vec<Box<str>> = texts.iter().map(|s| s.to_string().into_boxed_str()).collect();
                macro_rules! t { ($h:expr, $m:ident) => {{
                    let h = $h;
                    let a = h.create_signature(texts.iter());
                    ensure!(a == h.create_signature(owned.iter()) && a == h.create_signature(boxed.iter()), "{}: string types differ", $m::NAME);
                    ensure!(a == $m::mk(64, None).create_signature(texts.iter()), "{}: new and new_with_hasher differ", $m::NAME);
                    k.step(4); k.state(&$m::NAME);
                }} }
                t!(MinHasher8::new(64), F8);
                t!(MinHasher16::new(64), F16);
                t!(MinHasher32::new(64), F32);
                t!(MinHasher64V1::new(64), F64);
                let h = MinHasher64V1::new(64);
                ensure!(h.clone().create_signature(texts.iter()) == h.create_signature(texts.iter()), "a clone of the hasher differs");
                k.trace();
                Ok(())
            },
        );
    });
}

/// Signatures of some token lists under every hasher.
pub fn digest() -> Vec<(String, String)> {
    let w = words();
    let mut r = Vec::new();
    macro_rules! d { ($($m:ident),*) => { $(
        for seed in [None, Some(0u64), Some(5)] {
            let h = $m::mk(9, seed);
            for set in [0usize, 1, 0b10010, 0b1011, 0xffff] {
                let l: Vec<&str> = (0..w.len()).filter(|i| set >> i & 1 == 1).map(|i| w[i]).collect();
                r.push((format!("{} seed {:?} signature of {:?}", $m::NAME, seed, l), format!("{:?}", h.create_signature(l.iter()))));
            }
        }
    )* } }
    d!(F8, F16, F32, F64, S8, S16, S32, S64, A32, A64);
    r
}

// ------------------------------------------------------------------ C07

struct Tol {
    /// largest deviation of a pair, in units of 1/(2 sqrt k)
    pair: f64,
    /// largest mean deviation over all pairs, in units of 1/sqrt k
    mean: f64,
    /// collision rate of the hash width
    coll: f64,
}

fn estimate<M: Mk, U: Hash + Clone + Debug>(cx: &Cx, uni: &[U], kk: usize, seed: Option<u64>, tag: &str, t: &Tol)
where
    V<M>: Debug,
{
    cx.case(
        || format!("{} {} hashes seed {:?} universe {}", M::NAME, kk, seed, tag),
        |k| {
            let h = M::mk(kk, seed);
            let m = uni.len();
            let sigs: Vec<Vec<V<M>>> = (0..1usize << m).map(|s| h.create_signature((0..m).filter(|i| s >> i & 1 == 1).map(|i| &uni[i]))).collect();
            k.step(sigs.len());
            let sigma = 1.0 / (2.0 * (kk as f64).sqrt());
            let (mut worst, mut sum, mut cnt) = ((0.0f64, 0, 0), 0.0, 0usize);
            for a in 1..1usize << m {
                for b in a..1usize << m {
                    let inter = (a & b).count_ones() as f64;
                    let j = inter / (a | b).count_ones() as f64;
                    let est = sigs[a].iter().zip(&sigs[b]).filter(|(x, y)| x == y).count() as f64 / kk as f64;
                    if a == b {
                        ensure!(est == 1.0, "a set compared with itself scores {}", est);
                        continue;
                    }
                    let expect = j + (1.0 - j) * t.coll;
                    let d = est - expect;
                    sum += d;
                    cnt += 1;
                    if d.abs() > worst.0 {
                        worst = (d.abs(), a, b);
                    }
                    k.state(&(M::NAME, kk, seed, tag, a, b));
                }
            }
            let mean = sum / cnt as f64;
            if std::env::var("MC_MEASURE").is_ok() {
                eprintln!("MEASURE {} k={} seed={:?} {} worst={:.2} sigma mean={:.3}", M::NAME, kk, seed, tag, worst.0 / sigma, mean * (kk as f64).sqrt());
            }
            k.step(cnt);
            k.trace();
            ensure!(worst.0 <= t.pair * sigma, "sets {:b} and {:b}: the estimate is off by {:.3}, more than {} sigma ({:.3})", worst.1, worst.2, worst.0, t.pair, t.pair * sigma);
            ensure!(mean.abs() <= t.mean / (kk as f64).sqrt(), "mean error over all {} pairs is {:.4}, more than {:.4}", cnt, mean, t.mean / (kk as f64).sqrt());
            Ok(())
        },
    );
}

/// Larger sets with every overlap.
fn overlaps<M: Mk>(cx: &Cx, size: usize, kk: usize, seed: Option<u64>, t: &Tol)
where
    V<M>: Debug,
{
    cx.case(
        || format!("{} {} hashes seed {:?}, sets of {} tokens with every overlap", M::NAME, kk, seed, size),
        |k| {
            let h = M::mk(kk, seed);
            let tok = |i: usize| format!("tok{}", i);
            let a = h.create_signature((0..size).map(tok));
            let sigma = 1.0 / (2.0 * (kk as f64).sqrt());
            let (mut worst, mut sum) = (0.0f64, 0.0);
            let step = if size > 4200 { size / 16 + 1 } else { 1 };
            for o in (0..=size).step_by(step).chain([size]) {
                let b = h.create_signature((size - o..2 * size - o).map(tok));
                let j = o as f64 / (2 * size - o) as f64;
                let est = a.iter().zip(&b).filter(|(x, y)| x == y).count() as f64 / kk as f64;
                let d = est - (j + (1.0 - j) * t.coll);
                worst = worst.max(d.abs());
                sum += d;
                k.state(&(M::NAME, kk, seed, size, o));
                ensure!(d.abs() <= t.pair * sigma, "overlap {} of {}: estimate {}, Jaccard {}", o, size, est, j);
            }
            if std::env::var("MC_MEASURE").is_ok() {
                eprintln!("MEASURE-OV {} k={} seed={:?} size={} worst={:.2} sigma mean={:.3}", M::NAME, kk, seed, size, worst / sigma, sum / (size + 1) as f64 * (kk as f64).sqrt());
            }
            k.step(size + 2);
            k.trace();
            Ok(())
        },
    );
}

pub fn c07(cx: &Cx) {
    // Over all pairs of subsets the mean error vanishes but for coincident hash values. A single pair may be off by
    // more than chance: (a h + b) mod p is not min-wise independent, and FNV gives similar tokens similar hashes.
    let t = |bits: i32| Tol { pair: 7.5, mean: if bits >= 16 { 0.1 } else { 0.4 }, coll: if bits >= 31 { 0.0 } else { 1.0 / 2f64.powi(bits) } };
    let fnv = |bits: i32| Tol { pair: 14.0, ..t(bits) };
    let w = words();
    cx.section("all pairs of subsets", "every pair of subsets of a universe, every hash width and hash builder, several numbers of hashes and seeds", || {
        let m = cx.q(8, 10);
        let mut items: Vec<(usize, Option<u64>)> = Vec::new();
        for kk in [2048, 1024, 1000, 512, 400, 256, 200, 128, 100, 64] {
            for seed in [None, Some(0u64), Some(1), Some(42), Some(u64::MAX)] {
                items.push((kk, seed));
            }
        }
        let nums: Vec<u64> = (0..m as u64).collect();
        let strs: Vec<String> = (0..m).map(|i| format!("word{}", i)).collect();
        cx.par(items, |(kk, seed)| {
            estimate::<F8, _>(cx, &w[..m], kk, seed, "words", &fnv(8));
            estimate::<F16, _>(cx, &w[..m], kk, seed, "words", &fnv(16));
            estimate::<F32, _>(cx, &w[..m], kk, seed, "words", &fnv(32));
            estimate::<F64, _>(cx, &w[..m], kk, seed, "words", &fnv(64));
            estimate::<F8, _>(cx, &strs, kk, seed, "numbered words", &fnv(8));
            estimate::<F16, _>(cx, &strs, kk, seed, "numbered words", &fnv(16));
            estimate::<F32, _>(cx, &strs, kk, seed, "numbered words", &fnv(32));
            estimate::<F64, _>(cx, &strs, kk, seed, "numbered words", &fnv(64));
            estimate::<F32, _>(cx, &nums, kk, seed, "integers", &fnv(32));
            estimate::<F64, _>(cx, &nums, kk, seed, "integers", &fnv(64));
            estimate::<S32, _>(cx, &w[..m], kk, seed, "words", &t(32));
            estimate::<S64, _>(cx, &w[..m], kk, seed, "words", &t(64));
            estimate::<S64, _>(cx, &nums, kk, seed, "integers", &t(64));
            estimate::<S8, _>(cx, &strs, kk, seed, "numbered words", &t(8));
            estimate::<S16, _>(cx, &strs, kk, seed, "numbered words", &t(16));
            estimate::<S32, _>(cx, &strs, kk, seed, "numbered words", &t(32));
            estimate::<S64, _>(cx, &strs, kk, seed, "numbered words", &t(64));
            estimate::<A32, _>(cx, &strs, kk, seed, "numbered words", &t(32));
            estimate::<A64, _>(cx, &strs, kk, seed, "numbered words", &t(64));
        });
    });
    cx.section("overlaps of larger sets", "sets of n tokens with every possible overlap (17 overlaps for more than 4200 tokens)", || {
        let items: Vec<(usize, usize)> = [1usize, 2, 3, 5, 10, 33, 64, 65, 100, 129, 150].into_iter().flat_map(|s| [128usize, 512].into_iter().map(move |k| (s, k))).chain([(300, 256), (513, 128), (1025, 128), (40, 2048), (20, 4096)]).chain(if cx.thorough { vec![(300, 512), (500, 1024), (2049, 256), (4097, 128), (10_001, 128), (20_001, 128)] } else { vec![(4999, 128), (16_385, 128), (70_001, 64)] }).collect();
        cx.par(items, |(s, kk)| {
            for seed in [None, Some(0), Some(9)] {
                overlaps::<F8>(cx, s, kk, seed, &t(8));
                overlaps::<F16>(cx, s, kk, seed, &t(16));
                overlaps::<F32>(cx, s, kk, seed, &t(32));
                overlaps::<F64>(cx, s, kk, seed, &t(64));
                overlaps::<S32>(cx, s, kk, seed, &t(32));
                overlaps::<S64>(cx, s, kk, seed, &t(64));
            }
        });
    });
}

#[allow(dead_code)]
fn _b<B: BuildHasher>(_: B) {}
