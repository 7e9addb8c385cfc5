//! C11 (similarity and distance measures) and C12 (band parameters).
use crate::fw::ensure;
use crate::fw::*;
use crate::mh::{all_sigs, sig, Ty};
use crate::sh::Bits;
use gaoya::minhash::*;
use gaoya::simhash::SimHashBits;
use std::collections::BTreeSet;

fn min_pair<T: Ty>(k: &mut K, a: &[T], b: &[T]) -> R {
    let n = a.len();
    let m = (0..n).filter(|&i| a[i] == b[i]).count();
    let e = m as f64 / n as f64;
    for (x, y) in [(a, b), (b, a)] {
        let s = compute_minhash_similarity(x, y);
        ensure!((s - e).abs() < 1e-12, "compute_minhash_similarity of {} of {} equal hashes is {}", m, n, s);
        ensure!((m < n) == (s < 1.0) && (m > 0) == (s > 0.0), "similarity {} of {} of {} equal hashes", s, m, n);
        let d = compute_minhash_distance(x, y);
        ensure!((d - (1.0 - e)).abs() < 1e-12, "compute_minhash_distance of {} of {} equal hashes is {}", m, n, d);
        k.step(2);
    }
    Ok(())
}
fn thresholded<T: Ty>(k: &mut K, a: &[T], b: &[T], thrs: &[f64]) -> R {
    let n = a.len();
    let m = (0..n).filter(|&i| a[i] == b[i]).count();
    for &t in thrs {
        let e = m as f64 / n as f64 >= t;
        for (x, y) in [(a, b), (b, a)] {
            let g = similarity_greater_than_threshold(x, y, t);
            ensure!(g == e, "similarity_greater_than_threshold of {} of {} equal hashes at threshold {} is {}", m, n, t, g);
            k.step(1);
        }
    }
    Ok(())
}

pub fn c11(cx: &Cx) {
    cx.section("all small signature pairs", "all pairs of signatures of up to 4 hashes over 3 values, every hash type, all thresholds", || {
        macro_rules! types { ($($t:ty),*) => { $(
            for n in 1..=4usize {
                let al = all_sigs(if n == 4 { 3 } else { 4 }, n);
                let mut thrs: Vec<f64> = (0..=n).map(|k| k as f64 / n as f64).collect();
                thrs.extend([0.1, 0.3, 0.34, 0.5, 0.51, 0.74, 0.76, 0.99, 1.0]);
                cx.par(al.clone(), |a| {
                    cx.case(|| format!("{} {:?} against all", <$t as Ty>::NAME, a), |k| {
                        let x = sig::<$t>(&a);
                        for b in &al {
                            let y = sig::<$t>(b);
                            min_pair(k, &x, &y)?;
                            thresholded(k, &x, &y, &thrs)?;
                            k.state(&(<$t as Ty>::NAME, &a, b));
                        }
                        k.trace();
                        Ok(())
                    });
                });
            } )* } }
        types!(u8, u16, u32, u64, i8, i16, i32, i64);
    });
    cx.section("signature lengths", "for every length n and every number k of equal hashes, at the front, at the back and spread; thresholds j/n and multiples of 0.05", || {
        let ns: Vec<usize> = [100003, 65537, 65536, 65535, 32769, 20000, 16385, 10001, 10000, 8193, 8192, 5000, 4097, 4096, 4095, 3000, 2049, 2048, 2047, 2000, 1536, 1500, 1200]
            .into_iter()
            .chain((1001..=1030).rev())
            .chain([1000, 999, 900, 800, 777, 768, 700, 640, 600, 520, 513, 512, 511, 500, 450, 400, 384, 350, 320, 300, 288, 257, 256, 255, 250, 240, 224, 200, 192, 160])
            .chain((1..=cx.q(150, 300)).rev())
            .collect();
        cx.par(ns, |n| {
            for m in 0..=n {
                if n > cx.q(100, 300) && ![0, 1, 2, n / 4, n / 2, n / 2 + 1, n - 3, n - 2, n - 1, n].contains(&m) && m % (n / 16) != 0 {
                    continue;
                }
                cx.case(|| format!("{} of {} equal", m, n), |k| {
                    let mut thrs: Vec<f64> = (0..=n).filter(|j| n <= 40 || j.abs_diff(m) <= 2 || *j == n).map(|j| j as f64 / n as f64).collect();
                    thrs.extend((0..=20).map(|i| i as f64 * 0.05));
                    thrs.extend([m as f64 / n as f64 + 1e-9, (m as f64 / n as f64 - 1e-9).max(0.0)]);
                    for place in 0..4 {
                        let eq = |i: usize| match place { 0 => i < m, 1 => i >= n - m, 2 => (i + n / 2) % n < m, _ => (i * m) / n != ((i + 1) * m) / n };
                        let a: Vec<u32> = (0..n as u32).collect();
                        let b: Vec<u32> = (0..n).map(|i| if eq(i) { i as u32 } else { u32::MAX - i as u32 }).collect();
                        min_pair(k, &a, &b)?;
                        thresholded(k, &a, &b, &thrs)?;
                        let a8: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
                        let b8: Vec<u8> = (0..n).map(|i| if eq(i) { a8[i] } else { a8[i] ^ 0x80 }).collect();
                        min_pair(k, &a8, &b8)?;
                        thresholded(k, &a8, &b8, &thrs)?;
                        k.state(&(n, m, place));
                    }
                    k.trace();
                    Ok(())
                });
            }
        });
    });
    cx.section("Jaccard", "all pairs of token lists of up to 4 tokens over 4 (with repetition), not both empty; larger sets with every overlap", || {
        let toks = ["a", "b", "", "日本"];
        let lists = seqs_upto(4, cx.q(4, 5));
        cx.par(lists.clone(), |a| {
            cx.case(|| format!("{:?} against all", a), |k| {
                for b in &lists {
                    let (x, y): (BTreeSet<_>, BTreeSet<_>) = (a.iter().collect(), b.iter().collect());
                    if x.is_empty() && y.is_empty() {
                        continue;
                    }
                    let e = x.intersection(&y).count() as f64 / x.union(&y).count() as f64;
                    let (ta, tb): (Vec<_>, Vec<_>) = (a.iter().map(|&i| toks[i]).collect(), b.iter().map(|&i| toks[i]).collect());
                    let s = compute_jaccard_similarity(ta.iter(), tb.iter()) as f64;
                    ensure!((s - e).abs() < 1e-6, "compute_jaccard_similarity({:?}, {:?}) = {}, expected {}", a, b, s, e);
                    let d = compute_jaccard_distance(ta.iter(), tb.iter()) as f64;
                    ensure!((d - (1.0 - e)).abs() < 1e-6, "compute_jaccard_distance({:?}, {:?}) = {}, expected {}", a, b, d, 1.0 - e);
                    k.step(2);
                    k.state(&(&a, b));
                }
                k.trace();
                Ok(())
            });
        });
        cx.par(vec![70000usize, 65536, 16385, 10001, 4097, 2049, 1025, 1000, 513], |n| {
            cx.case(|| format!("large sets of {} tokens, some repeated", n), |k| {
                for o in [0, 1, n / 3, n / 2, n - 1, n] {
                    // each set is given with a quarter of its tokens repeated at the end
                    let (a, b) = (0..n as u64, (n - o) as u64..(2 * n - o) as u64);
                    let (ra, rb): (Vec<u64>, Vec<u64>) = (a.clone().chain(a.clone().take(n / 4)).collect(), b.clone().rev().chain(b.clone().take(n / 4)).collect());
                    let e = o as f64 / (2 * n - o) as f64;
                    let s = compute_jaccard_similarity(ra.iter(), rb.iter()) as f64;
                    let d = compute_jaccard_distance(rb.iter(), ra.iter()) as f64;
                    ensure!((s - e).abs() < 1e-6 && (d - (1.0 - e)).abs() < 1e-6, "overlap {} of {}: similarity {}, distance {}, expected {}", o, n, s, d, e);
                    k.step(2);
                    k.state(&(n, o));
                }
                k.trace();
                Ok(())
            });
        });
        cx.par(vec![1usize, 2, 5, 10, 33, 64, 100, 128, 200, 257, 300, 500], |n| {
            cx.case(|| format!("sets of {} and more integers", n), |k| {
                for m in [n, n + 1, 2 * n] {
                    for o in 0..=n {
                        let e = o as f64 / (n + m - o) as f64;
                        let s = compute_jaccard_similarity(0..n as u64, (n - o) as u64..(n - o + m) as u64) as f64;
                        let r = compute_jaccard_similarity((n - o) as u64..(n - o + m) as u64, 0..n as u64) as f64;
                        ensure!((s - e).abs() < 1e-6 && (r - e).abs() < 1e-6, "overlap {} of {} and {}: {} and {}, expected {}", o, n, m, s, r, e);
                        k.step(2);
                        k.state(&(n, m, o));
                    }
                }
                k.trace();
                Ok(())
            });
        });
    });
    cx.section("Hamming", "all pairs over single bits, pairs of bits, extremes and patterns, 64 and 128 bits", || {
        fn ham<S: Bits>(cx: &Cx) {
            let mut v: Vec<S> = vec![S::zero(), S::ones()];
            v.extend((0..S::L).map(S::bit));
            v.extend((0..S::L).map(|i| S::ones() ^ S::bit(i)));
            v.extend((0..S::L - 1).map(|i| S::bit(i) | S::bit(i + 1)));
            v.extend((0..32).map(S::pat));
            v.extend((1..S::L).map(|i| S::ones() >> i));
            let vr = &v;
            cx.par(v.clone(), |a| {
                cx.case(|| format!("{} {:x} against all", S::NAME, a), |k| {
                    ensure!(S::bit_length() == S::L, "bit_length() = {}", S::bit_length());
                    ensure!(SimHashBits::count_ones(a) == S::dist(a, S::zero()), "count_ones({:x}) = {}", a, SimHashBits::count_ones(a));
                    for b in vr {
                        let e = S::dist(a, *b);
                        let d = a.hamming_distance(b);
                        ensure!(d == e && b.hamming_distance(&a) == e, "hamming_distance({:x}, {:x}) = {}, expected {}", a, b, d, e);
                        let an = a.hamming_angle(b);
                        let ea = e as f64 * std::f64::consts::PI / S::L as f64;
                        ensure!((an - ea).abs() < 1e-9, "hamming_angle({:x}, {:x}) = {}, expected {}", a, b, an, ea);
                        k.step(3);
                        k.state(&(S::NAME, a, *b));
                    }
                    k.trace();
                    Ok(())
                });
            });
        }
        ham::<u64>(cx);
        ham::<u128>(cx);
    });
}

pub fn c12(cx: &Cx) {
    let run = |ns: Vec<usize>, ss: Vec<f64>, ps: Vec<f64>| {
        let (ss, ps) = (&ss, &ps);
        cx.par(ns, |n| {
            for &s in ss {
                cx.case(|| format!("similarity {} with {} hashes, all probabilities", s, n), |k| {
                    for &p in ps.iter().chain(std::iter::once(&-1.0)) {
                        // -1 stands for the default of 0.99
                        let (b, r) = if p < 0.0 { calculate_minhash_params(s, n) } else { calculate_minhash_params_with_proba(s, n, p) };
                        let p = if p < 0.0 { 0.99 } else { p };
                        k.step(1);
                        k.state(&(n, s.to_bits(), p.to_bits()));
                        ensure!(r >= 1 && b >= 1, "s {} n {} p {}: {} bands of width {}", s, n, p, b, r);
                        ensure!(b * r <= n, "s {} n {} p {}: {} bands of width {} use more than {} hashes", s, n, p, b, r, n);
                        ensure!(b == n / r, "s {} n {} p {}: {} bands of width {}, expected {} bands", s, n, p, b, r, n / r);
                        let proba = |r: usize| { let b = (n / r) as f64; 1.0 - (1.0 - s.powf(r as f64)).powf(b) };
                        let near = |r: usize| (proba(r) - p).abs() < 1e-9;
                        ensure!(r == 1 || proba(r) > p || near(r), "s {} n {} p {}: {} bands of width {} reach only {}", s, n, p, b, r, proba(r));
                        // every step on the way met the probability, and the next one does not (or only one band is left)
                        for w in 2..=r {
                            ensure!(proba(w) > p || near(w), "s {} n {} p {}: width {} chosen although width {} only reaches {}", s, n, p, r, w, proba(w));
                        }
                        ensure!(b == 1 || r + 1 > n || proba(r + 1) <= p || near(r + 1), "s {} n {} p {}: width {} although width {} still reaches {}", s, n, p, r, r + 1, proba(r + 1));
                    }
                    k.trace();
                    Ok(())
                });
            }
        });
    };
    cx.section("parameter grid", "all n up to a bound, similarities in steps of 0.01 (0.005), probabilities from 0.01 to 0.9999", || {
        let step = cx.q(0.01, 0.0025);
        let ss: Vec<f64> = (1..).map(|i| i as f64 * step).take_while(|x| *x < 0.9999).collect();
        let ps = vec![0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.95, 0.99, 0.999, 0.9999];
        run((1..=cx.q(300, 1100)).rev().collect(), ss, ps);
        let few = vec![0.01, 0.1, 0.2, 0.3, 0.4, 0.5, 0.55, 0.6, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 0.95, 0.99];
        run((301..=1100).rev().chain([2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10000, 20011, 65536, 65537]).rev().collect(), few, vec![0.01, 0.5, 0.8, 0.9, 0.95, 0.99, 0.999]);
        run((1..=300).collect(), vec![1e-6, 1e-3, 0.999, 0.999999], vec![1e-6, 1e-3, 0.5, 0.99, 0.999999]);
    });
}
