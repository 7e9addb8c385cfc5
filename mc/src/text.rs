//! C14: tokenisers.
use crate::fw::ensure;
use crate::fw::*;
use gaoya::text::*;
use std::collections::BTreeMap;

/// The specification of word splitting, over characters.
fn words(t: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut cur = String::new();
    for c in t.chars() {
        let sep = matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}') || matches!(c, '!'..='/' | ':'..='@' | '['..='`' | '{'..='~');
        if sep {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
fn bag<T: Ord>(v: impl IntoIterator<Item = T>) -> BTreeMap<T, usize> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(x).or_default() += 1;
    }
    m
}
fn grams(t: &str, from: usize, to: usize) -> BTreeMap<String, usize> {
    let c: Vec<char> = t.chars().collect();
    bag((from..=to).flat_map(|n| c.windows(n).map(|w| w.iter().collect::<String>()).collect::<Vec<_>>()))
}
fn short(t: &str) -> String {
    if t.len() > 60 {
        format!("{}... ({} bytes)", t.chars().take(20).collect::<String>(), t.len())
    } else {
        format!("{:?}", t)
    }
}
/// differences between two bags, shortened
fn diff(g: &BTreeMap<String, usize>, e: &BTreeMap<String, usize>) -> String {
    let mut v = Vec::new();
    for k in g.keys().chain(e.keys()) {
        let (a, b) = (g.get(k).copied().unwrap_or(0), e.get(k).copied().unwrap_or(0));
        if a != b && v.len() < 3 {
            v.push(format!("{} occurs {} times, expected {}", short(k), a, b));
        }
    }
    v.dedup();
    v.join("; ")
}

fn split(k: &mut K, t: &str) -> R {
    let e = words(t);
    let g: Vec<&str> = whitespace_split(t).collect();
    ensure!(g == e, "whitespace_split({}) = {:?}, expected {:?}", short(t), g, e);
    let b: Vec<&str> = whitespace_split_boxed(t).collect();
    ensure!(b == e, "whitespace_split_boxed({}) = {:?}, expected {:?}", short(t), b, e);
    k.step(2);
    Ok(())
}
fn shingle(k: &mut K, t: &str, n: usize) -> R {
    let e = grams(t, n, n);
    let g = bag(shingle_text(t, n).map(String::from));
    ensure!(g == e, "shingle_text({}, {}): {}", short(t), n, diff(&g, &e));
    let g = bag(shingle_text_boxed(t, n).map(String::from));
    ensure!(g == e, "shingle_text_boxed({}, {}): {}", short(t), n, diff(&g, &e));
    k.step(2);
    Ok(())
}
fn range(k: &mut K, t: &str, a: usize, b: usize) -> R {
    let e = grams(t, a, b);
    // a bound on the number of items keeps a runaway iterator from running forever
    let lim = e.values().sum::<usize>() + 10;
    let g = bag(shingle_text_range(t, a, b).take(lim).map(String::from));
    ensure!(g == e, "shingle_text_range({}, {}, {}): {}", short(t), a, b, diff(&g, &e));
    let g2 = bag(MultiShingles::new(t, a, b).take(lim).map(String::from));
    ensure!(g2 == e, "MultiShingles({}, {}, {}): {}", short(t), a, b, diff(&g2, &e));
    // slices of items
    let chars: Vec<char> = t.chars().collect();
    let gs = bag(MultiShingles::new(chars.as_slice(), a, b).take(lim).map(|w: &[char]| w.iter().collect::<String>()));
    ensure!(gs == e, "MultiShingles over a slice of {}, {}, {}: {}", short(t), a, b, diff(&gs, &e));
    k.step(3);
    Ok(())
}
/// Every way to drive an iterator gives the items of `next`, at every position.
fn drive<I: Iterator>(k: &mut K, what: &dyn Fn() -> String, make: &dyn Fn() -> I, lim: usize) -> R
where
    I::Item: PartialEq + std::fmt::Debug + Clone,
{
    let all: Vec<I::Item> = make().take(lim).collect();
    ensure!(all.len() < lim, "{} yields at least {} items", what(), lim);
    let at = |i: usize| {
        let mut it = make();
        (0..i).for_each(|_| { it.next(); });
        it
    };
    for i in 0..=all.len() {
        let rest = &all[i..];
        let (lo, hi) = at(i).size_hint();
        ensure!(lo <= rest.len() && hi.map_or(true, |h| h >= rest.len()), "{}: size_hint at {} is {:?}, {} items follow", what(), i, (lo, hi), rest.len());
        ensure!(at(i).count() == rest.len(), "{}: count at {} differs from the number of items", what(), i);
        ensure!(at(i).last().as_ref() == rest.last(), "{}: last at {} differs", what(), i);
        ensure!(at(i).fold(Vec::new(), |mut v, x| { v.push(x); v }) == rest, "{}: fold at {} differs", what(), i);
        for j in [0usize, 1, 2, rest.len()] {
            let mut c = at(i);
            ensure!(c.nth(j).as_ref() == rest.get(j), "{}: nth({}) at {} differs", what(), j, i);
            ensure!(c.next().as_ref() == rest.get(j + 1), "{}: next after nth({}) at {} differs", what(), j, i);
        }
        k.step(6);
        let n = at(i).next();
        ensure!(n.as_ref() == rest.first(), "{}: item {} is {:?}, collected {:?}", what(), i, n, rest.first());
    }
    Ok(())
}
fn tokens(k: &mut K, toks: &[&str], n: usize) -> R {
    let v: Vec<&str> = toks.to_vec();
    let e = bag(v.windows(n).map(|w| w.concat()));
    let g = bag(shingle_tokens(&v, n));
    ensure!(g == e, "shingle_tokens({} tokens, {}): {}", v.len(), n, diff(&g, &e));
    k.step(1);
    Ok(())
}

fn text(al: &[&str], s: &[usize]) -> String {
    s.iter().map(|&i| al[i]).collect()
}

pub fn c14(cx: &Cx) {
    let all = |al: Vec<&'static str>, depth: usize, f: &(dyn Fn(&mut K, &str) -> R + Sync)| {
        let ss = seqs_upto(al.len(), depth);
        let al = &al;
        cx.par(ss.chunks(512).map(|c| c.to_vec()).collect(), |chunk| {
            for s in chunk {
                let t = text(al, &s);
                cx.case(|| format!("{:?}", t), |k| {
                    k.state(&t);
                    f(k, &t)?;
                    k.trace();
                    Ok(())
                });
            }
        });
    };
    cx.section("word splitting", "all texts up to length 7 (9) over three alphabets of words, separators and non-ASCII characters", || {
        all(vec!["a", "B", " ", ",", "é", "\n"], cx.q(7, 9), &split);
        all(vec!["x", "\u{a0}", "\t", "-", "\u{3000}", "0"], cx.q(5, 7), &split);
        all(vec!["日", "'", "\r", "_", "\u{1F600}"], cx.q(5, 8), &split);
    });
    cx.section("every character", "every ASCII character except VT, and selected others, alone, leading, trailing, between and doubled", || {
        let mut cs: Vec<char> = (0u8..128).filter(|c| *c != 0x0b).map(|c| c as char).collect();
        cs.extend(['\u{80}', '\u{85}', '\u{a0}', '¿', '–', '“', '\u{2003}', '\u{2028}', '\u{3000}', '，', '\u{feff}', '\u{10ffff}', 'ß', 'İ']);
        for c in cs {
            cx.case(|| format!("character {:?}", c), |k| {
                for t in [format!("{c}"), format!("a{c}b"), format!("{c}ab"), format!("ab{c}"), format!("a{c}{c}b"), format!("{c}{c}"), format!("é{c}日{c}x"), format!(" {c} ")] {
                    split(k, &t)?;
                    for n in 1..4 {
                        shingle(k, &t, n)?;
                        range(k, &t, n, n + 1)?;
                    }
                }
                k.state(&c);
                k.trace();
                Ok(())
            });
        }
    });
    cx.section("character n-grams", "all texts up to length 7 (9) over 1, 2, 3 and 4 byte characters, every range 1..=5", || {
        let al = vec!["a", "é", "日", "\u{1F600}"];
        all(al, cx.q(7, 9), &|k, t| {
            for a in 1..=5 {
                shingle(k, t, a)?;
                for b in a..=5 {
                    range(k, t, a, b)?;
                }
            }
            Ok(())
        });
        all(vec!["a", "b", " "], cx.q(8, 11), &|k, t| {
            for a in 1..=8 {
                shingle(k, t, a)?;
            }
            for (a, b) in [(1, 1), (1, 2), (1, 8), (2, 3), (2, 4), (3, 5), (3, 9), (7, 8), (4, 4)] {
                range(k, t, a, b)?;
            }
            Ok(())
        });
    });
    cx.section("iterator methods", "all texts up to length 4 (5) over 1 to 4 byte characters, every range 1..=3: nth, count, last, fold and size hints at every position of the iterators", || {
        all(vec!["a", "é", "日", "\u{1F600}", " "], cx.q(4, 5), &|k, t| {
            let chars: Vec<char> = t.chars().collect();
            for a in 1..=3usize {
                for b in a..=3 {
                    drive(k, &|| format!("MultiShingles({:?}, {}, {})", t, a, b), &|| MultiShingles::new(t, a, b), 40)?;
                    drive(k, &|| format!("MultiShingles(chars of {:?}, {}, {})", t, a, b), &|| MultiShingles::new(chars.as_slice(), a, b), 40)?;
                }
            }
            Ok(())
        });
    });
    cx.section("every Unicode character", "every scalar value, in a word, between words and in n-grams", || {
        let blocks: Vec<u32> = (0..=0x10ffffu32 / 1024).collect();
        cx.par(blocks, |blk| {
            cx.case(|| format!("characters from U+{:04X}", blk * 1024), |k| {
                for c in (blk * 1024..(blk + 1) * 1024).filter_map(char::from_u32).filter(|c| *c != '\u{b}') {
                    let t = format!("a{c}B {c}x");
                    split(k, &t)?;
                    shingle(k, &t, 2)?;
                    range(k, &t, 1, 3)?;
                }
                k.state(&blk);
                k.trace();
                Ok(())
            });
        });
    });
    cx.section("long texts", "texts of many lengths in one, two, three, four byte and mixed characters, wide ranges", || {
        let mut ns = sizes(cx.q(4100, 20000));
        ns.extend(cx.q(vec![10001, 65537], vec![65537]));
        ns.reverse();
        cx.par(ns, |n| {
            for kind in 0..8 {
                cx.case(|| format!("{} characters of kind {}", n, kind), |k| {
                    let t: String = (0..n).map(|i| match kind { 0 => (b'a' + (i % 23) as u8) as char, 1 => char::from_u32(0xe0 + (i % 20) as u32).unwrap(), 2 => char::from_u32(0x4e00 + (i % 97) as u32).unwrap(), 3 => char::from_u32(0x1F600 + (i % 40) as u32).unwrap(), 4 => [' ', ',', '\n', '\t', '-'][i % 5], 5 => if i % 150 < 70 { ' ' } else { 'w' }, 6 => if i * 3 % (i / 40 + 2) == 0 { '.' } else { 'é' }, _ => ['a', 'é', '日', '\u{1F600}', ' ', ',', 'z'][(i * i + i) % 7] }).collect();
                    split(k, &t)?;
                    for m in [1, 2, 3, 4, 5, 7, 8, 10, 16, 17, 31, 64, 100, n / 2 + 1, n.max(1), n + 1, n.saturating_sub(1).max(1)] {
                        if n > 500 && m > 64 && m < n - 3 {
                            continue;
                        }
                        shingle(k, &t, m)?;
                    }
                    for (a, b) in [(1, 1), (1, 3), (2, 5), (3, 4), (n.max(1), n + 2), (n.saturating_sub(2).max(1), n.max(1))] {
                        range(k, &t, a, b)?;
                    }
                    if n <= cx.q(65, 130) {
                        range(k, &t, 1, n + 3)?;
                    }
                    k.state(&(n, kind));
                    k.trace();
                    Ok(())
                });
            }
        });
    });
    cx.section("token n-grams", "all token lists up to length 6 over 4 tokens, every n; long lists", || {
        let toks = ["a", "bc", "日", ""];
        let ls = seqs_upto(4, cx.q(6, 8));
        cx.par(ls.chunks(256).map(|c| c.to_vec()).collect(), |chunk| {
            for l in chunk {
                cx.case(|| format!("tokens {:?}", l), |k| {
                    let v: Vec<&str> = l.iter().map(|&i| toks[i]).collect();
                    for n in 1..=8 {
                        tokens(k, &v, n)?;
                    }
                    k.state(&l);
                    k.trace();
                    Ok(())
                });
            }
        });
        cx.par(sizes(cx.q(4100, 20000)), |n| {
            cx.case(|| format!("{} tokens", n), |k| {
                let s: Vec<String> = (0..n).map(|i| format!("t{}", i % 50)).collect();
                let v: Vec<&str> = s.iter().map(|x| x.as_str()).collect();
                for m in [1, 2, 3, 7, n.max(1), n + 1] {
                    tokens(k, &v, m)?;
                }
                // slices of integers
                let ints: Vec<usize> = (0..n).collect();
                for (a, b) in [(1usize, 1usize), (1, 3), (2, 5), (3, 4)] {
                    let e = bag((a..=b).flat_map(|m| ints.windows(m).map(|w| w.to_vec()).collect::<Vec<_>>()));
                    let g = bag(MultiShingles::new(ints.as_slice(), a, b).take(4 * n + 10).map(|w: &[usize]| w.to_vec()));
                    ensure!(g == e, "MultiShingles over {} integers, {}..={}: {} shingles, expected {}", n, a, b, g.values().sum::<usize>(), e.values().sum::<usize>());
                    k.step(1);
                }
                k.state(&n);
                k.trace();
                Ok(())
            });
        });
    });
}
