//! C18: the string index never loses a document, however it is loaded.
use crate::clust::schedules;
use crate::fw::ensure;
use crate::fw::*;
use gaoya::minhash::{MinHashStringIndex, MinHasher, MinHasher64V1};
use gaoya::text::whitespace_split;
use mcstd::rt;
use std::io::{BufReader, Error, ErrorKind, Read};
use std::path::{Path, PathBuf};

/// A scratch directory that disappears with the run.
struct Scratch(PathBuf);
impl Scratch {
    fn new(cx: &Cx) -> Self {
        let d = std::env::temp_dir().join(format!("mc-c18-{}-{}", std::process::id(), cx.shard));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Delivers `data` in pieces of `chunk` bytes; interrupts now and then; fails for ever from `fail` on.
struct Src<'a> {
    data: &'a [u8],
    at: usize,
    chunk: usize,
    interrupt: bool,
    fail: Option<usize>,
    again: bool,
}
impl Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupt {
            self.again = !self.again;
            if self.again {
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
        }
        let end = self.fail.unwrap_or(self.data.len()).min(self.data.len());
        if self.at >= end && self.fail.is_some() {
            return Err(Error::new(ErrorKind::Other, "the disk is gone"));
        }
        let n = self.chunk.min(end - self.at).min(b.len());
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// The documents in a file: complete lines, and what follows the last line end.
fn docs(data: &[u8]) -> (Vec<String>, Option<String>) {
    let mut full = Vec::new();
    let mut rest = data;
    while let Some(p) = rest.iter().position(|&c| c == b'\n') {
        if let Ok(s) = std::str::from_utf8(&rest[..p]) {
            full.push(s.strip_suffix('\r').unwrap_or(s).to_string());
        }
        rest = &rest[p + 1..];
    }
    let tail = if rest.is_empty() { None } else { std::str::from_utf8(rest).ok().map(|s| s.to_string()) };
    (full, tail)
}
fn all_docs(data: &[u8]) -> Vec<String> {
    let (mut f, t) = docs(data);
    f.extend(t);
    f
}

struct Model {
    b: usize,
    r: usize,
    thr: f64,
    h: MinHasher64V1<fnv::FnvBuildHasher>,
    docs: Vec<String>,
}
impl Model {
    fn new(b: usize, r: usize, thr: f64) -> Self {
        Model { b, r, thr, h: MinHasher64V1::new(b * r), docs: Vec::new() }
    }
    fn sig(&self, t: &str) -> Vec<u64> {
        self.h.create_signature(whitespace_split(t))
    }
    /// size and the answers to the given texts
    fn check(&self, ix: &MinHashStringIndex, texts: &[String]) -> R {
        ensure!(ix.size() == self.docs.len(), "size() = {}, {} documents were loaded: {:?}", ix.size(), self.docs.len(), short(&self.docs));
        let sigs: Vec<Vec<u64>> = self.docs.iter().map(|d| self.sig(d)).collect();
        let n = (self.b * self.r) as f64;
        for t in texts {
            let q = self.sig(t);
            let mut e: Vec<&str> = (0..self.docs.len())
                .filter(|&i| {
                    let s = &sigs[i];
                    (0..self.b).any(|k| s[k * self.r..(k + 1) * self.r] == q[k * self.r..(k + 1) * self.r])
                        && s.iter().zip(&q).filter(|(a, b)| a == b).count() as f64 / n >= self.thr
                })
                .map(|i| self.docs[i].trim_end_matches('\r'))
                .collect();
            let mut g: Vec<&str> = ix.query(t).into_iter().map(|s| s.trim_end_matches('\r')).collect();
            e.sort();
            g.sort();
            ensure!(g == e, "query({:?}) = {:?}, expected {:?}", t, short(&g), short(&e));
        }
        Ok(())
    }
}
fn short<T: std::fmt::Debug>(v: &[T]) -> String {
    let s = format!("{:?}", v);
    if s.len() > 400 {
        format!("{} items {}…", v.len(), s.chars().take(400).collect::<String>())
    } else {
        s
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Insert(&'static str),
    Lines(usize),
    File(usize),
    Par(usize),
    Failing(usize, usize),
    Missing(bool),
    Dir(bool),
}

fn contents() -> Vec<Vec<u8>> {
    vec![
        b"a b c\nd e\n".to_vec(),
        b"a b c\n".to_vec(),
        b"\nd e\r\n\n a\tb  c".to_vec(),
        b"".to_vec(),
        b"x y\nbad \xff line\nd e f\n\xfe".to_vec(),
    ]
}

struct World<'a> {
    ix: MinHashStringIndex,
    m: Model,
    dir: &'a Path,
}
impl World<'_> {
    fn apply(&mut self, op: &Op) -> R {
        let cs = contents();
        let name = |i: usize| self.dir.join(format!("f{}", i)).to_str().unwrap().to_string();
        match op {
            Op::Insert(t) => {
                self.ix.insert(t.to_string());
                self.m.docs.push(t.to_string());
            }
            Op::Lines(i) => {
                self.ix.load_from_lines(&mut BufReader::new(Src { data: &cs[*i], at: 0, chunk: 3, interrupt: true, fail: None, again: false }));
                self.m.docs.extend(all_docs(&cs[*i]));
            }
            Op::File(i) | Op::Par(i) => {
                let d = all_docs(&cs[*i]);
                let r = if let Op::File(_) = op { self.ix.load_from_file(&name(*i)) } else { self.ix.load_from_file_parallel(&name(*i)) };
                match r {
                    Ok(n) => ensure!(n == d.len(), "{:?} reports {} new documents, the file has {}", op, n, d.len()),
                    Err(e) => return Err(format!("{:?} failed: {}", op, e)),
                }
                self.m.docs.extend(d);
            }
            Op::Failing(i, at) => {
                let before = self.ix.size();
                self.ix.load_from_lines(&mut BufReader::new(Src { data: &cs[*i], at: 0, chunk: 4, interrupt: false, fail: Some(*at), again: false }));
                let (full, tail) = docs(&cs[*i][..*at]);
                self.m.docs.extend(full);
                // the line cut off by the error may count or not
                if let Some(t) = tail {
                    if self.ix.size() > self.m.docs.len() && self.ix.size() > before {
                        self.m.docs.push(t);
                    }
                }
            }
            Op::Missing(par) => {
                let f = self.dir.join("no such file").to_str().unwrap().to_string();
                let r = if *par { self.ix.load_from_file_parallel(&f) } else { self.ix.load_from_file(&f) };
                ensure!(r.is_err(), "loading a file that does not exist returned {:?}", r);
            }
            Op::Dir(par) => {
                let f = self.dir.to_str().unwrap().to_string();
                let r = if *par { self.ix.load_from_file_parallel(&f) } else { self.ix.load_from_file(&f) };
                ensure!(!matches!(r, Ok(n) if n > 0), "loading a directory returned {:?}", r);
            }
        }
        Ok(())
    }
}

pub fn c18(cx: &Cx) {
    let scratch = Scratch::new(cx);
    let dir = scratch.0.as_path();
    for (i, c) in contents().iter().enumerate() {
        std::fs::write(dir.join(format!("f{}", i)), c).unwrap();
    }
    let ops: Vec<Op> = vec![
        Op::Insert("a b c"),
        Op::Insert("q"),
        Op::Insert(""),
        Op::Lines(0),
        Op::Lines(4),
        Op::File(0),
        Op::File(2),
        Op::File(4),
        Op::Par(0),
        Op::Par(1),
        Op::Par(2),
        Op::Par(3),
        Op::Par(4),
        Op::Failing(0, 8),
        Op::Missing(true),
        Op::Missing(false),
        Op::Dir(true),
        Op::Dir(false),
    ];
    let mut texts: Vec<String> = contents().iter().flat_map(|c| all_docs(c)).collect();
    texts.extend(["a b c", "q", "", "nowhere", "a b", "d e f g"].map(String::from));
    texts.sort();
    texts.dedup();
    for mode in 0..2 {
        rt::set_task_order(mode);
        cx.section(&format!("load histories, task order {}", mode), "all sequences of inserts, loads from lines and files (serial and parallel), failing readers, missing files and directories; size and queries checked after every operation", || {
            let d = if mode == 0 { cx.q(4, 5) } else { cx.q(3, 4) };
            cx.par(seqs(ops.len(), d), |s| {
                for (b, r, thr) in [(4, 1, 0.3), (2, 2, 0.5)] {
                    let h: Vec<Op> = s.iter().map(|&i| ops[i].clone()).collect();
                    cx.case(
                        || format!("{} bands of {} threshold {}: {:?}", b, r, thr, h),
                        |k| {
                            let mut w = World { ix: MinHashStringIndex::new(b, r, thr), m: Model::new(b, r, thr), dir };
                            for op in &h {
                                w.apply(op)?;
                                k.step(1);
                                w.m.check(&w.ix, &texts)?;
                                k.state(&(b, &w.m.docs));
                            }
                            k.trace();
                            Ok(())
                        },
                    );
                }
            });
        });
    }
    rt::set_task_order(0);
    let alpha: [u8; 5] = [b'a', b' ', b'\n', b'\r', 0xff];
    cx.section("file contents", "all byte strings over {a, space, LF, CR, 0xff} up to a length, through a reader that delivers 1, 2 or all bytes at a time, with small buffers and interruptions", || {
        cx.par(seqs_upto(5, cx.q(6, 9)), |s| {
            let data: Vec<u8> = s.iter().map(|&i| alpha[i]).collect();
            for (chunk, cap, int) in [(1, 1, false), (1, 8192, true), (2, 3, false), (usize::MAX, 8192, false)] {
                cx.case(
                    || format!("{:?} chunk {} buffer {} interruptions {}", String::from_utf8_lossy(&data), chunk, cap, int),
                    |k| {
                        let mut ix = MinHashStringIndex::new(3, 1, 0.3);
                        let mut m = Model::new(3, 1, 0.3);
                        ix.insert("a".into());
                        m.docs.push("a".into());
                        ix.load_from_lines(&mut BufReader::with_capacity(cap, Src { data: &data, at: 0, chunk, interrupt: int, fail: None, again: false }));
                        m.docs.extend(all_docs(&data));
                        ix.insert("a a".into());
                        m.docs.push("a a".into());
                        k.step(3);
                        k.trace();
                        k.state(&m.docs);
                        m.check(&ix, &["a".into(), "".into(), "aa".into()])
                    },
                );
            }
        });
    });
    cx.section("read errors", "all byte strings over {a, LF, 0xff} up to a length, a reader that fails for ever from every position on", || {
        let al = [b'a', b'\n', 0xff];
        cx.par(seqs_upto(3, cx.q(7, 10)), |s| {
            let data: Vec<u8> = s.iter().map(|&i| al[i]).collect();
            for at in 0..=data.len() {
                for chunk in [1, 3] {
                    cx.case(
                        || format!("{:?} fails at {} chunk {}", String::from_utf8_lossy(&data), at, chunk),
                        |k| {
                            let mut ix = MinHashStringIndex::new(3, 1, 0.3);
                            let mut m = Model::new(3, 1, 0.3);
                            ix.insert("b".into());
                            m.docs.push("b".into());
                            ix.load_from_lines(&mut BufReader::with_capacity(2, Src { data: &data, at: 0, chunk, interrupt: false, fail: Some(at), again: false }));
                            let (full, tail) = docs(&data[..at]);
                            m.docs.extend(full);
                            if let (Some(t), true) = (tail, ix.size() == m.docs.len() + 1) {
                                m.docs.push(t);
                            }
                            k.step(2);
                            k.trace();
                            k.state(&(&m.docs, at));
                            m.check(&ix, &["a".into(), "".into(), "b".into()])
                        },
                    );
                }
            }
        });
    });
    cx.section("files, both paths", "all byte strings over {a, space, LF, CR, 0xff} up to a length as a file, loaded serially and in parallel into an empty and a non-empty index, and twice", || {
        cx.par(seqs_upto(5, cx.q(5, 7)), |s| {
            let data: Vec<u8> = s.iter().map(|&i| alpha[i]).collect();
            let f = dir.join(format!("c{}", s.iter().map(|x| x.to_string()).collect::<String>()));
            std::fs::write(&f, &data).unwrap();
            let name = f.to_str().unwrap().to_string();
            for par in [false, true] {
                for pre in 0..2usize {
                    cx.case(
                        || format!("{:?} parallel {} prior documents {}", String::from_utf8_lossy(&data), par, pre),
                        |k| {
                            let mut ix = MinHashStringIndex::new(3, 1, 0.3);
                            let mut m = Model::new(3, 1, 0.3);
                            for _ in 0..pre {
                                ix.insert("a".into());
                                m.docs.push("a".into());
                            }
                            for round in 0..2 {
                                let r = if par != (round == 1) { ix.load_from_file_parallel(&name) } else { ix.load_from_file(&name) };
                                let d = all_docs(&data);
                                match r {
                                    Ok(n) => ensure!(n == d.len(), "load reports {} documents, the file has {}", n, d.len()),
                                    Err(e) => return Err(format!("load failed: {}", e)),
                                }
                                m.docs.extend(d);
                                m.check(&ix, &["a".into(), "".into()])?;
                            }
                            k.step(2);
                            k.trace();
                            k.state(&(&m.docs, pre));
                            Ok(())
                        },
                    );
                }
            }
            let _ = std::fs::remove_file(&f);
        });
    });
    cx.section("special characters", "all strings up to a length over a byte order mark, NUL, control Z, form feed, NEL, the line separator, a combining character, letters and line ends; all load paths and single inserts", || {
        let al = ["a", "\n", "\u{feff}", "\0", "\u{1a}", "\u{c}", "\u{85}", "\u{2028}", "\u{301}", "B,c", "#", "\""];
        cx.par(seqs_upto(al.len(), cx.q(3, 5)), |s| {
            let data: String = s.iter().map(|&i| al[i]).collect();
            let f = dir.join(format!("u{}", s.iter().map(|x| format!("{}.", x)).collect::<String>()));
            std::fs::write(&f, &data).unwrap();
            let name = f.to_str().unwrap().to_string();
            for path in 0..4 {
                cx.case(
                    || format!("{:?} path {}", data, path),
                    |k| {
                        let mut ix = MinHashStringIndex::new(3, 1, 0.3);
                        let mut m = Model::new(3, 1, 0.3);
                        ix.insert("a".into());
                        m.docs.push("a".into());
                        let d = all_docs(data.as_bytes());
                        match path {
                            0 => ix.load_from_lines(&mut BufReader::new(data.as_bytes())),
                            1 => ensure!(ix.load_from_file(&name).map_err(|e| e.to_string())? == d.len(), "wrong number of new documents"),
                            2 => ensure!(ix.load_from_file_parallel(&name).map_err(|e| e.to_string())? == d.len(), "wrong number of new documents"),
                            _ => d.iter().for_each(|t| ix.insert(t.clone())),
                        }
                        let mut texts = d.clone();
                        texts.extend(["a".into(), "".into(), "B c".into()]);
                        m.docs.extend(d);
                        k.step(2 + texts.len());
                        k.trace();
                        k.state(&(&m.docs, path));
                        m.check(&ix, &texts)
                    },
                );
            }
            let _ = std::fs::remove_file(&f);
        });
    });
    cx.section("file sizes", "files of every number of lines up to 40 and around powers of two and ten, lines of up to megabytes and hundreds of thousands of tokens, lengths around the buffer size, with characters of 1 to 4 bytes across the boundary; all load paths", || {
        let mut files: Vec<(String, Vec<u8>)> = sizes(cx.q(10001, 65537)).into_iter().chain(cx.q(vec![65537, 131_073], vec![131_073, 300_001])).map(|n| (format!("{} lines", n), (0..n).map(|i| format!("w{} w{} common\n", i, i / 2)).collect::<String>().into_bytes())).collect();
        for len in [4093usize, 4096, 8189, 8190, 8191, 8192, 8193, 8195, 16384, 65536, 65537] {
            for ch in ["x", "é", "日", "😀"] {
                for lead in 0..ch.len() {
                    let mut s = "y".repeat(lead);
                    while s.len() < len {
                        s.push_str(ch);
                    }
                    files.push((format!("lines of {} bytes of {:?} after {}", s.len(), ch, lead), format!("one\n{}\n{} two\nthree\n", s, s).into_bytes()));
                }
            }
        }
        for (len, ch) in [(131_073usize, "x"), (262_147, "é"), (524_289, "日"), (1_048_577, "x"), (cx.q(2_000_003, 20_000_003), "x")] {
            let s = ch.repeat(len / ch.len() + 1);
            files.push((format!("lines of {} bytes", s.len()), format!("one\n{}\n{} two\nthree\n", s, s).into_bytes()));
        }
        // lines of many tokens, and others that share their beginning or end with them
        for n in [100usize, 256, 1000, 1024, 2049, 4097, 10_001, 32_769, 65_537, cx.q(200_001, 1_000_001)] {
            let t = |from: usize, to: usize| (from..to).map(|i| format!("t{}", i)).collect::<Vec<_>>().join(" ");
            files.push((format!("lines of {} tokens", n), format!("one\n{}\n{}\n{}\n{}\nthree\n", t(0, n), t(0, n / 2), t(n / 2, 2 * n), t(0, n)).into_bytes()));
        }
        let files: Vec<_> = files.into_iter().enumerate().collect();
        cx.par(files, |(num, (what, data))| {
            let f = dir.join(format!("s{}", num));
            std::fs::write(&f, &data).unwrap();
            let name = f.to_str().unwrap().to_string();
            for path in 0..3 {
                cx.case(
                    || format!("{} path {}", what, path),
                    |k| {
                        let mut ix = MinHashStringIndex::new(4, 1, 0.3);
                        let mut m = Model::new(4, 1, 0.3);
                        ix.insert("w1 w0 common".into());
                        m.docs.push("w1 w0 common".into());
                        let d = all_docs(&data);
                        let n = d.len();
                        match path {
                            0 => ix.load_from_lines(&mut BufReader::new(&data[..])),
                            1 => ensure!(ix.load_from_file(&name).map_err(|e| e.to_string())? == n, "wrong number of new documents"),
                            _ => ensure!(ix.load_from_file_parallel(&name).map_err(|e| e.to_string())? == n, "wrong number of new documents"),
                        }
                        let mut texts: Vec<String> = vec!["w1 w0 common".into(), "one".into(), "three".into(), "common".into()];
                        texts.extend(d.last().cloned());
                        texts.extend(d.get(n / 2).cloned());
                        texts.extend(d.get(1).cloned());
                        m.docs.extend(d);
                        ix.insert("last".into());
                        m.docs.push("last".into());
                        texts.push("last".into());
                        k.step(3);
                        k.trace();
                        k.state(&(&what, path));
                        m.check(&ix, &texts)
                    },
                );
            }
            let _ = std::fs::remove_file(&f);
        });
    });
    cx.section("large histories", "several loads, one of them large: all sequences of two (three) loads by every path with at least one large file, then a single insert", || {
        let bigs: Vec<usize> = cx.q(vec![65_537, 10_001, 4097, 1025, 257, 129, 64], vec![131_073, 65_537, 32_769, 16_385, 10_001, 8193, 4097, 2049, 1025, 1000, 513, 257, 129, 128, 100, 64]);
        cx.par(bigs, |n| {
            // lines of different files are different
            let file = |pos: usize, big: bool| -> (String, Vec<u8>) {
                let c = if big { n } else { 3 };
                let data = (0..c).map(|i| format!("f{}w{} f{}w{} f{}x{}\n", pos, i, pos, i / 2, pos, i / 50)).collect::<String>().into_bytes();
                let f = dir.join(format!("h{}.{}.{}", n, pos, big));
                if !f.exists() {
                    std::fs::write(&f, &data).unwrap();
                }
                (f.to_str().unwrap().to_string(), data)
            };
            for hist in seqs_upto(4, cx.q(if n > 5000 { 2 } else { 3 }, 3)) {
                // 0: big serial, 1: big parallel, 2: small serial, 3: small parallel
                if hist.len() < 2 || hist.iter().all(|x| *x > 1) || n > 60_000 && hist.iter().filter(|x| **x < 2).count() > 1 {
                    continue;
                }
                cx.case(|| format!("{} lines, loads {:?} (0: large serial, 1: large parallel, 2: small serial, 3: small parallel)", n, hist), |k| {
                    let mut ix = MinHashStringIndex::new(4, 1, 0.5);
                    let mut m = Model::new(4, 1, 0.5);
                    let mut texts: Vec<String> = Vec::new();
                    for (pos, &x) in hist.iter().enumerate() {
                        let (name, data) = file(pos, x < 2);
                        let d = all_docs(&data);
                        let r = if x % 2 == 0 { ix.load_from_file(&name) } else { ix.load_from_file_parallel(&name) };
                        ensure!(r.as_ref().ok() == Some(&d.len()), "load {} returned {:?}, the file has {} lines", pos, r, d.len());
                        for i in [0, 1, 2, d.len() / 2, d.len() - 1] {
                            texts.push(d[i].clone());
                        }
                        m.docs.extend(d);
                    }
                    ix.insert("last".into());
                    m.docs.push("last".into());
                    texts.push("last".into());
                    k.step(hist.len() + 1 + texts.len());
                    k.trace();
                    k.state(&("large histories", n, &hist));
                    m.check(&ix, &texts)
                });
            }
            for pos in 0..3 {
                for big in [true, false] {
                    let _ = std::fs::remove_file(dir.join(format!("h{}.{}.{}", n, pos, big)));
                }
            }
        });
    });
    cx.section("schedules of the parallel load", "load_from_file_parallel of files with up to 4 lines, all orders and interleavings of the workers up to the preemption bound", || {
        let files: Vec<(usize, PathBuf, Vec<u8>)> = (0..=4usize)
            .map(|n| {
                let d: Vec<u8> = (0..n).map(|i| format!("w{} common\n", i)).collect::<String>().into_bytes();
                let f = dir.join(format!("p{}", n));
                std::fs::write(&f, &d).unwrap();
                (n, f, d)
            })
            .collect();
        cx.par(files, |(n, f, data)| {
            let name = f.to_str().unwrap().to_string();
            let key = format!("{} lines", n);
            cx.case(
                || key.clone(),
                |k| {
                    schedules(cx, k, 2, cx.q(60_000, 1_000_000), &key, &|| {
                        let mut ix = MinHashStringIndex::new(2, 1, 0.3);
                        let r = ix.load_from_file_parallel(&name);
                        let v = rt::unscheduled(|| {
                            let mut m = Model::new(2, 1, 0.3);
                            m.docs.extend(all_docs(&data));
                            ensure!(matches!(r, Ok(x) if x == n), "the load returned {:?}", r);
                            m.check(&ix, &["w0 common".into(), "w2 common".into()])
                        });
                        ((), v)
                    })
                },
            );
        });
    });
}
