//! Clustering: C15 (parallel consistency), C16 (parallel progress), C17 (serial).
use crate::fw::ensure;
use crate::fw::*;
use crate::set_seed;
use gaoya::clustering::clusterer_parallel as cp;
use gaoya::clustering::clustering_serial as cs;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::{HashSetContainer, IdContainer, MinHashIndex, VecContainer};
use mcstd::rt;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    C15,
    C16,
}

/// Relation as adjacency masks: bit j of adj[i] says that j is similar to i.
pub type Adj = Vec<u32>;

/// All symmetric reflexive relations on n points.
fn graphs(n: usize) -> Vec<Adj> {
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..i).map(move |j| (j, i))).collect();
    (0..1usize << pairs.len())
        .map(|m| {
            let mut a: Adj = (0..n).map(|i| 1 << i).collect();
            for (b, &(i, j)) in pairs.iter().enumerate() {
                if m >> b & 1 == 1 {
                    a[i] |= 1 << j;
                    a[j] |= 1 << i;
                }
            }
            a
        })
        .collect()
}
/// One representative per isomorphism class.
fn graph_classes(n: usize) -> Vec<Adj> {
    let ps = perms(n);
    let mut seen = BTreeSet::new();
    graphs(n)
        .into_iter()
        .filter(|g| {
            let canon = ps
                .iter()
                .map(|p| {
                    let mut h = vec![0u32; n];
                    for i in 0..n {
                        for j in 0..n {
                            if g[i] >> j & 1 == 1 {
                                h[p[i]] |= 1 << p[j];
                            }
                        }
                    }
                    h
                })
                .min()
                .unwrap();
            seen.insert(canon)
        })
        .collect()
}

struct G<'a> {
    pts: &'a [cp::ClusterPoint<usize>],
    adj: &'a Adj,
}
impl QueryIndex for G<'_> {
    type Id = cp::ClusterPoint<usize>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        let i = id.id;
        self.pts.iter().filter(|p| self.adj[i] >> p.id & 1 == 1).collect()
    }
}

fn members(c: &cp::Cluster<usize>) -> BTreeSet<usize> {
    c.points.iter().map(|p| p.id).collect()
}

/// The consistency of a result; `adj` as a function so that large sets can use it too.
fn consistent(pts: &[cp::ClusterPoint<usize>], clusters: &[Box<cp::Cluster<usize>>], min: usize, similar: &dyn Fn(usize, usize) -> bool) -> R {
    let mut owner: BTreeMap<usize, usize> = BTreeMap::new();
    let mut ids = BTreeSet::new();
    for (k, c) in clusters.iter().enumerate() {
        ensure!(ids.insert(c.cluster_id), "cluster id {} is used twice", c.cluster_id);
        let m = members(c);
        ensure!(m.len() == c.points.len(), "cluster {} lists a point twice: {:?}", c.cluster_id, c.points.iter().map(|p| p.id).collect::<Vec<_>>());
        ensure!(m.len() >= min, "cluster {} has {} members {:?}, minimum size {}", c.cluster_id, m.len(), m, min);
        ensure!((0..pts.len()).any(|p| m.iter().all(|&x| similar(p, x))), "cluster {} = {:?} has no point all members are similar to", c.cluster_id, m);
        for &x in &m {
            if let Some(o) = owner.insert(x, k) {
                return Err(format!("point {} is in the clusters {} and {}", x, clusters[o].cluster_id, c.cluster_id));
            }
        }
        let me = &**c as *const cp::Cluster<usize> as usize;
        for p in &c.points {
            let q = p.get_cluster() as usize;
            ensure!(q == me, "member {} of cluster {} {}", p.id, c.cluster_id, if q == 0 { "refers to no cluster".into() } else { refers(clusters, q) });
        }
    }
    for p in pts {
        let q = p.get_cluster() as usize;
        if q != 0 && !owner.contains_key(&p.id) {
            return Err(format!("point {} is in no returned cluster but {}", p.id, refers(clusters, q)));
        }
        ensure!(p.is_cluster_assigned() == owner.contains_key(&p.id), "is_cluster_assigned of point {} is wrong", p.id);
    }
    Ok(())
}
fn refers(clusters: &[Box<cp::Cluster<usize>>], q: usize) -> String {
    match clusters.iter().find(|c| &***c as *const cp::Cluster<usize> as usize == q) {
        Some(c) => format!("refers to cluster {}", c.cluster_id),
        None => "refers to a cluster that was not returned".into(),
    }
}

fn partition(clusters: &[Box<cp::Cluster<usize>>]) -> BTreeSet<BTreeSet<usize>> {
    clusters.iter().map(|c| members(c)).collect()
}

#[derive(Clone)]
struct Plan {
    adj: Adj,
    /// points handled by each thread, in order
    chunks: Vec<Vec<usize>>,
    min: usize,
    seed: u64,
}

/// One execution of the concurrent clusterer (called under the scheduler).
fn run_plan(p: P, pl: &Plan) -> (BTreeSet<BTreeSet<usize>>, R) {
    let n = pl.adj.len();
    let pts: Vec<cp::ClusterPoint<usize>> = (0..n).map(|i| cp::ClusterPoint::new(cp::ClusterPointInner::new(i))).collect();
    let cl: cp::Clusterer<u32, usize> = cp::Clusterer::new(pl.min, pl.chunks.len());
    let g = G { pts: &pts, adj: &pl.adj };
    let out: Mutex<Vec<Box<cp::Cluster<usize>>>> = Mutex::new(Vec::new());
    let tasks: Vec<Box<dyn FnOnce() + Send + '_>> = pl
        .chunks
        .iter()
        .map(|c| {
            let (cl, g, out) = (&cl, &g, &out);
            let mut mine: Vec<_> = c.iter().map(|&i| pts[i].clone()).collect();
            Box::new(move || {
                let r = cl.cluster(&mut mine, g);
                out.lock().unwrap_or_else(|p| p.into_inner()).extend(r);
            }) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    rt::run_tasks(tasks);
    let out = out.into_inner().unwrap_or_else(|p| p.into_inner());
    let sim = |a: usize, b: usize| pl.adj[a] >> b & 1 == 1;
    let r = match p {
        P::C15 => consistent(&pts, &out, pl.min, &sim),
        P::C16 => progress(&pl.adj, &pl.chunks, pl.min, &out),
    };
    (partition(&out), r)
}

fn progress(adj: &Adj, chunks: &[Vec<usize>], min: usize, out: &[Box<cp::Cluster<usize>>]) -> R {
    let rich: Vec<usize> = chunks.iter().flatten().copied().filter(|&i| adj[i].count_ones() as usize >= min).collect();
    ensure!(rich.is_empty() || !out.is_empty(), "no cluster was returned although the points {:?} have at least {} similar points", rich, min);
    if chunks.len() == 1 {
        let assigned: BTreeSet<usize> = out.iter().flat_map(|c| members(c)).collect();
        for &i in &chunks[0] {
            let free = (0..adj.len()).filter(|j| adj[i] >> j & 1 == 1 && !assigned.contains(j)).count();
            ensure!(assigned.contains(&i) || free < min, "point {} is unassigned although {} of its similar points are unassigned (minimum {})", i, free, min);
        }
    }
    Ok(())
}

/// Explores all schedules of a body within the bound; the body returns an outcome and a verdict.
pub fn schedules<O: std::hash::Hash + Send>(cx: &Cx, k: &mut K, bound: usize, cap: u64, tag: &str, body: &(dyn Fn() -> (O, R) + Sync)) -> R {
    let verdict: Mutex<Option<String>> = Mutex::new(None);
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let wrapped = || {
        let (o, r) = body();
        let mut h = fnv::FnvHasher::default();
        std::hash::Hash::hash(&(tag, o), &mut h);
        seen.lock().unwrap().insert(std::hash::Hasher::finish(&h));
        if let Err(m) = r {
            *verdict.lock().unwrap() = Some(m.clone());
            panic!("{}", m);
        }
    };
    let more = || {
        cx.beat();
        !cx.late()
    };
    let (st, fail) = rt::explore_with(bound, 20_000, cap, &more, &wrapped);
    k.step((st.steps + st.executions) as usize);
    k.traces += st.executions;
    for s in seen.lock().unwrap().iter() {
        k.state(s);
    }
    if !st.complete && fail.is_none() {
        cx.incomplete.store(true, Ordering::Relaxed);
        cx.note(format!("{}: stopped after {} executions", tag, st.executions));
    }
    match fail {
        None => Ok(()),
        Some(x) => {
            if let Some(rt::Failure::Diverged(m)) = &x.failure {
                // nondeterminism the harness does not own: no verdict from this configuration
                cx.incomplete.store(true, Ordering::Relaxed);
                cx.note(format!("{}: exploration abandoned after {} executions: {}", tag, st.executions, m));
                return Ok(());
            }
            let m = verdict.lock().unwrap().clone();
            let sched: Vec<String> = x.points.iter().enumerate().filter(|(_, p)| p.chosen != 0).map(|(i, p)| format!("{}@{}:{}", p.chosen, i, p.op)).collect();
            Err(format!("schedule {} of this configuration ({} preemptions, decisions {:?}): {}", st.executions, x.preemptions(), sched, m.unwrap_or_else(|| format!("{:?}", x.failure.unwrap()))))
        }
    }
}

fn explore_plans(cx: &Cx, p: P, plans: Vec<Plan>, bound: usize, cap: u64) {
    // the hash seed is process-wide: group by it
    let mut by: BTreeMap<u64, Vec<Plan>> = BTreeMap::new();
    for pl in plans {
        by.entry(pl.seed).or_default().push(pl);
    }
    // few preemptions first, in all configurations
    let rounds: Vec<usize> = if bound >= 2 { vec![1, bound] } else { vec![bound] };
    for (bound, seed, pls) in rounds.iter().flat_map(|b| by.iter().map(move |(s, p): (&u64, &Vec<Plan>)| (*b, *s, p.clone()))) {
        set_seed(seed);
        cx.par(pls, |pl| {
            let key = format!("relation {:?} chunks {:?} min {} hash seed {} bound {}", pl.adj, pl.chunks, pl.min, pl.seed, bound);
            cx.case(|| key.clone(), |k| schedules(cx, k, bound, cap, &key, &|| run_plan(p, &pl)));
        });
    }
    set_seed(cx.seed);
}

/// All ways to deal the points to t threads (threads are interchangeable), every thread gets at least one.
fn deals(n: usize, t: usize) -> Vec<Vec<Vec<usize>>> {
    let mut out = BTreeSet::new();
    for s in seqs(t, n) {
        let mut ch: Vec<Vec<usize>> = vec![vec![]; t];
        for (i, &x) in s.iter().enumerate() {
            ch[x].push(i);
        }
        if ch.iter().all(|c| !c.is_empty()) {
            ch.sort();
            out.insert(ch);
        }
    }
    out.into_iter().collect()
}

/// cluster_par over a real MinHash index; groups[i] is the group of point i (one hash per band).
fn run_par<C: IdContainer<cp::ClusterPoint<usize>>>(p: P, sigs: &[Vec<u32>], b: usize, thr: f64, threads: usize, min: usize) -> (BTreeSet<BTreeSet<usize>>, R) {
    let mut pts: Vec<cp::ClusterPoint<usize>> = (0..sigs.len()).map(|i| cp::ClusterPoint::new(cp::ClusterPointInner::new(i))).collect();
    let mut ix: MinHashIndex<u32, cp::ClusterPoint<usize>, C> = MinHashIndex::new_with_capacity(b, 1, thr, 4, 0.5);
    for (q, s) in pts.iter().zip(sigs) {
        ix.insert(q.clone(), s.clone());
    }
    let cl: cp::Clusterer<u32, usize> = cp::Clusterer::new(min, threads);
    let out = cl.cluster_par(&mut pts, &ix);
    let sim = |x: usize, y: usize| {
        let m = sigs[x].iter().zip(&sigs[y]).filter(|(a, b)| a == b).count();
        m > 0 && m as f64 / b as f64 >= thr
    };
    let left: BTreeSet<usize> = pts.iter().map(|p| p.id).collect();
    let mut r = Ok(());
    if left.len() != sigs.len() || pts.len() != sigs.len() {
        r = Err(format!("the list of points has changed: {:?}", left));
    }
    let r = r.and_then(|_| match p {
        P::C15 => consistent(&pts, &out, min, &sim),
        P::C16 => {
            let n = sigs.len();
            let rich: Vec<usize> = (0..n).filter(|&i| (0..n).filter(|&j| sim(i, j)).count() >= min).collect();
            ensure!(rich.is_empty() || !out.is_empty(), "no cluster was returned although the points {:?} have at least {} similar points", rich, min);
            if threads == 1 {
                let assigned: BTreeSet<usize> = out.iter().flat_map(|c| members(c)).collect();
                for i in 0..n {
                    let free = (0..n).filter(|&j| sim(i, j) && !assigned.contains(&j)).count();
                    ensure!(assigned.contains(&i) || free < min, "point {} is unassigned although {} of its similar points are unassigned (minimum {})", i, free, min);
                }
            }
            Ok(())
        }
    });
    (partition(&out), r)
}

fn parallel(cx: &Cx, p: P) {
    selftest(cx);
    let (b3, b4) = (cx.q(3, 4), cx.q(2, 3));
    let cap = cx.q(60_000, 3_000_000);
    cx.section("two threads, 3 points", "all relations on 3 points, all chunkings over 2 threads (also overlapping), all minimum sizes, several hash seeds; all schedules up to the preemption bound", || {
        let mut pl = Vec::new();
        for adj in graphs(3) {
            let mut ds = deals(3, 2);
            ds.extend([vec![vec![0, 1, 2], vec![2, 1, 0]], vec![vec![0, 1], vec![1, 2]], vec![vec![0, 1, 2], vec![1]]]);
            for chunks in ds {
                for min in 1..=3 {
                    for seed in 1..=cx.q(2, 4) {
                        pl.push(Plan { adj: adj.clone(), chunks: chunks.clone(), min, seed });
                    }
                }
            }
        }
        explore_plans(cx, p, pl, b3, cap);
    });
    cx.section("three threads, 3 points", "all relations on 3 points, one thread per point", || {
        let mut pl = Vec::new();
        for adj in graphs(3) {
            for chunks in [vec![vec![0], vec![1], vec![2]], vec![vec![0, 1], vec![1, 2], vec![2, 0]]] {
                for min in 2..=3 {
                    for seed in 1..=cx.q(1, 3) {
                        pl.push(Plan { adj: adj.clone(), chunks: chunks.clone(), min, seed });
                    }
                }
            }
        }
        explore_plans(cx, p, pl, cx.q(2, 3), cap);
    });
    cx.section("two threads, 4 points", "all relations on 4 points, all chunkings over 2 threads", || {
        let mut pl = Vec::new();
        for adj in graphs(4) {
            for chunks in deals(4, 2) {
                for min in 2..=3 {
                    for seed in 1..=cx.q(1, 2) {
                        pl.push(Plan { adj: adj.clone(), chunks: chunks.clone(), min, seed });
                    }
                }
            }
        }
        explore_plans(cx, p, pl, b4, cap);
    });
    cx.section("5 points", "relations on 5 points, one per isomorphism class, interleaved and contiguous chunkings over 2 and 3 threads", || {
        let mut pl = Vec::new();
        for adj in graph_classes(5) {
            for chunks in [vec![vec![0, 1], vec![2, 3, 4]], vec![vec![0, 2, 4], vec![1, 3]], vec![vec![0, 3], vec![1, 4], vec![2]]] {
                for min in 2..=4 {
                    pl.push(Plan { adj: adj.clone(), chunks: chunks.clone(), min, seed: 1 });
                }
            }
        }
        explore_plans(cx, p, pl, cx.q(2, 3), cap);
    });
    cx.section("larger clusters", "complete, star, overlapping-clique and chain relations on 6 to 20 (30) points, two and three threads, all schedules up to a small preemption bound", || {
        let mut pl = Vec::new();
        for n in (6..=cx.q(20usize, 30)).rev() {
            let full = (1u64 << n) as u32 - 1;
            let star: Adj = (0..n).map(|i| if i == 0 { full } else { 1 | 1 << i }).collect();
            let h = n / 2;
            let (left, right) = (((1u64 << (h + 1)) - 1) as u32, full & !(((1u64 << (h - 1)) - 1) as u32));
            let cliques: Adj = (0..n).map(|i| (if left >> i & 1 == 1 { left } else { 0 }) | (if right >> i & 1 == 1 { right } else { 0 })).collect();
            let chain: Adj = (0..n).map(|i| (0..n).filter(|&j| i.abs_diff(j) <= 2).fold(0, |a, j| a | 1 << j)).collect();
            for adj in [vec![full; n], star, cliques, chain] {
                for chunks in [vec![(0..h).collect::<Vec<_>>(), (h..n).collect()], vec![(0..n).step_by(2).collect(), (1..n).step_by(2).collect()], vec![(0..n).collect(), (0..n).rev().collect()]] {
                    if n > 10 && (chunks[0].len() == n || !cx.thorough && n % 3 != 0) {
                        continue;
                    }
                    for min in [2, h, n] {
                        pl.push(Plan { adj: adj.clone(), chunks: chunks.clone(), min, seed: 1 });
                    }
                }
            }
        }
        explore_plans(cx, p, pl, 2, cap);
    });
    cx.section("one thread", "all relations on up to 5 (6 thorough: classes) points, all minimum sizes, all orders of up to 4 points, one thread", || {
        let mut items: Vec<Adj> = (0..=5).flat_map(graphs).collect();
        if cx.thorough {
            items.extend(graph_classes(6));
        }
        cx.par(items, |adj| {
            let n = adj.len();
            let orders = if n <= 4 { perms(n) } else { vec![(0..n).collect(), (0..n).rev().collect(), (0..n).map(|i| (i * 2) % n.max(1)).collect::<BTreeSet<_>>().into_iter().collect()] };
            for o in orders {
                for min in 1..=n.max(1) + 1 {
                    let pl = Plan { adj: adj.clone(), chunks: vec![o.clone()], min, seed: cx.seed };
                    cx.case(
                        || format!("single thread: relation {:?} order {:?} min {}", pl.adj, o, min),
                        |k| {
                            k.step(1);
                            k.trace();
                            k.state(&(&pl.adj, &pl.chunks, min));
                            run_plan(p, &pl).1
                        },
                    );
                }
            }
        });
    });
    cx.section("cluster_par schedules", "cluster_par over a MinHash index with up to 4 points in all groupings, 1 to 5 threads, all schedules up to the bound", || {
        let mut items = Vec::new();
        for n in 0..=4usize {
            for g in seqs(3, n) {
                // group labels in order of appearance
                let mut mx = 0;
                if !g.iter().all(|&x| { let ok = x <= mx; mx = mx.max(x + 1); ok }) {
                    continue;
                }
                for t in [1usize, 2, 3, 5] {
                    for min in 1..=3usize {
                        items.push((g.clone(), t, min));
                    }
                }
            }
        }
        // chains: neighbours share a band
        let chain = |n: usize| -> Vec<Vec<u32>> { (0..n).map(|i| vec![(i / 2) as u32, 10 + ((i + 1) / 2) as u32]).collect() };
        // (name, signatures, threads, minimum, bound); more tasks, more schedules: fewer preemptions
        let mut all: Vec<(String, Vec<Vec<u32>>, usize, usize, usize)> = Vec::new();
        for n in (2..=5).rev() {
            for t in [3usize, 2] {
                for min in [2usize, 3] {
                    let bound = if n == 5 && t == 3 { cx.q(0, 2) } else if n + t >= 7 { cx.q(1, 2) } else { cx.q(2, 3) };
                    all.push((format!("chain of {} threads {} min {}", n, t, min), chain(n), t, min, bound));
                }
            }
        }
        items.sort_by_key(|(g, t, _)| std::cmp::Reverse(g.len() * 10 + t));
        for (g, t, min) in items {
            let bound = if g.len() <= 3 || t <= 2 { cx.q(2, 3) } else { cx.q(1, 2) };
            all.push((format!("groups {:?} threads {} min {}", g, t, min), g.iter().map(|&x| vec![x as u32, 7 + x as u32]).collect(), t, min, bound));
        }
        cx.par(all, |(key, sigs, t, min, bound)| {
            cx.case(|| key.clone(), |k| schedules(cx, k, bound, cap, &key, &|| run_par::<VecContainer<_>>(p, &sigs, 2, 0.4, t, min)));
        });
    });
    cx.section("cluster_par sizes", "cluster_par with every number of points and threads up to a bound; for every position of a single pair, and for groups of equal size; tasks in four orders", || {
        for mode in 0..4 {
            rt::set_task_order(mode);
            let ns: Vec<usize> = (0..=cx.q(14, 30)).collect();
            cx.par(ns, |n| {
                for t in (0..=9usize).chain([16, 33, 64, 65, 100, 257, 1000, 1 << 20]) {
                    // beyond the number of points the number of threads changes nothing by itself: one task order will do
                    if t > 33 && mode > 0 {
                        continue;
                    }
                    let mut layouts: Vec<(Vec<u32>, usize)> = Vec::new();
                    for i in 0..n {
                        for j in 0..i {
                            layouts.push(((0..n).map(|x| if x == i || x == j { 1000 } else { x as u32 }).collect(), 2));
                        }
                    }
                    for gs in [1usize, 2, 3, 5] {
                        layouts.push(((0..n).map(|x| (x / gs) as u32).collect(), gs.min(n.max(1))));
                        layouts.push(((0..n).map(|x| (x % gs) as u32).collect(), 1 + gs / 2));
                    }
                    for (l, min) in layouts {
                        cx.case(
                            || format!("task order {}: {:?}, threads {} min {}", mode, l, t, min),
                            |k| {
                                k.step(1);
                                k.trace();
                                k.state(&(&l, t, min, mode));
                                let sigs: Vec<Vec<u32>> = l.iter().map(|&x| vec![x, x + 5]).collect();
                                if t % 2 == 0 {
                                    run_par::<HashSetContainer<_>>(p, &sigs, 2, 0.5, t, min).1
                                } else {
                                    run_par::<VecContainer<_>>(p, &sigs, 2, 0.5, t, min).1
                                }
                            },
                        );
                    }
                }
            });
        }
        rt::set_task_order(0);
    });
    cx.section("many points", "larger sets in groups, every number of threads up to 17 and single ones to 1024", || {
        let ns: Vec<usize> = cx.q(vec![10001, 4097, 2049, 1025, 1001, 513, 500, 300, 257, 256, 255, 200, 129, 128, 127, 101, 100, 99, 65, 64, 63, 50, 40], vec![10001, 8193, 4097, 2049, 1025, 1024, 1023, 1001, 700, 513, 500, 300, 257, 256, 255, 200, 129, 128, 127, 101, 100, 99, 65, 64, 63, 50, 40]);
        cx.par(ns, |n| {
            for t in (1..=17usize).chain([31, 32, 33, 40, 48, 63, 64, 65, 66, 96, 100, 127, 128, 129, 200, 256, 257, 512, 1000, 1024]) {
                if n > 300 && ![1, 2, 5, 8, 16, 64, 65, 129, 257].contains(&t) {
                    continue;
                }
                if t > 17 && n > 1100 && t != 65 {
                    continue;
                }
                for gs in [1usize, 2, 7, 40, n / 2, n] {
                    if n > 1100 && gs < 7 && t > 2 || n > 5000 && gs > 40 {
                        continue;
                    }
                    cx.case(
                        || format!("{} points in groups of {}, threads {}", n, gs, t),
                        |k| {
                            k.step(1);
                            k.trace();
                            k.state(&(n, t, gs));
                            let sigs: Vec<Vec<u32>> = (0..n).map(|x| vec![(x % (n / gs).max(1)) as u32]).collect();
                            run_par::<HashSetContainer<_>>(p, &sigs, 1, 0.5, t, gs.max(2)).1
                        },
                    );
                }
            }
        });
    });
    cx.section("very many points", "points in groups, tens of thousands of clusters from one call: single sizes, threads 1, 2, 8; cluster_par and cluster", || {
        let ns: Vec<(usize, usize, usize, bool)> = [(140_001usize, 2usize), (66_003, 1), (30_001, 3), (20_480, 5), (70_001, 70_001), (10_001, 5000)]
            .into_iter()
            .chain(cx.q(vec![], vec![(600_001, 3), (250_000, 1)]))
            .flat_map(|(n, gs)| [1usize, 2, 8].into_iter().flat_map(move |t| [(n, gs, t, false), (n, gs, t, true)]))
            .filter(|x| x.2 == 1 || !x.3)
            .collect();
        cx.par(ns, |(n, gs, t, direct)| {
            cx.case(
                || format!("{} points in groups of {}, threads {}{}", n, gs, t, if direct { ", cluster" } else { "" }),
                |k| {
                    k.step(1);
                    k.trace();
                    k.state(&(n, gs, t, direct));
                    let pts: Vec<cp::ClusterPoint<usize>> = (0..n).map(|i| cp::ClusterPoint::new(cp::ClusterPointInner::new(i))).collect();
                    // large groups: only some of the points are processed, each of them visits its group
                    let mut mine: Vec<_> = pts.iter().step_by(if gs > 100 { gs / 2 } else { 1 }).cloned().collect();
                    let len = mine.len();
                    let mut ix: MinHashIndex<u32, cp::ClusterPoint<usize>, HashSetContainer<_>> = MinHashIndex::new_with_capacity(1, 1, 0.5, n / gs + 1, 0.5);
                    for (i, q) in pts.iter().enumerate() {
                        ix.insert(q.clone(), vec![(i / gs) as u32]);
                    }
                    let cl: cp::Clusterer<u32, usize> = cp::Clusterer::new(gs, t);
                    let out = if direct { cl.cluster(&mut mine, &ix) } else { cl.cluster_par(&mut mine, &ix) };
                    ensure!(mine.len() == len && mine.iter().map(|q| q.id).collect::<HashSet<_>>().len() == len, "the list of points has changed");
                    let mut owner: Vec<usize> = vec![0; n];
                    let mut ids = HashSet::new();
                    for c in &out {
                        let me = &**c as *const cp::Cluster<usize> as usize;
                        if matches!(p, P::C15) {
                            ensure!(ids.insert(c.cluster_id), "cluster id {} is used twice", c.cluster_id);
                            ensure!(c.points.len() >= gs, "cluster {} has {} members, minimum {}", c.cluster_id, c.points.len(), gs);
                        }
                        for q in &c.points {
                            if matches!(p, P::C15) {
                                ensure!(q.id / gs == c.points[0].id / gs, "cluster {} holds the points {} and {}, which are not similar", c.cluster_id, c.points[0].id, q.id);
                                ensure!(owner[q.id] == 0, "point {} is listed twice", q.id);
                                ensure!(q.get_cluster() as usize == me, "member {} of cluster {} refers elsewhere", q.id, c.cluster_id);
                            }
                            owner[q.id] = me;
                        }
                    }
                    for q in &pts {
                        match p {
                            P::C15 => ensure!(q.get_cluster() as usize == owner[q.id], "point {} refers to a cluster that does not list it", q.id),
                            // with one thread every group is complete when its first point is visited
                            P::C16 => ensure!(t > 1 && !out.is_empty() || owner[q.id] != 0 || q.id / gs * gs + gs > n, "point {} is in no cluster although its group has {} unassigned points", q.id, gs),
                        }
                    }
                    Ok(())
                },
            );
        });
    });
    cx.section("several calls of cluster_par", "one clusterer, two and three calls of cluster_par one after another over parts of one set, groups of several sizes, threads 1 to 4", || {
        let items: Vec<(usize, usize, usize)> = (1..=4usize).flat_map(|t| (1..=4usize).flat_map(move |gs| (2..=3usize).map(move |calls| (t, gs, calls)))).collect();
        cx.par(items, |(t, gs, calls)| {
            for n in [3usize, 4, 6, 8, 12, 24, 130] {
                // the parts cut through the groups (spread) or not
                for spread in [false, true] {
                    cx.case(
                        || format!("{} points in groups of {}, {} calls, threads {}, spread {}", n, gs, calls, t, spread),
                        |k| {
                            let group = |i: usize| if spread { i % (n / gs).max(1) } else { i / gs };
                            let pts: Vec<cp::ClusterPoint<usize>> = (0..n).map(|i| cp::ClusterPoint::new(cp::ClusterPointInner::new(i))).collect();
                            let mut ix: MinHashIndex<u32, cp::ClusterPoint<usize>, HashSetContainer<_>> = MinHashIndex::new_with_capacity(1, 1, 0.5, 4, 0.5);
                            for (i, q) in pts.iter().enumerate() {
                                ix.insert(q.clone(), vec![group(i) as u32]);
                            }
                            let min = gs.max(2);
                            let cl: cp::Clusterer<u32, usize> = cp::Clusterer::new(min, t);
                            let mut out = Vec::new();
                            for c in 0..calls {
                                let mut mine: Vec<_> = (c * n / calls..(c + 1) * n / calls).map(|i| pts[i].clone()).collect();
                                let before: usize = out.iter().map(|c: &Box<cp::Cluster<usize>>| c.points.len()).sum();
                                out.extend(cl.cluster_par(&mut mine, &ix));
                                k.step(1);
                                let rich = mine.iter().any(|q| (0..n).filter(|&j| group(j) == group(q.id)).count() >= min);
                                ensure!(!matches!(p, P::C16) || c > 0 || !rich || !out.is_empty(), "the first call returned no cluster ({} members so far)", before);
                            }
                            k.trace();
                            k.state(&(n, t, gs, calls, spread));
                            match p {
                                P::C15 => consistent(&pts, &out, min, &|a, b| group(a) == group(b)),
                                P::C16 => Ok(()),
                            }
                        },
                    );
                }
            }
        });
    });
    cx.section("several calls", "one clusterer, several calls one after another over parts of one set: all relations on 4 points, all splits in two calls", || {
        cx.par(graphs(4), |adj| {
            for chunks in deals(4, 2) {
                for min in 1..=3 {
                    cx.case(
                        || format!("calls {:?} over relation {:?} min {}", chunks, adj, min),
                        |k| {
                            let pts: Vec<cp::ClusterPoint<usize>> = (0..4).map(|i| cp::ClusterPoint::new(cp::ClusterPointInner::new(i))).collect();
                            let cl: cp::Clusterer<u32, usize> = cp::Clusterer::new(min, 1);
                            let g = G { pts: &pts, adj: &adj };
                            let mut out = Vec::new();
                            for c in &chunks {
                                let mut mine: Vec<_> = c.iter().map(|&i| pts[i].clone()).collect();
                                out.extend(cl.cluster(&mut mine, &g));
                                k.step(1);
                            }
                            k.trace();
                            k.state(&(&adj, &chunks, min));
                            let sim = |a: usize, b: usize| adj[a] >> b & 1 == 1;
                            match p {
                                P::C15 => consistent(&pts, &out, min, &sim),
                                P::C16 => progress(&adj, &[chunks.concat()], min, &out),
                            }
                        },
                    );
                }
            }
        });
    });
}

pub fn c15(cx: &Cx) {
    parallel(cx, P::C15)
}
pub fn c16(cx: &Cx) {
    parallel(cx, P::C16)
}

// ------------------------------------------------------------------ C17

/// Points 0..n of which each is similar to the listed ones.
struct GL<'a> {
    pts: &'a [cs::ClusterPoint<usize>],
    near: &'a [Vec<usize>],
}
impl QueryIndex for GL<'_> {
    type Id = cs::ClusterPoint<usize>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        self.near[id.id].iter().map(|&j| &self.pts[j]).collect()
    }
}
/// Many points, clustered in `calls` calls over parts of the list.
fn serial_big(k: &mut K, n: usize, shape: usize, gs: usize, calls: usize, min: usize) -> R {
    let near: Vec<Vec<usize>> = (0..n)
        .map(|i| match shape {
            // groups of gs neighbours
            0 => (i / gs * gs..((i / gs + 1) * gs).min(n)).collect(),
            // groups spread over the list
            1 => (0..n).filter(|j| j % (n / gs).max(1) == i % (n / gs).max(1)).collect(),
            // overlapping windows
            _ => (i.saturating_sub(gs / 2)..(i + gs / 2 + 1).min(n)).collect(),
        })
        .collect();
    let pts: Vec<cs::ClusterPoint<usize>> = (0..n).map(|i| Rc::new(cs::ClusterPointInner::new(i))).collect();
    let g = GL { pts: &pts, near: &near };
    let mut cl: cs::Clusterer<usize> = cs::Clusterer::new(min);
    let mut owner: Vec<Option<usize>> = vec![None; n];
    let mut ids = HashSet::new();
    for c in 0..calls {
        let mut mine: Vec<_> = (c * n / calls..(c + 1) * n / calls).map(|i| pts[i].clone()).collect();
        for c in cl.cluster(&mut mine, &g) {
            ensure!(ids.insert(c.cluster_id), "cluster id {} is used again", c.cluster_id);
            let m: BTreeSet<usize> = c.points.iter().map(|p| p.id).collect();
            ensure!(m.len() == c.points.len() && m.len() >= min, "cluster {} has {} entries, {} points, minimum {}", c.cluster_id, c.points.len(), m.len(), min);
            let lo = *m.iter().next().unwrap();
            // the relation is symmetric: a common similar point is similar to the first member
            ensure!(near[lo].iter().any(|&p| m.iter().all(|x| near[p].binary_search(x).is_ok())), "cluster {} has no common similar point", c.cluster_id);
            for &x in &m {
                ensure!(owner[x].replace(c.cluster_id).is_none(), "point {} is put into a second cluster", x);
            }
        }
        for (i, p) in pts.iter().enumerate() {
            ensure!(p.cluster.get() == owner[i], "point {} says {:?}, but is in {:?}", i, p.cluster.get(), owner[i]);
        }
        for i in 0..(c + 1) * n / calls {
            let free = near[i].iter().filter(|&&j| owner[j].is_none()).count();
            ensure!(owner[i].is_some() || free <= min, "point {} is unassigned although {} of its similar points are unassigned (minimum {})", i, free, min);
        }
        k.step(1);
    }
    k.trace();
    k.state(&(n, shape, gs, calls, min));
    Ok(())
}

/// Points in groups of gs neighbours, without listing them.
struct GG<'a> {
    pts: &'a [cs::ClusterPoint<usize>],
    gs: usize,
}
impl QueryIndex for GG<'_> {
    type Id = cs::ClusterPoint<usize>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        let g = id.id / self.gs;
        self.pts[g * self.gs..((g + 1) * self.gs).min(self.pts.len())].iter().collect()
    }
}
/// One call with large clusters.
fn serial_large(k: &mut K, n: usize, gs: usize) -> R {
    let pts: Vec<cs::ClusterPoint<usize>> = (0..n).map(|i| Rc::new(cs::ClusterPointInner::new(i))).collect();
    let min = gs / 2;
    let mut cl: cs::Clusterer<usize> = cs::Clusterer::new(min);
    let mut mine = pts.clone();
    let mut owner: Vec<Option<usize>> = vec![None; n];
    for c in cl.cluster(&mut mine, &GG { pts: &pts, gs }) {
        ensure!(c.points.len() >= min, "cluster {} has {} points, minimum {}", c.cluster_id, c.points.len(), min);
        for q in &c.points {
            ensure!(q.id / gs == c.points[0].id / gs, "cluster {} holds the points {} and {}, which are not similar", c.cluster_id, c.points[0].id, q.id);
            ensure!(owner[q.id].replace(c.cluster_id).is_none(), "point {} is put into a cluster twice", q.id);
        }
    }
    for (i, q) in pts.iter().enumerate() {
        ensure!(q.cluster.get() == owner[i], "point {} says {:?}, but is in {:?}", i, q.cluster.get(), owner[i]);
    }
    for g in 0..n / gs + 1 {
        let free = (g * gs..((g + 1) * gs).min(n)).filter(|&i| owner[i].is_none()).count();
        ensure!(free <= min, "{} points of group {} are unassigned (minimum {})", free, g, min);
    }
    k.step(1);
    k.trace();
    k.state(&("large", n, gs));
    Ok(())
}

struct GS<'a> {
    pts: &'a [cs::ClusterPoint<usize>],
    adj: &'a Adj,
}
impl QueryIndex for GS<'_> {
    type Id = cs::ClusterPoint<usize>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        self.pts.iter().filter(|p| self.adj[id.id] >> p.id & 1 == 1).collect()
    }
}

/// Several calls of one serial clusterer.
fn serial(k: &mut K, adj: &Adj, calls: &[Vec<usize>], min: usize) -> R {
    let n = adj.len();
    let pts: Vec<cs::ClusterPoint<usize>> = (0..n).map(|i| Rc::new(cs::ClusterPointInner::new(i))).collect();
    let g = GS { pts: &pts, adj };
    let mut cl: cs::Clusterer<usize> = cs::Clusterer::new(min);
    let mut owner: BTreeMap<usize, usize> = BTreeMap::new();
    let mut ids = BTreeSet::new();
    let mut visited = BTreeSet::new();
    for (ci, call) in calls.iter().enumerate() {
        let mut mine: Vec<_> = call.iter().map(|&i| pts[i].clone()).collect();
        let out = cl.cluster(&mut mine, &g);
        k.step(1);
        for c in &out {
            ensure!(ids.insert(c.cluster_id), "call {}: cluster id {} is used again", ci, c.cluster_id);
            let m: BTreeSet<usize> = c.points.iter().map(|p| p.id).collect();
            ensure!(m.len() == c.points.len(), "cluster {} lists a point twice", c.cluster_id);
            ensure!(m.len() >= min && !m.is_empty(), "cluster {} has {} members, minimum {}", c.cluster_id, m.len(), min);
            ensure!((0..n).any(|p| m.iter().all(|&x| adj[p] >> x & 1 == 1)), "cluster {} = {:?} has no common similar point", c.cluster_id, m);
            for &x in &m {
                ensure!(owner.insert(x, c.cluster_id).is_none(), "call {}: point {} is put into a second cluster", ci, x);
            }
        }
        for p in &pts {
            ensure!(p.cluster.get() == owner.get(&p.id).copied(), "call {}: point {} says {:?}, but is in {:?}", ci, p.id, p.cluster.get(), owner.get(&p.id));
        }
        visited.extend(call.iter().copied());
        for &i in &visited {
            let free = (0..n).filter(|j| adj[i] >> j & 1 == 1 && !owner.contains_key(j)).count();
            ensure!(owner.contains_key(&i) || free <= min, "call {}: point {} is unassigned although {} of its similar points are unassigned (minimum {})", ci, i, free, min);
        }
    }
    k.trace();
    k.state(&(adj, calls, min, &owner));
    Ok(())
}

pub fn c17(cx: &Cx) {
    c17_big(cx);
    cx.section("all relations on 3 points", "all 512 relations (also asymmetric and irreflexive) on 3 points, all point orders, all minimum sizes", || {
        cx.par((0..512u32).collect(), |m| {
            let adj: Adj = (0..3).map(|i| m >> (3 * i) & 7).collect();
            for o in perms(3) {
                for min in 1..=4 {
                    cx.case(|| format!("relation {:?} order {:?} min {}", adj, o, min), |k| serial(k, &adj, &[o.clone()], min));
                }
            }
        });
    });
    cx.section("all relations on 4 points", "all reflexive relations on 4 points, also asymmetric (thorough: irreflexive too), all point orders, all minimum sizes", || {
        cx.par((0..cx.q(1u32 << 12, 1 << 16)).collect(), |m| {
            // quick: the diagonal is set and the rest enumerated
            let adj: Adj = (0..4u32).map(|i| if cx.thorough { m >> (4 * i) & 15 } else { let x = m >> (3 * i) & 7; (x & ((1 << i) - 1)) | 1 << i | (x >> i) << (i + 1) }).collect();
            for o in perms(4) {
                for min in 1..=4 {
                    cx.case(|| format!("relation {:?} order {:?} min {}", adj, o, min), |k| serial(k, &adj, &[o.clone()], min));
                }
            }
        });
    });
    cx.section("6 points", "one symmetric reflexive relation per isomorphism class on 6 points, all 720 orders (thorough: every split of each in two calls), all minimum sizes", || {
        cx.par(graph_classes(6), |adj| {
            for o in perms(6) {
                for min in 1..=5 {
                    cx.case(|| format!("relation {:?} order {:?} min {}", adj, o, min), |k| serial(k, &adj, &[o.clone()], min));
                    for cut in 1..cx.q(1, 6) {
                        cx.case(|| format!("relation {:?} order {:?} cut at {} min {}", adj, o, cut, min), |k| serial(k, &adj, &[o[..cut].to_vec(), o[cut..].to_vec()], min));
                    }
                }
            }
        });
    });
    cx.section("symmetric relations", "all symmetric reflexive relations on up to 5 points (6: classes), all orders up to 5 points, rotations beyond", || {
        let mut items: Vec<Adj> = (0..=5).flat_map(graphs).collect();
        items.extend(graph_classes(6));
        if cx.thorough {
            items.extend(graphs(6));
        }
        cx.par(items, |adj| {
            let n = adj.len();
            let orders: Vec<Vec<usize>> = if n <= 5 { perms(n) } else { (0..n).map(|s| (0..n).map(|i| (i + s) % n).collect()).chain([(0..n).rev().collect::<Vec<_>>()]).collect() };
            for o in orders {
                for min in 1..=n.max(1) {
                    cx.case(|| format!("relation {:?} order {:?} min {}", adj, o, min), |k| serial(k, &adj, &[o.clone()], min));
                }
            }
        });
    });
    cx.section("several calls", "one clusterer, two and three calls over all ordered subsets of 3 points, all symmetric relations", || {
        let mut subs: Vec<Vec<usize>> = Vec::new();
        for m in 0..8usize {
            let s: Vec<usize> = (0..3).filter(|i| m >> i & 1 == 1).collect();
            for p in perms(s.len()) {
                subs.push(p.iter().map(|&i| s[i]).collect());
            }
        }
        cx.par(graphs(3), |adj| {
            for min in 1..=2 {
                for a in &subs {
                    for b in &subs {
                        cx.case(|| format!("relation {:?} calls {:?} {:?} min {}", adj, a, b, min), |k| serial(k, &adj, &[a.clone(), b.clone()], min));
                        if cx.thorough || a.len() < 2 {
                            for c in &subs {
                                cx.case(|| format!("relation {:?} calls {:?} {:?} {:?} min {}", adj, a, b, c, min), |k| serial(k, &adj, &[a.clone(), b.clone(), c.clone()], min));
                            }
                        }
                    }
                }
            }
        });
        // disjoint groups, one call each: ids never repeat
        cx.par((1..=10usize).collect(), |g| {
            let adj: Adj = (0..3 * g).map(|i| 7 << (3 * (i / 3))).collect();
            for min in 1..=2 {
                let calls: Vec<Vec<usize>> = (0..g).map(|c| (3 * c..3 * c + 3).collect()).collect();
                cx.case(|| format!("{} groups of 3 in as many calls, min {}", g, min), |k| serial(k, &adj, &calls, min));
                let calls: Vec<Vec<usize>> = (0..3).map(|c| (0..g).map(|j| 3 * j + c).collect()).collect();
                cx.case(|| format!("{} groups of 3 in transposed calls, min {}", g, min), |k| serial(k, &adj, &calls, min));
            }
        });
    });
}

fn c17_big(cx: &Cx) {
    cx.section("many points", "up to 4097 (16385) points in groups and overlapping windows of many sizes, in one to many calls", || {
        let mut ns = sizes(cx.q(10001, 16385));
        ns.reverse();
        cx.par(vec![(140_001, 2), (66_001, 3), (30_001, 2), (16_385, 2)], |(n, gs)| {
            for calls in [1, 7] {
                cx.case(|| format!("{} points, groups of {}, {} calls, min {}", n, gs, calls, gs - 1), |k| serial_big(k, n, 0, gs, calls, gs - 1));
            }
        });
        cx.par(vec![(70_001, 70_001), (70_001, 33_000), (20_002, 10_001), (8194, 4097), (6006, 3003)], |(n, gs)| {
            cx.case(|| format!("{} points, groups of {}", n, gs), |k| serial_large(k, n, gs));
        });
        cx.par(ns, |n| {
            let mut gss: Vec<usize> = vec![1, 2, 3, 5, 8, 17, 64, 65, 100, 257, n / 2, n];
            gss.retain(|&g| g >= 1 && g <= n);
            gss.dedup();
            for shape in 0..3 {
                if shape > 0 && n > cx.q(1100, 4100) {
                    continue;
                }
                for &gs in &gss {
                    if n * gs > 3_000_000 {
                        continue;
                    }
                    for calls in [1usize, 2, 7, n.max(1)] {
                        if calls > 7 && n > 130 {
                            continue;
                        }
                        for min in [1, 2, gs.max(2) - 1, gs] {
                            if min >= 1 {
                                cx.case(|| format!("{} points, shape {}, groups of {}, {} calls, min {}", n, shape, gs, calls, min), |k| serial_big(k, n, shape, gs, calls, min));
                            }
                        }
                    }
                }
            }
        });
    });
}

// ------------------------------------------------------------------ the explorer itself

/// The explorer must find known bugs of tiny programs; otherwise its verdicts mean nothing.
pub fn selftest(cx: &Cx) {
    use mcstd::sync::atomic::AtomicUsize as A;
    fn die(m: &str) -> ! {
        eprintln!("explorer self-test failed: {}", m);
        std::process::exit(3);
    }
    let counter = |fetch: bool| {
        move || {
            let a = A::new(0);
            rt::run_tasks(
                (0..2)
                    .map(|_| {
                        let a = &a;
                        Box::new(move || {
                            if fetch {
                                a.fetch_add(1, Ordering::SeqCst);
                            } else {
                                let v = a.load(Ordering::SeqCst);
                                a.store(v + 1, Ordering::SeqCst);
                            }
                        }) as Box<dyn FnOnce() + Send + '_>
                    })
                    .collect(),
            );
            assert_eq!(a.load(Ordering::SeqCst), 2);
        }
    };
    let (_, f) = rt::explore(1, 1000, 10_000, &counter(false));
    if f.is_none() {
        die("a lost update was not found");
    }
    let (s, f) = rt::explore(2, 1000, 10_000, &counter(true));
    if f.is_some() || !s.complete {
        die("a correct counter was rejected");
    }
    let (_, f) = rt::explore(2, 1000, 10_000, &|| {
        let (m1, m2) = (mcstd::sync::Mutex::new(()), mcstd::sync::Mutex::new(()));
        let (m1, m2) = (&m1, &m2);
        rt::run_tasks(vec![
            Box::new(move || {
                let _a = m1.lock();
                let _b = m2.lock();
            }),
            Box::new(move || {
                let _a = m2.lock();
                let _b = m1.lock();
            }),
        ]);
    });
    if !matches!(f.map(|x| x.failure), Some(Some(rt::Failure::Deadlock(_)))) {
        die("a deadlock was not found");
    }
    let (_, f) = rt::explore(2, 1000, 10_000, &|| {
        let slot: mcstd::sync::atomic::AtomicPtr<A> = mcstd::sync::atomic::AtomicPtr::new(Box::into_raw(Box::new(A::new(0))));
        let s = &slot;
        rt::run_tasks(vec![
            Box::new(move || {
                let p = s.load(Ordering::SeqCst);
                if !p.is_null() {
                    unsafe { (*p).fetch_add(1, Ordering::SeqCst) };
                }
            }),
            Box::new(move || {
                let p = s.swap(std::ptr::null_mut(), Ordering::SeqCst);
                drop(unsafe { Box::from_raw(p) });
            }),
        ]);
    });
    if !matches!(f.map(|x| x.failure), Some(Some(rt::Failure::UseAfterFree(_)))) {
        die("a use after free was not found");
    }
    cx.note("explorer self-test passed: lost update, deadlock and use after free found, correct counter accepted".into());
}
