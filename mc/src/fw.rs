//! Enumeration framework: sections of cases, counters, replay keys, evidence.
use mcstd::rt;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;


macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

pub struct Violation {
    pub section: String,
    pub key: String,
    pub msg: String,
}

const SHARDS: usize = 64;
pub const SHARED: usize = 4096;

pub struct Cx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<String>,
    pub threads: usize,
    section: Mutex<String>,
    sections: Mutex<Vec<(String, String, u64, u64, f64)>>,
    distinct: Vec<Mutex<HashSet<u64>>>,
    pub cases: AtomicU64,
    pub steps: AtomicU64,
    pub traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    pub notes: Mutex<Vec<String>>,
    pub incomplete: AtomicBool,
    stop: AtomicBool,
    viol: Mutex<Option<Violation>>,
    t0: Instant,
    /// per worker: milliseconds since t0 at which the running case started (0: idle), case number
    busy: Vec<(AtomicU64, AtomicU64)>,
    hang_limit: u64,
    /// work shared with other processes: entry 0 is the stop flag, entry k the next item of the k-th `par`
    shared: Option<&'static [AtomicUsize]>,
    pub shard: usize,
    pars: AtomicUsize,
    /// seconds after which no further cases are started (the rest is reported as not explored)
    deadline: u64,
    /// the same for one section, so that one section that explodes does not starve the others
    section_limit: u64,
    section_t0: AtomicU64,
}

/// Counters of one case.
pub struct K<'a> {
    cx: &'a Cx,
    pub steps: u64,
    pub traces: u64,
    seen: u32,
}
impl K<'_> {
    /// n operations of the real code executed
    #[inline]
    pub fn step(&mut self, n: usize) {
        let old = self.steps;
        self.steps += n as u64;
        if (old ^ self.steps) >> 9 != 0 {
            self.cx.beat();
        }
    }
    /// a whole behaviour of the real code has been compared with the model
    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    #[inline]
    pub fn state<H: Hash>(&mut self, h: &H) {
        self.cx.state(h);
        self.seen += 1;
        if self.seen % 128 == 0 {
            self.cx.beat();
        }
    }
}

thread_local! {
    static IN_PAR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

impl Cx {
    pub fn new(id: &str, thorough: bool, seed: u64, only: Option<String>) -> Self {
        let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8));
        Cx {
            id: id.to_string(),
            thorough,
            seed,
            only,
            threads,
            section: Mutex::new(String::new()),
            sections: Mutex::new(Vec::new()),
            distinct: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            cases: AtomicU64::new(0),
            steps: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            samples: Mutex::new(Vec::new()),
            notes: Mutex::new(Vec::new()),
            incomplete: AtomicBool::new(false),
            stop: AtomicBool::new(false),
            viol: Mutex::new(None),
            t0: Instant::now(),
            busy: (0..64).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect(),
            shared: None,
            shard: 0,
            pars: AtomicUsize::new(0),
            hang_limit: if thorough { 240 } else { 120 },
            section_limit: std::env::var("MC_SECTION").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 260 } else { 80 }),
            section_t0: AtomicU64::new(0),
            deadline: std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 500 }),
        }
    }

    /// quick or thorough value
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed) || self.shared.is_some_and(|s| s[0].load(Relaxed) != 0)
    }

    /// Makes this process one of several that share the items of every `par`.
    pub fn share(&mut self, file: &str, shard: usize) {
        use std::os::fd::AsRawFd;
        extern "C" {
            fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        }
        let f = std::fs::OpenOptions::new().read(true).write(true).open(file).expect("shared file");
        let p = unsafe { mmap(std::ptr::null_mut(), SHARED * 8, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        self.shared = Some(unsafe { std::slice::from_raw_parts(p as *const AtomicUsize, SHARED) });
        self.shard = shard;
        rt::PIN_BASE.store(shard, Relaxed);
        self.threads = 1;
    }
    pub fn dump_states(&self, file: &str) {
        let mut out = Vec::new();
        for s in &self.distinct {
            for v in s.lock().unwrap().iter() {
                out.extend_from_slice(&v.to_le_bytes());
            }
        }
        let _ = std::fs::write(file, out);
    }

    /// Past the time limit? (Then what is left is not explored, and the evidence says so.)
    pub fn late(&self) -> bool {
        let now = self.t0.elapsed().as_secs();
        let l = now >= self.deadline || now >= self.section_t0.load(Relaxed) + self.section_limit;
        if l {
            self.incomplete.store(true, Relaxed);
            let m = format!("time limit reached in section {}", self.section.lock().unwrap());
            let mut n = self.notes.lock().unwrap();
            if !n.contains(&m) {
                n.push(m);
            }
        }
        l
    }
    /// The running case is still making progress.
    pub fn beat(&self) {
        let w = WORKER.with(|w| w.get()) % 64;
        self.busy[w].0.store(self.t0.elapsed().as_millis() as u64 + 1, Relaxed);
    }

    pub fn state<H: Hash>(&self, h: &H) {
        // stable across runs
        let mut s = fnv::FnvHasher::default();
        h.hash(&mut s);
        let v = s.finish().wrapping_mul(0x9E3779B97F4A7C15);
        self.distinct[(v >> 58) as usize % SHARDS].lock().unwrap().insert(v);
    }
    pub fn states(&self) -> u64 {
        self.distinct.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }

    pub fn note(&self, s: String) {
        self.notes.lock().unwrap().push(s);
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            let sec = self.section.lock().unwrap().clone();
            let n = v.iter().filter(|x: &&String| x.starts_with(&format!("{}:", sec))).count();
            if n < 2 {
                v.push(format!("{}: {}", sec, s()));
            }
        }
    }

    pub fn section(&self, name: &str, what: &str, f: impl FnOnce()) {
        if self.stopped() {
            return;
        }
        self.section_t0.store(self.t0.elapsed().as_secs(), Relaxed);
        if self.late() {
            return;
        }
        *self.section.lock().unwrap() = name.to_string();
        let (c0, s0, t) = (self.cases.load(Relaxed), self.steps.load(Relaxed), Instant::now());
        f();
        let dt = t.elapsed().as_secs_f64();
        let (c, s) = (self.cases.load(Relaxed) - c0, self.steps.load(Relaxed) - s0);
        eprintln!("  {} {}: {} cases, {} steps, {:.2} s", self.id, name, c, s, dt);
        self.sections.lock().unwrap().push((name.to_string(), what.to_string(), c, s, dt));
    }

    pub fn violate(&self, key: String, msg: String) {
        let mut v = self.viol.lock().unwrap();
        if v.is_none() {
            *v = Some(Violation { section: self.section.lock().unwrap().clone(), key, msg });
        }
        self.stop.store(true, Relaxed);
        if let Some(s) = self.shared {
            s[0].store(1, Relaxed);
        }
    }

    /// One case. `key` identifies it for replay and is only computed when needed.
    pub fn case(&self, key: impl Fn() -> String, f: impl FnOnce(&mut K) -> R) {
        if self.stopped() || (self.shard != 0 && !IN_PAR.with(|p| p.get())) {
            return;
        }
        if let Some(o) = &self.only {
            if *o != format!("{}|{}", self.section.lock().unwrap(), key()) {
                return;
            }
        }
        let n = self.cases.fetch_add(1, Relaxed);
        let w = WORKER.with(|w| w.get()) % 64;
        self.busy[w].1.store(n, Relaxed);
        self.busy[w].0.store(self.t0.elapsed().as_millis() as u64 + 1, Relaxed);
        let mut k = K { cx: self, steps: 0, traces: 0, seen: 0 };
        let r = rt::quietly(|| f(&mut k));
        self.busy[w].0.store(0, Relaxed);
        self.steps.fetch_add(k.steps, Relaxed);
        self.traces.fetch_add(k.traces, Relaxed);
        match r {
            Ok(Ok(())) => {
                if n < 4 || (n & (n - 1)) == 0 {
                    self.sample(|| key());
                }
            }
            Ok(Err(m)) => self.violate(key(), m),
            Err(p) => self.violate(key(), format!("panic: {}", p)),
        }
    }

    /// Distributes items over the worker threads.
    pub fn par<T: Send>(&self, items: Vec<T>, f: impl Fn(T) + Sync) {
        let n = items.len();
        let items: Vec<Mutex<Option<T>>> = items.into_iter().map(|x| Mutex::new(Some(x))).collect();
        let own = AtomicUsize::new(0);
        let next = match self.shared {
            Some(s) => &s[1 + self.pars.fetch_add(1, Relaxed)],
            None => &own,
        };
        std::thread::scope(|s| {
            for w in 0..self.threads.min(n.max(1)) {
                let (items, f) = (&items, &f);
                s.spawn(move || {
                    IN_PAR.with(|p| p.set(true));
                    WORKER.with(|x| x.set(w));
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n || self.stopped() || self.late() {
                            return;
                        }
                        let it = items[i].lock().unwrap().take().unwrap();
                        f(it);
                    }
                });
            }
        });
    }

    /// Watches for a case of the real code that does not terminate.
    pub fn watchdog(&self, replay_dir: &str) {
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = self.t0.elapsed().as_millis() as u64;
            for b in &self.busy {
                let t = b.0.load(Relaxed);
                if t != 0 && now > t + self.hang_limit * 1000 {
                    let sec = self.section.lock().unwrap().clone();
                    self.violate(
                        format!("case number {}", b.1.load(Relaxed)),
                        format!("an operation did not terminate within {} s (section {})", self.hang_limit, sec),
                    );
                    let code = self.finish(replay_dir);
                    std::process::exit(code);
                }
            }
        }
    }

    /// Writes the result (JSON on stdout) and returns the exit code.
    pub fn finish(&self, replay_dir: &str) -> i32 {
        let v = self.viol.lock().unwrap();
        let secs: Vec<_> = self
            .sections
            .lock()
            .unwrap()
            .iter()
            .map(|s| serde_json::json!({"section": s.0, "space": s.1, "cases": s.2, "steps": s.3, "wall_s": (s.4 * 1000.0).round() / 1000.0}))
            .collect();
        let mut code = 0;
        let mut replay = String::new();
        if let Some(v) = &*v {
            code = 1;
            let _ = std::fs::create_dir_all(replay_dir);
            replay = format!("{}/{}.json", replay_dir, self.id);
            let j = serde_json::json!({
                "property": self.id, "tier": if self.thorough { "thorough" } else { "quick" },
                "section": v.section, "case": v.key, "only": format!("{}|{}", v.section, v.key), "message": v.msg,
                "rerun": format!("bin/check {} --replay {}", self.id, replay),
            });
            let _ = std::fs::write(&replay, serde_json::to_string_pretty(&j).unwrap());
            eprintln!("violated: section {} case {}\n  {}", v.section, v.key, v.msg);
        }
        let j = serde_json::json!({
            "states": self.states(),
            "cases": self.cases.load(Relaxed),
            "transitions": self.steps.load(Relaxed),
            "traces": self.traces.load(Relaxed),
            "samples": *self.samples.lock().unwrap(),
            "sections": secs,
            "notes": *self.notes.lock().unwrap(),
            "exhaustive": !self.incomplete.load(Relaxed),
            "violations": code,
            "replay": replay,
            "wall_s": self.t0.elapsed().as_secs_f64(),
        });
        println!("{}", serde_json::to_string(&j).unwrap());
        code
    }
}

/// All sequences of length exactly n over 0..k.
pub fn seqs(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|s: Vec<usize>| {
                (0..k).map(move |x| {
                    let mut t = s.clone();
                    t.push(x);
                    t
                })
            })
            .collect();
    }
    out
}
/// All sequences of length 0..=n over 0..k.
pub fn seqs_upto(k: usize, n: usize) -> Vec<Vec<usize>> {
    (0..=n).flat_map(|m| seqs(k, m)).collect()
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..used.len() {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                rec(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = Vec::new();
    rec(&mut Vec::new(), &mut vec![false; n], &mut out);
    out
}
/// All multisets (as count vectors) of k kinds with total <= n.
pub fn multisets(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..k {
        out = out
            .into_iter()
            .flat_map(|s: Vec<usize>| {
                let used: usize = s.iter().sum();
                (0..=n - used).map(move |x| {
                    let mut t = s.clone();
                    t.push(x);
                    t
                })
            })
            .collect();
    }
    out
}
/// Sizes around the places where code likes to change its mind.
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    for p in [48usize, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 199, 200, 201, 255, 256, 257, 300, 499, 500, 501, 511, 512, 513, 999, 1000, 1001,
        1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 65535, 65536, 65537]
    {
        v.push(p);
    }
    v.retain(|&x| x <= max);
    v
}

pub fn join_digest(d: &[(String, String)]) -> String {
    d.iter().map(|(a, b)| format!("{}\t{}", a, b)).collect::<Vec<_>>().join("\n")
}

/// Signatures do not depend on the thread or the process in which they are computed: the table `f` computed in this thread,
/// in fresh threads and in fresh processes (with another environment and stack) is the same.
pub fn elsewhere(cx: &Cx, what: &'static str, f: fn() -> Vec<(String, String)>) {
    let here = f();
    let parse = |s: &str| -> Vec<(String, String)> { s.lines().filter_map(|l| l.split_once('\t').map(|(a, b)| (a.to_string(), b.to_string()))).collect() };
    let compare = |k: &mut K, other: &[(String, String)], place: &str| -> R {
        ensure!(here.len() == other.len(), "{}: {} signatures, here {}", place, other.len(), here.len());
        for (a, b) in here.iter().zip(other) {
            ensure!(a == b, "{} computed in {}: {}, here {}", a.0, place, b.1, a.1);
            k.state(&(what, &a.0));
        }
        k.step(other.len());
        k.trace();
        Ok(())
    };
    for i in 0..3 {
        cx.case(|| format!("fresh thread {}", i), |k| {
            let other = std::thread::Builder::new().stack_size((1 + i) << 21).spawn(f).unwrap().join().map_err(|_| "panic".to_string())?;
            compare(k, &other, "another thread")
        });
        cx.case(|| format!("fresh process {}", i), |k| {
            let exe = std::env::current_exe().map_err(|e| e.to_string())?;
            let mut c = std::process::Command::new(exe);
            c.args([what, "quick", "--digest", what]).env("MC_DUMMY", "x".repeat(1000 * i + 1)).current_dir("/");
            if i == 2 {
                c.env_clear();
            }
            let o = c.output().map_err(|e| e.to_string())?;
            compare(k, &parse(&String::from_utf8_lossy(&o.stdout)), "another process")
        });
    }
}
