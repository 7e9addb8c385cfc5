//! Stateless model checker: runs real threads one at a time, decides at every scheduling point who runs next,
//! and enumerates all decisions depth-first up to a preemption bound.

use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Failure {
    /// a model thread panicked (an assertion of the harness, or the code under test)
    Panic(String),
    Deadlock(String),
    Livelock(String),
    UseAfterFree(String),
    /// the harness does not own all nondeterminism: an error of the check, not a verdict
    Diverged(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Status {
    Ready,
    /// waiting for a lock-like resource (address)
    Res(usize),
    /// waiting for a thread to finish
    Join(usize),
    Done,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Point {
    /// thread at the point (or choosing)
    pub tid: u16,
    pub op: &'static str,
    /// number of alternatives
    pub alts: u16,
    pub chosen: u16,
    /// alternative != 0 costs one preemption
    pub costs: bool,
}

struct St {
    threads: Vec<Status>,
    cvs: Vec<Arc<Condvar>>,
    cur: usize,
    prefix: Vec<u16>,
    points: Vec<Point>,
    failure: Option<Failure>,
    abort: bool,
    steps: usize,
    max_steps: usize,
    live: usize,
    /// consecutive points of the running thread while others could run
    streak: usize,
    log: Vec<String>,
}

pub struct Exec {
    st: Mutex<St>,
    all_done: Condvar,
    quarantine: Mutex<Quarantine>,
    pool: Arc<Pool>,
    me: std::sync::Weak<Exec>,
}

/// Threads are reused: creating one per model thread and execution exhausts the kernel.
struct Pool {
    idle: Mutex<Vec<Arc<Slot>>>,
    all: Mutex<Vec<(Arc<Slot>, std::thread::JoinHandle<()>)>>,
}
type Job = (Arc<Exec>, usize, Box<dyn FnOnce() + Send>);
#[derive(Default)]
struct Slot {
    /// None in the inner option: end
    job: Mutex<Option<Option<Job>>>,
    cv: Condvar,
}
impl Slot {
    fn put(&self, j: Option<Job>) {
        *self.job.lock().unwrap_or_else(|p| p.into_inner()) = Some(j);
        self.cv.notify_one();
    }
}
impl Pool {
    fn new() -> Arc<Pool> {
        Arc::new(Pool { idle: Mutex::new(Vec::new()), all: Mutex::new(Vec::new()) })
    }
    fn run(self: &Arc<Self>, e: Arc<Exec>, tid: usize, f: Box<dyn FnOnce() + Send>) {
        let slot = self.idle.lock().unwrap_or_else(|p| p.into_inner()).pop();
        let slot = slot.unwrap_or_else(|| {
            let s = Arc::new(Slot::default());
            let mine = s.clone();
            let h = std::thread::Builder::new()
                .stack_size(1024 * 1024)
                .spawn(move || {
                    IN_RT.with(|c| c.set(1));
                    loop {
                        let j = {
                            let mut g = mine.job.lock().unwrap_or_else(|p| p.into_inner());
                            loop {
                                if let Some(j) = g.take() {
                                    break j;
                                }
                                g = mine.cv.wait(g).unwrap_or_else(|p| p.into_inner());
                            }
                        };
                        let Some((e, tid, f)) = j else { return };
                        keys::reset();
                        LAST_PANIC.with(|l| l.borrow_mut().take());
                        thread_main(e, tid, f, &mine);
                    }
                })
                .expect("spawn");
            self.all.lock().unwrap_or_else(|p| p.into_inner()).push((s.clone(), h));
            s
        });
        slot.put(Some((e, tid, f)));
    }
    fn close(&self) {
        let all: Vec<_> = self.all.lock().unwrap_or_else(|p| p.into_inner()).drain(..).collect();
        for (s, _) in &all {
            s.put(None);
        }
        for (_, h) in all {
            let _ = h.join();
        }
    }
}

/// The per-thread keys of std's RandomState count up with every map; on a reused thread they have to start
/// again, or executions would not be repeatable. std offers no way to do that, so the cell is located in the
/// thread's static TLS block (once) and rewritten; if that does not work, threads keep counting and the
/// explorer reports diverging executions.
mod keys {
    use std::hash::RandomState;
    use std::sync::atomic::{AtomicIsize, AtomicU64, Ordering::Relaxed};

    fn draw() -> [u64; 2] {
        const { assert!(std::mem::size_of::<RandomState>() == 16) };
        unsafe { std::mem::transmute::<RandomState, [u64; 2]>(RandomState::new()) }
    }
    fn tp() -> usize {
        let t: usize;
        unsafe { std::arch::asm!("mov {}, fs:0", out(reg) t) };
        t
    }
    /// offset of the cell from the thread pointer; 1: unknown, 2: not found
    static OFFSET: AtomicIsize = AtomicIsize::new(1);
    static BASE: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];

    /// What the keys of every model thread start with.
    pub fn set_base(k: [u64; 2]) {
        BASE[0].store(k[0], Relaxed);
        BASE[1].store(k[1], Relaxed);
    }
    pub fn reset() {
        draw();
        let mut off = OFFSET.load(Relaxed);
        if off == 1 {
            off = find().unwrap_or(2);
            OFFSET.store(off, Relaxed);
        }
        if off == 2 {
            return;
        }
        unsafe {
            let p = (tp() as isize + off) as *mut u64;
            p.write_volatile(BASE[0].load(Relaxed));
            p.add(1).write_volatile(BASE[1].load(Relaxed));
        }
    }
    fn find() -> Option<isize> {
        // the executable's static TLS lies directly below the thread pointer
        let k = draw();
        let want = [k[0].wrapping_add(1), k[1]];
        let t = tp();
        // stay within the readable TLS block
        let size = tls_size()?;
        let mut found = Vec::new();
        let mut a = (t - size + 7) & !7;
        while a + 16 <= t {
            let v = unsafe { [(a as *const u64).read_volatile(), (a as *const u64).add(1).read_volatile()] };
            if v == want {
                found.push(a);
            }
            a += 8;
        }
        if found.len() != 1 {
            return None;
        }
        // it is the cell if rewriting it shows
        let p = found[0] as *mut u64;
        unsafe { p.write_volatile(want[0] ^ 0x5555) };
        let ok = draw() == [want[0] ^ 0x5555, want[1]];
        unsafe { p.write_volatile(want[0]) };
        if ok {
            Some(found[0] as isize - t as isize)
        } else {
            None
        }
    }
    fn tls_size() -> Option<usize> {
        #[repr(C)]
        struct Phdr {
            ty: u32,
            flags: u32,
            off: u64,
            vaddr: u64,
            paddr: u64,
            filesz: u64,
            memsz: u64,
            align: u64,
        }
        #[repr(C)]
        struct Info {
            addr: usize,
            name: *const u8,
            phdr: *const Phdr,
            n: u16,
        }
        extern "C" {
            fn dl_iterate_phdr(cb: extern "C" fn(*const Info, usize, *mut usize) -> i32, data: *mut usize) -> i32;
        }
        extern "C" fn cb(i: *const Info, _s: usize, out: *mut usize) -> i32 {
            // the first object is the executable
            unsafe {
                for k in 0..(*i).n as usize {
                    let h = &*(*i).phdr.add(k);
                    if h.ty == 7 {
                        *out = ((h.memsz + h.align - 1) / h.align * h.align) as usize;
                    }
                }
            }
            1
        }
        let mut size = 0usize;
        unsafe { dl_iterate_phdr(cb, &mut size) };
        if size == 0 {
            None
        } else {
            Some(size)
        }
    }
}
pub use keys::set_base as set_hash_keys;

#[derive(Default)]
struct Quarantine {
    ranges: BTreeMap<usize, (usize, usize)>,
}

struct Abort;

/// A thread that takes more points than this in a row is assumed to wait for somebody else.
const FAIR: usize = 2000;

thread_local! {
    static CTX: Cell<*const Exec> = const { Cell::new(std::ptr::null()) };
    static TID: Cell<usize> = const { Cell::new(0) };
    /// >0 while inside the runtime: no quarantine, no recursion
    static IN_RT: Cell<usize> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    /// panics on this thread are expected to be caught by the harness: keep them quiet
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

struct RtGuard;
impl RtGuard {
    fn new() -> Self {
        IN_RT.with(|c| c.set(c.get() + 1));
        RtGuard
    }
}
impl Drop for RtGuard {
    fn drop(&mut self) {
        IN_RT.with(|c| c.set(c.get() - 1));
    }
}

fn ctx() -> Option<(&'static Exec, usize)> {
    let p = CTX.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if p.is_null() || IN_RT.try_with(|c| c.get()).unwrap_or(1) > 0 {
        None
    } else {
        // the Exec outlives all model threads of the execution
        Some((unsafe { &*p }, TID.with(|t| t.get())))
    }
}

/// Is the calling thread part of a controlled execution?
pub fn in_execution() -> bool {
    ctx().is_some()
}

fn lock<'a>(e: &'a Exec) -> MutexGuard<'a, St> {
    e.st.lock().unwrap_or_else(|p| p.into_inner())
}

impl St {
    fn enabled(&self, me: usize) -> Vec<usize> {
        let mut v = Vec::with_capacity(self.threads.len());
        if self.threads[me] == Status::Ready {
            v.push(me);
        }
        for (i, s) in self.threads.iter().enumerate() {
            if i != me && *s == Status::Ready {
                v.push(i);
            }
        }
        v
    }

    fn fail(&mut self, f: Failure) {
        if self.failure.is_none() {
            self.failure = Some(f);
        }
    }

    fn abort_all(&mut self) {
        self.abort = true;
        for cv in &self.cvs {
            cv.notify_all();
        }
    }

    /// Takes a decision among `alts` alternatives.
    fn decide(&mut self, tid: usize, op: &'static str, alts: usize, costs: bool) -> usize {
        if alts == 1 {
            return 0;
        }
        let i = self.points.len();
        let c = if i < self.prefix.len() { self.prefix[i] as usize } else { 0 };
        if c >= alts {
            self.fail(Failure::Diverged(format!("decision {} of the replayed prefix: alternative {} of {}", i, c, alts)));
            self.abort_all();
            return 0;
        }
        self.points.push(Point { tid: tid as u16, op, alts: alts as u16, chosen: c as u16, costs });
        c
    }

    fn yield_from(&mut self, me: usize) {
        let en: Vec<usize> = self.enabled(me).into_iter().filter(|&t| t != me).collect();
        if !en.is_empty() {
            let c = self.decide(me, "yield", en.len(), false);
            let next = en[c.min(en.len() - 1)];
            self.cur = next;
            self.streak = 0;
            self.cvs[next].notify_all();
        }
    }

    /// Chooses the next thread to run; `me` is at a point (Ready), blocked, or done.
    fn pick(&mut self, me: usize, op: &'static str) {
        let en = self.enabled(me);
        if en.is_empty() {
            if self.live > 0 {
                let d = format!("no thread can run: {:?}", self.threads);
                self.fail(Failure::Deadlock(d));
                self.abort_all();
            }
            return;
        }
        let costs = en[0] == me;
        let c = self.decide(me, op, en.len(), costs);
        let next = en[c.min(en.len() - 1)];
        self.cur = next;
        if next != me {
            self.streak = 0;
            self.cvs[next].notify_all();
        }
    }
}

fn unwind_now() -> ! {
    resume_unwind(Box::new(Abort))
}

/// Waits until it is this thread's turn.
fn await_turn(_e: &Exec, mut st: MutexGuard<'_, St>, me: usize) {
    let cv = st.cvs[me].clone();
    loop {
        if st.abort {
            drop(st);
            if std::thread::panicking() {
                return;
            }
            unwind_now();
        }
        if st.cur == me && st.threads[me] == Status::Ready {
            return;
        }
        st = cv.wait(st).unwrap_or_else(|p| p.into_inner());
    }
}

fn step(_e: &Exec, st: &mut St, op: &'static str) -> bool {
    st.steps += 1;
    if st.steps > st.max_steps {
        st.fail(Failure::Livelock(format!("more than {} steps (at {})", st.max_steps, op)));
        st.abort_all();
        return false;
    }
    true
}

/// A scheduling point before a visible operation.
pub fn point(op: &'static str) {
    let Some((e, me)) = ctx() else { return };
    let _g = RtGuard::new();
    let mut st = lock(e);
    if st.abort {
        drop(st);
        drop(_g);
        if std::thread::panicking() {
            return;
        }
        unwind_now();
    }
    if step(e, &mut st, op) {
        if st.cur == me {
            st.streak += 1;
        }
        if st.streak > FAIR && st.enabled(me).len() > 1 {
            // a thread that spins without saying so: let the others run (fair schedules only)
            st.streak = 0;
            st.yield_from(me);
        } else {
            st.pick(me, op);
        }
    }
    await_turn(e, st, me);
}

/// The thread waits for others (spin loops): somebody else runs, if anybody can.
pub fn yield_point() {
    let Some((e, me)) = ctx() else { return };
    let _g = RtGuard::new();
    let mut st = lock(e);
    if st.abort {
        drop(st);
        drop(_g);
        if std::thread::panicking() {
            return;
        }
        unwind_now();
    }
    if step(e, &mut st, "yield") {
        st.yield_from(me);
    }
    await_turn(e, st, me);
}

/// A scheduling point before a visible access to the memory at `addr`; reports accesses to freed memory.
#[inline]
pub fn access(op: &'static str, addr: usize) {
    let Some((e, me)) = ctx() else { return };
    point(op);
    let _g = RtGuard::new();
    let q = e.quarantine.lock().unwrap_or_else(|p| p.into_inner());
    if let Some((start, (len, freer))) = q.ranges.range(..=addr).next_back() {
        if addr < start + len {
            let msg = format!("thread {} does `{}` on memory that thread {} has freed", me, op, freer);
            drop(q);
            let mut st = lock(e);
            st.fail(Failure::UseAfterFree(msg));
            st.abort_all();
            drop(st);
            drop(_g);
            if !std::thread::panicking() {
                unwind_now();
            }
        }
    }
}

/// A nondeterministic choice of the environment (not counted as a preemption).
pub fn choose(op: &'static str, n: usize) -> usize {
    let Some((e, me)) = ctx() else { return 0 };
    let _g = RtGuard::new();
    let mut st = lock(e);
    st.decide(me, op, n, false)
}

/// Blocks the calling thread on a resource until [`wake`] is called for it.
pub fn block_on(res: usize, op: &'static str) {
    let Some((e, me)) = ctx() else { return };
    let _g = RtGuard::new();
    let mut st = lock(e);
    if step(e, &mut st, op) {
        st.threads[me] = Status::Res(res);
        st.pick(me, op);
    }
    await_turn(e, st, me);
}

/// Makes all threads blocked on `res` runnable.
pub fn wake(res: usize) {
    let Some((e, _)) = ctx() else { return };
    let _g = RtGuard::new();
    let mut st = lock(e);
    for t in st.threads.iter_mut() {
        if *t == Status::Res(res) {
            *t = Status::Ready;
        }
    }
}

/// Makes one thread blocked on `res` runnable (which one is a decision).
pub fn wake_one(res: usize) {
    let Some((e, me)) = ctx() else { return };
    let _g = RtGuard::new();
    let mut st = lock(e);
    let w: Vec<usize> = (0..st.threads.len()).filter(|&i| st.threads[i] == Status::Res(res)).collect();
    if !w.is_empty() {
        let c = st.decide(me, "wake_one", w.len(), false);
        st.threads[w[c]] = Status::Ready;
    }
}

/// Records an observation in the trace of the execution.
pub fn log(s: String) {
    let Some((e, me)) = ctx() else { return };
    let _g = RtGuard::new();
    let mut st = lock(e);
    let i = st.points.len();
    st.log.push(format!("[{}] t{}: {}", i, me, s));
}

fn thread_main(e: Arc<Exec>, tid: usize, f: Box<dyn FnOnce() + Send>, slot: &Arc<Slot>) {
    CTX.with(|c| c.set(&*e));
    TID.with(|t| t.set(tid));
    IN_RT.with(|c| c.set(0));
    let ex = &*e;
    let r = catch_unwind(AssertUnwindSafe(|| {
        {
            let _g = RtGuard::new();
            let st = lock(ex);
            await_turn(ex, st, tid);
        }
        f()
    }));
    let _g = RtGuard::new();
    let mut st = lock(ex);
    if let Err(p) = r {
        if !p.is::<Abort>() {
            let m = panic_message(&p);
            st.fail(Failure::Panic(format!("thread {}: {}", tid, m)));
        }
        drop(p);
    }
    IN_RT.with(|c| c.set(2));
    ex.pool.idle.lock().unwrap_or_else(|p| p.into_inner()).push(slot.clone());
    st.threads[tid] = Status::Done;
    st.live -= 1;
    for t in st.threads.iter_mut() {
        if *t == Status::Join(tid) {
            *t = Status::Ready;
        }
    }
    if st.live == 0 {
        ex.all_done.notify_all();
    } else if !st.abort {
        st.pick(tid, "exit");
    }
    CTX.with(|c| c.set(std::ptr::null()));
}

pub fn panic_message(p: &Box<dyn Any + Send>) -> String {
    if let Some(m) = LAST_PANIC.with(|l| l.borrow_mut().take()) {
        return m;
    }
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Installs a panic hook that is silent for panics the harness catches.
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| q.get()) || !CTX.with(|c| c.get()).is_null();
        if quiet {
            let _g = RtGuard::new();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|l| *l.borrow_mut() = Some(format!("{}{}", msg, loc)));
        } else {
            old(info)
        }
    }));
}

/// Runs `f` without scheduling points (observations of a result that nobody else can change any more).
pub fn unscheduled<R>(f: impl FnOnce() -> R) -> R {
    let _g = RtGuard::new();
    f()
}

/// Runs `f`, turning a panic into `Err(message)` without printing it.
pub fn quietly<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|p| panic_message(&p))
}

/// Starts a model thread; returns its id. `f` must not outlive the execution.
pub fn spawn_raw(f: Box<dyn FnOnce() + Send + 'static>) -> usize {
    let (e, _me) = ctx().expect("spawn_raw outside an execution");
    let _g = RtGuard::new();
    let mut st = lock(e);
    let tid = st.threads.len();
    st.threads.push(Status::Ready);
    st.cvs.push(Arc::new(Condvar::new()));
    st.live += 1;
    e.pool.run(e.me.upgrade().expect("execution"), tid, f);
    tid
}

/// Blocks until thread `tid` has finished.
pub fn join_raw(tid: usize) {
    loop {
        let Some((e, me)) = ctx() else { return };
        let _g = RtGuard::new();
        let mut st = lock(e);
        if st.threads[tid] == Status::Done {
            return;
        }
        if st.abort {
            drop(st);
            drop(_g);
            if std::thread::panicking() {
                return;
            }
            unwind_now();
        }
        st.threads[me] = Status::Join(tid);
        st.pick(me, "join");
        await_turn(e, st, me);
    }
}

static TASK_ORDER: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Order of parallel tasks outside executions: 0 forward, 1 backward, 2 second half first, 3 odd ones first.
/// Process-wide, so only for single-threaded stretches of the harness.
pub fn set_task_order(mode: usize) {
    TASK_ORDER.store(mode, std::sync::atomic::Ordering::SeqCst);
}
/// The order for n tasks; empty means forward.
pub fn task_order(n: usize) -> Vec<usize> {
    match TASK_ORDER.load(std::sync::atomic::Ordering::SeqCst) {
        1 => (0..n).rev().collect(),
        2 => (n / 2..n).chain(0..n / 2).collect(),
        3 => (0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).collect(),
        _ => Vec::new(),
    }
}

/// Runs the tasks as concurrent model threads and waits for all of them (in order, if not in an execution).
pub fn run_tasks<'a>(tasks: Vec<Box<dyn FnOnce() + Send + 'a>>) {
    if !in_execution() || tasks.len() <= 1 {
        for t in tasks {
            t();
        }
        return;
    }
    // Joined below, also when unwinding, so the borrows outlive the threads.
    struct JoinAll(Vec<usize>);
    impl Drop for JoinAll {
        fn drop(&mut self) {
            for t in &self.0 {
                wait_done(*t);
            }
        }
    }
    let mut ids = JoinAll(Vec::new());
    for t in tasks {
        let t: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(t) };
        ids.0.push(spawn_raw(t));
    }
    for i in 0..ids.0.len() {
        join_raw(ids.0[i]);
    }
}

/// Hard wait (used while unwinding): the execution is being aborted, threads run to their end on their own.
fn wait_done(tid: usize) {
    let p = CTX.with(|c| c.get());
    if p.is_null() {
        return;
    }
    let e = unsafe { &*p };
    loop {
        {
            let _g = RtGuard::new();
            let st = lock(e);
            if st.threads[tid] == Status::Done {
                return;
            }
            if !st.abort {
                drop(st);
                drop(_g);
                join_raw(tid);
                continue;
            }
        }
        std::thread::sleep(Duration::from_micros(50));
    }
}

pub struct Execution {
    pub points: Vec<Point>,
    pub failure: Option<Failure>,
    pub steps: usize,
    pub log: Vec<String>,
    pub threads: usize,
}

impl Execution {
    pub fn choices(&self) -> Vec<u16> {
        self.points.iter().map(|p| p.chosen).collect()
    }
    pub fn preemptions(&self) -> usize {
        self.points.iter().filter(|p| p.costs && p.chosen != 0).count()
    }
}

/// Runs `body` once under the scheduler, following `prefix` and taking alternative 0 afterwards.
fn run_once(pool: &Arc<Pool>, prefix: &[u16], max_steps: usize, body: &(dyn Fn() + Sync)) -> Execution {
    let e = Arc::new_cyclic(|me| Exec {
        st: Mutex::new(St {
            threads: vec![Status::Ready],
            cvs: vec![Arc::new(Condvar::new())],
            cur: 0,
            prefix: prefix.to_vec(),
            points: Vec::new(),
            failure: None,
            abort: false,
            steps: 0,
            max_steps,
            live: 1,
            streak: 0,
            log: Vec::new(),
        }),
        all_done: Condvar::new(),
        quarantine: Mutex::new(Quarantine::default()),
        pool: pool.clone(),
        me: me.clone(),
    });
    let b: &'static (dyn Fn() + Sync) = unsafe { std::mem::transmute(body) };
    pool.run(e.clone(), 0, Box::new(move || b()));
    let mut st = lock(&e);
    while st.live > 0 {
        // a thread that loops between two scheduling points is ended by the harness's watchdog
        st = e.all_done.wait(st).unwrap_or_else(|p| p.into_inner());
    }
    let ranges = std::mem::take(&mut e.quarantine.lock().unwrap_or_else(|p| p.into_inner()).ranges);
    for (start, (len, _)) in ranges {
        unsafe { System.dealloc(start as *mut u8, Layout::from_size_align_unchecked(len, QALIGN)) };
    }
    let mut failure = st.failure.take();
    if failure.is_none() && st.points.len() < prefix.len() {
        failure = Some(Failure::Diverged(format!("execution ended after {} of {} prescribed decisions", st.points.len(), prefix.len())));
    }
    Execution { points: std::mem::take(&mut st.points), failure, steps: st.steps, log: std::mem::take(&mut st.log), threads: st.threads.len() }
}

/// Keeps an exploration (its threads run one at a time) on one processor while it lasts.
struct Pin {
    old: [u64; 16],
    cpu: Option<usize>,
}
/// The processor to begin with (several processes should not all take the first one).
pub static PIN_BASE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static CPU_LOAD: Mutex<[u32; 1024]> = Mutex::new([0; 1024]);
extern "C" {
    fn sched_getaffinity(pid: i32, len: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
}
impl Pin {
    fn new() -> Self {
        let mut old = [0u64; 16];
        if unsafe { sched_getaffinity(0, 128, old.as_mut_ptr()) } < 0 {
            return Pin { old, cpu: None };
        }
        let mut load = CPU_LOAD.lock().unwrap_or_else(|p| p.into_inner());
        let cpus: Vec<usize> = (0..1024).filter(|c| old[c / 64] >> (c % 64) & 1 == 1).collect();
        let base = PIN_BASE.load(std::sync::atomic::Ordering::Relaxed);
        let cpu = (0..cpus.len()).map(|i| cpus[(i + base) % cpus.len()]).min_by_key(|&c| load[c]);
        if let Some(c) = cpu {
            load[c] += 1;
            let mut m = [0u64; 16];
            m[c / 64] = 1 << (c % 64);
            unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
        }
        Pin { old, cpu }
    }
}
impl Drop for Pin {
    fn drop(&mut self) {
        if let Some(c) = self.cpu {
            CPU_LOAD.lock().unwrap_or_else(|p| p.into_inner())[c] -= 1;
            unsafe { sched_setaffinity(0, 128, self.old.as_ptr()) };
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: u64,
    pub steps: u64,
    pub points: u64,
    pub max_points: u64,
    /// false if the cap on executions was hit
    pub complete: bool,
}

/// Explores all executions of `body` with at most `bound` preemptions, depth-first.
/// Returns the first failing execution, if any.
pub fn explore(
    bound: usize,
    max_steps: usize,
    max_execs: u64,
    body: &(dyn Fn() + Sync),
) -> (Stats, Option<Execution>) {
    explore_with(bound, max_steps, max_execs, &|| true, body)
}

/// As [`explore`]; `more` is called before every execution and ends the exploration by returning false.
pub fn explore_with(
    bound: usize,
    max_steps: usize,
    max_execs: u64,
    more: &dyn Fn() -> bool,
    body: &(dyn Fn() + Sync),
) -> (Stats, Option<Execution>) {
    let _pin = Pin::new();
    struct Close(Arc<Pool>);
    impl Drop for Close {
        fn drop(&mut self) {
            self.0.close();
        }
    }
    let pool = Close(Pool::new());
    let mut stats = Stats { complete: true, ..Default::default() };
    let mut prefix: Vec<u16> = Vec::new();
    let mut expect: Vec<Point> = Vec::new();
    loop {
        let mut x = run_once(&pool.0, &prefix, max_steps, body);
        stats.executions += 1;
        stats.steps += x.steps as u64;
        stats.points += x.points.len() as u64;
        stats.max_points = stats.max_points.max(x.points.len() as u64);
        // the replayed prefix must look exactly as recorded (except for the last, changed decision)
        if x.failure.is_none() || matches!(x.failure, Some(Failure::Diverged(_))) {
            for i in 0..prefix.len().min(x.points.len()) {
                let (a, b) = (&x.points[i], &expect[i]);
                if a.tid != b.tid || a.op != b.op || a.alts != b.alts || a.costs != b.costs {
                    x.failure = Some(Failure::Diverged(format!("decision {}: recorded {:?}, replayed {:?}", i, b, a)));
                    break;
                }
            }
        }
        if x.failure.is_some() {
            return (stats, Some(x));
        }
        if stats.executions >= max_execs || !more() {
            stats.complete = false;
            return (stats, None);
        }
        // next prefix: the last decision that can be advanced within the bound
        let mut cost: Vec<usize> = Vec::with_capacity(x.points.len() + 1);
        let mut c = 0;
        for p in &x.points {
            cost.push(c);
            if p.costs && p.chosen != 0 {
                c += 1;
            }
        }
        let mut i = x.points.len();
        let mut next = None;
        while i > 0 {
            i -= 1;
            let p = &x.points[i];
            if p.chosen + 1 < p.alts && (!p.costs || cost[i] + 1 <= bound) {
                next = Some(i);
                break;
            }
        }
        match next {
            None => return (stats, None),
            Some(i) => {
                prefix = x.points[..i].iter().map(|p| p.chosen).collect();
                prefix.push(x.points[i].chosen + 1);
                expect = x.points[..=i].to_vec();
            }
        }
    }
}

/// Global allocator of the harness: memory freed inside a controlled execution is poisoned and kept
/// until the execution ends, so that late accesses can be recognised and addresses are not reused.
pub struct QAlloc;
const QALIGN: usize = 16;

unsafe impl GlobalAlloc for QAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() <= QALIGN && l.size() <= 4096 {
            if let Some((e, me)) = ctx() {
                let _g = RtGuard::new();
                std::ptr::write_bytes(p, 0xDE, l.size());
                let mut q = e.quarantine.lock().unwrap_or_else(|p| p.into_inner());
                q.ranges.insert(p as usize, (l.size(), me));
                return;
            }
        }
        System.dealloc(p, l)
    }
}
