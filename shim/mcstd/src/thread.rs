//! `std::thread` with spawn, scope and yield under control.
pub use std::thread::*;
use crate::rt;
use std::any::Any;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

type Slot<T> = Arc<Mutex<Option<std::thread::Result<T>>>>;

enum Inner<T> {
    Std(std::thread::JoinHandle<T>),
    Model(usize, Slot<T>),
}
pub struct JoinHandle<T>(Inner<T>);

impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        match self.0 {
            Inner::Std(h) => h.join(),
            Inner::Model(tid, slot) => {
                rt::join_raw(tid);
                let r = slot.lock().unwrap().take();
                r.unwrap_or_else(|| Err(Box::new("aborted") as Box<dyn Any + Send>))
            }
        }
    }
}

fn model_spawn<'a, F, T>(f: F) -> (usize, Slot<T>)
where
    F: FnOnce() -> T + Send + 'a,
    T: Send + 'a,
{
    let slot: Slot<T> = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    let b: Box<dyn FnOnce() + Send + 'a> = Box::new(move || {
        let r = catch_unwind(AssertUnwindSafe(f));
        match r {
            Ok(v) => *s2.lock().unwrap() = Some(Ok(v)),
            Err(p) => std::panic::resume_unwind(p),
        }
    });
    let b: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(b) };
    let tid = rt::spawn_raw(b);
    (tid, slot)
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    if rt::in_execution() {
        let (t, s) = model_spawn(f);
        JoinHandle(Inner::Model(t, s))
    } else {
        JoinHandle(Inner::Std(std::thread::spawn(f)))
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    tids: Mutex<Vec<usize>>,
    std: Option<&'scope std::thread::Scope<'scope, 'env>>,
    _p: PhantomData<(&'scope mut &'scope (), &'env mut &'env ())>,
}
enum SInner<'scope, T> {
    Std(std::thread::ScopedJoinHandle<'scope, T>),
    Model(usize, Slot<T>),
}
pub struct ScopedJoinHandle<'scope, T>(SInner<'scope, T>);
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> std::thread::Result<T> {
        match self.0 {
            SInner::Std(h) => h.join(),
            SInner::Model(tid, slot) => {
                rt::join_raw(tid);
                let r = slot.lock().unwrap().take();
                r.unwrap_or_else(|| Err(Box::new("aborted") as Box<dyn Any + Send>))
            }
        }
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        match self.std {
            Some(s) => ScopedJoinHandle(SInner::Std(s.spawn(f))),
            None => {
                let (t, s) = model_spawn(f);
                self.tids.lock().unwrap().push(t);
                ScopedJoinHandle(SInner::Model(t, s))
            }
        }
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    if rt::in_execution() {
        let s = Scope { tids: Mutex::new(Vec::new()), std: None, _p: PhantomData };
        let sp: &Scope<'_, 'env> = unsafe { &*(&s as *const _) };
        let r = catch_unwind(AssertUnwindSafe(|| f(sp)));
        let tids = s.tids.lock().unwrap().clone();
        for t in tids {
            rt::join_raw(t);
        }
        match r {
            Ok(v) => v,
            Err(p) => std::panic::resume_unwind(p),
        }
    } else {
        std::thread::scope(|st| {
            let st: &std::thread::Scope<'_, '_> = unsafe { std::mem::transmute(st) };
            let s = Scope { tids: Mutex::new(Vec::new()), std: Some(st), _p: PhantomData };
            let sp: &Scope<'_, 'env> = unsafe { &*(&s as *const _) };
            f(sp)
        })
    }
}
pub fn yield_now() {
    if rt::in_execution() {
        rt::yield_point()
    } else {
        std::thread::yield_now()
    }
}
pub fn sleep(d: std::time::Duration) {
    if rt::in_execution() {
        rt::yield_point()
    } else {
        std::thread::sleep(d)
    }
}
