//! `std::sync` with atomics and locks under control.
pub use std::sync::*;
use crate::rt;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicBool as StdBool, AtomicUsize as StdUsize, Ordering as O};

pub mod atomic {
    pub use std::sync::atomic::*;
    use crate::rt::access;
    use std::fmt;
    use std::sync::atomic as sa;

    pub fn fence(o: Ordering) {
        crate::rt::point("fence");
        sa::fence(o)
    }

    macro_rules! common {
        ($N:ident, $T:ty) => {
            impl $N {
                pub const fn new(v: $T) -> Self {
                    $N(sa::$N::new(v))
                }
                #[inline]
                fn at(&self, op: &'static str) {
                    access(op, self as *const _ as usize)
                }
                pub fn load(&self, o: Ordering) -> $T {
                    self.at("load");
                    self.0.load(o)
                }
                pub fn store(&self, v: $T, o: Ordering) {
                    self.at("store");
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $T, o: Ordering) -> $T {
                    self.at("swap");
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(&self, a: $T, b: $T, s: Ordering, f: Ordering) -> Result<$T, $T> {
                    self.at("cas");
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(&self, a: $T, b: $T, s: Ordering, f: Ordering) -> Result<$T, $T> {
                    self.at("cas");
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($T) -> Option<$T>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$T, $T> {
                    let mut prev = self.load(f);
                    while let Some(next) = g(prev) {
                        match self.compare_exchange_weak(prev, next, s, f) {
                            x @ Ok(_) => return x,
                            Err(n) => prev = n,
                        }
                    }
                    Err(prev)
                }
                pub fn get_mut(&mut self) -> &mut $T {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $T {
                    self.0.into_inner()
                }
                pub fn as_ptr(&self) -> *mut $T {
                    self.0.as_ptr()
                }
            }
            impl Default for $N {
                fn default() -> Self {
                    $N(Default::default())
                }
            }
            impl fmt::Debug for $N {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
            impl From<$T> for $N {
                fn from(v: $T) -> Self {
                    Self::new(v)
                }
            }
        };
    }
    macro_rules! rmw {
        ($N:ident, $T:ty, $($f:ident)*) => {
            impl $N {
                $(pub fn $f(&self, v: $T, o: Ordering) -> $T {
                    self.at(stringify!($f));
                    self.0.$f(v, o)
                })*
            }
        };
    }
    macro_rules! ints {
        ($($N:ident $T:ty;)*) => { $(
            #[repr(transparent)]
            pub struct $N(sa::$N);
            common!($N, $T);
            rmw!($N, $T, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);
        )* };
    }
    ints! {
        AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize;
        AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize;
    }
    #[repr(transparent)]
    pub struct AtomicBool(sa::AtomicBool);
    common!(AtomicBool, bool);
    rmw!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);

    #[repr(transparent)]
    pub struct AtomicPtr<T>(sa::AtomicPtr<T>);
    impl<T> AtomicPtr<T> {
        pub const fn new(v: *mut T) -> Self {
            AtomicPtr(sa::AtomicPtr::new(v))
        }
        #[inline]
        fn at(&self, op: &'static str) {
            access(op, self as *const _ as usize)
        }
        pub fn load(&self, o: Ordering) -> *mut T {
            self.at("load");
            self.0.load(o)
        }
        pub fn store(&self, v: *mut T, o: Ordering) {
            self.at("store");
            self.0.store(v, o)
        }
        pub fn swap(&self, v: *mut T, o: Ordering) -> *mut T {
            self.at("swap");
            self.0.swap(v, o)
        }
        pub fn compare_exchange(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
            self.at("cas");
            self.0.compare_exchange(a, b, s, f)
        }
        pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
            self.at("cas");
            self.0.compare_exchange(a, b, s, f)
        }
        pub fn fetch_update<F: FnMut(*mut T) -> Option<*mut T>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<*mut T, *mut T> {
            let mut prev = self.load(f);
            while let Some(next) = g(prev) {
                match self.compare_exchange_weak(prev, next, s, f) {
                    x @ Ok(_) => return x,
                    Err(n) => prev = n,
                }
            }
            Err(prev)
        }
        pub fn get_mut(&mut self) -> &mut *mut T {
            self.0.get_mut()
        }
        pub fn into_inner(self) -> *mut T {
            self.0.into_inner()
        }
        pub fn as_ptr(&self) -> *mut *mut T {
            self.0.as_ptr()
        }
    }
    impl<T> Default for AtomicPtr<T> {
        fn default() -> Self {
            Self::new(std::ptr::null_mut())
        }
    }
    impl<T> fmt::Debug for AtomicPtr<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T> From<*mut T> for AtomicPtr<T> {
        fn from(v: *mut T) -> Self {
            Self::new(v)
        }
    }
}

// ---------------------------------------------------------------------------------------------------------- Mutex

/// In an execution `held` is the lock; outside, the std mutex is.
pub struct Mutex<T: ?Sized> {
    held: StdBool,
    inner: std::sync::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    m: &'a Mutex<T>,
    g: Option<std::sync::MutexGuard<'a, T>>,
    model: bool,
}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { held: StdBool::new(false), inner: std::sync::Mutex::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn addr(&self) -> usize {
        &self.held as *const _ as usize
    }
    fn acquire(&self) {
        rt::access("lock", self.addr());
        while self.held.load(O::Relaxed) {
            rt::block_on(self.addr(), "lock-wait");
        }
        self.held.store(true, O::Relaxed);
    }
    fn wrap<'a>(&'a self, r: LockResult<std::sync::MutexGuard<'a, T>>, model: bool) -> LockResult<MutexGuard<'a, T>> {
        match r {
            Ok(g) => Ok(MutexGuard { m: self, g: Some(g), model }),
            Err(p) => Err(PoisonError::new(MutexGuard { m: self, g: Some(p.into_inner()), model })),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let model = rt::in_execution();
        if model {
            self.acquire();
        }
        self.wrap(self.inner.lock(), model)
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if rt::in_execution() {
            rt::access("try_lock", self.addr());
            if self.held.load(O::Relaxed) {
                return Err(TryLockError::WouldBlock);
            }
            self.held.store(true, O::Relaxed);
            return self.wrap(self.inner.lock(), true).map_err(TryLockError::Poisoned);
        }
        match self.inner.try_lock() {
            Ok(g) => Ok(MutexGuard { m: self, g: Some(g), model: false }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(p)) => {
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { m: self, g: Some(p.into_inner()), model: false })))
            }
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        if self.model {
            self.m.held.store(false, O::Relaxed);
            rt::wake(self.m.addr());
        }
    }
}

// --------------------------------------------------------------------------------------------------------- RwLock

pub struct RwLock<T: ?Sized> {
    /// 0 free, usize::MAX writer, else number of readers
    held: StdUsize,
    inner: std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    l: &'a RwLock<T>,
    g: Option<std::sync::RwLockReadGuard<'a, T>>,
    model: bool,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    l: &'a RwLock<T>,
    g: Option<std::sync::RwLockWriteGuard<'a, T>>,
    model: bool,
}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { held: StdUsize::new(0), inner: std::sync::RwLock::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    fn addr(&self) -> usize {
        &self.held as *const _ as usize
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let model = rt::in_execution();
        if model {
            rt::access("read", self.addr());
            while self.held.load(O::Relaxed) == usize::MAX {
                rt::block_on(self.addr(), "read-wait");
            }
            self.held.fetch_add(1, O::Relaxed);
        }
        match self.inner.read() {
            Ok(g) => Ok(RwLockReadGuard { l: self, g: Some(g), model }),
            Err(p) => Err(PoisonError::new(RwLockReadGuard { l: self, g: Some(p.into_inner()), model })),
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let model = rt::in_execution();
        if model {
            rt::access("write", self.addr());
            while self.held.load(O::Relaxed) != 0 {
                rt::block_on(self.addr(), "write-wait");
            }
            self.held.store(usize::MAX, O::Relaxed);
        }
        match self.inner.write() {
            Ok(g) => Ok(RwLockWriteGuard { l: self, g: Some(g), model }),
            Err(p) => Err(PoisonError::new(RwLockWriteGuard { l: self, g: Some(p.into_inner()), model })),
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if rt::in_execution() && {
            rt::point("try_read");
            self.held.load(O::Relaxed) == usize::MAX
        } {
            return Err(TryLockError::WouldBlock);
        }
        self.read().map_err(TryLockError::Poisoned)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if rt::in_execution() && {
            rt::point("try_write");
            self.held.load(O::Relaxed) != 0
        } {
            return Err(TryLockError::WouldBlock);
        }
        self.write().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        if self.model {
            self.l.held.fetch_sub(1, O::Relaxed);
            rt::wake(self.l.addr());
        }
    }
}
impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        if self.model {
            self.l.held.store(0, O::Relaxed);
            rt::wake(self.l.addr());
        }
    }
}

// -------------------------------------------------------------------------------------------------------- Condvar

#[derive(Default)]
pub struct Condvar {
    inner: std::sync::Condvar,
    _b: u8,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { inner: std::sync::Condvar::new(), _b: 0 }
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        if rt::in_execution() {
            let m = g.m;
            drop(g);
            rt::block_on(self.addr(), "cond-wait");
            return m.lock();
        }
        let m = g.m;
        let ig = g.g.take().unwrap();
        std::mem::forget(g);
        m.wrap(self.inner.wait(ig), false)
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut c: F) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        if rt::in_execution() {
            rt::wake_one(self.addr())
        } else {
            self.inner.notify_one()
        }
    }
    pub fn notify_all(&self) {
        if rt::in_execution() {
            rt::wake(self.addr())
        } else {
            self.inner.notify_all()
        }
    }
}
