//! A shadow of `std`.
//!
//! The crate under test is compiled with `--extern std=libmcstd`, so every path `std::...` written in it resolves
//! here. Everything is std's own, except `std::sync` (atomics, Mutex, RwLock, Condvar) and `std::thread`
//! (spawn, scope, yield), which are scheduling points of the controlled scheduler in [`rt`].
//! Outside a controlled execution all of them behave exactly as std's.
pub use std::*;

/// `std::hint` with a controlled spin_loop
pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        if crate::rt::in_execution() {
            crate::rt::yield_point()
        } else {
            std::hint::spin_loop()
        }
    }
}
pub mod rt;
pub mod sync;
pub mod thread;
