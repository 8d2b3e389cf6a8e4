//! The standard library as the code under test sees it: the real one, except that locks,
//! once cells, atomics, thread-local variables and threads belong to the simulator. It takes the
//! place of `std` by `--extern std=...` (see `bin/rustc-wrapper.sh`).

pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;

    pub use crate::locks::{
        Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard,
    };
    pub mod atomic {
        pub use crate::atomics::{
            AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr, AtomicU16, AtomicU32, AtomicU64,
            AtomicU8, AtomicUsize,
        };
        pub use ::std::sync::atomic::*;
    }
}

pub mod thread {
    pub use crate::local::LocalKey;
    pub use crate::threads::{scope, spawn, JoinHandle, Scope, ScopedJoinHandle};
    pub use ::std::thread::*;

    pub fn yield_now() {
        simrt::spinning();
    }
}

pub mod hint {
    pub use ::std::hint::*;

    pub fn spin_loop() {
        simrt::spinning();
    }
}

mod atomics;
mod local;
mod locks;
mod threads;
