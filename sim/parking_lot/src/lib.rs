//! Drop-in replacement for the parts of `parking_lot` a trie library can reasonably use,
//! with the blocking done by the simulator. It is what makes every lock operation of the
//! code under test a scheduling point.
//!
//! Semantics follow parking_lot: a waiting writer keeps new readers out (except recursive
//! ones), nothing is poisoned, and locks are not reentrant. Outside a simulation the locks
//! still work (they spin).

use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub use lock_api;
use simrt::{point, Kind};

fn wait(addr: usize, what: &'static str, spins: &mut u64) {
    if !simrt::block_on(addr, what) {
        *spins += 1;
        std::thread::yield_now();
        if *spins > 20_000_000 {
            panic!("a lock used outside the simulation is never released ({what})");
        }
    }
}

/// readers >= 0: number of readers; -1: a writer.
pub struct RawRwLock {
    state: AtomicIsize,
    upgradable: AtomicUsize,
    waiting_writers: AtomicUsize,
}

impl RawRwLock {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn try_shared(&self, recursive: bool) -> bool {
        let s = self.state.load(SeqCst);
        if s < 0 || (self.waiting_writers.load(SeqCst) > 0 && !(recursive && s > 0)) {
            return false;
        }
        self.state.compare_exchange(s, s + 1, SeqCst, SeqCst).is_ok()
    }
    fn try_excl(&self) -> bool {
        self.upgradable.load(SeqCst) == 0 && self.state.compare_exchange(0, -1, SeqCst, SeqCst).is_ok()
    }
    fn released(&self) {
        simrt::wake(self.addr());
        point(Kind::Unlocked);
    }
    fn shared(&self, recursive: bool) {
        point(Kind::LockTry);
        let mut spins = 0;
        while !self.try_shared(recursive) {
            wait(self.addr(), "a read lock", &mut spins);
        }
        point(Kind::LockHeld);
    }
    /// Runs `try_it` until it succeeds, announced as a waiting writer meanwhile.
    fn as_writer(&self, what: &'static str, try_it: impl Fn() -> bool) {
        point(Kind::LockTry);
        if !try_it() {
            struct Waiting<'a>(&'a RawRwLock);
            impl Drop for Waiting<'_> {
                fn drop(&mut self) {
                    self.0.waiting_writers.fetch_sub(1, SeqCst);
                    simrt::wake(self.0.addr());
                }
            }
            self.waiting_writers.fetch_add(1, SeqCst);
            let _w = Waiting(self);
            let mut spins = 0;
            while !try_it() {
                wait(self.addr(), what, &mut spins);
            }
        }
        point(Kind::LockHeld);
    }
    /// A timed attempt gives the others a bounded number of chances to release the lock.
    fn timed(&self, f: impl Fn() -> bool) -> bool {
        for _ in 0..16 {
            point(Kind::LockTry);
            if f() {
                point(Kind::LockHeld);
                return true;
            }
        }
        false
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock {
        state: AtomicIsize::new(0),
        upgradable: AtomicUsize::new(0),
        waiting_writers: AtomicUsize::new(0),
    };
    type GuardMarker = lock_api::GuardNoSend;

    fn lock_shared(&self) {
        self.shared(false)
    }
    fn try_lock_shared(&self) -> bool {
        point(Kind::LockTry);
        let r = self.try_shared(false);
        if r {
            point(Kind::LockHeld);
        }
        r
    }
    unsafe fn unlock_shared(&self) {
        self.state.fetch_sub(1, SeqCst);
        self.released();
    }
    fn lock_exclusive(&self) {
        self.as_writer("a write lock", || self.try_excl())
    }
    fn try_lock_exclusive(&self) -> bool {
        point(Kind::LockTry);
        let r = self.try_excl();
        if r {
            point(Kind::LockHeld);
        }
        r
    }
    unsafe fn unlock_exclusive(&self) {
        self.state.store(0, SeqCst);
        self.released();
    }
    fn is_locked(&self) -> bool {
        self.state.load(SeqCst) != 0 || self.upgradable.load(SeqCst) != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.state.load(SeqCst) < 0
    }
}

unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}

unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.shared(true)
    }
    fn try_lock_shared_recursive(&self) -> bool {
        point(Kind::LockTry);
        self.try_shared(true)
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.state.store(1, SeqCst);
        self.released();
    }
}

unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        point(Kind::LockTry);
        let mut spins = 0;
        while !lock_api::RawRwLockUpgrade::try_lock_upgradable(self) {
            wait(self.addr(), "an upgradable read lock", &mut spins);
        }
        point(Kind::LockHeld);
    }
    fn try_lock_upgradable(&self) -> bool {
        if self.upgradable.load(SeqCst) != 0 || !self.try_shared(false) {
            return false;
        }
        self.upgradable.store(1, SeqCst);
        true
    }
    unsafe fn unlock_upgradable(&self) {
        self.upgradable.store(0, SeqCst);
        self.state.fetch_sub(1, SeqCst);
        self.released();
    }
    unsafe fn upgrade(&self) {
        self.as_writer("an upgrade to a write lock", || {
            let ok = self.state.compare_exchange(1, -1, SeqCst, SeqCst).is_ok();
            if ok {
                self.upgradable.store(0, SeqCst);
            }
            ok
        })
    }
    unsafe fn try_upgrade(&self) -> bool {
        point(Kind::LockTry);
        let ok = self.state.compare_exchange(1, -1, SeqCst, SeqCst).is_ok();
        if ok {
            self.upgradable.store(0, SeqCst);
        }
        ok
    }
}

unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.upgradable.store(0, SeqCst);
        self.released();
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.upgradable.store(1, SeqCst);
        self.state.store(1, SeqCst);
        self.released();
    }
}

unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, _: Duration) -> bool {
        self.timed(|| self.try_shared(false))
    }
    fn try_lock_shared_until(&self, _: Instant) -> bool {
        self.timed(|| self.try_shared(false))
    }
    fn try_lock_exclusive_for(&self, _: Duration) -> bool {
        self.timed(|| self.try_excl())
    }
    fn try_lock_exclusive_until(&self, _: Instant) -> bool {
        self.timed(|| self.try_excl())
    }
}

pub struct RawMutex(RawRwLock);

unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex(<RawRwLock as lock_api::RawRwLock>::INIT);
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        self.0.as_writer("a mutex", || self.0.try_excl())
    }
    fn try_lock(&self) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(&self.0)
    }
    unsafe fn unlock(&self) {
        lock_api::RawRwLock::unlock_exclusive(&self.0)
    }
    fn is_locked(&self) -> bool {
        lock_api::RawRwLock::is_locked(&self.0)
    }
}

unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}

unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _: Duration) -> bool {
        self.0.timed(|| self.0.try_excl())
    }
    fn try_lock_until(&self, _: Instant) -> bool {
        self.0.timed(|| self.0.try_excl())
    }
}

/// Tasks count as threads.
pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        let n = match simrt::task_id() {
            Some(t) => t + 1,
            None => KEY.with(|x| x as *const _ as usize),
        };
        std::num::NonZeroUsize::new(n).unwrap()
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RawFairMutex = RawMutex;
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;
pub type MappedFairMutexGuard<'a, T> = MappedMutexGuard<'a, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type MappedReentrantMutexGuard<'a, T> = lock_api::MappedReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcMutexGuard<T> = lock_api::ArcMutexGuard<RawMutex, T>;
#[cfg(feature = "arc_lock")]
pub type ArcRwLockReadGuard<T> = lock_api::ArcRwLockReadGuard<RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcRwLockWriteGuard<T> = lock_api::ArcRwLockWriteGuard<RawRwLock, T>;

pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}

#[derive(Default)]
pub struct Condvar {
    generation: AtomicUsize,
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar { generation: AtomicUsize::new(0) }
    }
    pub fn notify_one(&self) -> bool {
        self.notify_all() > 0
    }
    pub fn notify_all(&self) -> usize {
        self.generation.fetch_add(1, SeqCst);
        simrt::wake(self as *const _ as usize);
        1
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        let before = self.generation.load(SeqCst);
        MutexGuard::unlocked(g, || {
            let mut spins = 0;
            while self.generation.load(SeqCst) == before {
                wait(self as *const _ as usize, "a condition variable", &mut spins);
            }
        })
    }
    pub fn wait_while<T, F>(&self, g: &mut MutexGuard<'_, T>, mut f: F)
    where
        T: ?Sized,
        F: FnMut(&mut T) -> bool,
    {
        while f(&mut **g) {
            self.wait(g);
        }
    }
}

/// 0: new, 1: running, 2: done.
pub struct Once(AtomicUsize);

impl Default for Once {
    fn default() -> Self {
        Self::new()
    }
}

impl Once {
    pub const fn new() -> Self {
        Once(AtomicUsize::new(0))
    }
    pub fn done(&self) -> bool {
        point(Kind::Atomic);
        self.0.load(SeqCst) == 2
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        point(Kind::LockTry);
        let mut spins = 0;
        loop {
            match self.0.compare_exchange(0, 1, SeqCst, SeqCst) {
                Ok(_) => {
                    struct Undo<'a>(&'a Once, usize);
                    impl Drop for Undo<'_> {
                        fn drop(&mut self) {
                            (self.0).0.store(self.1, SeqCst);
                            simrt::wake(self.0 as *const _ as usize);
                        }
                    }
                    let mut u = Undo(self, 0);
                    f();
                    u.1 = 2;
                    return;
                }
                Err(2) => return,
                Err(_) => wait(self as *const _ as usize, "a once cell", &mut spins),
            }
        }
    }
}
