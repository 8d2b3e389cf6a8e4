//! std's locks on the simulator's raw locks, with poisoning.

use parking_lot as pl;
use serde::{ser, Deserialize, Deserializer, Serialize, Serializer};
use std::cell::Cell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::panic::{RefUnwindSafe, UnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use std::thread::panicking;
use std::time::Duration;

macro_rules! lock {
    ($lock:ident, $($guard:ident $method:ident $try_method:ident $poisons:literal,)*) => {
        pub struct $lock<T: ?Sized> {
            poisoned: AtomicBool,
            inner: pl::$lock<T>,
        }
        impl<T> $lock<T> {
            pub const fn new(v: T) -> Self {
                Self { poisoned: AtomicBool::new(false), inner: const_lock!($lock, v) }
            }
            pub fn into_inner(self) -> LockResult<T> {
                let p = self.is_poisoned();
                result(self.inner.into_inner(), p)
            }
        }
        impl<T: ?Sized> $lock<T> {
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                let p = self.is_poisoned();
                result(self.inner.get_mut(), p)
            }
            pub fn is_poisoned(&self) -> bool {
                self.poisoned.load(SeqCst)
            }
            pub fn clear_poison(&self) {
                self.poisoned.store(false, SeqCst)
            }
            $(pub fn $method(&self) -> LockResult<$guard<'_, T>> {
                let was = panicking();
                let inner = self.inner.$method();
                result($guard { poison: &self.poisoned, was, inner: Some(inner) }, self.is_poisoned())
            }
            pub fn $try_method(&self) -> TryLockResult<$guard<'_, T>> {
                let was = panicking();
                match self.inner.$try_method() {
                    None => Err(TryLockError::WouldBlock),
                    Some(inner) => Ok(result($guard { poison: &self.poisoned, was, inner: Some(inner) }, self.is_poisoned())?),
                }
            })*
        }
        impl<T: Default> Default for $lock<T> {
            fn default() -> Self {
                Self::new(T::default())
            }
        }
        impl<T> From<T> for $lock<T> {
            fn from(v: T) -> Self {
                Self::new(v)
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $lock<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.inner.fmt(f)
            }
        }
        impl<T: ?Sized> UnwindSafe for $lock<T> {}
        impl<T: ?Sized> RefUnwindSafe for $lock<T> {}
        impl<'de, T: Deserialize<'de>> Deserialize<'de> for $lock<T> {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                T::deserialize(d).map(Self::new)
            }
        }
        $(#[must_use]
        pub struct $guard<'a, T: ?Sized> {
            poison: &'a AtomicBool,
            was: bool,
            inner: Option<pl::$guard<'a, T>>,
        }
        impl<T: ?Sized> Deref for $guard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.inner.as_ref().expect("a lock that is held")
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $guard<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
        impl<T: ?Sized + fmt::Display> fmt::Display for $guard<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
        impl<T: ?Sized> Drop for $guard<'_, T> {
            fn drop(&mut self) {
                if $poisons && !self.was && panicking() && !simrt::aborting() {
                    self.poison.store(true, SeqCst);
                }
            }
        })*
    };
}

macro_rules! const_lock {
    (Mutex, $v:ident) => {
        pl::const_mutex($v)
    };
    (RwLock, $v:ident) => {
        pl::const_rwlock($v)
    };
}

fn result<G>(g: G, poisoned: bool) -> LockResult<G> {
    if poisoned {
        Err(PoisonError::new(g))
    } else {
        Ok(g)
    }
}

lock!(Mutex, MutexGuard lock try_lock true,);
lock!(RwLock, RwLockReadGuard read try_read false, RwLockWriteGuard write try_write true,);

impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().expect("a lock that is held")
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().expect("a lock that is held")
    }
}

impl<T: ?Sized + Serialize> Serialize for Mutex<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.lock() {
            Ok(g) => g.serialize(s),
            Err(_) => Err(ser::Error::custom("lock poison error while serializing")),
        }
    }
}
impl<T: ?Sized + Serialize> Serialize for RwLock<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.read() {
            Ok(g) => g.serialize(s),
            Err(_) => Err(ser::Error::custom("lock poison error while serializing")),
        }
    }
}
#[derive(Default)]
pub struct Condvar(pl::Condvar);

impl Condvar {
    pub const fn new() -> Self {
        Condvar(pl::Condvar::new())
    }
    pub fn notify_one(&self) {
        self.0.notify_all();
    }
    pub fn notify_all(&self) {
        self.0.notify_all();
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.0.wait(g.inner.as_mut().expect("a lock that is held"));
        let p = g.poison.load(SeqCst);
        result(g, p)
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    /// Comes back at once: a wake-up without reason is allowed.
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _: Duration) -> LockResult<(MutexGuard<'a, T>, bool)> {
        simrt::spinning();
        Ok((g, false))
    }
}

pub struct Once(pl::Once);

impl Once {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Self {
        Once(pl::Once::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.call_once(f)
    }
    pub fn is_completed(&self) -> bool {
        self.0.done()
    }
}

pub struct OnceLock<T> {
    once: pl::Once,
    value: std::sync::OnceLock<T>,
}

impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { once: pl::Once::new(), value: std::sync::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        simrt::point(simrt::Kind::Atomic);
        self.value.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.value.get_mut()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        self.once.call_once(|| {
            let _ = self.value.set(v.take().expect("the value"));
        });
        match v {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        self.once.call_once(|| {
            let _ = self.value.set(f());
        });
        self.value.get().expect("an initialised cell")
    }
    pub fn into_inner(self) -> Option<T> {
        self.value.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.once = pl::Once::new();
        self.value.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.value.fmt(f)
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        let c = Self::new();
        let _ = c.set(v);
        c
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        match self.get() {
            Some(v) => Self::from(v.clone()),
            None => Self::new(),
        }
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl<T: Eq> Eq for OnceLock<T> {}
impl<T: RefUnwindSafe + UnwindSafe> RefUnwindSafe for OnceLock<T> {}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    init: Cell<Option<F>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}

impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), init: Cell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| match this.init.take() {
            Some(f) => f(),
            None => panic!("LazyLock instance has previously been poisoned"),
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}
