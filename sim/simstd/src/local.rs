//! Thread-local variables: one per simulated thread, dropped when it ends.

use std::cell::{Cell, RefCell};
use std::thread::AccessError;

pub struct LocalKey<T: 'static> {
    init: fn() -> T,
}

impl<T: 'static> LocalKey<T> {
    #[doc(hidden)]
    pub const fn new(init: fn() -> T) -> Self {
        LocalKey { init }
    }
    pub fn with<F: FnOnce(&T) -> R, R>(&'static self, f: F) -> R {
        let key = self as *const _ as usize;
        let p = simrt::local(key, &mut || Box::new((self.init)()));
        // Stays where it is until the thread ends.
        f(unsafe { &*(p as *const T) })
    }
    pub fn try_with<F: FnOnce(&T) -> R, R>(&'static self, f: F) -> Result<R, AccessError> {
        Ok(self.with(f))
    }
}

impl<T: 'static> LocalKey<Cell<T>> {
    pub fn set(&'static self, v: T) {
        self.with(|c| c.set(v))
    }
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.with(|c| c.get())
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}

impl<T: 'static> LocalKey<RefCell<T>> {
    pub fn with_borrow<F: FnOnce(&T) -> R, R>(&'static self, f: F) -> R {
        self.with(|c| f(&c.borrow()))
    }
    pub fn with_borrow_mut<F: FnOnce(&mut T) -> R, R>(&'static self, f: F) -> R {
        self.with(|c| f(&mut c.borrow_mut()))
    }
    pub fn set(&'static self, v: T) {
        self.with(|c| *c.borrow_mut() = v)
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}

#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $b:block $(; $($rest:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new({
            fn init() -> $t { $b }
            init
        });
        $($crate::thread_local!($($rest)*);)?
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr $(; $($rest:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new({
            fn init() -> $t { $e }
            init
        });
        $($crate::thread_local!($($rest)*);)?
    };
}
