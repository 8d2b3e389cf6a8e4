//! Atomics: every access is a scheduling point. (One runs at a time, so orderings weaker
//! than sequentially consistent are not told apart.)

use serde::{Deserialize, Deserializer, Serialize, Serializer};
use simrt::{point, Kind};
use std::fmt;
use std::sync::atomic::{self as real, Ordering};

macro_rules! common {
    ($name:ident $(<$g:ident>)?, $t:ty) => {
        impl$(<$g>)? $name$(<$g>)? {
            pub const fn new(v: $t) -> Self {
                Self(real::$name::new(v))
            }
            pub fn load(&self, o: Ordering) -> $t {
                point(Kind::Atomic);
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                point(Kind::Atomic);
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                point(Kind::Atomic);
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point(Kind::Atomic);
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                let mut old = self.load(f);
                while let Some(new) = g(old) {
                    match self.compare_exchange(old, new, s, f) {
                        Ok(x) => return Ok(x),
                        Err(x) => old = x,
                    }
                }
                Err(old)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
        }
        impl$(<$g>)? Default for $name$(<$g>)? {
            fn default() -> Self {
                Self(Default::default())
            }
        }
        impl$(<$g>)? From<$t> for $name$(<$g>)? {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl$(<$g>)? fmt::Debug for $name$(<$g>)? {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
    };
}

macro_rules! plain {
    ($name:ident, $t:ty, $($op:ident)*) => {
        #[repr(transparent)]
        pub struct $name(real::$name);
        common!($name, $t);
        impl $name {
            $(pub fn $op(&self, v: $t, o: Ordering) -> $t {
                point(Kind::Atomic);
                self.0.$op(v, o)
            })*
        }
        impl Serialize for $name {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                self.load(Ordering::Relaxed).serialize(s)
            }
        }
        impl<'de> Deserialize<'de> for $name {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                <$t>::deserialize(d).map(Self::new)
            }
        }
    };
}

macro_rules! ints {
    ($($name:ident $t:ty,)*) => {
        $(plain!($name, $t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);)*
    };
}

ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
    AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize,);
plain!(AtomicBool, bool, fetch_and fetch_nand fetch_or fetch_xor);

impl AtomicBool {
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.fetch_xor(true, o)
    }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(real::AtomicPtr<T>);
common!(AtomicPtr<T>, *mut T);
