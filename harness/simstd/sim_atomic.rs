//! Atomics with a scheduling point before every access (sequentially consistent execution).
use crate::rt::{self, Kind};
use ::std::fmt;
use ::std::prelude::v1::*;
use ::std::sync::atomic as ra;
use ::std::sync::atomic::Ordering;

fn pt() {
    if let Some(h) = rt::current() {
        h.point(Kind::Atomic, 0);
    }
}
macro_rules! common {
    ($name:ident, $t:ty) => {
        #[derive(Default)]
        pub struct $name(ra::$name);
        impl $name {
            pub const fn new(v: $t) -> Self {
                $name(ra::$name::new(v))
            }
            pub fn load(&self, o: Ordering) -> $t {
                pt();
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                pt();
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                pt();
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                pt();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                pt();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                pt();
                self.0.fetch_update(s, f, g)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
    };
}
macro_rules! int {
    ($name:ident, $t:ty) => {
        common!($name, $t);
        impl $name {
            int!(@ $t; fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
        }
    };
    (@ $t:ty; $($m:ident)*) => { $(pub fn $m(&self, v: $t, o: Ordering) -> $t { pt(); self.0.$m(v, o) })* };
}
int!(AtomicUsize, usize);
int!(AtomicIsize, isize);
int!(AtomicU64, u64);
int!(AtomicI64, i64);
int!(AtomicU32, u32);
int!(AtomicI32, i32);
int!(AtomicU16, u16);
int!(AtomicI16, i16);
int!(AtomicU8, u8);
int!(AtomicI8, i8);
common!(AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        pt();
        self.0.fetch_and(v, o)
    }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        pt();
        self.0.fetch_or(v, o)
    }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
        pt();
        self.0.fetch_xor(v, o)
    }
    pub fn fetch_not(&self, o: Ordering) -> bool {
        pt();
        self.0.fetch_xor(true, o)
    }
}
