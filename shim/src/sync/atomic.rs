//! Instrumented atomics. The real value lives in the std atomic; the metadata (modification
//! order, synchronization clocks) is kept by the scheduler under a lazily assigned id.
pub use ::std::sync::atomic::Ordering;
#[allow(unused_imports)]
use crate::sim::{self, Kind};
use ::std::sync::atomic as real;
use Ordering::*;

pub fn fence(o: Ordering) {
    if sim::active() {
        sim::point(Kind::Fence);
        sim::fence(o)
    } else {
        real::fence(o)
    }
}

pub fn compiler_fence(o: Ordering) {
    real::compiler_fence(o)
}

#[deprecated]
pub fn spin_loop_hint() {
    crate::hint::spin_loop()
}

fn check_failure(o: Ordering) {
    match o {
        Release | AcqRel => panic!("invalid failure ordering"),
        _ => {}
    }
}

macro_rules! base {
    ([$($g:tt)*] [$($ga:tt)*] $name:ident, $t:ty, $real:ty, $to:expr, $from:expr) => {
        pub struct $name $($g)* {
            v: $real,
            id: real::AtomicU64,
        }
        unsafe impl $($g)* Sync for $name $($ga)* {}
        unsafe impl $($g)* Send for $name $($ga)* {}
        impl $($g)* $name $($ga)* {
            pub const fn new(v: $t) -> Self {
                Self { v: <$real>::new(v), id: real::AtomicU64::new(0) }
            }
            fn cur(&self) -> u64 {
                ($to)(self.v.load(Relaxed))
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.v.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.v.into_inner()
            }
            pub fn as_ptr(&self) -> *mut $t {
                self.v.as_ptr()
            }
            pub fn load(&self, o: Ordering) -> $t {
                if matches!(o, Release | AcqRel) {
                    panic!("there is no such thing as a release load");
                }
                if !sim::active() {
                    return self.v.load(o);
                }
                sim::point(Kind::Load);
                ($from)(sim::load(&self.id, self.cur(), o))
            }
            pub fn store(&self, val: $t, o: Ordering) {
                if matches!(o, Acquire | AcqRel) {
                    panic!("there is no such thing as an acquire store");
                }
                if !sim::active() {
                    return self.v.store(val, o);
                }
                sim::point(Kind::Store);
                sim::store(&self.id, self.cur(), ($to)(val), o);
                self.v.store(val, Relaxed);
            }
            fn rmw(&self, o: Ordering, real_op: impl Fn(&$real) -> $t) -> $t {
                if !sim::active() {
                    return real_op(&self.v);
                }
                sim::point(Kind::Rmw);
                let before = self.cur();
                let old = real_op(&self.v);
                sim::rmw(&self.id, before, self.cur(), o);
                old
            }
            pub fn swap(&self, val: $t, o: Ordering) -> $t {
                self.rmw(o, |v| v.swap(val, o))
            }
            pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                check_failure(f);
                if !sim::active() {
                    return self.v.compare_exchange(c, n, s, f);
                }
                sim::point(Kind::Cas);
                let before = self.cur();
                let res = self.v.compare_exchange(c, n, s, f);
                match res {
                    Ok(_) => sim::rmw(&self.id, before, self.cur(), s),
                    Err(_) => sim::cas_failed(&self.id, before, f),
                }
                res
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                if sim::active() && sim::spurious() {
                    check_failure(f);
                    sim::point(Kind::Cas);
                    sim::cas_failed(&self.id, self.cur(), f);
                    return Err(self.v.load(Relaxed));
                }
                self.compare_exchange(c, n, s, f)
            }
            #[deprecated]
            pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                let f = match o { Release | Relaxed => Relaxed, AcqRel | Acquire => Acquire, x => x };
                match self.compare_exchange(c, n, o, f) { Ok(x) | Err(x) => x }
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut fun: F) -> Result<$t, $t> {
                let mut prev = self.load(f);
                while let Some(next) = fun(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, fun: F) -> Result<$t, $t> {
                self.fetch_update(s, f, fun)
            }
            pub fn update<F: FnMut($t) -> $t>(&self, s: Ordering, f: Ordering, mut fun: F) -> $t {
                let mut prev = self.load(f);
                loop {
                    match self.compare_exchange_weak(prev, fun(prev), s, f) {
                        Ok(x) => return x,
                        Err(p) => prev = p,
                    }
                }
            }
        }
        impl $($g)* From<$t> for $name $($ga)* {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl $($g)* ::std::fmt::Debug for $name $($ga)* {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                ::std::fmt::Debug::fmt(&self.load(Relaxed), f)
            }
        }
    };
}

macro_rules! ints {
    ($($name:ident $t:ty;)*) => {$(
        base!([] [] $name, $t, real::$name, |x: $t| x as u64, |x: u64| x as $t);
        impl $name {
            pub fn fetch_add(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.fetch_add(x, o)) }
            pub fn fetch_sub(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.fetch_sub(x, o)) }
            pub fn fetch_and(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.fetch_and(x, o)) }
            pub fn fetch_nand(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.fetch_nand(x, o)) }
            pub fn fetch_or(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.fetch_or(x, o)) }
            pub fn fetch_xor(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.fetch_xor(x, o)) }
            pub fn fetch_max(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.fetch_max(x, o)) }
            pub fn fetch_min(&self, x: $t, o: Ordering) -> $t { self.rmw(o, |v| v.fetch_min(x, o)) }
        }
        impl Default for $name { fn default() -> Self { Self::new(0) } }
    )*};
}

ints! {
    AtomicUsize usize; AtomicIsize isize; AtomicU64 u64; AtomicI64 i64; AtomicU32 u32;
    AtomicI32 i32; AtomicU16 u16; AtomicI16 i16; AtomicU8 u8; AtomicI8 i8;
}

base!([] [] AtomicBool, bool, real::AtomicBool, |x: bool| x as u64, |x: u64| x != 0);
impl AtomicBool {
    pub fn fetch_and(&self, x: bool, o: Ordering) -> bool { self.rmw(o, |v| v.fetch_and(x, o)) }
    pub fn fetch_nand(&self, x: bool, o: Ordering) -> bool { self.rmw(o, |v| v.fetch_nand(x, o)) }
    pub fn fetch_or(&self, x: bool, o: Ordering) -> bool { self.rmw(o, |v| v.fetch_or(x, o)) }
    pub fn fetch_xor(&self, x: bool, o: Ordering) -> bool { self.rmw(o, |v| v.fetch_xor(x, o)) }
    pub fn fetch_not(&self, o: Ordering) -> bool { self.rmw(o, |v| v.fetch_xor(true, o)) }
}
impl Default for AtomicBool {
    fn default() -> Self {
        Self::new(false)
    }
}

base!([<T>] [<T>] AtomicPtr, *mut T, real::AtomicPtr<T>, |x: *mut T| x as usize as u64, |x: u64| x as usize as *mut T);
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(::std::ptr::null_mut())
    }
}
