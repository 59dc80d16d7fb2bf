//! Facade over the standard library which the crate under test is built against with
//! `--cfg orx_concurrent_iter_verif`: everything is the real std, except that atomics, locks and
//! yield/spin hints report to the deterministic scheduler in [`sim`].
//! Outside of a simulated thread every type falls through to the real operation.
#![allow(clippy::all)]

pub use ::std::*;

pub mod sim;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        if !crate::sim::spin_hint() {
            ::std::hint::spin_loop()
        }
    }
}

/// A `Cell` within a type which is (unsafely) declared as `Sync`: its accesses are plain memory accesses.
pub mod cell {
    pub use ::std::cell::*;
    use ::std::sync::atomic::{AtomicU64, Ordering::Relaxed};

    static IDS: AtomicU64 = AtomicU64::new(1);

    fn touch(id: &AtomicU64, write: bool) {
        let mut v = id.load(Relaxed);
        if v == 0 {
            let new = IDS.fetch_add(1, Relaxed);
            v = match id.compare_exchange(0, new, Relaxed, Relaxed) {
                Ok(_) => new,
                Err(other) => other,
            };
        }
        crate::sim::access(v | 1 << 63, write, "a cell of the crate")
    }

    pub struct Cell<T: ?Sized> {
        id: AtomicU64,
        v: ::std::cell::Cell<T>,
    }
    impl<T> Cell<T> {
        pub const fn new(v: T) -> Self {
            Self { id: AtomicU64::new(0), v: ::std::cell::Cell::new(v) }
        }
        pub fn set(&self, v: T) {
            self.touch(true);
            self.v.set(v)
        }
        pub fn replace(&self, v: T) -> T {
            self.touch(true);
            self.v.replace(v)
        }
        pub fn swap(&self, o: &Self) {
            self.touch(true);
            o.touch(true);
            self.v.swap(&o.v)
        }
        pub fn into_inner(self) -> T {
            self.v.into_inner()
        }
    }
    impl<T: ?Sized> Cell<T> {
        fn touch(&self, write: bool) {
            touch(&self.id, write)
        }
        pub const fn as_ptr(&self) -> *mut T {
            self.v.as_ptr()
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.v.get_mut()
        }
    }
    impl<T: Copy> Cell<T> {
        pub fn get(&self) -> T {
            self.touch(false);
            self.v.get()
        }
        pub fn update(&self, f: impl FnOnce(T) -> T) {
            let v = self.get();
            self.set(f(v))
        }
    }
    impl<T: Default> Cell<T> {
        pub fn take(&self) -> T {
            self.replace(Default::default())
        }
    }
    impl<T: Default> Default for Cell<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for Cell<T> {
        fn from(v: T) -> Self {
            Self::new(v)
        }
    }
    impl<T: Copy> Clone for Cell<T> {
        fn clone(&self) -> Self {
            Self::new(self.get())
        }
    }
    impl<T: Copy + ::std::fmt::Debug> ::std::fmt::Debug for Cell<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            self.get().fmt(f)
        }
    }

    /// Every borrow writes the flag of the cell.
    pub struct RefCell<T: ?Sized> {
        id: AtomicU64,
        v: ::std::cell::RefCell<T>,
    }
    impl<T> RefCell<T> {
        pub const fn new(v: T) -> Self {
            Self { id: AtomicU64::new(0), v: ::std::cell::RefCell::new(v) }
        }
        pub fn into_inner(self) -> T {
            self.v.into_inner()
        }
        pub fn replace(&self, v: T) -> T {
            touch(&self.id, true);
            self.v.replace(v)
        }
    }
    impl<T: ?Sized> RefCell<T> {
        pub fn borrow(&self) -> Ref<'_, T> {
            touch(&self.id, true);
            self.v.borrow()
        }
        pub fn borrow_mut(&self) -> RefMut<'_, T> {
            touch(&self.id, true);
            self.v.borrow_mut()
        }
        pub fn try_borrow(&self) -> Result<Ref<'_, T>, BorrowError> {
            touch(&self.id, true);
            self.v.try_borrow()
        }
        pub fn try_borrow_mut(&self) -> Result<RefMut<'_, T>, BorrowMutError> {
            touch(&self.id, true);
            self.v.try_borrow_mut()
        }
        pub fn as_ptr(&self) -> *mut T {
            self.v.as_ptr()
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.v.get_mut()
        }
    }
    impl<T: Default> RefCell<T> {
        pub fn take(&self) -> T {
            self.replace(Default::default())
        }
    }
    impl<T: Default> Default for RefCell<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for RefCell<T> {
        fn from(v: T) -> Self {
            Self::new(v)
        }
    }
    impl<T: Clone> Clone for RefCell<T> {
        fn clone(&self) -> Self {
            Self::new(self.borrow().clone())
        }
    }
    impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for RefCell<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            self.v.fmt(f)
        }
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        if !crate::sim::spin_hint() {
            ::std::thread::yield_now()
        }
    }
    pub fn sleep(d: ::std::time::Duration) {
        if !crate::sim::spin_hint() {
            ::std::thread::sleep(d)
        }
    }
    // a park is allowed to return spuriously
    pub fn park() {
        if !crate::sim::spin_hint() {
            ::std::thread::park()
        }
    }
    pub fn park_timeout(d: ::std::time::Duration) {
        if !crate::sim::spin_hint() {
            ::std::thread::park_timeout(d)
        }
    }
}

pub mod sync {
    pub use ::std::sync::*;
    use crate::sim;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync::atomic::Ordering::SeqCst;

    pub mod atomic;

    // ---- Mutex ----
    pub struct Mutex<T: ?Sized> {
        id: ::std::sync::atomic::AtomicU64,
        m: ::std::sync::Mutex<T>,
    }
    pub struct MutexGuard<'a, T: ?Sized> {
        g: Option<::std::sync::MutexGuard<'a, T>>,
        id: &'a ::std::sync::atomic::AtomicU64,
        m: &'a ::std::sync::Mutex<T>,
    }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Self { id: ::std::sync::atomic::AtomicU64::new(0), m: ::std::sync::Mutex::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.m.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            if !sim::active() {
                return match self.m.lock() {
                    Ok(g) => Ok(MutexGuard { g: Some(g), id: &self.id, m: &self.m }),
                    Err(p) => Err(PoisonError::new(MutexGuard { g: Some(p.into_inner()), id: &self.id, m: &self.m })),
                };
            }
            loop {
                sim::point(sim::Kind::Load);
                match self.m.try_lock() {
                    Ok(g) => {
                        sim::lock_acquire(&self.id);
                        return Ok(MutexGuard { g: Some(g), id: &self.id, m: &self.m });
                    }
                    Err(TryLockError::Poisoned(p)) => {
                        sim::lock_acquire(&self.id);
                        return Err(PoisonError::new(MutexGuard { g: Some(p.into_inner()), id: &self.id, m: &self.m }));
                    }
                    Err(TryLockError::WouldBlock) => {
                        sim::spin_hint();
                    }
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            sim::point(sim::Kind::Load);
            match self.m.try_lock() {
                Ok(g) => {
                    sim::lock_acquire(&self.id);
                    Ok(MutexGuard { g: Some(g), id: &self.id, m: &self.m })
                }
                Err(TryLockError::Poisoned(p)) => {
                    sim::lock_acquire(&self.id);
                    Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { g: Some(p.into_inner()), id: &self.id, m: &self.m })))
                }
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.m.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.m.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.m.get_mut()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            self.m.fmt(f)
        }
    }
    impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
        fn drop(&mut self) {
            if let Some(g) = self.g.take() {
                sim::point(sim::Kind::Rmw);
                sim::lock_release(self.id);
                drop(g);
            }
        }
    }

    // ---- RwLock ----
    pub struct RwLock<T: ?Sized> {
        id: ::std::sync::atomic::AtomicU64,
        m: ::std::sync::RwLock<T>,
    }
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        g: Option<::std::sync::RwLockReadGuard<'a, T>>,
        id: &'a ::std::sync::atomic::AtomicU64,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        g: Option<::std::sync::RwLockWriteGuard<'a, T>>,
        id: &'a ::std::sync::atomic::AtomicU64,
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            Self { id: ::std::sync::atomic::AtomicU64::new(0), m: ::std::sync::RwLock::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.m.into_inner()
        }
    }
    macro_rules! rw {
        ($name:ident, $try:ident, $guard:ident) => {
            pub fn $name(&self) -> LockResult<$guard<'_, T>> {
                if !sim::active() {
                    return match self.m.$name() {
                        Ok(g) => Ok($guard { g: Some(g), id: &self.id }),
                        Err(p) => Err(PoisonError::new($guard { g: Some(p.into_inner()), id: &self.id })),
                    };
                }
                loop {
                    sim::point(sim::Kind::Load);
                    match self.m.$try() {
                        Ok(g) => {
                            sim::lock_acquire(&self.id);
                            return Ok($guard { g: Some(g), id: &self.id });
                        }
                        Err(TryLockError::Poisoned(p)) => {
                            sim::lock_acquire(&self.id);
                            return Err(PoisonError::new($guard { g: Some(p.into_inner()), id: &self.id }));
                        }
                        Err(TryLockError::WouldBlock) => {
                            sim::spin_hint();
                        }
                    }
                }
            }
            pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
                sim::point(sim::Kind::Load);
                match self.m.$try() {
                    Ok(g) => {
                        sim::lock_acquire(&self.id);
                        Ok($guard { g: Some(g), id: &self.id })
                    }
                    Err(TryLockError::Poisoned(p)) => {
                        sim::lock_acquire(&self.id);
                        Err(TryLockError::Poisoned(PoisonError::new($guard { g: Some(p.into_inner()), id: &self.id })))
                    }
                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                }
            }
        };
    }
    impl<T: ?Sized> RwLock<T> {
        rw!(read, try_read, RwLockReadGuard);
        rw!(write, try_write, RwLockWriteGuard);
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.m.get_mut()
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            self.m.fmt(f)
        }
    }
    impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    macro_rules! rwdrop {
        ($guard:ident) => {
            impl<'a, T: ?Sized> Drop for $guard<'a, T> {
                fn drop(&mut self) {
                    if let Some(g) = self.g.take() {
                        sim::point(sim::Kind::Rmw);
                        sim::lock_release(self.id);
                        drop(g);
                    }
                }
            }
        };
    }
    rwdrop!(RwLockReadGuard);
    rwdrop!(RwLockWriteGuard);

    // ---- Condvar: a wait ends by a notification (first come first served), or spuriously where the configuration says so ----
    pub struct Condvar {
        c: ::std::sync::Condvar,
        waits: ::std::sync::atomic::AtomicU64,
        woken: ::std::sync::atomic::AtomicU64,
    }
    impl Condvar {
        pub const fn new() -> Self {
            use ::std::sync::atomic::AtomicU64;
            Self { c: ::std::sync::Condvar::new(), waits: AtomicU64::new(0), woken: AtomicU64::new(0) }
        }
        pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let (id, m) = (guard.id, guard.m);
            if !sim::active() {
                let g = guard.g.take().unwrap();
                return match self.c.wait(g) {
                    Ok(g) => Ok(MutexGuard { g: Some(g), id, m }),
                    Err(p) => Err(PoisonError::new(MutexGuard { g: Some(p.into_inner()), id, m })),
                };
            }
            let ticket = self.waits.fetch_add(1, SeqCst);
            drop(guard);
            while self.woken.load(SeqCst) <= ticket {
                if sim::spurious() {
                    self.woken.fetch_add(1, SeqCst);
                    break;
                }
                sim::spin_hint();
            }
            loop {
                sim::point(sim::Kind::Load);
                match m.try_lock() {
                    Ok(g) => {
                        sim::lock_acquire(id);
                        return Ok(MutexGuard { g: Some(g), id, m });
                    }
                    Err(TryLockError::Poisoned(p)) => {
                        sim::lock_acquire(id);
                        return Err(PoisonError::new(MutexGuard { g: Some(p.into_inner()), id, m }));
                    }
                    Err(TryLockError::WouldBlock) => {
                        sim::spin_hint();
                    }
                }
            }
        }
        /// In a simulation a timeout elapses at once.
        pub fn wait_timeout<'a, T>(
            &self,
            mut guard: MutexGuard<'a, T>,
            d: ::std::time::Duration,
        ) -> LockResult<(MutexGuard<'a, T>, TimedOut)> {
            let (id, m) = (guard.id, guard.m);
            if !sim::active() {
                let g = guard.g.take().unwrap();
                return match self.c.wait_timeout(g, d) {
                    Ok((g, t)) => Ok((MutexGuard { g: Some(g), id, m }, TimedOut(t.timed_out()))),
                    Err(p) => {
                        let (g, t) = p.into_inner();
                        Err(PoisonError::new((MutexGuard { g: Some(g), id, m }, TimedOut(t.timed_out()))))
                    }
                };
            }
            drop(guard);
            sim::spin_hint();
            loop {
                match m.try_lock() {
                    Ok(g) => {
                        sim::lock_acquire(id);
                        return Ok((MutexGuard { g: Some(g), id, m }, TimedOut(true)));
                    }
                    Err(TryLockError::Poisoned(p)) => {
                        sim::lock_acquire(id);
                        return Err(PoisonError::new((MutexGuard { g: Some(p.into_inner()), id, m }, TimedOut(true))));
                    }
                    Err(TryLockError::WouldBlock) => {
                        sim::spin_hint();
                    }
                }
            }
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
            &self,
            mut guard: MutexGuard<'a, T>,
            mut condition: F,
        ) -> LockResult<MutexGuard<'a, T>> {
            while condition(&mut *guard) {
                guard = self.wait(guard)?;
            }
            Ok(guard)
        }
        pub fn notify_one(&self) {
            sim::point(sim::Kind::Rmw);
            if self.woken.load(SeqCst) < self.waits.load(SeqCst) {
                self.woken.fetch_add(1, SeqCst);
                sim::progress();
            }
            self.c.notify_one()
        }
        pub fn notify_all(&self) {
            sim::point(sim::Kind::Rmw);
            self.woken.store(self.waits.load(SeqCst), SeqCst);
            sim::progress();
            self.c.notify_all()
        }
    }
    impl Default for Condvar {
        fn default() -> Self {
            Self::new()
        }
    }
    impl ::std::fmt::Debug for Condvar {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            self.c.fmt(f)
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct TimedOut(bool);
    impl TimedOut {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }
    pub type WaitTimeoutResult = TimedOut;

    // ---- OnceLock, LazyLock, Once: the initializer runs outside of the real primitive, which would block the turn ----
    pub struct OnceLock<T> {
        id: ::std::sync::atomic::AtomicU64,
        running: ::std::sync::atomic::AtomicBool,
        v: ::std::sync::OnceLock<T>,
    }
    struct Running<'a>(&'a ::std::sync::atomic::AtomicBool);
    impl Drop for Running<'_> {
        fn drop(&mut self) {
            self.0.store(false, SeqCst);
            sim::progress();
        }
    }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            use ::std::sync::atomic::{AtomicBool, AtomicU64};
            Self { id: AtomicU64::new(0), running: AtomicBool::new(false), v: ::std::sync::OnceLock::new() }
        }
        pub fn get(&self) -> Option<&T> {
            sim::point(sim::Kind::Load);
            let v = self.v.get()?;
            sim::lock_acquire(&self.id);
            Some(v)
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.v.get_mut()
        }
        pub fn set(&self, value: T) -> Result<(), T> {
            let mut value = Some(value);
            self.get_or_init(|| value.take().unwrap());
            match value {
                None => Ok(()),
                Some(v) => Err(v),
            }
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            if !sim::active() {
                return self.v.get_or_init(f);
            }
            loop {
                if let Some(v) = self.get() {
                    return v;
                }
                if !self.running.swap(true, SeqCst) {
                    break;
                }
                sim::spin_hint();
            }
            let running = Running(&self.running);
            let v = f();
            sim::point(sim::Kind::Rmw);
            sim::lock_release(&self.id);
            _ = self.v.set(v);
            drop(running);
            self.v.get().unwrap()
        }
        pub fn into_inner(self) -> Option<T> {
            self.v.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.v.take()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: ::std::fmt::Debug> ::std::fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            self.v.fmt(f)
        }
    }
    impl<T: Clone> Clone for OnceLock<T> {
        fn clone(&self) -> Self {
            let new = Self::new();
            if let Some(v) = self.get() {
                _ = new.v.set(v.clone());
            }
            new
        }
    }
    impl<T> From<T> for OnceLock<T> {
        fn from(v: T) -> Self {
            let new = Self::new();
            _ = new.v.set(v);
            new
        }
    }

    pub struct LazyLock<T, F = fn() -> T> {
        v: OnceLock<T>,
        f: ::std::sync::Mutex<Option<F>>,
    }
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            Self { v: OnceLock::new(), f: ::std::sync::Mutex::new(Some(f)) }
        }
        pub fn force(this: &Self) -> &T {
            this.v.get_or_init(|| {
                let f = this.f.lock().unwrap().take();
                f.expect("LazyLock instance has previously been poisoned")()
            })
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }

    pub struct Once {
        v: OnceLock<bool>,
    }
    impl Once {
        pub const fn new() -> Self {
            Self { v: OnceLock::new() }
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            let ok = *self.v.get_or_init(|| {
                let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
                if let Err(p) = r {
                    _ = self.v.v.set(false);
                    ::std::panic::resume_unwind(p)
                }
                true
            });
            if !ok {
                panic!("Once instance has previously been poisoned")
            }
        }
        pub fn is_completed(&self) -> bool {
            self.v.get() == Some(&true)
        }
    }
}
