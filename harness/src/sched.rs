//! The scheduler facade: the deterministic simulation in verification builds, real threads otherwise.

#[cfg(orx_concurrent_iter_verif)]
mod imp {
    extern crate orx_verif_std as shim;
    pub use shim::sim::{Track, MAXT, TRACK};
    pub const CLOCK: usize = MAXT;
    use shim::sim;

    pub const SIM: bool = true;

    pub fn point() {
        sim::point(sim::Kind::Harness)
    }
    pub fn now() -> u64 {
        sim::now()
    }
    pub fn ticks() -> u64 {
        0
    }
    pub fn restart() {}
    pub fn clock() -> [u32; MAXT] {
        sim::clock()
    }
    pub fn access(key: u64, write: bool, what: &str) {
        sim::access(key, write, what)
    }
    pub fn progress() {
        sim::progress()
    }
    pub fn tid() -> usize {
        sim::tid()
    }
    pub fn run_phase<'a>(jobs: Vec<Box<dyn FnOnce() + Send + 'a>>) {
        let jobs: Vec<Box<dyn FnOnce() + Send + 'static>> = jobs
            .into_iter()
            // SAFETY: run_phase returns after all of the jobs are completed
            .map(|j| unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + 'a>, Box<dyn FnOnce() + Send + 'static>>(j) })
            .collect();
        sim::run_phase(jobs)
    }
    pub use sim::{begin, end, on_hang, Config, Stats, Strategy};
}

#[cfg(not(orx_concurrent_iter_verif))]
mod imp {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

    pub const SIM: bool = false;
    pub const MAXT: usize = 34;
    pub const CLOCK: usize = 1;
    thread_local! {
        pub static TRACK: Cell<bool> = const { Cell::new(false) };
        static RNG: Cell<u64> = const { Cell::new(0) };
        static TID: Cell<usize> = const { Cell::new(0) };
    }
    pub struct Track(bool);
    impl Track {
        pub fn set(on: bool) -> Self {
            Self(TRACK.try_with(|t| t.replace(on)).unwrap_or(false))
        }
    }
    impl Drop for Track {
        fn drop(&mut self) {
            let old = self.0;
            _ = TRACK.try_with(|t| t.set(old));
        }
    }

    static NOW: AtomicU64 = AtomicU64::new(1);
    /// 0: no jitter; otherwise the probability (per mille) of a delay at a harness point
    pub static JITTER: AtomicUsize = AtomicUsize::new(0);
    /// time stamps do not synchronize the threads (race detectors see only the synchronization of the crate)
    pub static RELAXED: AtomicUsize = AtomicUsize::new(0);
    static SEED: AtomicU64 = AtomicU64::new(1);

    pub fn point() {
        let j = JITTER.load(Relaxed);
        if j == 0 {
            return;
        }
        RNG.with(|r| {
            let mut x = r.get();
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            r.set(x);
            if (x % 1000) < j as u64 {
                match (x >> 20) % 8 {
                    0 => std::thread::yield_now(),
                    1 => std::thread::sleep(std::time::Duration::from_micros((x >> 30) % 60)),
                    _ => {
                        for _ in 0..(x >> 30) % 400 {
                            std::hint::spin_loop();
                        }
                    }
                }
            }
        })
    }
    pub fn now() -> u64 {
        match RELAXED.load(Relaxed) {
            0 => NOW.fetch_add(1, SeqCst),
            _ => NOW.fetch_add(1, Relaxed),
        }
    }
    pub fn ticks() -> u64 {
        NOW.load(Relaxed)
    }
    /// a new execution starts
    pub fn restart() {
        NOW.store(1, Relaxed);
    }
    pub fn clock() -> [u32; CLOCK] {
        [0; CLOCK]
    }
    pub fn access(_: u64, _: bool, _: &str) {}
    pub fn progress() {}
    pub fn tid() -> usize {
        TID.with(|t| t.get())
    }
    pub fn run_phase<'a>(jobs: Vec<Box<dyn FnOnce() + Send + 'a>>) {
        let n = jobs.len();
        let ready = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for (i, j) in jobs.into_iter().enumerate() {
                let ready = &ready;
                s.spawn(move || {
                    TID.with(|t| t.set(i + 1));
                    let seed = SEED.fetch_add(0x9E3779B97F4A7C15, Relaxed);
                    RNG.with(|r| r.set(seed | 1));
                    ready.fetch_add(1, Relaxed);
                    // start at the same time
                    let mut k = 0u32;
                    while ready.load(Relaxed) < n {
                        k += 1;
                        match k % 64 {
                            0 => std::thread::yield_now(),
                            _ => std::hint::spin_loop(),
                        }
                    }
                    j()
                });
            }
        });
    }
}

pub use imp::*;
