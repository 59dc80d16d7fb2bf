//! Global allocator which attributes allocations to the code under test and counts live bytes.
use crate::sched::TRACK;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub struct Tracker;

const CAP: usize = 1 << 15;
static TABLE: [AtomicUsize; CAP] = [const { AtomicUsize::new(0) }; CAP];
static SIZES: [AtomicUsize; CAP] = [const { AtomicUsize::new(0) }; CAP];
static LOCK: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static OVERFLOW: AtomicBool = AtomicBool::new(false);
static ON: AtomicBool = AtomicBool::new(false);

struct Guard;
fn lock() -> Guard {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    Guard
}
impl Drop for Guard {
    fn drop(&mut self) {
        LOCK.store(false, Release);
    }
}

fn slot(p: usize) -> usize {
    (p >> 3).wrapping_mul(0x9E3779B97F4A7C15) >> 40 & (CAP - 1)
}

fn insert(p: usize, size: usize) {
    let _g = lock();
    if LIVE.load(Relaxed) > CAP / 2 {
        OVERFLOW.store(true, Relaxed);
        return;
    }
    let mut i = slot(p);
    while TABLE[i].load(Relaxed) != 0 {
        i = (i + 1) & (CAP - 1);
    }
    TABLE[i].store(p, Relaxed);
    SIZES[i].store(size, Relaxed);
    LIVE.fetch_add(1, Relaxed);
    TOTAL.fetch_add(1, Relaxed);
}

fn remove(p: usize) -> bool {
    if LIVE.load(Relaxed) == 0 {
        return false;
    }
    let _g = lock();
    let mut i = slot(p);
    loop {
        let x = TABLE[i].load(Relaxed);
        if x == p {
            break;
        }
        if x == 0 {
            return false;
        }
        i = (i + 1) & (CAP - 1);
    }
    // backward shift deletion
    let mut j = i;
    loop {
        TABLE[i].store(0, Relaxed);
        loop {
            j = (j + 1) & (CAP - 1);
            let x = TABLE[j].load(Relaxed);
            if x == 0 {
                LIVE.fetch_sub(1, Relaxed);
                return true;
            }
            let k = slot(x);
            let between = if i <= j { i < k && k <= j } else { i < k || k <= j };
            if !between {
                break;
            }
        }
        TABLE[i].store(TABLE[j].load(Relaxed), Relaxed);
        SIZES[i].store(SIZES[j].load(Relaxed), Relaxed);
        i = j;
    }
}

fn tracking() -> bool {
    ON.load(Relaxed) && TRACK.try_with(|t| t.get()).unwrap_or(false)
}

unsafe impl GlobalAlloc for Tracker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() && tracking() {
            insert(p as usize, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() && tracking() {
            insert(p as usize, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            remove(p as usize);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let was = ON.load(Relaxed) && remove(p as usize);
        let q = System.realloc(p, l, n);
        if !q.is_null() && (was || tracking()) {
            insert(q as usize, n);
        }
        q
    }
}

pub fn enable(on: bool) {
    ON.store(on, Relaxed);
}

/// number of live tracked allocations, number of all tracked ones, sizes of some live ones
pub fn live() -> (usize, usize, Vec<usize>) {
    let n = LIVE.load(Relaxed);
    let mut sizes = vec![];
    if n > 0 {
        for i in 0..CAP {
            if TABLE[i].load(Relaxed) != 0 && sizes.len() < 4 {
                sizes.push(SIZES[i].load(Relaxed));
            }
        }
    }
    (n, TOTAL.load(Relaxed), sizes)
}

/// forgets all of the tracked allocations
pub fn reset() {
    let _g = lock();
    if LIVE.load(Relaxed) > 0 {
        for i in 0..CAP {
            TABLE[i].store(0, Relaxed);
        }
    }
    LIVE.store(0, Relaxed);
    TOTAL.store(0, Relaxed);
    OVERFLOW.store(false, Relaxed);
}

pub fn overflowed() -> bool {
    OVERFLOW.load(Relaxed)
}
