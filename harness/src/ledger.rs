//! Elements with identity and a ledger of their creations, moves and destructions.
use crate::sched;
use std::cell::Cell;
use std::panic::panic_any;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub const MAX_TOKENS: usize = if cfg!(miri) { 1 << 12 } else { 1 << 19 };

#[derive(Default)]
pub struct Entry {
    pub created: AtomicU32,
    pub dropped: AtomicU32,
    /// number of times an owner of the original element showed up at a caller
    pub moved: AtomicU32,
    pub clones: AtomicU32,
    pub clones_dropped: AtomicU32,
}

pub struct Ledger {
    pub entries: Vec<Entry>,
    pub errors: Mutex<Vec<String>>,
    pub nerrors: AtomicUsize,
}

pub fn ledger() -> &'static Ledger {
    static L: std::sync::OnceLock<Ledger> = std::sync::OnceLock::new();
    L.get_or_init(|| Ledger {
        entries: (0..MAX_TOKENS).map(|_| Entry::default()).collect(),
        errors: Mutex::new(vec![]),
        nerrors: AtomicUsize::new(0),
    })
}

static EXEC: AtomicU32 = AtomicU32::new(1);
pub static HEAP: AtomicBool = AtomicBool::new(false);

/// starts a new epoch with the given number of tokens
pub fn reset(n: usize) {
    let l = ledger();
    assert!(n <= MAX_TOKENS);
    for e in &l.entries[..n] {
        e.created.store(0, Relaxed);
        e.dropped.store(0, Relaxed);
        e.moved.store(0, Relaxed);
        e.clones.store(0, Relaxed);
        e.clones_dropped.store(0, Relaxed);
    }
    if l.nerrors.load(Relaxed) > 0 {
        l.errors.lock().unwrap().clear();
        l.nerrors.store(0, Relaxed);
    }
    EXEC.fetch_add(1, Relaxed);
    ZST_CREATED.store(0, Relaxed);
    ZST_DROPPED.store(0, Relaxed);
}

pub fn error(msg: String) {
    let l = ledger();
    if l.nerrors.fetch_add(1, Relaxed) < 8 {
        l.errors.lock().unwrap_or_else(|e| e.into_inner()).push(msg);
    }
}

fn canary(id: u32, flavor: u32) -> u32 {
    let e = EXEC.load(Relaxed);
    (id ^ 0x5bd1e995).wrapping_mul(0x9E3779B1) ^ e.wrapping_mul(0x85EBCA6B) ^ flavor.wrapping_mul(0xC2B2AE35)
}

// ---- fault injection ----

pub struct Injected;

pub struct Fault {
    pub at: AtomicU64,
    pub calls: AtomicU64,
    pub times: AtomicU64,
}
impl Fault {
    pub const fn new() -> Self {
        Self { at: AtomicU64::new(0), calls: AtomicU64::new(0), times: AtomicU64::new(1) }
    }
    /// the `at`-th call (starting with 1) and the following `times - 1` calls panic; 0: never
    pub fn arm(&self, at: u64, times: u64) {
        self.at.store(at, Relaxed);
        self.times.store(times, Relaxed);
        self.calls.store(0, Relaxed);
    }
    pub fn hit(&self) {
        let at = self.at.load(Relaxed);
        if at == 0 {
            return;
        }
        let call = self.calls.fetch_add(1, Relaxed) + 1;
        if call >= at && call - at < self.times.load(Relaxed) {
            FIRED.fetch_add(1, Relaxed);
            sched::point();
            let _t = sched::Track::set(false);
            panic_any(Injected);
        }
    }
}
pub static NEXT_FAULT: Fault = Fault::new();
pub static CLONE_FAULT: Fault = Fault::new();
pub static CLOSURE_FAULT: Fault = Fault::new();
pub static HINT_FAULT: Fault = Fault::new();
pub static FIRED: AtomicU64 = AtomicU64::new(0);

// ---- elements ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    /// the original element by value
    Orig,
    /// a clone or copy by value
    Clone,
    /// a reference to the original
    Ref,
    /// a plain number
    Plain,
}

#[derive(Clone, Copy, Debug)]
pub struct Seen {
    pub key: u64,
    pub form: Form,
    pub addr: usize,
}

pub trait Item: Send + Sync {
    /// records the delivery of the item
    fn seen(&self) -> Seen;
    /// key of a kept item; does not record anything
    fn again(&self) -> u64;
}

/// Owning element: not Clone-able without trace, not droppable without trace.
pub struct Tok {
    id: u32,
    flavor: u32,
    canary: Cell32,
    heap: Option<Box<u64>>,
}

struct Cell32(Cell<u32>);
unsafe impl Sync for Cell32 {}

impl Tok {
    pub fn new(id: usize) -> Self {
        let e = &ledger().entries[id];
        if e.created.fetch_add(1, Relaxed) != 0 {
            error(format!("harness: element {id} created twice"));
        }
        Self::make(id as u32, 0)
    }
    fn make(id: u32, flavor: u32) -> Self {
        let _t = sched::Track::set(false);
        let heap = HEAP.load(Relaxed).then(|| Box::new(id as u64 * 3 + flavor as u64));
        Self { id, flavor, canary: Cell32(Cell::new(canary(id, flavor))), heap }
    }
    pub fn id(&self) -> usize {
        self.id as usize
    }
    fn valid(&self) -> bool {
        (self.id as usize) < MAX_TOKENS
            && self.flavor < 2
            && self.canary.0.get() == canary(self.id, self.flavor)
            && self.heap.as_ref().map_or(true, |h| **h == self.id as u64 * 3 + self.flavor as u64)
    }
    pub fn check(&self, whence: &str) -> bool {
        let ok = self.valid();
        if !ok {
            error(format!("{whence}: element is not valid (garbage or destroyed)"));
        } else if self.flavor == 0 && ledger().entries[self.id as usize].dropped.load(Relaxed) > 0 {
            error(format!("{whence}: element {} is already destroyed", self.id));
        }
        ok
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let _t = sched::Track::set(false);
        if !self.valid() {
            error("drop: element is not valid (garbage or destroyed)".to_string());
            // do not free a garbage pointer
            std::mem::forget(self.heap.take());
            return;
        }
        let e = &ledger().entries[self.id as usize];
        match self.flavor {
            0 => {
                if e.dropped.fetch_add(1, Relaxed) > 0 {
                    error(format!("element {} is destroyed more than once", self.id));
                    if !HEAP.load(Relaxed) {
                        return;
                    }
                }
            }
            _ => {
                e.clones_dropped.fetch_add(1, Relaxed);
            }
        }
        self.canary.0.set(0xdeaddead);
        self.heap = None;
    }
}

impl Clone for Tok {
    fn clone(&self) -> Self {
        let _t = sched::Track::set(false);
        sched::point();
        self.check("clone");
        CLONE_FAULT.hit();
        let id = self.id.min(MAX_TOKENS as u32 - 1);
        ledger().entries[id as usize].clones.fetch_add(1, Relaxed);
        Self::make(id, 1)
    }
}

impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Tok({})", self.id)
    }
}

impl Item for Tok {
    fn again(&self) -> u64 {
        if self.check("kept element") { self.id as u64 } else { u64::MAX }
    }
    fn seen(&self) -> Seen {
        let _t = sched::Track::set(false);
        let ok = self.check("delivered");
        let key = if ok { self.id as u64 } else { u64::MAX };
        if ok && self.flavor == 0 && ledger().entries[self.id as usize].moved.fetch_add(1, Relaxed) > 0 {
            error(format!("element {} has two owners", self.id));
        }
        Seen { key, form: if self.flavor == 0 { Form::Orig } else { Form::Clone }, addr: 0 }
    }
}

impl<'a> Item for &'a Tok {
    fn again(&self) -> u64 {
        if self.check("kept reference") { self.id as u64 } else { u64::MAX }
    }
    fn seen(&self) -> Seen {
        let _t = sched::Track::set(false);
        let ok = self.check("delivered reference");
        Seen { key: if ok && self.flavor == 0 { self.id as u64 } else { u64::MAX }, form: Form::Ref, addr: *self as *const Tok as usize }
    }
}

/// Copy element.
#[derive(Clone, Copy, Debug)]
pub struct CTok {
    id: u32,
    canary: u32,
    pad: [u64; 3],
}
impl CTok {
    pub fn new(id: usize) -> Self {
        let id = id as u32;
        Self { id, canary: canary(id, 2), pad: [id as u64, !(id as u64), id as u64 * 7] }
    }
    pub fn id(&self) -> usize {
        self.id as usize
    }
    pub fn valid(&self) -> bool {
        let i = self.id as u64;
        self.canary == canary(self.id, 2) && self.pad == [i, !i, i * 7]
    }
}
impl Item for CTok {
    fn again(&self) -> u64 {
        if self.valid() { self.id as u64 } else { u64::MAX }
    }
    fn seen(&self) -> Seen {
        Seen { key: if self.valid() { self.id as u64 } else { u64::MAX }, form: Form::Clone, addr: 0 }
    }
}
impl<'a> Item for &'a CTok {
    fn again(&self) -> u64 {
        if self.valid() { self.id as u64 } else { u64::MAX }
    }
    fn seen(&self) -> Seen {
        Seen { key: if self.valid() { self.id as u64 } else { u64::MAX }, form: Form::Ref, addr: *self as *const CTok as usize }
    }
}

impl Item for usize {
    fn again(&self) -> u64 {
        *self as u64
    }
    fn seen(&self) -> Seen {
        Seen { key: *self as u64, form: Form::Plain, addr: 0 }
    }
}

pub static ZST_CREATED: AtomicUsize = AtomicUsize::new(0);
pub static ZST_DROPPED: AtomicUsize = AtomicUsize::new(0);

/// Zero sized element with a destructor.
pub struct Zst;
impl Zst {
    pub fn new() -> Self {
        ZST_CREATED.fetch_add(1, Relaxed);
        Zst
    }
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        Self::new()
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZST_DROPPED.fetch_add(1, Relaxed);
    }
}
