//! Deterministic one-at-a-time scheduler with an operational (view based) weak memory model.
//!
//! Real OS threads take turns: the holder of the baton runs, everybody else is parked. Every
//! instrumented operation is a scheduling point *before* the operation. Happens-before is computed
//! from the memory orderings the code passes (release/acquire, release sequences, fences), not
//! from the interleaving.
use ::std::cell::{Cell, UnsafeCell};
use ::std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use ::std::sync::Mutex;
use ::std::thread::Thread;
use Ordering::*;

pub const MAXT: usize = 18;
const SPIN_SOFT: u32 = 3;
const SPIN_HARD: u32 = 48;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Load,
    Store,
    Rmw,
    Cas,
    Fence,
    Spin,
    Harness,
}

#[derive(Clone, Debug)]
pub enum Strategy {
    /// switch to a random runnable thread with probability p/256 at every point
    Random { p: u32 },
    /// random priorities, with `d` priority drops at random points among the first `k`
    Pct { d: u32, k: u32 },
    /// round robin with the given number of points per turn
    RoundRobin { q: u32 },
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub strategy: Strategy,
    /// loads may return older values (as permitted by the C11 model)
    pub weak: bool,
    /// compare_exchange_weak may fail spuriously
    pub spurious: bool,
    /// freeze thread .0 when it reaches its .1-th point
    pub freeze: Option<(usize, u64)>,
    /// a stall of all other threads while one is frozen is a violation
    pub nonblocking: bool,
    pub max_steps: u64,
}

#[derive(Clone, Default)]
struct Clock {
    vc: [u32; MAXT],
    view: Vec<u32>,
}

impl Clock {
    fn join(&mut self, o: &Clock) {
        for i in 0..MAXT {
            if o.vc[i] > self.vc[i] {
                self.vc[i] = o.vc[i];
            }
        }
        if self.view.len() < o.view.len() {
            self.view.resize(o.view.len(), 0);
        }
        for (a, b) in self.view.iter_mut().zip(o.view.iter()) {
            if *b > *a {
                *a = *b;
            }
        }
    }
    fn see(&mut self, l: usize, idx: u32) {
        if self.view.len() <= l {
            self.view.resize(l + 1, 0);
        }
        if self.view[l] < idx {
            self.view[l] = idx;
        }
    }
    fn seen(&self, l: usize) -> u32 {
        self.view.get(l).copied().unwrap_or(0)
    }
}

struct Write {
    val: u64,
    msg: Clock,
}

struct Loc {
    base: u32,
    hist: ::std::collections::VecDeque<Write>,
}

impl Loc {
    fn latest(&self) -> u32 {
        self.base + self.hist.len() as u32 - 1
    }
    fn push(&mut self, w: Write) -> u32 {
        if self.hist.len() >= 24 {
            self.hist.pop_front();
            self.base += 1;
        }
        self.hist.push_back(w);
        self.latest()
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum St {
    Off,
    Run,
    Done,
}

#[derive(Default, Clone, Copy)]
struct Acc {
    w_tid: usize,
    w_clk: u32,
    r: [u32; MAXT],
}

struct State {
    cfg: Config,
    rng: u64,
    nonce: u64,
    n: usize,
    status: [St; MAXT],
    frozen: Option<usize>,
    freeze_used: bool,
    steps: u64,
    phase_steps: u64,
    tsteps: [u64; MAXT],
    seq: u64,
    version: u64,
    last_version: [u64; MAXT],
    idle: [u32; MAXT],
    prio: [u64; MAXT],
    drops: Vec<u64>,
    turn: u32,
    clocks: Vec<Clock>,
    acq_fence: Vec<Clock>,
    rel_fence: Vec<Clock>,
    sc: Clock,
    locs: Vec<Loc>,
    stale: [u32; MAXT],
    spur: [u32; MAXT],
    accs: ::std::collections::HashMap<u64, Acc>,
    races: Vec<String>,
    hash: u64,
    switches: u64,
    contended: u64,
    stale_reads: u64,
    spurious_fails: u64,
    atomic_ops: u64,
    frozen_stall: bool,
    freeze_hits: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub contended: u64,
    pub atomic_ops: u64,
    pub stale_reads: u64,
    pub spurious_fails: u64,
    pub freeze_hits: u64,
    pub hash: u64,
    pub races: Vec<String>,
    pub frozen_stall: bool,
}

struct Global(UnsafeCell<Option<State>>);
unsafe impl Sync for Global {}
static STATE: Global = Global(UnsafeCell::new(None));
static CURRENT: AtomicUsize = AtomicUsize::new(usize::MAX);
static ENABLED: AtomicBool = AtomicBool::new(false);
static NONCE: AtomicU64 = AtomicU64::new(1);

type Job = Box<dyn FnOnce() + Send>;
struct Slot {
    thread: Mutex<Option<Thread>>,
    job: Mutex<Option<Job>>,
}
static SLOTS: [Slot; MAXT] = [const { Slot { thread: Mutex::new(None), job: Mutex::new(None) } }; MAXT];

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static MASK: Cell<u32> = const { Cell::new(0) };
    /// allocations of this thread are attributed to the code under test
    pub static TRACK: Cell<bool> = const { Cell::new(false) };
}

/// Switches allocation tracking off (or on) in a scope.
pub struct Track(bool);
impl Track {
    pub fn set(on: bool) -> Self {
        Self(TRACK.try_with(|t| t.replace(on)).unwrap_or(false))
    }
}
impl Drop for Track {
    fn drop(&mut self) {
        let old = self.0;
        _ = TRACK.try_with(|t| t.set(old));
    }
}

static HANG: Mutex<Option<fn(&str)>> = Mutex::new(None);

/// Called (and must not return) when no thread can make progress.
pub fn on_hang(f: fn(&str)) {
    *HANG.lock().unwrap() = Some(f);
}

fn st() -> &'static mut State {
    // SAFETY: only the holder of the baton gets here
    unsafe { (*STATE.0.get()).as_mut().unwrap() }
}

pub fn tid() -> usize {
    TID.try_with(|t| t.get()).unwrap_or(usize::MAX)
}

pub fn active() -> bool {
    tid() != usize::MAX && ENABLED.load(Relaxed) && MASK.with(|m| m.get()) == 0
}

/// Runs `f` with instrumentation switched off on this thread.
pub fn masked<R>(f: impl FnOnce() -> R) -> R {
    MASK.with(|m| m.set(m.get() + 1));
    let r = f();
    MASK.with(|m| m.set(m.get() - 1));
    r
}

fn rnd(s: &mut State) -> u64 {
    s.rng = s.rng.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = s.rng;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn begin(cfg: Config) {
    let nonce = NONCE.fetch_add(1, Relaxed);
    let seed = cfg.seed;
    let mut s = State {
        cfg,
        rng: seed ^ 0xD1B54A32D192ED03,
        nonce,
        n: 1,
        status: [St::Off; MAXT],
        frozen: None,
        freeze_used: false,
        steps: 0,
        phase_steps: 0,
        tsteps: [0; MAXT],
        seq: 0,
        version: 1,
        last_version: [0; MAXT],
        idle: [0; MAXT],
        prio: [0; MAXT],
        drops: vec![],
        turn: 0,
        clocks: vec![Clock::default(); MAXT],
        acq_fence: vec![Clock::default(); MAXT],
        rel_fence: vec![Clock::default(); MAXT],
        sc: Clock::default(),
        locs: vec![],
        stale: [0; MAXT],
        spur: [0; MAXT],
        accs: Default::default(),
        races: vec![],
        hash: 0xcbf29ce484222325,
        switches: 0,
        contended: 0,
        stale_reads: 0,
        spurious_fails: 0,
        atomic_ops: 0,
        frozen_stall: false,
        freeze_hits: 0,
    };
    for i in 0..MAXT {
        s.prio[i] = (rnd(&mut s) | 1 << 63) & !0xff | i as u64;
    }
    if let Strategy::Pct { d, k } = s.cfg.strategy {
        for _ in 0..d {
            let at = rnd(&mut s) % (k.max(1) as u64);
            s.drops.push(at);
        }
    }
    s.status[0] = St::Run;
    unsafe { *STATE.0.get() = Some(s) };
    TID.with(|t| t.set(0));
    *SLOTS[0].thread.lock().unwrap() = Some(::std::thread::current());
    CURRENT.store(0, Release);
    ENABLED.store(true, Release);
}

pub fn end() -> Stats {
    ENABLED.store(false, Release);
    TID.with(|t| t.set(usize::MAX));
    let s = unsafe { (*STATE.0.get()).take().unwrap() };
    Stats {
        steps: s.steps,
        switches: s.switches,
        contended: s.contended,
        atomic_ops: s.atomic_ops,
        stale_reads: s.stale_reads,
        spurious_fails: s.spurious_fails,
        freeze_hits: s.freeze_hits,
        hash: s.hash,
        races: s.races,
        frozen_stall: s.frozen_stall,
    }
}

fn wait_for_baton(me: usize) {
    while CURRENT.load(Acquire) != me {
        ::std::thread::park();
    }
}

fn hand_to(next: usize) {
    let th = SLOTS[next].thread.lock().unwrap().clone();
    CURRENT.store(next, Release);
    if let Some(t) = th {
        t.unpark();
    }
}

fn worker(me: usize) {
    TID.with(|t| t.set(me));
    loop {
        wait_for_baton(me);
        let job = SLOTS[me].job.lock().unwrap().take();
        match job {
            Some(j) => j(),
            None => {
                ::std::thread::park();
                continue;
            }
        }
        let s = st();
        s.version += 1;
        s.status[me] = St::Done;
        let next = match (1..s.n).any(|i| s.status[i] == St::Run) {
            true => pick(s, me, true),
            false => 0,
        };
        hand_to(next);
    }
}

/// Runs the jobs on the workers 1..=jobs.len() until all of them are done (called by thread 0).
pub fn run_phase(jobs: Vec<Job>) {
    if jobs.is_empty() {
        return;
    }
    assert_eq!(tid(), 0);
    assert!(jobs.len() < MAXT);
    let s = st();
    s.n = jobs.len() + 1;
    s.phase_steps = 0;
    s.status[0] = St::Off;
    let main = s.clocks[0].clone();
    for (i, job) in jobs.into_iter().enumerate() {
        let t = i + 1;
        *SLOTS[t].job.lock().unwrap() = Some(job);
        s.status[t] = St::Run;
        s.idle[t] = 0;
        s.clocks[t].join(&main);
        s.clocks[t].vc[t] += 1;
        let mut th = SLOTS[t].thread.lock().unwrap();
        if th.is_none() {
            let h = ::std::thread::Builder::new().stack_size(1 << 20).spawn(move || worker(t)).unwrap();
            *th = Some(h.thread().clone());
        }
    }
    s.clocks[0].vc[0] += 1;
    let first = pick(s, 0, true);
    hand_to(first);
    wait_for_baton(0);
    let s = st();
    for t in 1..s.n {
        let c = s.clocks[t].clone();
        s.clocks[0].join(&c);
        s.status[t] = St::Off;
    }
    s.clocks[0].vc[0] += 1;
    s.status[0] = St::Run;
    s.version += 1;
    s.idle[0] = 0;
    if s.frozen.is_some() {
        s.frozen = None;
    }
}

fn idle_of(s: &State, t: usize) -> u32 {
    match s.last_version[t] == s.version {
        true => s.idle[t],
        false => 0,
    }
}

fn hang(msg: &str) -> ! {
    let f = *HANG.lock().unwrap();
    if let Some(f) = f {
        f(msg);
    }
    ::std::eprintln!("HANG {msg}");
    ::std::process::exit(3)
}

/// Picks the next thread; `leaving`: the current thread cannot continue.
fn pick(s: &mut State, me: usize, leaving: bool) -> usize {
    let mut cand = [0usize; MAXT];
    let mut nc = 0;
    let mut runnable = 0;
    let mut stuck = 0;
    let lo = if s.status[0] == St::Run { 0 } else { 1 };
    for t in lo..s.n {
        if s.status[t] != St::Run || s.frozen == Some(t) {
            continue;
        }
        runnable += 1;
        let idle = idle_of(s, t);
        if idle >= SPIN_HARD {
            stuck += 1;
        }
        if idle < SPIN_SOFT {
            cand[nc] = t;
            nc += 1;
        }
    }
    if runnable == 0 {
        // only the frozen thread is left
        let f = s.frozen.take();
        if let Some(f) = f {
            s.idle[f] = 0;
            return f;
        }
        return 0;
    }
    if stuck == runnable {
        match s.frozen.take() {
            Some(f) => {
                s.frozen_stall = true;
                if s.cfg.nonblocking {
                    hang(&::std::format!("threads cannot complete while thread {f} is suspended (after {} steps)", s.steps));
                }
                s.version += 1;
                return f;
            }
            None => hang(&::std::format!("all {runnable} unfinished threads wait forever (after {} steps)", s.steps)),
        }
    }
    if nc == 0 {
        // everybody spins: fair among the spinning ones
        for t in lo..s.n {
            if s.status[t] == St::Run && s.frozen != Some(t) {
                cand[nc] = t;
                nc += 1;
            }
        }
        s.turn = s.turn.wrapping_add(1);
        return cand[s.turn as usize % nc];
    }
    let me_ok = !leaving && cand[..nc].contains(&me);
    if s.phase_steps > s.cfg.max_steps {
        // fair mode
        s.turn = s.turn.wrapping_add(1);
        return cand[s.turn as usize % nc];
    }
    match s.cfg.strategy {
        Strategy::Random { p } => {
            let r = rnd(s);
            if me_ok && (r & 0xff) as u32 >= p {
                return me;
            }
            cand[((r >> 8) % nc as u64) as usize]
        }
        Strategy::Pct { .. } => {
            let mut best = cand[0];
            for &c in &cand[1..nc] {
                if s.prio[c] > s.prio[best] {
                    best = c;
                }
            }
            best
        }
        Strategy::RoundRobin { q } => {
            s.turn += 1;
            if me_ok && s.turn % q.max(1) != 0 {
                return me;
            }
            *cand[..nc].iter().find(|&&c| c > me).unwrap_or(&cand[0])
        }
    }
}

/// A scheduling point.
pub fn point(kind: Kind) {
    if !active() {
        return;
    }
    let _untrack = Track::set(false);
    let me = tid();
    let s = st();
    s.steps += 1;
    s.phase_steps += 1;
    s.tsteps[me] += 1;
    s.clocks[me].vc[me] += 1;
    if kind != Kind::Harness {
        s.atomic_ops += 1;
    }
    if matches!(kind, Kind::Load | Kind::Cas | Kind::Spin | Kind::Rmw | Kind::Store | Kind::Fence) {
        match s.last_version[me] == s.version {
            true => s.idle[me] += 1,
            false => {
                s.idle[me] = 0;
                s.last_version[me] = s.version;
            }
        }
    }
    s.hash = (s.hash ^ (me as u64 + ((kind as u64) << 8))).wrapping_mul(0x100000001b3);
    if me == 0 {
        if s.idle[0] > 5000 && s.last_version[0] == s.version || s.phase_steps > 40 * s.cfg.max_steps {
            hang(&::std::format!("a call on the only thread does not return (after {} steps)", s.steps));
        }
        return;
    }
    if s.frozen.is_some() && !s.cfg.nonblocking && s.phase_steps > 2 * s.cfg.max_steps {
        // the others may be waiting for the suspended thread in a loop which writes (a lock which is taken and released)
        s.frozen = None;
        s.frozen_stall = true;
        s.phase_steps = s.cfg.max_steps + 1;
    }
    if s.phase_steps > 5 * s.cfg.max_steps {
        hang(&::std::format!("no termination after {} steps, {} of them scheduled fairly", s.phase_steps, s.phase_steps - s.cfg.max_steps));
    }
    if let Some((t, at)) = s.cfg.freeze {
        if t == me && !s.freeze_used && s.tsteps[me] >= at {
            s.freeze_used = true;
            s.freeze_hits += 1;
            s.frozen = Some(me);
        }
    }
    if let Strategy::Pct { .. } = s.cfg.strategy {
        let now = s.phase_steps;
        if let Some(i) = s.drops.iter().position(|&d| d == now) {
            s.drops.swap_remove(i);
            // below everybody else, later drops even lower
            s.prio[me] = (1 << 40) - (now << 8) + me as u64;
        }
    }
    let next = pick(s, me, s.frozen == Some(me));
    if next != me {
        s.switches += 1;
        if kind != Kind::Harness {
            s.contended += 1;
        }
        hand_to(next);
        wait_for_baton(me);
    }
}

/// Scheduling point of a thread which announces that it waits. Returns false outside of the simulation.
pub fn spin_hint() -> bool {
    if !active() {
        return false;
    }
    point(Kind::Spin);
    true
}

/// Tells the scheduler that something observable happened.
pub fn progress() {
    if active() {
        st().version += 1;
    }
}

/// Global logical time.
pub fn now() -> u64 {
    if !ENABLED.load(Relaxed) || tid() == usize::MAX {
        return 0;
    }
    let s = st();
    s.seq += 1;
    s.seq
}

/// Snapshot of the happens-before clock of the calling thread.
pub fn clock() -> [u32; MAXT] {
    if tid() == usize::MAX || !ENABLED.load(Relaxed) {
        return [0; MAXT];
    }
    let me = tid();
    let s = st();
    s.clocks[me].vc[me] += 1;
    s.clocks[me].vc
}

pub fn random() -> u64 {
    rnd(st())
}

fn loc(s: &mut State, id: &AtomicU64, cur: u64) -> usize {
    let raw = id.load(Relaxed);
    if raw >> 24 == s.nonce && raw != 0 {
        let l = (raw & 0xff_ffff) as usize;
        if s.locs[l].hist.back().unwrap().val != cur {
            // non-atomic write by an exclusive owner
            s.locs[l].push(Write { val: cur, msg: Clock::default() });
        }
        return l;
    }
    let l = s.locs.len();
    s.locs.push(Loc { base: 0, hist: [Write { val: cur, msg: Clock::default() }].into() });
    id.store(s.nonce << 24 | l as u64, Relaxed);
    l
}

fn acq(o: Ordering) -> bool {
    matches!(o, Acquire | AcqRel | SeqCst)
}

fn rel(o: Ordering) -> bool {
    matches!(o, Release | AcqRel | SeqCst)
}

fn observe(s: &mut State, me: usize, l: usize, idx: u32, o: Ordering) {
    s.clocks[me].see(l, idx);
    let msg = &s.locs[l].hist[(idx - s.locs[l].base) as usize].msg;
    s.acq_fence[me].join(msg);
    if acq(o) {
        s.clocks[me].join(msg);
    }
}

pub fn load(id: &AtomicU64, cur: u64, o: Ordering) -> u64 {
    let _untrack = Track::set(false);
    let me = tid();
    let s = st();
    let l = loc(s, id, cur);
    let latest = s.locs[l].latest();
    let mut idx = latest;
    if s.cfg.weak && o != SeqCst && s.stale[me] < 3 && s.idle[me] < SPIN_SOFT {
        let lo = s.clocks[me].seen(l).max(s.locs[l].base);
        if lo < latest && rnd(s) % 3 == 0 {
            idx = lo + (rnd(s) % (latest - lo) as u64) as u32;
        }
    }
    match idx == latest {
        true => s.stale[me] = 0,
        false => {
            s.stale[me] += 1;
            s.stale_reads += 1;
        }
    }
    observe(s, me, l, idx, o);
    s.locs[l].hist[(idx - s.locs[l].base) as usize].val
}

pub fn store(id: &AtomicU64, cur: u64, new: u64, o: Ordering) {
    let _untrack = Track::set(false);
    let me = tid();
    let s = st();
    let l = loc(s, id, cur);
    let msg = match rel(o) {
        true => s.clocks[me].clone(),
        false => s.rel_fence[me].clone(),
    };
    if cur != new {
        s.version += 1;
    }
    let idx = s.locs[l].push(Write { val: new, msg });
    s.clocks[me].see(l, idx);
    s.locs[l].hist.back_mut().unwrap().msg.see(l, idx);
}

pub fn rmw(id: &AtomicU64, before: u64, after: u64, o: Ordering) {
    let _untrack = Track::set(false);
    let me = tid();
    let s = st();
    let l = loc(s, id, before);
    let latest = s.locs[l].latest();
    observe(s, me, l, latest, o);
    let mut msg = s.locs[l].hist.back().unwrap().msg.clone();
    match rel(o) {
        true => msg.join(&s.clocks[me]),
        false => msg.join(&s.rel_fence[me]),
    }
    if before != after {
        s.version += 1;
    }
    let idx = s.locs[l].push(Write { val: after, msg });
    s.clocks[me].see(l, idx);
    s.locs[l].hist.back_mut().unwrap().msg.see(l, idx);
}

pub fn cas_failed(id: &AtomicU64, cur: u64, o: Ordering) {
    let _untrack = Track::set(false);
    let me = tid();
    let s = st();
    let l = loc(s, id, cur);
    let latest = s.locs[l].latest();
    observe(s, me, l, latest, o);
}

/// Whether a compare_exchange_weak is to fail spuriously now.
pub fn spurious() -> bool {
    let me = tid();
    let s = st();
    if !s.cfg.spurious || s.spur[me] >= 2 || s.idle[me] >= SPIN_SOFT {
        s.spur[me] = 0;
        return false;
    }
    if rnd(s) % 6 == 0 {
        s.spur[me] += 1;
        s.spurious_fails += 1;
        return true;
    }
    s.spur[me] = 0;
    false
}

pub fn fence(o: Ordering) {
    let _untrack = Track::set(false);
    let me = tid();
    let s = st();
    if acq(o) {
        let c = s.acq_fence[me].clone();
        s.clocks[me].join(&c);
    }
    if o == SeqCst {
        let c = s.sc.clone();
        s.clocks[me].join(&c);
    }
    if rel(o) {
        s.rel_fence[me] = s.clocks[me].clone();
    }
    if o == SeqCst {
        s.sc = s.clocks[me].clone();
    }
}

pub fn lock_acquire(id: &AtomicU64) {
    if active() {
        rmw(id, 0, 0, Acquire);
        st().version += 1;
    }
}

pub fn lock_release(id: &AtomicU64) {
    if active() {
        rmw(id, 0, 0, Release);
        st().version += 1;
    }
}

/// Non-atomic access to a harness-owned object; reports accesses not ordered by happens-before.
pub fn access(key: u64, write: bool, what: &str) {
    let _untrack = Track::set(false);
    if tid() == usize::MAX || !ENABLED.load(Relaxed) {
        return;
    }
    let me = tid();
    let s = st();
    s.clocks[me].vc[me] += 1;
    let c = s.clocks[me].vc;
    let a = s.accs.entry(key).or_default();
    let mut bad = None;
    if a.w_clk > c[a.w_tid] && a.w_tid != me {
        bad = Some(("write", a.w_tid));
    }
    if write {
        for t in 0..MAXT {
            if t != me && a.r[t] > c[t] {
                bad = Some(("read", t));
            }
        }
    }
    match write {
        true => {
            a.w_tid = me;
            a.w_clk = c[me];
        }
        false => a.r[me] = c[me],
    }
    if let Some((k, t)) = bad {
        if s.races.len() < 8 {
            s.races.push(::std::format!(
                "{} of {what} by thread {me} is not ordered after the {k} by thread {t}",
                if write { "write" } else { "read" }
            ));
        }
    }
}
