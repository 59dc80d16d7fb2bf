//! Executes a program against the real crate and records what happened.
use crate::alloc;
use crate::ledger::{self, ledger, CTok, Form, Injected, Item, Seen, Tok, CLONE_FAULT, CLOSURE_FAULT, FIRED, HINT_FAULT, NEXT_FAULT};
use crate::prog::*;
use crate::rng::Rng;
use crate::sched::{self, Track, CLOCK, MAXT};
use orx_concurrent_iter::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum What {
    Next,
    NextId,
    Chunk,
    BufPull,
    ValNext,
    IdNext,
    ForEach,
    EnumForEach,
    Fold,
    Skip,
    Len,
    HasMore,
    CloneIter,
    IntoSeq,
}

impl What {
    pub fn pull(self) -> bool {
        !matches!(self, What::Skip | What::Len | What::HasMore | What::CloneIter)
    }
    pub fn compound(self) -> bool {
        matches!(self, What::ForEach | What::EnumForEach | What::Fold)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Deliv {
    pub key: u64,
    /// position of the element in the source; negative: not an element of the source
    pub pos: i64,
    pub idx: Option<usize>,
    pub form: Form,
    pub addr: usize,
}

#[derive(Clone, Debug, Default)]
pub struct ChunkRec {
    pub begin: usize,
    pub announced: usize,
    /// number of elements taken out (including the ones skipped by nth)
    pub yielded: usize,
    pub complete: bool,
    pub bad: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Panicked {
    No,
    Injected,
    Unexpected,
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub thread: usize,
    pub iter: usize,
    pub what: What,
    pub n: usize,
    pub start: u64,
    pub end: u64,
    pub sc: [u32; CLOCK],
    pub ec: [u32; CLOCK],
    pub deliv: Vec<Deliv>,
    pub chunk: Option<ChunkRec>,
    pub ended: bool,
    pub len: Option<Option<usize>>,
    pub has: Option<HasMore>,
    pub panicked: Panicked,
    pub msg: Option<String>,
    pub child: usize,
    pub fold: Option<Fold>,
    pub finished: bool,
    /// runs within a closure of for_each or fold
    pub nested: bool,
    /// the closure ran operations
    pub hosts: bool,
    /// visits after the first skip_to_end of the closure
    pub visits_after_skip: Option<usize>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Fold {
    pub count: u64,
    pub sum: u64,
    pub xor: u64,
}
impl Fold {
    pub fn add(self, key: u64) -> Self {
        let h = crate::rng::mix(key, 77);
        Self { count: self.count + 1, sum: self.sum.wrapping_add(h), xor: self.xor ^ h.rotate_left((key % 64) as u32) }
    }
}

impl OpRec {
    /// positions delivered by this operation, including those of dropped parts of chunks
    pub fn positions(&self) -> Vec<i64> {
        match &self.chunk {
            Some(c) if self.deliv.len() != c.announced => {
                let mut v: Vec<i64> = self.deliv.iter().map(|d| d.pos).collect();
                // taken but not looked at (nth), or dropped
                // the elements which are not looked at were dropped, unless the chunk yields fewer than announced
                let n = if c.complete { c.yielded.min(c.announced) } else { c.announced }.min(1 << 20);
                let mut seen = vec![false; n];
                for i in self.deliv.iter().filter_map(|d| d.idx) {
                    if let Some(x) = i.checked_sub(c.begin).and_then(|i| seen.get_mut(i)) {
                        *x = true;
                    }
                }
                v.extend((0..n).filter(|&i| !seen[i]).map(|i| c.begin.wrapping_add(i) as i64));
                v
            }
            _ => self.deliv.iter().map(|d| d.pos).collect(),
        }
    }
    pub fn delivers(&self) -> bool {
        !self.deliv.is_empty() || self.chunk.as_ref().map_or(false, |c| c.announced > 0)
    }
    pub fn brief(&self) -> String {
        let d: Vec<String> = self
            .deliv
            .iter()
            .take(12)
            .map(|d| match d.idx {
                Some(i) => format!("{i}:{}", d.pos),
                None => format!("{}", d.pos),
            })
            .collect();
        let mut s = format!("t{} i{} {:?}", self.thread, self.iter, self.what);
        if self.n != 1 || matches!(self.what, What::Chunk | What::BufPull) {
            s += &format!("({})", self.n);
        }
        s += &format!("@{}..{}", self.start, self.end);
        if let Some(c) = &self.chunk {
            s += &format!(" begin={} len={}", c.begin, c.announced);
        }
        if !d.is_empty() {
            s += &format!(" [{}]", d.join(","));
        }
        if self.ended {
            s += " END";
        }
        if let Some(l) = self.len {
            s += &format!(" len={l:?}");
        }
        if let Some(h) = self.has {
            s += &format!(" {h:?}");
        }
        if self.panicked != Panicked::No {
            s += &format!(" PANIC {:?} {}", self.panicked, self.msg.clone().unwrap_or_default());
        }
        if !self.finished {
            s += " (not returned)";
        }
        s
    }
}

#[derive(Default, Debug)]
pub struct Outcome {
    pub recs: Vec<OpRec>,
    /// positions of the remainder yielded by into_seq_iter (and whether it was iterated to its end)
    pub seq: Option<(Vec<(i64, Form, usize)>, bool)>,
    /// number of elements of the remainder which are skipped by nth before
    pub seq_off: usize,
    pub seq_hint: Option<String>,
    pub seq_panic: Option<String>,
    /// the injected panic of the wrapped iterator is hit by the sequential remainder
    pub end_injected: bool,
    pub hold_bad: Vec<String>,
    pub source_bad: Vec<String>,
    pub ledger_bad: Vec<(&'static str, String)>,
    pub overlap: usize,
    pub next_calls: u64,
    pub calls_after_end: u64,
    pub leak: Option<String>,
    pub tracked_allocs: usize,
    pub fired: u64,
    pub addr0: Vec<usize>,
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _t = Track::set(false);
        let p = info.payload();
        if p.is::<Injected>() {
            return;
        }
        let m = match (p.downcast_ref::<&str>(), p.downcast_ref::<String>()) {
            (Some(s), _) => s.to_string(),
            (_, Some(s)) => s.clone(),
            _ => "?".to_string(),
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        _ = LAST_PANIC.try_with(|x| *x.borrow_mut() = format!("{m} at {at}"));
    }));
}

/// Called when an execution cannot be continued; does not return.
pub static FATAL: Mutex<Option<fn(&str, &str)>> = Mutex::new(None);

pub fn fatal(class: &str, msg: &str) -> ! {
    let f = *FATAL.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(f) = f {
        f(class, msg);
    }
    eprintln!("FATAL {class} {msg}");
    std::process::exit(4)
}

/// Runs a call into the crate.
fn call<R>(f: impl FnOnce() -> R) -> R {
    let _t = Track::set(true);
    f()
}

fn outside<R>(f: impl FnOnce() -> R) -> R {
    let _t = Track::set(false);
    f()
}

/// Drops the value while the thread unwinds.
fn drop_unwinding<T>(x: T) {
    let res = catch_unwind(AssertUnwindSafe(move || {
        let _x = x;
        std::panic::resume_unwind(Box::new(Injected))
    }));
    debug_assert!(res.is_err());
    drop(res);
}

fn drop_how<T>(how: Drops, x: T) {
    call(|| match how {
        Drops::Unwind => drop_unwinding(x),
        Drops::Forget => std::mem::forget(x),
        Drops::Normal => drop(x),
    })
}

// ---- completed operations of the current execution, for executions which do not end ----

struct Ptr<T>(*const T);
unsafe impl<T> Send for Ptr<T> {}
/// of each thread; the lock is held while the thread adds a record
static RECS: [Mutex<Option<Ptr<Vec<OpRec>>>>; MAXT] = [const { Mutex::new(None) }; MAXT];
static DONE: Mutex<Option<Ptr<Mutex<Vec<OpRec>>>>> = Mutex::new(None);
static PROGRAM: Mutex<Option<Ptr<Program>>> = Mutex::new(None);

/// The program and the operations which have completed so far.
pub fn completed() -> Option<(Program, Vec<OpRec>)> {
    let _t = Track::set(false);
    let prog = match &*PROGRAM.try_lock().ok()? {
        // SAFETY: the execution which registered it does not end
        Some(p) => unsafe { (*p.0).clone() },
        None => return None,
    };
    let mut recs = vec![];
    if let Some(p) = &*DONE.try_lock().ok()? {
        recs.extend(unsafe { &*p.0 }.try_lock().ok()?.iter().cloned());
    }
    for r in &RECS {
        if let Some(p) = &*r.try_lock().ok()? {
            recs.extend(unsafe { &*p.0 }.iter().cloned());
        }
    }
    Some((prog, recs))
}

struct Env<'e, C: ConcurrentIter> {
    prog: &'e Program,
    iters: &'e [C],
    clone_fn: Option<fn(&C) -> C>,
    pos_of: &'e (dyn Fn(&Seen) -> i64 + Sync),
    holds: Mutex<Vec<(C::Item, u64)>>,
    delivered: AtomicUsize,
    cap: usize,
    next_iter: AtomicUsize,
    recs: Mutex<Vec<OpRec>>,
}

struct Th<T> {
    thread: usize,
    recs: Vec<OpRec>,
    holds: Vec<(T, u64)>,
    stop: bool,
    closures: usize,
}

impl<T: Item> Th<T> {
    fn done(&mut self, rec: OpRec) {
        outside(|| {
            let _g = RECS[self.thread].lock();
            self.recs.push(rec);
        })
    }
    fn open(&self, iter: usize, what: What, n: usize) -> OpRec {
        outside(|| OpRec {
            thread: self.thread,
            iter,
            what,
            n,
            sc: sched::clock(),
            start: sched::now(),
            end: 0,
            ec: [0; CLOCK],
            deliv: vec![],
            chunk: None,
            ended: false,
            len: None,
            has: None,
            panicked: Panicked::No,
            msg: None,
            child: 0,
            fold: None,
            finished: false,
            nested: self.closures > 0,
            hosts: false,
            visits_after_skip: None,
        })
    }
    fn item<C: ConcurrentIter<Item = T>>(&mut self, env: &Env<C>, rec: &mut OpRec, idx: Option<usize>, item: T) {
        outside(|| {
            let s = item.seen();
            rec.deliv.push(Deliv { key: s.key, pos: (env.pos_of)(&s), idx, form: s.form, addr: s.addr });
            sched::progress();
            if env.delivered.fetch_add(1, Relaxed) > env.cap {
                fatal("runaway", &format!("more than {} elements delivered from a source of {}", env.cap, env.prog.src.len));
            }
            match env.prog.hold {
                true => self.holds.push((item, s.key)),
                false => drop(item),
            }
        })
    }
    fn close<R>(&mut self, rec: &mut OpRec, res: std::thread::Result<R>) -> Option<R> {
        rec.finished = true;
        if rec.end == 0 {
            rec.end = sched::now();
            rec.ec = sched::clock();
        }
        sched::progress();
        match res {
            Ok(r) => Some(r),
            Err(p) => {
                rec.ended = false;
                match p.is::<Injected>() {
                    true => rec.panicked = Panicked::Injected,
                    false => {
                        rec.panicked = Panicked::Unexpected;
                        rec.msg = Some(LAST_PANIC.with(|x| x.borrow().clone()));
                    }
                }
                None
            }
        }
    }
}

fn returned(rec: &mut OpRec) {
    outside(|| {
        rec.end = sched::now();
        rec.ec = sched::clock();
        sched::progress();
    })
}

fn consume<C: ConcurrentIter, I: ExactSizeIterator<Item = C::Item>>(
    env: &Env<C>,
    th: &mut Th<C::Item>,
    rec: &mut OpRec,
    chunk: NextChunk<C::Item, I>,
    take: Take,
    mid: &mut dyn FnMut(&mut Th<C::Item>),
) where
    C::Item: Item,
{
    let NextChunk { begin_idx, mut values } = chunk;
    let announced = values.len();
    let mut bad = None;
    outside(|| {
        if values.size_hint() != (announced, Some(announced)) {
            bad = Some(format!("len() is {announced} but size_hint() is {:?}", values.size_hint()));
        }
        rec.chunk = Some(ChunkRec { begin: begin_idx, announced, yielded: 0, complete: false, bad: None });
    });
    let mut yielded = 0usize;
    let limit = announced.saturating_add(64);
    let mut sub = |th: &mut Th<C::Item>, rec: &mut OpRec, values: &mut I, upto: usize| {
        while yielded < upto.min(limit) {
            if announced != values.len() + yielded && bad.is_none() {
                bad = Some(outside(|| format!("remaining length {} after {yielded} of {announced} elements", values.len())));
            }
            match values.next() {
                Some(x) => {
                    th.item(env, rec, Some(begin_idx.wrapping_add(yielded)), x);
                    yielded += 1;
                    rec.chunk.as_mut().unwrap().yielded = yielded;
                }
                None => {
                    rec.chunk.as_mut().unwrap().complete = true;
                    if values.len() != 0 && bad.is_none() {
                        bad = Some(outside(|| format!("the length is {} at the end of the chunk", values.len())));
                    }
                    if let Some(x) = values.next() {
                        th.item(env, rec, Some(begin_idx.wrapping_add(yielded)), x);
                        if bad.is_none() {
                            bad = Some("the chunk yields an element after its end".to_string());
                        }
                    }
                    break;
                }
            }
        }
    };
    match take {
        Take::All => sub(th, rec, &mut values, usize::MAX),
        Take::Part(k) => sub(th, rec, &mut values, k),
        Take::SkipNth(k) => {
            let c = |rec: &mut OpRec, n: usize| rec.chunk.as_mut().unwrap().yielded = n;
            match values.nth(k) {
                Some(x) => {
                    th.item(env, rec, Some(begin_idx.wrapping_add(k)), x);
                    let mut i = k + 1;
                    c(rec, i);
                    if announced != values.len().saturating_add(i) {
                        bad = Some(outside(|| format!("remaining length {} after nth({k}) of {announced} elements", values.len())));
                    }
                    for x in values {
                        th.item(env, rec, Some(begin_idx.wrapping_add(i)), x);
                        i += 1;
                        c(rec, i);
                        if i > limit {
                            break;
                        }
                    }
                    rec.chunk.as_mut().unwrap().complete = true;
                }
                None => {
                    if k < announced {
                        bad = Some(format!("nth({k}) reported the end of {announced} elements"));
                    }
                }
            }
            rec.chunk.as_mut().unwrap().bad = bad;
            return;
        }
        Take::Last => {
            match values.last() {
                Some(x) => th.item(env, rec, Some(begin_idx.wrapping_add(announced.wrapping_sub(1))), x),
                None => bad = Some("there is no last element".to_string()),
            }
            let c = rec.chunk.as_mut().unwrap();
            c.yielded = announced;
            c.complete = true;
            c.bad = bad;
            return;
        }
        Take::Count => {
            let n = values.count();
            let c = rec.chunk.as_mut().unwrap();
            c.yielded = n;
            c.complete = true;
            c.bad = bad;
            return;
        }
        Take::Split(k) => {
            sub(th, rec, &mut values, k);
            outside(|| mid(th));
            sub(th, rec, &mut values, usize::MAX);
        }
        Take::Fold => {
            let mut i = 0;
            values.for_each(|x| {
                th.item(env, rec, Some(begin_idx.wrapping_add(i)), x);
                i += 1;
                rec.chunk.as_mut().unwrap().yielded = i;
            });
            rec.chunk.as_mut().unwrap().complete = true;
            rec.chunk.as_mut().unwrap().bad = bad;
            return;
        }
        Take::Collect => {
            let v: Vec<_> = values.collect();
            let c = rec.chunk.as_mut().unwrap();
            c.yielded = v.len();
            c.complete = true;
            c.bad = bad;
            for (i, x) in v.into_iter().enumerate() {
                th.item(env, rec, Some(begin_idx.wrapping_add(i)), x);
            }
            return;
        }
        Take::Nth => {
            while let Some(x) = values.nth(1) {
                th.item(env, rec, Some(begin_idx.wrapping_add(yielded + 1)), x);
                yielded += 2;
                rec.chunk.as_mut().unwrap().yielded = yielded;
                if yielded > limit {
                    break;
                }
            }
            if yielded + 1 < announced {
                bad = Some(format!("nth(1) reported the end after {yielded} of {announced} elements"));
            }
            rec.chunk.as_mut().unwrap().bad = bad;
            return;
        }
    }
    rec.chunk.as_mut().unwrap().bad = bad;
    match env.prog.drops {
        Drops::Unwind if announced % 2 == 0 => drop_unwinding(values),
        Drops::Forget if announced % 4 != 3 => std::mem::forget(values),
        _ => {}
    }
}

fn run_op<C: ConcurrentIter>(env: &Env<C>, it: &C, iter: usize, th: &mut Th<C::Item>, op: &Op)
where
    C::Item: Item,
{
    sched::point();
    match op {
        Op::Next => {
            single(env, it, iter, th, What::Next);
        }
        Op::NextId => {
            single(env, it, iter, th, What::NextId);
        }
        Op::Chunk(n, take, inner) => {
            chunk(env, it, iter, th, *n, *take, inner);
        }
        Op::Buf(n, steps) => buffered(env, it, iter, th, *n, steps),
        Op::Values(k) => values(env, it, iter, th, *k, false, 0),
        Op::Ids(k) => values(env, it, iter, th, *k, true, 0),
        Op::ForEach(n) => for_each(env, it, iter, th, What::ForEach, *n, 0, &[]),
        Op::EnumForEach(n) => for_each(env, it, iter, th, What::EnumForEach, *n, 0, &[]),
        Op::Fold(n) => for_each(env, it, iter, th, What::Fold, *n, 0, &[]),
        Op::Visit(w, n, at, ops) => {
            let what = [What::ForEach, What::EnumForEach, What::Fold][*w as usize % 3];
            for_each(env, it, iter, th, what, *n, *at, ops)
        }
        Op::Skip => {
            let mut rec = th.open(iter, What::Skip, 1);
            let res = catch_unwind(AssertUnwindSafe(|| call(|| it.skip_to_end())));
            th.close(&mut rec, res);
            th.done(rec);
        }
        Op::Len => {
            let mut rec = th.open(iter, What::Len, 1);
            let res = catch_unwind(AssertUnwindSafe(|| call(|| it.try_get_len())));
            rec.len = th.close(&mut rec, res);
            th.done(rec);
        }
        Op::HasMore => {
            let mut rec = th.open(iter, What::HasMore, 1);
            let res = catch_unwind(AssertUnwindSafe(|| call(|| it.has_more())));
            rec.has = th.close(&mut rec, res);
            th.done(rec);
        }
        Op::Drain(how, extra) => drain(env, it, iter, th, *how, *extra),
        Op::WithClone(ops) | Op::CloneSeq(ops) => {
            let Some(f) = env.clone_fn else { return };
            let child = env.next_iter.fetch_add(1, Relaxed);
            let mut rec = th.open(iter, What::CloneIter, 1);
            rec.child = child;
            let res = catch_unwind(AssertUnwindSafe(|| call(|| f(it))));
            let c = th.close(&mut rec, res);
            th.done(rec);
            if let Some(c) = c {
                for op in ops {
                    if !th.stop {
                        run_op(env, &c, child, th, op);
                    }
                }
                match op {
                    Op::CloneSeq(_) => {
                        let mut rec = th.open(child, What::IntoSeq, 1);
                        let res = catch_unwind(AssertUnwindSafe(|| {
                            call(|| {
                                for x in c.into_seq_iter() {
                                    th.item(env, &mut rec, None, x);
                                }
                            })
                        }));
                        rec.ended = th.close(&mut rec, res).is_some();
                        th.done(rec);
                    }
                    _ => call(|| drop(c)),
                }
            }
        }
        Op::On(k, ops) => {
            for op in ops {
                if !th.stop {
                    run_op(env, &env.iters[*k], *k, th, op);
                }
            }
        }
    }
}

/// returns whether the end is reached (or the pull panicked)
fn single<C: ConcurrentIter>(env: &Env<C>, it: &C, iter: usize, th: &mut Th<C::Item>, what: What) -> bool
where
    C::Item: Item,
{
    let mut rec = th.open(iter, what, 1);
    let res = catch_unwind(AssertUnwindSafe(|| match what {
        What::Next => call(|| it.next()).map(|x| (None, x)),
        _ => call(|| it.next_id_and_value()).map(|x| (Some(x.idx), x.value)),
    }));
    let item = th.close(&mut rec, res);
    let mut done = true;
    match item {
        Some(Some((idx, x))) => {
            done = false;
            th.item(env, &mut rec, idx, x);
        }
        Some(None) => rec.ended = true,
        None => {}
    }
    th.done(rec);
    done
}

fn chunk<C: ConcurrentIter>(env: &Env<C>, it: &C, iter: usize, th: &mut Th<C::Item>, n: usize, take: Take, inner: &[Op]) -> bool
where
    C::Item: Item,
{
    let mut rec = th.open(iter, What::Chunk, n);
    let mut done = true;
    let res = catch_unwind(AssertUnwindSafe(|| {
        call(|| {
            let c = it.next_chunk(n);
            returned(&mut rec);
            match c {
                Some(c) => {
                    done = false;
                    let mut mid = |th: &mut Th<C::Item>| {
                        for op in inner {
                            if !th.stop {
                                run_op(env, it, iter, th, op);
                            }
                        }
                    };
                    consume(env, th, &mut rec, c, take, &mut mid)
                }
                // a pull of no elements says nothing about the end
                None => rec.ended = n > 0,
            }
        })
    }));
    let ok = th.close(&mut rec, res).is_some();
    th.done(rec);
    done || !ok
}

fn buffered<C: ConcurrentIter>(env: &Env<C>, it: &C, iter: usize, th: &mut Th<C::Item>, n: usize, steps: &[BStep])
where
    C::Item: Item,
{
    let Ok(mut b) = catch_unwind(AssertUnwindSafe(|| call(|| it.buffered_iter(n)))) else {
        let mut rec = th.open(iter, What::BufPull, n);
        th.close(&mut rec, Ok(()));
        rec.panicked = Panicked::Unexpected;
        rec.msg = Some(LAST_PANIC.with(|x| x.borrow().clone()));
        th.done(rec);
        return;
    };
    for s in steps {
        match s {
            BStep::Pull(take) => {
                let mut rec = th.open(iter, What::BufPull, n);
                let res = catch_unwind(AssertUnwindSafe(|| {
                    call(|| {
                        let c = b.next();
                        returned(&mut rec);
                        match c {
                            Some(c) => consume(env, th, &mut rec, c, *take, &mut |_| {}),
                            None => rec.ended = true,
                        }
                    })
                }));
                th.close(&mut rec, res);
                th.done(rec);
            }
            BStep::Ops(ops) => {
                for op in ops {
                    if !th.stop {
                        run_op(env, it, iter, th, op);
                    }
                }
            }
        }
    }
    drop_how(env.prog.drops, b);
}

fn drain<C: ConcurrentIter>(env: &Env<C>, it: &C, iter: usize, th: &mut Th<C::Item>, how: How, extra: usize)
where
    C::Item: Item,
{
    let mut more = extra;
    let mut guard = 0usize;
    let mut go_on = |end: bool| {
        guard += 1;
        if guard > env.cap + 100 {
            fatal("runaway", "pulls do not reach the end");
        }
        if end {
            if more == 0 {
                return false;
            }
            more -= 1;
        }
        true
    };
    match how {
        How::Next => while go_on(single(env, it, iter, th, What::Next)) {},
        How::NextId => while go_on(single(env, it, iter, th, What::NextId)) {},
        How::Chunk(n) => while go_on(chunk(env, it, iter, th, n, Take::All, &[])) {},
        How::Buf(n) => {
            let Ok(mut b) = catch_unwind(AssertUnwindSafe(|| call(|| it.buffered_iter(n)))) else { return };
            loop {
                let mut end = true;
                let mut rec = th.open(iter, What::BufPull, n);
                let res = catch_unwind(AssertUnwindSafe(|| {
                    call(|| {
                        let c = b.next();
                        returned(&mut rec);
                        match c {
                            Some(c) => {
                                end = false;
                                consume(env, th, &mut rec, c, Take::All, &mut |_| {})
                            }
                            None => rec.ended = true,
                        }
                    })
                }));
                let ok = th.close(&mut rec, res).is_some();
                th.done(rec);
                if !go_on(end || !ok) {
                    break;
                }
            }
            call(|| drop(b));
        }
        How::Values => values(env, it, iter, th, usize::MAX, false, extra),
        How::Ids => values(env, it, iter, th, usize::MAX, true, extra),
    }
}

fn values<C: ConcurrentIter>(env: &Env<C>, it: &C, iter: usize, th: &mut Th<C::Item>, k: usize, ids: bool, mut extra: usize)
where
    C::Item: Item,
{
    let mut vals = call(|| it.values());
    let mut idvals = call(|| it.ids_and_values());
    let mut i = 0;
    while i < k {
        i += 1;
        if i > env.cap + 100 {
            fatal("runaway", "values() does not reach the end");
        }
        let what = if ids { What::IdNext } else { What::ValNext };
        let mut rec = th.open(iter, what, 1);
        let res = catch_unwind(AssertUnwindSafe(|| match ids {
            true => call(|| idvals.next()).map(|x| (Some(x.0), x.1)),
            false => call(|| vals.next()).map(|x| (None, x)),
        }));
        let item = th.close(&mut rec, res);
        let mut end = false;
        match item {
            Some(Some((idx, x))) => th.item(env, &mut rec, idx, x),
            Some(None) => {
                rec.ended = true;
                end = true;
            }
            None => end = true,
        }
        th.done(rec);
        if end {
            if extra == 0 {
                break;
            }
            extra -= 1;
        }
    }
}

fn for_each<C: ConcurrentIter>(env: &Env<C>, it: &C, iter: usize, th: &mut Th<C::Item>, what: What, n: usize, at: usize, ops: &[Op])
where
    C::Item: Item,
{
    let mut rec = th.open(iter, what, n);
    let mut fold = None;
    let mut visit = 0;
    rec.hosts = !ops.is_empty();
    let res = {
        let rec = &mut rec;
        let th = &mut *th;
        catch_unwind(AssertUnwindSafe(|| {
            let mut f = |idx: Option<usize>, x: C::Item| {
                let _t = Track::set(false);
                sched::point();
                th.item(env, rec, idx, x);
                visit += 1;
                if let Some(k) = &mut rec.visits_after_skip {
                    *k += 1;
                }
                if visit == at {
                    th.closures += 1;
                    for op in ops {
                        if !th.stop {
                            run_op(env, it, iter, th, op);
                        }
                        if matches!(op, Op::Skip) && rec.visits_after_skip.is_none() {
                            rec.visits_after_skip = Some(0);
                        }
                    }
                    th.closures -= 1;
                }
                CLOSURE_FAULT.hit();
            };
            call(|| match what {
                What::ForEach => it.for_each(n, |x| f(None, x)),
                What::EnumForEach => it.enumerate_for_each(n, |i, x| f(Some(i), x)),
                _ => {
                    fold = Some(it.fold(n, Fold::default(), |acc, x| {
                        let key = outside(|| x.again());
                        f(None, x);
                        acc.add(key)
                    }))
                }
            })
        }))
    };
    rec.fold = fold;
    if th.close(&mut rec, res).is_some() {
        rec.ended = true;
    }
    th.done(rec);
}

fn run_thread<C: ConcurrentIter>(env: &Env<C>, thread: usize, ops: &[Op])
where
    C::Item: Item,
{
    let mut th = Th { thread, recs: vec![], holds: vec![], stop: false, closures: 0 };
    *RECS[thread].lock().unwrap() = Some(Ptr(&th.recs));
    for op in ops {
        if th.stop {
            break;
        }
        run_op(env, &env.iters[0], 0, &mut th, op);
    }
    *RECS[thread].lock().unwrap() = None;
    env.recs.lock().unwrap().append(&mut th.recs);
    if !th.holds.is_empty() {
        env.holds.lock().unwrap().append(&mut th.holds);
    }
}

fn drive<C: ConcurrentIter>(out: &mut Outcome, prog: &Program, iters: Vec<C>, clone_fn: Option<fn(&C) -> C>, pos_of: &(dyn Fn(&Seen) -> i64 + Sync))
where
    C::Item: Item,
{
    let n_iters = iters.len();
    let max_threads = prog.n_threads() + 1;
    let env = Env {
        prog,
        iters: &iters,
        clone_fn,
        pos_of,
        holds: Mutex::new(vec![]),
        delivered: AtomicUsize::new(0),
        // clones of the iterator deliver again
        cap: (prog.src.len + prog.src.revive) * (n_iters + if clone_fn.is_some() { prog.n_ops() } else { 0 }) * 2 + 64 * max_threads,
        next_iter: AtomicUsize::new(n_iters),
        recs: Mutex::new(vec![]),
    };
    *DONE.lock().unwrap() = Some(Ptr(&env.recs));
    if let FaultAt::Hint(k) = prog.fault {
        HINT_FAULT.arm(k, prog.fault_times);
    }
    for phase in &prog.phases {
        let jobs: Vec<Box<dyn FnOnce() + Send + '_>> = phase
            .threads
            .iter()
            .enumerate()
            .map(|(i, ops)| {
                let env = &env;
                Box::new(move || run_thread(env, i + 1, ops)) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        if !jobs.is_empty() {
            sched::run_phase(jobs);
        }
        run_thread(&env, 0, &phase.main);
    }
    HINT_FAULT.arm(0, 1);
    *DONE.lock().unwrap() = None;
    *PROGRAM.lock().unwrap() = None;
    let Env { holds, recs, .. } = env;
    out.recs = recs.into_inner().unwrap();
    let holds = holds.into_inner().unwrap();
    let res = catch_unwind(AssertUnwindSafe(|| end(out, prog, iters, pos_of)));
    if matches!(&res, Err(p) if p.is::<Injected>()) {
        out.end_injected = true;
    } else if res.is_err() {
        out.seq_panic = Some(LAST_PANIC.with(|x| x.borrow().clone()));
    }
    for (item, key) in &holds {
        let now = item.again();
        if now != *key && out.hold_bad.len() < 4 {
            out.hold_bad.push(format!("a kept element changed: {key} is now {}", now as i64));
        }
    }
    drop(holds);
}

fn end<C: ConcurrentIter>(out: &mut Outcome, prog: &Program, mut iters: Vec<C>, pos_of: &(dyn Fn(&Seen) -> i64 + Sync))
where
    C::Item: Item,
{
    match prog.end {
        End::Drop => {
            while let Some(it) = iters.pop() {
                drop_how(if prog.drops == Drops::Forget { Drops::Normal } else { prog.drops }, it);
            }
        }
        End::Seq(k) => {
            let it = iters.remove(0);
            let mut seq = call(|| it.into_seq_iter());
            let mut rest = vec![];
            let mut exhausted = false;
            let cap = (prog.src.len + prog.src.revive) * 2 + 100;
            let hint = call(|| seq.size_hint());
            let mut put = |x: C::Item| {
                let s = x.seen();
                rest.push((pos_of(&s), s.form, s.addr));
                drop(x);
                if rest.len() > cap {
                    fatal("runaway-seq", "into_seq_iter does not reach the end");
                }
            };
            let mut n = 0;
            if prog.seq_how == 1 && k > 0 {
                let j = prog.src.len % 3;
                match call(|| seq.nth(j)) {
                    Some(x) => {
                        put(x);
                        n = 1;
                        out.seq_off = j;
                    }
                    None => out.seq_off = usize::MAX,
                }
            }
            if prog.seq_how == 2 && k == usize::MAX {
                call(|| seq.for_each(|x| outside(|| put(x))));
                exhausted = true;
            } else {
                while n < k {
                    match call(|| seq.next()) {
                        Some(x) => {
                            put(x);
                            n += 1;
                        }
                        None => {
                            exhausted = true;
                            break;
                        }
                    }
                }
                drop_how(prog.drops, seq);
            }
            if exhausted && out.seq_off != usize::MAX {
                let n = rest.len() + out.seq_off;
                if n < hint.0 || hint.1.map_or(false, |h| n > h) {
                    out.seq_hint = Some(format!("the size hint of the remainder is {hint:?} but it has {n} elements"));
                }
            }
            out.seq = Some((rest, exhausted));
        }
    }
}

// ---- the wrapped iterator ----

static BUSY: AtomicBool = AtomicBool::new(false);
/// the call of the wrapped next which takes long, and how long, in milliseconds
pub static SLOW: [AtomicU64; 2] = [const { AtomicU64::new(0) }; 2];
static OVERLAPS: AtomicUsize = AtomicUsize::new(0);
/// wrapped iterators: created, dropped, used after they are dropped
static PROBES: [AtomicUsize; 3] = [const { AtomicUsize::new(0) }; 3];
static NEXT_CALLS: AtomicU64 = AtomicU64::new(0);
static AFTER_END: AtomicU64 = AtomicU64::new(0);
const PROBE: u64 = 1 << 40;

/// Probe iterator: reports its own accesses, detects overlapping executions of next.
pub struct Probe<I> {
    inner: I,
    len: usize,
    given: usize,
    ended: bool,
    hint: Hint,
}

struct Busy;
impl Busy {
    fn enter() -> Self {
        if BUSY.swap(true, Relaxed) {
            OVERLAPS.fetch_add(1, Relaxed);
        }
        Busy
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        BUSY.store(false, Relaxed);
    }
}

impl<I: Iterator> Probe<I> {
    fn new(inner: I, src: &Src) -> Self {
        PROBES[0].fetch_add(1, Relaxed);
        Self { inner, len: src.len, given: 0, ended: false, hint: src.hint }
    }
}

impl<I> Drop for Probe<I> {
    fn drop(&mut self) {
        let _t = Track::set(false);
        sched::access(PROBE, true, "the wrapped iterator");
        if BUSY.load(Relaxed) {
            OVERLAPS.fetch_add(1, Relaxed);
        }
        PROBES[1].fetch_add(1, Relaxed);
        sched::point();
    }
}

impl<I: Iterator> Iterator for Probe<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let _t = Track::set(false);
        sched::access(PROBE, true, "the wrapped iterator");
        let _b = Busy::enter();
        let n = NEXT_CALLS.fetch_add(1, Relaxed) + 1;
        if SLOW[0].load(Relaxed) == n {
            std::thread::sleep(std::time::Duration::from_millis(SLOW[1].load(Relaxed)));
        }
        if PROBES[1].load(Relaxed) >= PROBES[0].load(Relaxed) {
            PROBES[2].fetch_add(1, Relaxed);
        }
        sched::point();
        NEXT_FAULT.hit();
        if self.given == self.len && !self.ended {
            self.ended = true;
            sched::point();
            return None;
        }
        if self.ended {
            AFTER_END.fetch_add(1, Relaxed);
        }
        let x = self.inner.next();
        if x.is_some() {
            self.given += 1;
        }
        sched::point();
        sched::access(PROBE, true, "the wrapped iterator");
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        sched::access(PROBE, false, "the wrapped iterator");
        HINT_FAULT.hit();
        let rem = self.len.saturating_sub(self.given);
        match self.hint {
            Hint::Exact => (rem, Some(rem)),
            Hint::Unknown => (0, None),
            Hint::Upper => (0, Some(rem.max(1))),
            Hint::Loose => (rem / 2, Some(rem + 3)),
            Hint::Lower => (rem, None),
            Hint::Wide => (0, Some(usize::MAX)),
            Hint::Over => (rem + 3, Some(rem + 3)),
            Hint::Under => (rem / 2, Some(rem / 2)),
            Hint::Zero => (0, Some(0)),
            Hint::Infinite => (usize::MAX, None),
        }
    }
}

// ---- sources ----

macro_rules! with_array {
    ($len:expr, $mk:expr, $f:ident, $($args:expr),*) => {
        match $len {
            0 => $f::<0, _>(std::array::from_fn::<_, 0, _>($mk), $($args),*),
            1 => $f::<1, _>(std::array::from_fn::<_, 1, _>($mk), $($args),*),
            2 => $f::<2, _>(std::array::from_fn::<_, 2, _>($mk), $($args),*),
            3 => $f::<3, _>(std::array::from_fn::<_, 3, _>($mk), $($args),*),
            4 => $f::<4, _>(std::array::from_fn::<_, 4, _>($mk), $($args),*),
            5 => $f::<5, _>(std::array::from_fn::<_, 5, _>($mk), $($args),*),
            6 => $f::<6, _>(std::array::from_fn::<_, 6, _>($mk), $($args),*),
            7 => $f::<7, _>(std::array::from_fn::<_, 7, _>($mk), $($args),*),
            8 => $f::<8, _>(std::array::from_fn::<_, 8, _>($mk), $($args),*),
            12 => $f::<12, _>(std::array::from_fn::<_, 12, _>($mk), $($args),*),
            16 => $f::<16, _>(std::array::from_fn::<_, 16, _>($mk), $($args),*),
            33 => $f::<33, _>(std::array::from_fn::<_, 33, _>($mk), $($args),*),
            64 => $f::<64, _>(std::array::from_fn::<_, 64, _>($mk), $($args),*),
            129 => $f::<129, _>(std::array::from_fn::<_, 129, _>($mk), $($args),*),
            _ => unreachable!("array length"),
        }
    };
}

struct Ctx<'c> {
    prog: &'c Program,
    perm: &'c [usize],
    pos_of: &'c (dyn Fn(&Seen) -> i64 + Sync),
}

fn iters<C>(n: usize, f: impl Fn() -> C) -> Vec<C> {
    let _t = Track::set(false);
    (0..n).map(|_| call(|| f())).collect()
}

fn check_source<T>(out: &mut Outcome, src: &[T], addr0: usize, perm: &[usize], ok: impl Fn(&T, usize) -> bool) {
    if src.as_ptr() as usize != addr0 && !src.is_empty() {
        out.source_bad.push("the source collection moved".into());
    }
    if src.len() != perm.len() {
        out.source_bad.push(format!("the source has {} elements instead of {}", src.len(), perm.len()));
    }
    for (i, x) in src.iter().enumerate() {
        if !ok(x, perm[i]) && out.source_bad.len() < 4 {
            out.source_bad.push(format!("source element {i} is modified, moved out or destroyed"));
        }
    }
}

fn tok_ok(t: &Tok, id: usize) -> bool {
    t.check("source after the iteration") && t.id() == id && ledger().entries[id].dropped.load(Relaxed) == 0 && ledger().entries[id].moved.load(Relaxed) == 0
}

fn ctok_ok(t: &CTok, id: usize) -> bool {
    t.valid() && t.id() == id
}

fn over_slice(out: &mut Outcome, c: &Ctx, src: &[Tok], which: Kind) {
    let n = c.prog.n_iters;
    out.addr0 = src.iter().map(|x| x as *const Tok as usize).collect();
    let a0 = src.as_ptr() as usize;
    match which {
        Kind::ClonedSlice => drive(out, c.prog, iters(n, || src.con_iter().cloned()), None, c.pos_of),
        _ => match c.prog.src.ctor {
            0 => drive(out, c.prog, iters(n, || src.into_con_iter()), Some(|x| x.clone()), c.pos_of),
            1 => drive(out, c.prog, iters(n, || ConIterOfSlice::new(src)), Some(|x| x.clone()), c.pos_of),
            2 => drive(out, c.prog, iters(n, || ConIterOfSlice::from(src)), Some(|x| x.clone()), c.pos_of),
            _ => drive(out, c.prog, iters(n, || src.con_iter()), Some(|x| x.clone()), c.pos_of),
        },
    }
    check_source(out, src, a0, c.perm, tok_ok);
}

fn over_array_ref<const N: usize, F>(src: [Tok; N], out: &mut Outcome, c: &Ctx, _f: F) {
    let n = c.prog.n_iters;
    out.addr0 = src.iter().map(|x| x as *const Tok as usize).collect();
    let a0 = src.as_ptr() as usize;
    match c.prog.src.kind {
        Kind::ClonedArrRef => drive(out, c.prog, iters(n, || src.con_iter().cloned()), None, c.pos_of),
        _ => drive(out, c.prog, iters(n, || src.con_iter()), Some(|x| x.clone()), c.pos_of),
    }
    check_source(out, &src, a0, c.perm, tok_ok);
}

fn over_array_copied<const N: usize, F>(src: [CTok; N], out: &mut Outcome, c: &Ctx, _f: F) {
    let a0 = src.as_ptr() as usize;
    drive(out, c.prog, iters(1, || src.con_iter().copied()), None, c.pos_of);
    check_source(out, &src, a0, c.perm, ctok_ok);
}

fn over_array<const N: usize, F>(src: [Tok; N], out: &mut Outcome, c: &Ctx, _f: F) {
    let it = match c.prog.src.ctor {
        0 | 1 => call(|| src.into_con_iter()),
        2 => call(|| ConIterOfArray::new(src)),
        _ => call(|| ConIterOfArray::from(src)),
    };
    let v = outside(|| vec![it]);
    drive(out, c.prog, v, None, c.pos_of);
}

fn wrapped<I>(out: &mut Outcome, c: &Ctx, inner: I)
where
    I: Iterator,
    I::Item: Item,
{
    let p = Probe::new(inner, &c.prog.src);
    let it = match c.prog.src.ctor {
        0 | 1 => call(|| p.into_con_iter()),
        2 => call(|| ConIterOfIter::new(p)),
        _ => call(|| ConIterOfIter::from(p)),
    };
    drive(out, c.prog, vec![it], None, c.pos_of);
}

fn toks(ids: &[usize], extra: usize) -> Vec<Tok> {
    let mut v = call(|| Vec::with_capacity(ids.len() + extra));
    v.extend(ids.iter().map(|&i| Tok::new(i)));
    v
}

pub fn execute(prog: &Program, seed: u64) -> Outcome {
    let mut out = Outcome::default();
    let src = &prog.src;
    let n = src.len;
    let total = n + src.revive;
    sched::restart();
    *PROGRAM.lock().unwrap() = Some(Ptr(prog));
    ledger::reset(total.max(1));
    alloc::reset();
    BUSY.store(false, Relaxed);
    OVERLAPS.store(0, Relaxed);
    PROBES.iter().for_each(|p| p.store(0, Relaxed));
    NEXT_CALLS.store(0, Relaxed);
    AFTER_END.store(0, Relaxed);
    FIRED.store(0, Relaxed);
    for f in [&NEXT_FAULT, &CLONE_FAULT, &CLOSURE_FAULT, &HINT_FAULT] {
        f.arm(0, 1);
    }
    match prog.fault {
        // armed after the construction
        FaultAt::None | FaultAt::Hint(_) => {}
        FaultAt::Next(k) => NEXT_FAULT.arm(k, prog.fault_times),
        FaultAt::Clone(k) => CLONE_FAULT.arm(k, prog.fault_times),
        FaultAt::Closure(k) => CLOSURE_FAULT.arm(k, prog.fault_times),
    }
    // the elements do not tell their position
    let mut perm: Vec<usize> = (0..n).collect();
    Rng::new(seed ^ 0x77).shuffle(&mut perm);
    let mut inv = vec![0i64; n];
    for (p, &id) in perm.iter().enumerate() {
        inv[id] = p as i64;
    }
    let start = src.start;
    let is_range = src.kind == Kind::Range;
    let pos_of = move |s: &Seen| -> i64 {
        match is_range {
            true => match (s.key as usize).checked_sub(start) {
                Some(p) if p < n => p as i64,
                _ => -1,
            },
            // a revived element: -2
            false => match s.key == u64::MAX {
                true => -1,
                false => inv.get(s.key as usize).copied().unwrap_or(-2),
            },
        }
    };
    let all: Vec<usize> = perm.iter().copied().chain(n..total).collect();
    let c = Ctx { prog, perm: &perm, pos_of: &pos_of };
    let o = &mut out;
    match src.kind {
        Kind::Range => {
            let r = src.start..src.start + n;
            let cl: Option<fn(&ConIterOfRange<usize>) -> ConIterOfRange<usize>> = Some(|x| x.clone());
            match src.ctor {
                0 => drive(o, prog, iters(prog.n_iters, || r.con_iter()), cl, c.pos_of),
                1 => drive(o, prog, iters(prog.n_iters, || IntoConcurrentIter::into_con_iter(r.clone())), cl, c.pos_of),
                2 => drive(o, prog, iters(prog.n_iters, || ConIterOfRange::new(r.clone())), cl, c.pos_of),
                _ => drive(o, prog, iters(prog.n_iters, || ConIterOfRange::from(r.clone())), cl, c.pos_of),
            }
        }
        Kind::Slice | Kind::ClonedSlice => {
            let v = toks(&perm, 0);
            over_slice(o, &c, &v, src.kind);
        }
        Kind::VecRef | Kind::ClonedVecRef => {
            let v = toks(&perm, 0);
            o.addr0 = v.iter().map(|x| x as *const Tok as usize).collect();
            let a0 = v.as_ptr() as usize;
            match src.kind {
                Kind::VecRef => drive(o, prog, iters(prog.n_iters, || v.con_iter()), Some(|x: &ConIterOfSlice<'_, Tok>| x.clone()), c.pos_of),
                _ => drive(o, prog, iters(prog.n_iters, || v.con_iter().cloned()), None, c.pos_of),
            }
            check_source(o, &v, a0, c.perm, tok_ok);
        }
        Kind::ArrRef | Kind::ClonedArrRef => with_array!(n, |i| Tok::new(perm[i]), over_array_ref, o, &c, ()),
        Kind::CopiedArrRef => with_array!(n, |i| CTok::new(perm[i]), over_array_copied, o, &c, ()),
        Kind::VecOwn => {
            let v = toks(&perm, src.cap_extra);
            let it = match src.ctor {
                0 | 1 => call(|| v.into_con_iter()),
                2 => call(|| ConIterOfVec::new(v)),
                _ => call(|| ConIterOfVec::from(v)),
            };
            drive(o, prog, vec![it], None, c.pos_of);
        }
        Kind::ArrOwn => with_array!(n, |i| Tok::new(perm[i]), over_array, o, &c, ()),
        Kind::IterOwn => {
            let v = toks(&all, 0);
            wrapped(o, &c, v.into_iter());
        }
        Kind::IterRef | Kind::ClonedIter => {
            let v = toks(&all, 0);
            o.addr0 = v.iter().map(|x| x as *const Tok as usize).collect();
            let a0 = v.as_ptr() as usize;
            match src.kind {
                Kind::IterRef => wrapped(o, &c, v.iter()),
                _ => {
                    let p = Probe::new(v.iter(), src);
                    drive(o, prog, vec![call(|| p.into_con_iter().cloned())], None, c.pos_of);
                }
            }
            check_source(o, &v, a0, &all, tok_ok);
        }
        Kind::CopiedSlice | Kind::CopiedVecRef | Kind::CopiedIter => {
            let v: Vec<CTok> = all.iter().map(|&i| CTok::new(i)).collect();
            let a0 = v.as_ptr() as usize;
            match src.kind {
                Kind::CopiedSlice => drive(o, prog, iters(prog.n_iters, || v.as_slice().into_con_iter().copied()), None, c.pos_of),
                Kind::CopiedVecRef => drive(o, prog, iters(prog.n_iters, || v.con_iter().copied()), None, c.pos_of),
                _ => {
                    let p = Probe::new(v.iter(), src);
                    drive(o, prog, vec![call(|| p.into_con_iter().copied())], None, c.pos_of);
                }
            }
            check_source(o, &v, a0, &all, ctok_ok);
        }
    }
    // everything is dropped now
    let (live, tracked, sizes) = alloc::live();
    out.tracked_allocs = tracked;
    if live > 0 && !alloc::overflowed() {
        out.leak = Some(format!("{live} allocation(s) are never released, sizes {sizes:?}"));
    }
    out.overlap = OVERLAPS.load(Relaxed);
    out.next_calls = NEXT_CALLS.load(Relaxed);
    out.calls_after_end = AFTER_END.load(Relaxed);
    out.fired = FIRED.load(Relaxed);
    let [created, dropped, late] = [0, 1, 2].map(|i| PROBES[i].load(Relaxed));
    if late > 0 {
        out.ledger_bad.push(("ledger", format!("the wrapped iterator is used {late} times after it was dropped")));
    }
    match dropped.cmp(&created) {
        std::cmp::Ordering::Less => out.ledger_bad.push(("leak", "the wrapped iterator is never dropped".to_string())),
        std::cmp::Ordering::Greater => out.ledger_bad.push(("ledger", format!("{created} wrapped iterator(s) are dropped {dropped} times"))),
        std::cmp::Ordering::Equal => {}
    }
    let l = ledger();
    if l.nerrors.load(Relaxed) > 0 {
        for e in l.errors.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            out.ledger_bad.push(("ledger", e.clone()));
        }
    }
    let mut bad = 0;
    for (id, e) in l.entries[..total].iter().enumerate() {
        let (cr, dr) = (e.created.load(Relaxed), e.dropped.load(Relaxed));
        if cr != dr && bad < 4 {
            bad += 1;
            let pos = all.iter().position(|&x| x == id).unwrap_or(0);
            match dr < cr {
                true => out.ledger_bad.push(("leak", format!("element {pos} is never destroyed"))),
                false => out.ledger_bad.push(("ledger", format!("element {pos} is destroyed {dr} times"))),
            }
        }
        let (cc, cd) = (e.clones.load(Relaxed), e.clones_dropped.load(Relaxed));
        if cc != cd && bad < 4 {
            bad += 1;
            out.ledger_bad.push(("clone-leak", format!("{cc} clones of element {id} are created but {cd} destroyed")));
        }
    }
    out
}
