//! C14, run time half: sequences of safe public calls, the low level ones included, never produce two owners.
//!
//! Elements carry an identity. A ledger knows who owns each of them: nobody twice at the same time, nobody after the
//! drop, and every element is dropped at most once. The `low_*` cfgs name the low level calls which the compiler
//! admits without `unsafe`; what is not admitted cannot be part of a sequence of safe calls.
//!
//! usage: lowlevel SEED FROM STRIDE SECS MAX OUT
#![allow(unused, dead_code)]
use orx_concurrent_iter::iter::atomic_iter::*;
use orx_concurrent_iter::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn chance(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
}

const MAX: usize = 4096;
struct E {
    made: AtomicU32,
    dropped: AtomicU32,
    held: AtomicI32,
}
static L: [E; MAX] = [const { E { made: AtomicU32::new(0), dropped: AtomicU32::new(0), held: AtomicI32::new(0) } }; MAX];
static ERR: Mutex<Vec<String>> = Mutex::new(vec![]);
static BOMB: AtomicUsize = AtomicUsize::new(usize::MAX);
static EVENTS: AtomicU64 = AtomicU64::new(0);
static HOLDS: AtomicU64 = AtomicU64::new(0);

fn err(m: String) {
    let mut e = ERR.lock().unwrap_or_else(|e| e.into_inner());
    if e.len() < 5 {
        e.push(m);
    }
}

/// an element; the copy of the bits which a second owner would have shares the id
struct Tok(u32, u32);
impl Tok {
    fn new(id: usize) -> Self {
        L[id].made.fetch_add(1, SeqCst);
        Tok(id as u32, !(id as u32))
    }
    fn id(&self) -> usize {
        let id = self.0 as usize;
        if self.1 != !self.0 || id >= MAX {
            err(format!("an element which never existed: {:x}", self.0));
            return 0;
        }
        id
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        EVENTS.fetch_add(1, Relaxed);
        let id = self.id();
        let d = L[id].dropped.fetch_add(1, SeqCst) + 1;
        if d > L[id].made.load(SeqCst) {
            err(format!("element {id} is dropped {d} times"));
        }
        if L[id].held.load(SeqCst) > 0 {
            err(format!("element {id} is dropped by somebody else while its receiver owns it"));
        }
        if BOMB.compare_exchange(id, usize::MAX, SeqCst, SeqCst).is_ok() && !std::thread::panicking() {
            panic!("injected");
        }
    }
}

/// an element in the hands of a caller
struct Held(Option<Tok>);
impl Held {
    fn new(t: Tok) -> Self {
        HOLDS.fetch_add(1, Relaxed);
        EVENTS.fetch_add(1, Relaxed);
        let id = t.id();
        if L[id].dropped.load(SeqCst) > 0 {
            err(format!("element {id} is delivered after it is dropped"));
        }
        if L[id].held.fetch_add(1, SeqCst) > 0 {
            err(format!("element {id} has two owners"));
        }
        Held(Some(t))
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        if let Some(t) = self.0.take() {
            L[t.id()].held.fetch_sub(1, SeqCst);
            _ = catch_unwind(AssertUnwindSafe(|| drop(t)));
        }
    }
}

#[derive(Default)]
struct Mind(Vec<Held>);
impl Mind {
    fn take(&mut self, t: Tok, r: &mut Rng) {
        let h = Held::new(t);
        if r.chance(60) {
            self.0.push(h);
        } else if r.chance(10) {
            // forgetting is safe: the element is owned for ever
            std::mem::forget(h);
        }
        if r.chance(10) && !self.0.is_empty() {
            let i = r.below(self.0.len());
            self.0.swap_remove(i);
        }
    }
    fn some<'x>(&mut self, mut it: impl ExactSizeIterator<Item = Tok>, r: &mut Rng) {
        let k = match r.below(4) {
            0 => 0,
            1 => r.below(it.len() + 1),
            _ => usize::MAX,
        };
        for _ in 0..k {
            match r.chance(8) {
                false => match it.next() {
                    Some(t) => self.take(t, r),
                    None => break,
                },
                true => match it.nth(r.below(3)) {
                    Some(t) => self.take(t, r),
                    None => break,
                },
            }
        }
        match r.below(8) {
            0 => std::mem::forget(it),
            1 => drop(it.map(|x| self.0.push(Held::new(x))).collect::<Vec<_>>()),
            _ => {}
        }
    }
}

fn size(r: &mut Rng, n: usize) -> usize {
    match r.below(6) {
        0 => usize::MAX - r.below(3),
        1 => n + 1,
        2 => usize::MAX / 2 + r.below(2),
        _ => 1 + r.below(n.max(1) + 2),
    }
}

fn step<I>(it: &I, n: usize, low: bool, mind: &mut Mind, r: &mut Rng, log: &mut String)
where
    I: ConcurrentIter<Item = Tok> + AtomicIter<Tok>,
{
    let k = size(r, n);
    let c = r.below(if low { 22 } else { 13 });
    log.push_str(&format!(" {c}:{}", if k > 9999 { "huge".to_string() } else { k.to_string() }));
    EVENTS.fetch_add(1, Relaxed);
    match c {
        0 | 1 => {
            if let Some(t) = it.next() {
                mind.take(t, r)
            }
        }
        2 => {
            if let Some(t) = it.next_id_and_value() {
                mind.take(t.value, r)
            }
        }
        3 | 4 => {
            if let Some(c) = it.next_chunk(k) {
                mind.some(c.values, r)
            }
        }
        5 | 6 => {
            let mut b = it.buffered_iter(k);
            for _ in 0..1 + r.below(4) {
                match b.next() {
                    Some(c) => mind.some(c.values, r),
                    None => break,
                }
            }
            if r.chance(10) {
                std::mem::forget(b);
            }
        }
        7 => {
            if r.chance(30) {
                it.skip_to_end()
            }
        }
        8 => {
            let kk = 1 + r.below(4);
            if r.chance(40) {
                it.for_each(kk, |t| mind.0.push(Held::new(t)));
            }
        }
        9 => {
            let mut v = it.values();
            for _ in 0..r.below(3) {
                if let Some(t) = v.next() {
                    mind.take(t, r)
                }
            }
        }
        10 => {
            let mut v = it.ids_and_values();
            if let Some((_, t)) = v.next() {
                mind.take(t, r)
            }
        }
        11 => {
            _ = (it.try_get_len(), it.has_more());
        }
        12 => {
            if r.chance(20) {
                it.skip_to_end()
            }
        }
        13 => {
            #[cfg(low_fetch)]
            if let Some(t) = it.fetch_one() {
                mind.take(t.value, r)
            }
        }
        14 => {
            #[cfg(low_fetch)]
            if let Some(c) = it.fetch_n(if r.chance(10) { 0 } else { k }) {
                mind.some(c.values, r)
            }
        }
        15 => {
            #[cfg(low_fetch)]
            if r.chance(30) {
                it.early_exit()
            }
        }
        16 => {
            #[cfg(low_progress)]
            {
                _ = it.progress_and_get_begin_idx(if r.chance(10) { 0 } else { k });
            }
        }
        17 => {
            #[cfg(low_add)]
            {
                _ = it.counter().fetch_and_add(if r.chance(10) { 0 } else { k });
            }
        }
        18 => {
            #[cfg(low_add)]
            {
                _ = (it.counter().fetch_and_increment(), it.counter().current());
            }
        }
        19 => {
            #[cfg(low_get)]
            if let Some(t) = it.get(r.below(n + 2)) {
                mind.take(t, r)
            }
        }
        20 => {
            #[cfg(low_store)]
            it.counter().store(if r.chance(50) { 0 } else { k })
        }
        _ => {
            #[cfg(low_add)]
            {
                // a clone of the counter is another counter
                let c = it.counter().clone();
                _ = c.fetch_and_add(k);
            }
        }
    }
}

fn run<I>(mk: impl FnOnce() -> I, n: usize, low: bool, threads: usize, r: &mut Rng, log: &mut String)
where
    I: ConcurrentIter<Item = Tok> + AtomicIter<Tok>,
{
    let mut mind = Mind::default();
    let it = mk();
    let steps = 1 + r.below(14);
    if threads == 0 {
        for _ in 0..steps {
            let out = catch_unwind(AssertUnwindSafe(|| step(&it, n, low, &mut mind, r, log)));
            if out.is_err() {
                log.push('!');
            }
        }
    } else {
        let logs = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for t in 0..threads {
                let mut r = Rng(r.next());
                let (it, logs) = (&it, &logs);
                s.spawn(move || {
                    let mut mind = Mind::default();
                    let mut log = format!(" | t{t}");
                    for _ in 0..steps {
                        _ = catch_unwind(AssertUnwindSafe(|| step(it, n, low, &mut mind, &mut r, &mut log)));
                    }
                    logs.lock().unwrap().push(log);
                    if t % 2 == 1 {
                        // elements of this thread stay alive until the end
                        std::mem::forget(mind);
                    }
                });
            }
        });
        for l in logs.into_inner().unwrap() {
            log.push_str(&l);
        }
    }
    let end = r.below(4);
    log.push_str(&format!(" end{end}"));
    let out = catch_unwind(AssertUnwindSafe(|| match end {
        0 => {
            let mut s = it.into_seq_iter();
            for _ in 0..r.below(n + 2) {
                match s.next() {
                    Some(t) => mind.take(t, r),
                    None => break,
                }
            }
            if r.chance(10) {
                std::mem::forget(s)
            }
        }
        1 => {
            let b = Box::new(it);
            drop(b);
        }
        _ => drop(it),
    }));
    drop(mind);
}

fn array<const N: usize>(low: bool, threads: usize, r: &mut Rng, log: &mut String) {
    log.push_str(&format!("array {N}"));
    let v = r.below(3);
    run(
        || {
            let a: [Tok; N] = std::array::from_fn(Tok::new);
            match v {
                0 => a.into_con_iter(),
                1 => ConIterOfArray::new(a),
                _ => a.into(),
            }
        },
        N,
        low,
        threads,
        r,
        log,
    )
}

/// an iterator with an arbitrary size hint: lying is safe
struct Liar {
    i: usize,
    n: usize,
    hint: (usize, Option<usize>),
    stash: Vec<Tok>,
}
impl Iterator for Liar {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        if BOMB.load(SeqCst) == self.i + 1000 {
            BOMB.store(usize::MAX, SeqCst);
            panic!("injected");
        }
        self.stash.pop()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

fn case(r: &mut Rng, log: &mut String) -> &'static str {
    let threads = if r.chance(25) { 2 + r.below(2) } else { 0 };
    let n = r.below(9);
    BOMB.store(if r.chance(15) { r.below(n + 1) } else { usize::MAX }, SeqCst);
    log.push_str(&format!("threads {threads} bomb {} ", BOMB.load(SeqCst) as i64));
    match r.below(6) {
        0 | 1 => {
            log.push_str(&format!("vec {n}"));
            let extra = if r.chance(50) { r.below(5) } else { 0 };
            let v = r.below(3);
            run(
                || {
                    let mut x = Vec::with_capacity(n + extra);
                    x.extend((0..n).map(Tok::new));
                    match v {
                        0 => x.into_con_iter(),
                        1 => ConIterOfVec::new(x),
                        _ => x.into(),
                    }
                },
                n,
                true,
                threads,
                r,
                log,
            );
            "vec"
        }
        2 | 3 => {
            match n {
                0 => array::<0>(true, threads, r, log),
                1 => array::<1>(true, threads, r, log),
                2 => array::<2>(true, threads, r, log),
                3 => array::<3>(true, threads, r, log),
                4 => array::<4>(true, threads, r, log),
                _ => array::<8>(true, threads, r, log),
            }
            "array"
        }
        _ => {
            // no counter manipulation here: skipped positions would never be served
            let hint = match r.below(5) {
                0 => (n, Some(n)),
                1 => (n + 3, Some(n + 3)),
                2 => (n / 2, Some(n / 2)),
                3 => (0, Some(0)),
                _ => (0, None),
            };
            if r.chance(20) {
                BOMB.store(1000 + r.below(3), SeqCst);
            }
            log.push_str(&format!("iter {n} hint {hint:?}"));
            run(|| Liar { i: 0, n, hint, stash: (0..n).map(Tok::new).collect() }.into_con_iter(), n, false, threads, r, log);
            "iter"
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, from, stride, secs, max, out) = (num(1), num(2), num(3), num(4), num(5), &a[6]);
    std::panic::set_hook(Box::new(|i| {
        if !i.payload().downcast_ref::<&str>().map_or(false, |s| *s == "injected") {
            eprintln!("{i}");
        }
    }));
    let start = Instant::now();
    let (mut n, mut index) = (0u64, from);
    let mut kinds: BTreeMap<&str, u64> = BTreeMap::new();
    let mut bad = String::new();
    let mut sample = vec![];
    let mut shapes = std::collections::HashSet::new();
    // where a crash happened
    let at = std::fs::File::create(format!("{out}.at")).unwrap();
    while n < max && start.elapsed().as_secs() < secs {
        _ = std::os::unix::fs::FileExt::write_at(&at, &index.to_le_bytes(), 0);
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ index.wrapping_mul(0xd1342543de82ef95));
        r.next();
        for e in L.iter().take(16) {
            e.made.store(0, SeqCst);
            e.dropped.store(0, SeqCst);
            e.held.store(0, SeqCst);
        }
        let mut log = String::new();
        let k = case(&mut r, &mut log);
        BOMB.store(usize::MAX, SeqCst);
        *kinds.entry(k).or_insert(0) += 1;
        shapes.insert(log.bytes().fold(7u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
        if sample.len() < 3 {
            sample.push(format!("#{index} {log}"));
        }
        n += 1;
        let errs = std::mem::take(&mut *ERR.lock().unwrap());
        if !errs.is_empty() {
            bad = format!("#{index} {log}: {}", errs.join("; "));
            break;
        }
        index += stride;
    }
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"");
    let kinds: Vec<String> = kinds.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    let sample: Vec<String> = sample.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    std::fs::write(
        out,
        format!(
            "{{\"cases\": {n}, \"distinct\": {}, \"events\": {}, \"holds\": {}, \"kinds\": {{{}}}, \"samples\": [{}], \"index\": {index}, \"bad\": \"{}\"}}",
            shapes.len(),
            EVENTS.load(SeqCst),
            HOLDS.load(SeqCst),
            kinds.join(", "),
            sample.join(", "),
            esc(&bad)
        ),
    )
    .unwrap();
    std::process::exit(if bad.is_empty() { 0 } else { 1 });
}
