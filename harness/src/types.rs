//! Element type diversity: zero sized, large, over-aligned, niche, heap owning and plain elements through
//! every source kind; the sequential position model and conservation are the oracles.
use crate::oracle::Finding;
use crate::rng::Rng;
use crate::sched::{self, Track};
use crate::{alloc, ledger::Zst, ledger::ZST_CREATED, ledger::ZST_DROPPED};
use orx_concurrent_iter::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::*;
use std::sync::Mutex;

pub trait Elem: Send + Sync + Sized {
    const NAME: &'static str;
    fn mk(i: usize) -> Self;
    fn id(&self) -> Option<usize>;
}
impl Elem for Zst {
    const NAME: &'static str = "zst with destructor";
    fn mk(_: usize) -> Self {
        Zst::new()
    }
    fn id(&self) -> Option<usize> {
        None
    }
}
impl Elem for () {
    const NAME: &'static str = "unit";
    fn mk(_: usize) -> Self {}
    fn id(&self) -> Option<usize> {
        None
    }
}
impl Elem for u8 {
    const NAME: &'static str = "u8";
    fn mk(i: usize) -> Self {
        i as u8
    }
    fn id(&self) -> Option<usize> {
        Some(*self as usize)
    }
}
impl Elem for u16 {
    const NAME: &'static str = "u16";
    fn mk(i: usize) -> Self {
        i as u16
    }
    fn id(&self) -> Option<usize> {
        Some(*self as usize)
    }
}
#[derive(Clone, Copy)]
pub struct Big([u64; 40]);
impl Elem for Big {
    const NAME: &'static str = "320 bytes";
    fn mk(i: usize) -> Self {
        Big(std::array::from_fn(|j| (i * 41 + j) as u64))
    }
    fn id(&self) -> Option<usize> {
        let i = self.0[0] / 41;
        Some(if (0..40).all(|j| self.0[j] == i * 41 + j as u64) { i as usize } else { usize::MAX })
    }
}
#[derive(Clone, Copy)]
#[repr(align(64))]
pub struct Aligned(u32);
impl Elem for Aligned {
    const NAME: &'static str = "64 bytes alignment";
    fn mk(i: usize) -> Self {
        Aligned(i as u32)
    }
    fn id(&self) -> Option<usize> {
        Some(if self as *const Self as usize % 64 == 0 { self.0 as usize } else { usize::MAX })
    }
}
impl Elem for String {
    const NAME: &'static str = "String";
    fn mk(i: usize) -> Self {
        format!("an element on the heap {i}")
    }
    fn id(&self) -> Option<usize> {
        Some(self.rsplit(' ').next().and_then(|x| x.parse().ok()).unwrap_or(usize::MAX))
    }
}
impl Elem for Option<Box<usize>> {
    const NAME: &'static str = "Option<Box>";
    fn mk(i: usize) -> Self {
        (i % 3 != 0).then(|| Box::new(i))
    }
    fn id(&self) -> Option<usize> {
        self.as_ref().map(|b| **b)
    }
}
impl<'a, T: Elem> Elem for &'a T {
    const NAME: &'static str = T::NAME;
    fn mk(_: usize) -> Self {
        unreachable!()
    }
    fn id(&self) -> Option<usize> {
        (**self).id()
    }
}

/// what u8 ids and unknown ids can tell
fn same(id: Option<usize>, pos: usize) -> bool {
    match id {
        None => true,
        Some(x) => x == pos || (x < 256 && x == pos % 256),
    }
}

struct Bad(Vec<Finding>);
impl Bad {
    fn add(&mut self, class: &'static str, msg: String) {
        let _t = Track::set(false);
        if self.0.len() < 4 {
            self.0.push(Finding { class, msg });
        }
    }
}

fn sequential<C: ConcurrentIter>(bad: &mut Bad, it: C, len: usize, r: &mut Rng, what: &str)
where
    C::Item: Elem,
{
    let mut pos = 0;
    let mut skipped = false;
    let check = |bad: &mut Bad, p: usize, x: &C::Item, idx: Option<usize>| {
        if p >= len || !same(x.id(), p) {
            bad.add("dup", format!("{what}: position {p} of {len} delivers element {:?}", x.id()));
        }
        if idx.map_or(false, |i| i != p) {
            bad.add("index", format!("{what}: position {p} is reported as {idx:?}"));
        }
    };
    let mut missing = |bad: &mut Bad, pos: usize| {
        if pos < len {
            bad.add("lost", format!("{what}: the end is reported at position {pos} of {len}"));
        }
    };
    for _ in 0..r.range(0, 8) {
        let n = r.range(1, (len / 2).max(3));
        match r.below(9) {
            0 => match it.next() {
                Some(x) => {
                    check(bad, pos, &x, None);
                    pos += 1;
                }
                None => missing(bad, pos),
            },
            1 => match it.next_id_and_value() {
                Some(x) => {
                    check(bad, pos, &x.value, Some(x.idx));
                    pos += 1;
                }
                None => missing(bad, pos),
            },
            2 | 3 => match it.next_chunk(n) {
                Some(c) => {
                    let k = c.values.len();
                    if k == 0 || k != n.min(len - pos.min(len)) || c.begin_idx != pos {
                        bad.add("chunk", format!("{what}: chunk of {n} at {pos} of {len} has begin {} and length {k}", c.begin_idx));
                    }
                    let take = r.pick(&[0, 1, k / 2, k, k + 1]);
                    let mut m = 0;
                    for (i, x) in c.values.take(take).enumerate() {
                        check(bad, pos + i, &x, None);
                        m += 1;
                    }
                    if m != take.min(k) {
                        bad.add("chunk", format!("{what}: chunk announced {k} elements, {m} of {take} are yielded"));
                    }
                    pos += k;
                }
                None => missing(bad, pos),
            },
            4 | 5 => {
                let mut b = it.buffered_iter(n);
                for _ in 0..r.range(1, 3) {
                    match b.next() {
                        Some(c) => {
                            let k = c.values.len();
                            if k == 0 || k != n.min(len - pos.min(len)) || c.begin_idx != pos {
                                bad.add("chunk", format!("{what}: buffered chunk of {n} at {pos} of {len} has begin {} and length {k}", c.begin_idx));
                            }
                            let take = r.pick(&[0, 1, k / 2, k, k + 1]);
                            for (i, x) in c.values.take(take).enumerate() {
                                check(bad, pos + i, &x, None);
                            }
                            pos += k;
                        }
                        None => missing(bad, pos),
                    }
                }
            }
            6 if r.chance(30) => {
                it.enumerate_for_each(n, |i, x| {
                    check(bad, pos, &x, Some(i));
                    pos += 1;
                });
                missing(bad, pos)
            }
            6 if r.chance(20) => {
                it.skip_to_end();
                skipped = true;
                break;
            }
            7 => {
                if let Some(l) = it.try_get_len() {
                    if l != len - pos {
                        bad.add("len", format!("{what}: length {l} is reported at {pos} of {len}"));
                    }
                }
            }
            _ => {
                for x in it.ids_and_values().take(n) {
                    check(bad, pos, &x.1, Some(x.0));
                    pos += 1;
                }
            }
        }
    }
    if r.chance(50) {
        let mut seq = it.into_seq_iter();
        let take = r.pick(&[0, 1, len / 2, usize::MAX]);
        let mut k = 0;
        while k < take {
            let Some(x) = seq.next() else { break };
            if !skipped && !same(x.id(), pos + k) || k > len {
                bad.add("seq", format!("{what}: the remainder delivers element {:?} at position {}", x.id(), pos + k));
            }
            k += 1;
            if k > len + 2 {
                break;
            }
        }
        if !skipped && k != take.min(len - pos.min(len)) {
            bad.add("seq", format!("{what}: the remainder has {k} of {} elements", len - pos.min(len)));
        }
    }
}

fn concurrent<C: ConcurrentIter>(bad: &mut Bad, it: C, len: usize, r: &mut Rng, what: &str)
where
    C::Item: Elem,
{
    let _t = Track::set(false);
    let got: Mutex<Vec<(usize, Option<usize>)>> = Mutex::new(vec![]);
    let n_threads = r.range(2, 3);
    let jobs: Vec<Box<dyn FnOnce() + Send + '_>> = (0..n_threads)
        .map(|_| {
            let (how, n) = (r.below(4), r.range(1, 5));
            let (it, got) = (&it, &got);
            Box::new(move || {
                let _t = Track::set(true);
                let mut mine = vec![];
                let mut put = |i: usize, x: C::Item| {
                    let _t = Track::set(false);
                    sched::progress();
                    mine.push((i, x.id()));
                    mine.len() <= len + 2
                };
                match how {
                    0 => {
                        while let Some(x) = it.next_id_and_value() {
                            if !put(x.idx, x.value) {
                                break;
                            }
                        }
                    }
                    1 => {
                        while let Some(c) = it.next_chunk(n) {
                            for (i, x) in c.values.enumerate() {
                                put(c.begin_idx + i, x);
                            }
                        }
                    }
                    2 => {
                        let mut b = it.buffered_iter(n);
                        while let Some(c) = b.next() {
                            for (i, x) in c.values.enumerate() {
                                put(c.begin_idx + i, x);
                            }
                        }
                    }
                    _ => it.enumerate_for_each(n, |i, x| {
                        put(i, x);
                    }),
                }
                let _t = Track::set(false);
                got.lock().unwrap().extend(mine);
            }) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    sched::run_phase(jobs);
    let mut got = got.into_inner().unwrap();
    got.sort();
    for (i, id) in &got {
        if !same(*id, *i) {
            bad.add("index", format!("{what}: element {id:?} is delivered with index {i}"));
        }
    }
    let pos: Vec<usize> = got.iter().map(|x| x.0).collect();
    if pos != (0..len).collect::<Vec<_>>() {
        let class = if pos.windows(2).any(|w| w[0] == w[1]) { "dup" } else { "lost" };
        bad.add(class, format!("{what}: {n_threads} threads deliver {} of {len} elements: {:?}..", pos.len(), &pos[..pos.len().min(20)]));
    }
}

fn go<C: ConcurrentIter>(bad: &mut Bad, it: C, len: usize, r: &mut Rng, conc: bool, what: &str)
where
    C::Item: Elem,
{
    match conc {
        true => concurrent(bad, it, len, r, what),
        false => sequential(bad, it, len, r, what),
    }
}

fn array<T: Elem, const N: usize>(bad: &mut Bad, r: &mut Rng, conc: bool, refs: bool) {
    let a: [T; N] = std::array::from_fn(T::mk);
    let what = format!("[{}; {N}]{}", T::NAME, if refs { " by reference" } else { "" });
    match refs {
        true => go(bad, a.con_iter(), N, r, conc, &what),
        false => go(bad, a.into_con_iter(), N, r, conc, &what),
    }
}

fn owned<T: Elem>(bad: &mut Bad, r: &mut Rng, len: usize, conc: bool) {
    match r.below(6) {
        0 | 1 => {
            let mut v = Vec::with_capacity(len + r.pick(&[0, 0, 3, 9]));
            v.extend((0..len).map(T::mk));
            go(bad, v.into_con_iter(), len, r, conc, &format!("Vec<{}>", T::NAME))
        }
        2 => match r.below(5) {
            0 => array::<T, 0>(bad, r, conc, false),
            1 => array::<T, 1>(bad, r, conc, false),
            2 => array::<T, 5>(bad, r, conc, false),
            3 => array::<T, 17>(bad, r, conc, false),
            _ => array::<T, 100>(bad, r, conc, false),
        },
        3 => {
            let it = (0..len).map(T::mk);
            match r.chance(50) {
                true => go(bad, it.into_con_iter(), len, r, conc, &format!("iterator of {}", T::NAME)),
                false => go(bad, it.filter(|_| true).into_con_iter(), len, r, conc, &format!("iterator of {} of unknown size", T::NAME)),
            }
        }
        4 => {
            let v: Vec<T> = (0..len).map(T::mk).collect();
            match r.below(3) {
                0 => go(bad, v.con_iter(), len, r, conc, &format!("&Vec<{}>", T::NAME)),
                1 => go(bad, v.as_slice().into_con_iter(), len, r, conc, &format!("&[{}]", T::NAME)),
                _ => go(bad, v.iter().into_con_iter(), len, r, conc, &format!("iterator of &{}", T::NAME)),
            }
            for (i, x) in v.iter().enumerate() {
                if !same(x.id(), i) {
                    bad.add("source", format!("element {i} of the source is modified"));
                }
            }
        }
        _ => array::<T, 9>(bad, r, conc, true),
    }
}

fn clones<T: Elem + Clone>(bad: &mut Bad, r: &mut Rng, len: usize, conc: bool) {
    let v: Vec<T> = (0..len).map(T::mk).collect();
    match r.below(3) {
        0 => go(bad, v.con_iter().cloned(), len, r, conc, &format!("&Vec<{}> cloned", T::NAME)),
        1 => go(bad, v.as_slice().into_con_iter().cloned(), len, r, conc, &format!("&[{}] cloned", T::NAME)),
        _ => go(bad, v.iter().into_con_iter().cloned(), len, r, conc, &format!("iterator of &{} cloned", T::NAME)),
    }
}

fn copies<T: Elem + Copy>(bad: &mut Bad, r: &mut Rng, len: usize, conc: bool) {
    let v: Vec<T> = (0..len).map(T::mk).collect();
    match r.below(3) {
        0 => go(bad, v.con_iter().copied(), len, r, conc, &format!("&Vec<{}> copied", T::NAME)),
        1 => go(bad, v.as_slice().into_con_iter().copied(), len, r, conc, &format!("&[{}] copied", T::NAME)),
        _ => go(bad, v.iter().into_con_iter().copied(), len, r, conc, &format!("iterator of &{} copied", T::NAME)),
    }
}

pub fn execute(r: &mut Rng, conc: bool, which: usize) -> Vec<Finding> {
    crate::ledger::reset(1);
    alloc::reset();
    let mut bad = Bad(vec![]);
    bad.0.reserve(8);
    let len = match r.below(10) {
        0 => 0,
        1 => 1,
        2..=6 => r.range(2, 12),
        7 | 8 => r.range(10, 60),
        _ => r.range(100, 700),
    };
    let len = if conc && sched::SIM { len.min(8) } else { len };
    let res = catch_unwind(AssertUnwindSafe(|| {
        let _t = Track::set(true);
        let b = &mut bad;
        match which % 14 {
            0 => owned::<Zst>(b, r, len, conc),
            1 => owned::<u8>(b, r, len, conc),
            2 => owned::<Big>(b, r, len, conc),
            3 => owned::<Aligned>(b, r, len, conc),
            4 => owned::<String>(b, r, len, conc),
            5 => owned::<Option<Box<usize>>>(b, r, len, conc),
            6 => owned::<()>(b, r, len, conc),
            7 => owned::<u16>(b, r, len, conc),
            8 => clones::<Zst>(b, r, len, conc),
            9 => clones::<String>(b, r, len, conc),
            10 => clones::<Big>(b, r, len, conc),
            11 => copies::<u8>(b, r, len, conc),
            12 => copies::<Aligned>(b, r, len, conc),
            _ => copies::<Big>(b, r, len, conc),
        }
    }));
    if res.is_err() {
        let m = crate::exec::LAST_PANIC.with(|x| x.borrow().clone());
        bad.add("panic", format!("unexpected panic: {m}"));
    }
    let (cr, dr) = (ZST_CREATED.load(Relaxed), ZST_DROPPED.load(Relaxed));
    if cr != dr {
        let class = if dr > cr { "ledger" } else { "leak" };
        bad.add(class, format!("{cr} zero sized elements are created but {dr} destroyed"));
    }
    let (live, _, sizes) = alloc::live();
    if live > 0 && !alloc::overflowed() && bad.0.is_empty() {
        bad.add("alloc-leak", format!("type {which}: {live} allocation(s) are never released, sizes {sizes:?}"));
    }
    bad.0
}
