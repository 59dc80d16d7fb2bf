//! Boundary arithmetic: extreme ranges, extreme lengths and chunk sizes against a mathematical (u128) model.
use crate::oracle::Finding;
use crate::rng::Rng;
use orx_concurrent_iter::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

const M: usize = usize::MAX;

pub fn bounds(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => r.range(0, 6),
        1 => M - r.range(0, 6),
        2 => M / 2 - 2 + r.range(0, 5),
        3 => r.pick(&[1 << 32, (1 << 32) - 1, (1 << 31), u32::MAX as usize - 2, 1 << 63, (1 << 63) + 1, 1 << 16, 255]),
        4 => r.next() as usize,
        _ => r.pick(&[0, 1, M - 1, M, 1000, 1024]),
    }
}

pub fn chunk(r: &mut Rng, len: usize) -> usize {
    match r.below(9) {
        0 => r.range(1, 6),
        1 => M - r.range(0, 6),
        2 => M / 2 - 2 + r.range(0, 5),
        3 => len.max(1),
        4 => len.saturating_add(r.range(1, 3)),
        5 => (len - r.range(0, 3).min(len)).max(1),
        6 => (M - len).max(1),
        7 => (len / 2).max(1),
        _ => (r.next() as usize).max(1),
    }
}

struct St<'a> {
    bad: Vec<Finding>,
    pos: usize,
    len: usize,
    start: usize,
    what: &'a str,
    log: String,
    /// elements have a value to compare
    val: bool,
    /// the elements are collected: no huge chunks while that many remain
    collects: bool,
    /// the number of elements is not known
    endless: bool,
    skipped: bool,
}
impl St<'_> {
    fn fail(&mut self, class: &'static str, m: String) {
        if self.bad.len() < 3 {
            self.bad.push(Finding { class, msg: format!("{}: {m} (position {} of {})", self.what, self.pos, self.len) });
        }
    }
    fn one(&mut self, k: usize, idx: Option<usize>, v: Option<usize>, bulk: bool) {
        let p = self.pos as u128 + k as u128;
        if p >= self.len as u128 {
            let class = if self.skipped { "skip-revive" } else { "revive" };
            return self.fail(class, format!("an element at position {p} is delivered"));
        }
        if let Some(v) = v.filter(|_| self.val) {
            if v as u128 != self.start as u128 + p {
                let class = match (idx, bulk) {
                    (Some(_), _) => "index",
                    (_, true) => "fold",
                    _ if (v as u128) < self.start as u128 + p => "dup",
                    _ => "order",
                };
                self.fail(class, format!("value {v} is delivered at position {p}"));
            }
        }
        if let Some(i) = idx {
            if i as u128 != p {
                self.fail("index", format!("index {i} is delivered at position {p}"));
            }
        }
    }
    fn none(&mut self, op: &str) {
        if self.pos < self.len {
            self.fail("lost", format!("{op} reports the end"));
        }
    }
    fn chunk<I: ExactSizeIterator>(&mut self, n: usize, begin: usize, mut values: I, take: usize, val: impl Fn(I::Item) -> Option<usize>) {
        let k = values.len();
        self.log += &format!("[{begin}+{k}]");
        if self.pos >= self.len && k > 0 {
            let class = if self.skipped { "skip-revive" } else { "revive" };
            return self.fail(class, format!("a chunk of {k} elements is delivered"));
        }
        if n == 0 || k == 0 {
            return self.fail("chunk", format!("chunk of {n} elements has length {k}"));
        }
        if begin != self.pos {
            let class = if begin < self.pos { "dup" } else { "lost" };
            self.fail(class, format!("chunk of {n} elements begins at {begin}"));
            return self.fail("index", format!("chunk of {n} elements begins at {begin}"));
        }
        if k != n.min(self.len - self.pos) {
            return self.fail("chunk", format!("chunk of {n} elements begins at {begin} with length {k}"));
        }
        let mut m = 0;
        while m < take {
            let Some(x) = values.next() else { break };
            self.one(m, Some(begin.wrapping_add(m)), val(x), false);
            m += 1;
            if values.len() != k - m {
                self.fail("chunk", format!("{} elements remain in the chunk after {m} of {k}", values.len()));
                break;
            }
        }
        if m != take.min(k) {
            self.fail("chunk", format!("chunk of {k} elements yields {m} of {take}"));
        }
        self.pos += k;
    }
}

fn drive<C: ConcurrentIter>(s: &mut St, it: C, r: &mut Rng, val: &dyn Fn(C::Item) -> Option<usize>, clone: Option<&dyn Fn(&C) -> C>, seq: &mut dyn FnMut(&mut St, C)) {
    let mut it = it;
    for _ in 0..r.range(1, 9) {
        let mut n = chunk(r, s.len - s.pos);
        if s.collects && s.len - s.pos > 1000 {
            // these chunks are collected, or their elements visited
            n = n % r.pick(&[70, 70, 5000, 70_000, 300_000]) + 1;
        }
        let take = r.range(0, 4);
        let op = r.below(14);
        s.log += &format!(" {op}:{n}");
        match op {
            0 | 1 => {
                let x = it.next();
                match x {
                    Some(x) => {
                        s.one(0, None, val(x), false);
                        s.pos += 1;
                    }
                    None => s.none("next"),
                }
            }
            2 => match it.next_id_and_value() {
                Some(x) => {
                    s.log += &format!("={}", x.idx);
                    s.one(0, Some(x.idx), val(x.value), false);
                    s.pos += 1;
                }
                None => s.none("next_id_and_value"),
            },
            3..=5 => match it.next_chunk(n) {
                Some(c) => s.chunk(n, c.begin_idx, c.values, take, val),
                None => s.none(&format!("next_chunk({n})")),
            },
            6 | 7 => {
                let mut b = it.buffered_iter(n);
                for _ in 0..r.range(1, 3) {
                    match b.next() {
                        Some(c) => s.chunk(n, c.begin_idx, c.values, take, val),
                        None => s.none(&format!("buffered_iter({n})")),
                    }
                }
            }
            8 => {
                if let Some(c) = it.next_chunk(0) {
                    let k = c.values.len();
                    s.fail("chunk0", format!("a chunk of zero elements is delivered with length {k}"));
                }
            }
            9 => {
                let l = it.try_get_len();
                s.log += &format!("={l:?}");
                if l.map_or(false, |l| l != s.len - s.pos || s.endless && l > 0) {
                    let class = if s.pos >= s.len { "len-after-end" } else { "len" };
                    s.fail(class, format!("length {l:?} is reported"));
                }
            }
            10 => {
                let h = it.has_more();
                s.log += &format!("={h:?}");
                let ok = match h {
                    HasMore::Yes(k) => k == s.len - s.pos && k > 0 && !s.endless,
                    HasMore::No => s.pos == s.len,
                    HasMore::Maybe => it.try_get_len().is_none(),
                };
                if !ok {
                    let class = match s.pos >= s.len {
                        true if s.skipped => "skip-query",
                        true => "len-after-end",
                        false => "len",
                    };
                    s.fail(class, format!("{h:?} is reported"));
                    s.fail("len", format!("{h:?} is reported"));
                }
            }
            11 if r.chance(15) => {
                it.skip_to_end();
                s.pos = s.len;
                s.skipped = true;
            }
            12 => {
                if let Some(f) = clone {
                    it = f(&it);
                }
            }
            _ => {
                if s.len - s.pos <= 40 {
                    let f = r.below(3);
                    let mut k = 0;
                    match f {
                        0 => it.for_each(n, |x| {
                            s.one(k, None, val(x), true);
                            k += 1;
                        }),
                        1 => it.enumerate_for_each(n, |i, x| {
                            s.one(k, Some(i), val(x), true);
                            k += 1;
                        }),
                        _ => {
                            let c = it.fold(n, 0usize, |a, x| {
                                s.one(a, None, val(x), true);
                                a + 1
                            });
                            k = c;
                        }
                    }
                    s.pos += k;
                    s.none("for_each");
                }
            }
        }
        if !s.bad.is_empty() {
            return;
        }
    }
    if r.chance(50) {
        seq(s, it);
    }
}

fn rest(s: &mut St, mut it: impl Iterator<Item = usize>, exact: bool) {
    let left = s.len - s.pos;
    let x = it.next();
    let want = (left > 0).then_some(s.pos + s.start);
    // after skip_to_end any suffix of the undelivered elements is admissible
    if s.skipped && !exact {
        return;
    }
    if x != want {
        return s.fail("seq", format!("the remainder begins with {x:?}"));
    }
    let n = it.count() + x.is_some() as usize;
    if n != left {
        s.fail("seq", format!("the remainder has {n} elements"));
    }
}

const ARRAY: usize = 66_000;

/// One case: findings and a transcript.
pub fn execute(r: &mut Rng, features: &[String]) -> (Vec<Finding>, String) {
    let feature = |x: &str| features.iter().any(|f| f == x);
    let mut kind = r.below(13);
    let mut sub = r.below(9);
    if feature("cloned") {
        kind = r.pick(&[7, 8, 11]);
        sub = r.pick(&[2, 3, 7, 8]);
    }
    if feature("clone") {
        kind = r.pick(&[0, 1, 2, 5, 11]);
        sub = 1;
    }
    let kind = if kind == 12 { 11 } else { kind };
    let (a, b) = match kind {
        11 if sub == 6 => (0, ARRAY),
        11 => {
            let b = r.pick(&[1 << 16, 1 << 17, 1 << 12, 100_000, 1 << 13, 1 << 15, 250_000]);
            (0, b - 4 + r.range(0, 8))
        }
        0..=4 => {
            let a = bounds(r);
            let b = match r.below(3) {
                0 => bounds(r),
                1 => a.saturating_add(r.range(0, 9)),
                _ => a.saturating_sub(r.range(0, 9)),
            };
            (a, b)
        }
        5 => (0, bounds(r)),
        // visiting each of the elements is admissible here
        6 => (0, bounds(r) % 5000),
        9 => {
            let a = bounds(r);
            (a, a.saturating_add(bounds(r)))
        }
        10 => (bounds(r).min(M / 2), M),
        _ => (0, r.range(0, 12)),
    };
    let len = b.saturating_sub(a);
    let what = match kind {
        0..=4 => format!("range {a}..{b}"),
        5 => format!("slice of {len} units"),
        6 => format!("vec of {len} units"),
        9 => format!("iterator over {a}..{b}"),
        10 => format!("iterator over {a}.."),
        7 => format!("vec, array or cloned of {len}"),
        11 => format!("large source {sub} of {len}"),
        _ => format!("iterator of {len}"),
    };
    let mut s = St { bad: vec![], pos: 0, len, start: a, what: &what, log: String::new(), val: kind != 5 && kind != 6, collects: kind >= 7, endless: kind == 10, skipped: false };
    let res = catch_unwind(AssertUnwindSafe(|| {
        let s = &mut s;
        match kind {
            0..=4 => drive(s, (a..b).con_iter(), r, &|x| Some(x), Some(&|x: &ConIterOfRange<usize>| x.clone()), &mut |s, it| {
                let rem = it.into_seq_iter();
                let l = rem.end.saturating_sub(rem.start);
                s.log += &format!(" seq {l}");
                if l != s.len - s.pos {
                    s.fail("seq", format!("the remainder {rem:?} has {l} elements"));
                }
                if l > 0 && rem.start != s.start + s.pos {
                    s.fail("seq", format!("the remainder is {rem:?}"));
                }
            }),
            5 => {
                // zero sized elements: slices of any length exist
                let v = vec![(); len];
                drive(s, v.as_slice().into_con_iter(), r, &|_| None, Some(&|x| x.clone()), &mut |s, it| {
                    let l = it.into_seq_iter().len();
                    if l != s.len - s.pos {
                        s.fail("seq", format!("the remainder has {l} elements"));
                    }
                });
            }
            6 => {
                let v = vec![(); len];
                drive(s, v.into_con_iter(), r, &|_| None, None, &mut |s, it| {
                    let l = it.into_seq_iter().len();
                    if l != s.len - s.pos {
                        s.fail("seq", format!("the remainder has {l} elements"));
                    }
                })
            }
            9 => {
                fn end<I: Iterator<Item = usize>>(s: &mut St, mut rest: I, pos: usize) {
                    let x = rest.next();
                    if pos < s.len && x.map(|x| x as u128) != Some(s.start as u128 + pos as u128) || pos >= s.len && x.is_some() {
                        s.fail("seq", format!("the remainder begins with {x:?}"));
                    }
                }
                let skipped = |s: &St| s.log.contains(" 11:") && s.pos == s.len;
                match r.below(3) {
                    0 => drive(s, (a..b).map(|x| x).into_con_iter(), r, &|x| Some(x), None, &mut |s, it| {
                        if !skipped(s) {
                            end(s, it.into_seq_iter(), s.pos)
                        }
                    }),
                    1 => drive(s, (a..b).filter(|_| true).into_con_iter(), r, &|x| Some(x), None, &mut |s, it| {
                        if !skipped(s) {
                            end(s, it.into_seq_iter(), s.pos)
                        }
                    }),
                    _ => drive(s, ConIterOfIter::new(a..b), r, &|x| Some(x), None, &mut |s, it| {
                        if !skipped(s) {
                            end(s, it.into_seq_iter(), s.pos)
                        }
                    }),
                }
            }
            11 => {
                let v: Vec<usize> = match sub {
                    4..=6 => vec![],
                    _ => (0..len).collect(),
                };
                let own: &dyn Fn(usize) -> Option<usize> = &|x| Some(x);
                match sub {
                    0 => drive(s, v.into_con_iter(), r, own, None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                    1 => drive(s, v.as_slice().into_con_iter(), r, &|x| Some(*x), Some(&|x| x.clone()), &mut |s, it| rest(s, it.into_seq_iter().copied(), false)),
                    2 => drive(s, v.con_iter().cloned(), r, own, None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                    3 => drive(s, v.con_iter().copied(), r, own, None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                    4 => drive(s, (0..len).map(|x| x).into_con_iter(), r, own, None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                    5 => drive(s, (0..len).filter(|_| true).into_con_iter(), r, own, None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                    6 => drive(s, std::array::from_fn::<usize, ARRAY, _>(|i| i).into_con_iter(), r, own, None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                    7 => drive(s, v.iter().into_con_iter().copied(), r, own, None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                    _ => drive(s, v.iter().filter(|_| true).into_con_iter().cloned(), r, own, None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                }
            }
            10 => match r.below(2) {
                0 => drive(s, ConIterOfIter::new(a..), r, &|x| Some(x), None, &mut |_, it| drop(it.into_seq_iter())),
                _ => drive(s, (0usize..).map(|x| x + a).into_con_iter(), r, &|x| Some(x), None, &mut |_, it| drop(it.into_seq_iter())),
            },
            7 => {
                let v: Vec<usize> = (0..len).collect();
                match len {
                    1 | 3 => drive(s, v.into_con_iter(), r, &|x| Some(x), None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                    5 => drive(s, [0usize, 1, 2, 3, 4].into_con_iter(), r, &|x| Some(x), None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                    0 => drive(s, ([] as [usize; 0]).into_con_iter(), r, &|x| Some(x), None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                    x if x % 2 == 0 => drive(s, v.con_iter().cloned(), r, &|x| Some(x), None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                    _ => drive(s, v.con_iter().copied(), r, &|x| Some(x), None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                }
            }
            _ => match r.below(3) {
                0 => drive(s, (0..len).map(|x| x).into_con_iter(), r, &|x| Some(x), None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                1 => drive(s, (0..len).filter(|_| true).into_con_iter(), r, &|x| Some(x), None, &mut |s, it| rest(s, it.into_seq_iter(), false)),
                _ => {
                    let v: Vec<usize> = (0..len).collect();
                    drive(s, v.iter().into_con_iter().copied(), r, &|x| Some(x), None, &mut |s, it| rest(s, it.into_seq_iter(), false))
                }
            },
        }
    }));
    if res.is_err() {
        let m = crate::exec::LAST_PANIC.with(|x| x.borrow().clone());
        s.bad.push(Finding { class: "panic", msg: format!("{what}: panic: {m}; operations{}", s.log) });
    }
    let log = format!("{what}:{}", s.log);
    let bad = s.bad.into_iter().map(|f| Finding { class: f.class, msg: format!("{} operations{}", f.msg, log) }).collect();
    (bad, log)
}

fn zero<C: ConcurrentIter>(out: &mut Vec<Finding>, what: &str, mk: impl Fn() -> C) {
    let mut must = |op: &str, f: &dyn Fn(&C)| {
        let it = mk();
        if catch_unwind(AssertUnwindSafe(|| f(&it))).is_ok() {
            out.push(Finding { class: "grid", msg: format!("{what}: {op} with chunk size zero does not panic") });
        }
    };
    must("buffered_iter", &|it| drop(it.buffered_iter(0)));
    must("for_each", &|it| it.for_each(0, |_| {}));
    must("enumerate_for_each", &|it| it.enumerate_for_each(0, |_, _| {}));
    must("fold", &|it| {
        _ = it.fold(0, 0usize, |a, _| a + 1);
    });
    // exhausted and skipped iterators
    must("buffered_iter after the end", &|it| {
        it.skip_to_end();
        drop(it.buffered_iter(0))
    });
    must("for_each after the end", &|it| {
        it.skip_to_end();
        it.for_each(0, |_| {})
    });
}

/// documented panics with chunk size zero
pub fn zeros() -> Vec<Finding> {
    let mut out = vec![];
    for len in [0usize, 1, 5] {
        let v: Vec<usize> = (0..len).collect();
        zero(&mut out, &format!("range of {len}"), || (0..len).con_iter());
        zero(&mut out, &format!("vec of {len}"), || v.clone().into_con_iter());
        zero(&mut out, &format!("slice of {len}"), || v.as_slice().into_con_iter());
        zero(&mut out, &format!("&vec of {len}"), || v.con_iter());
        zero(&mut out, &format!("cloned slice of {len}"), || v.con_iter().cloned());
        zero(&mut out, &format!("copied slice of {len}"), || v.con_iter().copied());
        zero(&mut out, &format!("iterator of {len}"), || v.iter().into_con_iter());
        zero(&mut out, &format!("cloned iterator of {len}"), || v.iter().into_con_iter().cloned());
        zero(&mut out, &format!("copied iterator of {len}"), || v.iter().into_con_iter().copied());
    }
    zero(&mut out, "array of 0", || ([] as [usize; 0]).into_con_iter());
    zero(&mut out, "array of 3", || [1usize, 2, 3].into_con_iter());
    let a = [1usize, 2, 3];
    zero(&mut out, "&array of 3", || a.con_iter());
    out
}
