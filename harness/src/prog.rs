//! Workload programs and their generator.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Slice,
    VecRef,
    ArrRef,
    VecOwn,
    ArrOwn,
    Range,
    IterOwn,
    IterRef,
    ClonedSlice,
    ClonedVecRef,
    ClonedArrRef,
    ClonedIter,
    CopiedSlice,
    CopiedVecRef,
    CopiedArrRef,
    CopiedIter,
}
use Kind::*;

impl Kind {
    pub fn is_iter(self) -> bool {
        matches!(self, IterOwn | IterRef | ClonedIter | CopiedIter)
    }
    pub fn is_array(self) -> bool {
        matches!(self, ArrRef | ArrOwn | ClonedArrRef | CopiedArrRef)
    }
    pub fn owning(self) -> bool {
        matches!(self, VecOwn | ArrOwn | IterOwn)
    }
    pub fn adaptor(self) -> bool {
        matches!(self, ClonedSlice | ClonedVecRef | ClonedArrRef | ClonedIter | CopiedSlice | CopiedVecRef | CopiedArrRef | CopiedIter)
    }
    pub fn cloned(self) -> bool {
        matches!(self, ClonedSlice | ClonedVecRef | ClonedArrRef | ClonedIter)
    }
    /// the source whose elements are cloned or copied
    pub fn underlying(self) -> Kind {
        match self {
            ClonedSlice | CopiedSlice => Slice,
            ClonedVecRef | CopiedVecRef => VecRef,
            ClonedArrRef | CopiedArrRef => ArrRef,
            ClonedIter | CopiedIter => IterRef,
            k => k,
        }
    }
    pub fn refs(self) -> bool {
        matches!(self, Slice | VecRef | ArrRef | IterRef)
    }
    pub fn can_clone_iter(self) -> bool {
        matches!(self, Slice | VecRef | ArrRef | Range)
    }
}

pub const ALL: [Kind; 16] = [
    Slice, VecRef, ArrRef, VecOwn, ArrOwn, Range, IterOwn, IterRef, ClonedSlice, ClonedVecRef, ClonedArrRef, ClonedIter, CopiedSlice,
    CopiedVecRef, CopiedArrRef, CopiedIter,
];

/// Size hint reported by the wrapped iterator.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hint {
    Exact,
    /// (0, None)
    Unknown,
    /// (0, Some(len))
    Upper,
    /// (len / 2, Some(len + 3))
    Loose,
    /// (len, None)
    Lower,
    /// (0, Some(usize::MAX))
    Wide,
    /// dishonest: exactly 3 more than the remaining ones
    Over,
    /// dishonest: exactly half of the remaining ones
    Under,
    /// dishonest: nothing remains
    Zero,
    /// dishonest: (usize::MAX, None)
    Infinite,
}
impl Hint {
    pub fn honest(self) -> bool {
        !matches!(self, Hint::Over | Hint::Under | Hint::Zero | Hint::Infinite)
    }
}

#[derive(Clone, Debug)]
pub struct Src {
    pub kind: Kind,
    pub len: usize,
    pub hint: Hint,
    /// the wrapped iterator produces this many further elements after it reported the end
    pub revive: usize,
    /// first value of the range
    pub start: usize,
    pub cap_extra: usize,
    pub ctor: u8,
}

impl Src {
    pub fn known_len(&self) -> bool {
        !self.kind.is_iter() || self.hint == Hint::Exact
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Take {
    /// next until the end
    All,
    /// internal iteration
    Fold,
    Collect,
    /// nth(1) repeatedly
    Nth,
    /// nth(k), then the others
    SkipNth(usize),
    /// all but the last one are not looked at
    Last,
    Count,
    /// some of the elements, the others are dropped with the chunk
    Part(usize),
    /// some of the elements, the chunk is kept while other operations run, then the others
    Split(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Next,
    NextId,
    Chunk(usize),
    Buf(usize),
    Values,
    Ids,
}

#[derive(Clone, Debug)]
pub enum BStep {
    Pull(Take),
    Ops(Vec<Op>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Next,
    NextId,
    Chunk(usize, Take, Vec<Op>),
    Buf(usize, Vec<BStep>),
    Values(usize),
    Ids(usize),
    ForEach(usize),
    EnumForEach(usize),
    Fold(usize),
    /// one of the three above; at the given visit the closure runs the operations
    Visit(u8, usize, usize, Vec<Op>),
    Skip,
    Len,
    HasMore,
    /// pulls until the end is reported and then some more
    Drain(How, usize),
    /// clones the iterator and runs the operations on the clone
    WithClone(Vec<Op>),
    /// clones the iterator, runs the operations on the clone and converts the clone into its remainder
    CloneSeq(Vec<Op>),
    /// operations on another iterator over the same collection
    On(usize, Vec<Op>),
}

#[derive(Clone, Debug)]
pub struct Phase {
    pub threads: Vec<Vec<Op>>,
    pub main: Vec<Op>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Drop,
    /// into_seq_iter, take at most so many elements of it
    Seq(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FaultAt {
    None,
    Next(u64),
    Clone(u64),
    Closure(u64),
    Hint(u64),
}

#[derive(Clone, Debug)]
pub struct Program {
    pub src: Src,
    pub n_iters: usize,
    pub phases: Vec<Phase>,
    pub end: End,
    pub fault: FaultAt,
    /// number of consecutive calls which panic
    pub fault_times: u64,
    /// how the remainder is consumed
    pub seq_how: u8,
    /// keep delivered elements until after the end of the iterator
    pub hold: bool,
    pub skip: bool,
    pub huge: bool,
    pub drops: Drops,
}

/// How iterators, buffers, chunks and remainders are abandoned.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Drops {
    Normal,
    /// dropped while the thread unwinds
    Unwind,
    /// buffers, chunks and remainders are forgotten (safe, leaks what they own)
    Forget,
}

impl Program {
    /// the wrapped iterator tells the truth about its size
    pub fn honest(&self) -> bool {
        !self.src.kind.is_iter() || self.src.hint.honest()
    }
    /// operations run within closures
    pub fn visits(&self) -> bool {
        fn f(ops: &[Op]) -> bool {
            ops.iter().any(|o| match o {
                Op::Visit(..) => true,
                Op::Chunk(_, _, v) | Op::WithClone(v) | Op::CloneSeq(v) | Op::On(_, v) => f(v),
                Op::Buf(_, s) => s.iter().any(|s| matches!(s, BStep::Ops(v) if f(v))),
                _ => false,
            })
        }
        self.phases.iter().any(|p| f(&p.main) || p.threads.iter().any(|t| f(t)))
    }
    pub fn foreach_only(&self) -> bool {
        fn f(ops: &[Op]) -> bool {
            ops.iter().all(|o| matches!(o, Op::ForEach(_) | Op::EnumForEach(_) | Op::Fold(_) | Op::Visit(..) | Op::Len | Op::HasMore))
        }
        self.phases.iter().all(|p| p.threads.iter().all(|t| f(t)))
    }
    pub fn n_threads(&self) -> usize {
        self.phases.iter().map(|p| p.threads.len()).max().unwrap_or(0)
    }
    pub fn n_ops(&self) -> usize {
        fn count(ops: &[Op]) -> usize {
            ops.iter()
                .map(|o| match o {
                    Op::Chunk(_, _, v) | Op::WithClone(v) | Op::CloneSeq(v) | Op::On(_, v) | Op::Visit(_, _, _, v) => 1 + count(v),
                    Op::Buf(_, s) => s
                        .iter()
                        .map(|s| match s {
                            BStep::Pull(_) => 1,
                            BStep::Ops(v) => count(v),
                        })
                        .sum(),
                    Op::Values(k) | Op::Ids(k) => *k,
                    Op::Drain(_, k) => 2 + k,
                    _ => 1,
                })
                .sum()
        }
        self.phases.iter().map(|p| p.threads.iter().map(|t| count(t)).sum::<usize>() + count(&p.main)).sum()
    }
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub kinds: Vec<(usize, Kind)>,
    pub lens: Vec<(usize, (usize, usize))>,
    pub threads: (usize, usize),
    /// percentage of phases with more threads
    pub crowd: usize,
    pub crowd_threads: (usize, usize),
    pub phases: (usize, usize),
    pub ops: (usize, usize),
    /// percentages of programs with the feature
    pub skip: usize,
    pub foreach_only: usize,
    pub single_only: usize,
    pub into_seq: usize,
    pub multi_iter: usize,
    pub clone_iter: usize,
    pub nonfused: usize,
    pub hold: usize,
    pub main_ops: usize,
    pub thread_drain: usize,
    /// weights of operations
    pub w_query: usize,
    pub w_foreach: usize,
    pub w_drain: usize,
    pub chunk0: usize,
    pub huge: usize,
    pub fault: usize,
    pub dishonest: usize,
    pub nested: usize,
    /// percentage of programs which drop while unwinding
    pub unwind: usize,
    /// percentage of programs which forget
    pub forget: usize,
    pub fault_kinds: Vec<u8>,
    pub exact: usize,
    pub big_chunks: bool,
    pub range_starts: bool,
    pub max_buf: usize,
    /// bounds for wrapped iterators (waiting threads are slow on a busy machine)
    pub iter_len: usize,
    pub iter_threads: usize,
}

pub fn weights(f: impl Fn(Kind) -> usize) -> Vec<(usize, Kind)> {
    ALL.iter().map(|&k| (f(k), k)).filter(|x| x.0 > 0).collect()
}

impl Profile {
    pub fn base() -> Self {
        Profile {
            kinds: weights(|k| match k {
                IterOwn | IterRef => 8,
                VecOwn | ArrOwn => 4,
                Slice | Range => 3,
                _ => 1,
            }),
            lens: vec![(2, (0, 0)), (4, (1, 1)), (12, (2, 6)), (6, (5, 12)), (1, (13, 70))],
            threads: (2, 4),
            crowd: 4,
            crowd_threads: (5, 8),
            phases: (1, 2),
            ops: (1, 4),
            skip: 0,
            foreach_only: 8,
            single_only: 15,
            into_seq: 15,
            multi_iter: 0,
            clone_iter: 0,
            nonfused: 10,
            hold: 30,
            main_ops: 40,
            thread_drain: 40,
            w_query: 4,
            w_foreach: 2,
            w_drain: 3,
            chunk0: 2,
            huge: 6,
            fault: 0,
            dishonest: 0,
            nested: 25,
            unwind: 4,
            forget: 1,
            fault_kinds: vec![],
            exact: 40,
            big_chunks: false,
            range_starts: false,
            max_buf: 64,
            iter_len: usize::MAX,
            iter_threads: usize::MAX,
        }
    }

    /// the workload which concentrates on the given property
    pub fn of(prop: &str) -> Self {
        let b = Self::base();
        match prop {
            "C01" => b,
            "C02" => Profile { range_starts: true, ..b },
            "C03" => Profile { single_only: 0, nonfused: 15, ..b },
            "C04" => Profile { phases: (1, 3), main_ops: 60, skip: 10, ..b },
            "C05" => Profile { nonfused: 40, thread_drain: 80, w_drain: 8, w_query: 8, huge: 12, skip: 5, ..b },
            "C06" => Profile { skip: 100, w_query: 10, hold: 50, phases: (1, 3), nonfused: 5, ..b },
            "C07" => Profile {
                kinds: weights(|k| match k {
                    IterOwn | IterRef => 8,
                    ClonedIter | CopiedIter => 2,
                    VecOwn | ArrOwn => 2,
                    _ => 1,
                }),
                skip: 20,
                clone_iter: 30,
                chunk0: 4,
                nonfused: 5,
                dishonest: 5,
                ..b
            },
            "C08" => Profile {
                unwind: 20,
                forget: 8,
                kinds: weights(|k| match k {
                    VecOwn | ArrOwn | IterOwn => 1,
                    _ => 0,
                }),
                skip: 30,
                into_seq: 35,
                hold: 50,
                fault: 10,
                fault_kinds: vec![0, 2],
                dishonest: 4,
                ..b
            },
            "C09" => Profile { skip: 25, nonfused: 10, fault: 0, chunk0: 4, thread_drain: 60, huge: 6, ..b },
            "C10" => Profile { into_seq: 100, skip: 20, nonfused: 0, phases: (0, 2), ..b },
            "C11" => Profile { w_query: 25, skip: 15, main_ops: 80, exact: 60, phases: (1, 3), ..b },
            "C12" => Profile { foreach_only: 100, into_seq: 0, w_query: 1, threads: (1, 4), ops: (1, 2), huge: 15, nested: 15, ..b },
            "C13" => Profile {
                kinds: weights(|k| match k {
                    ClonedSlice | CopiedSlice | ClonedIter | CopiedIter => 3,
                    k if k.adaptor() => 1,
                    _ => 0,
                }),
                skip: 15,
                into_seq: 30,
                w_query: 8,
                hold: 60,
                ..b
            },
            "C16" | "C17" => Profile { huge: 80, range_starts: true, chunk0: 12, skip: 15, ..b },
            "C15" => Profile {
                unwind: 15,
                kinds: weights(|k| match k {
                    VecOwn | ArrOwn | IterOwn => 4,
                    _ => 1,
                }),
                skip: 20,
                into_seq: 30,
                hold: 30,
                dishonest: 4,
                ..b
            },
            "C18" => Profile {
                unwind: 30,
                forget: 2,
                kinds: weights(|k| match k {
                    IterOwn | IterRef => 8,
                    VecOwn | ArrOwn => 3,
                    ClonedIter | ClonedSlice => 3,
                    _ => 1,
                }),
                fault: 100,
                fault_kinds: vec![0, 0, 0, 1, 2, 2, 3],
                dishonest: 2,
                foreach_only: 25,
                w_foreach: 10,
                into_seq: 15,
                ..b
            },
            "C19" => Profile {
                kinds: weights(|k| match k {
                    Slice | VecRef | ArrRef => 4,
                    Range => 2,
                    IterRef => 1,
                    _ => 0,
                }),
                multi_iter: 60,
                clone_iter: 60,
                hold: 60,
                skip: 10,
                ..b
            },
            _ => b,
        }
    }

    /// single threaded, larger inputs
    pub fn sequential(self) -> Self {
        Profile {
            phases: (0, 0),
            main_ops: 100,
            ops: (1, 14),
            lens: vec![
                (2, (0, 1)),
                (6, (2, 9)),
                (6, (8, 40)),
                (2, (60, 70)),
                (1, (127, 129)),
                (1, (250, 300)),
                (1, (1020, 1030)),
                (1, (4090, 4100)),
            ],
            big_chunks: true,
            max_buf: 4096,
            clone_iter: self.clone_iter,
            ..self
        }
    }

    /// real threads, larger inputs
    pub fn native(self) -> Self {
        Profile {
            threads: (2, 8),
            crowd: 0,
            iter_len: 300,
            iter_threads: 4,
            lens: vec![
                (1, (0, 3)),
                (4, (4, 40)),
                (4, (40, 300)),
                (3, (1000, 3000)),
                (2, (4000, 9000)),
                (1, (60000, 70000)),
            ],
            thread_drain: 90,
            big_chunks: true,
            max_buf: 4096,
            ..self
        }
    }

    /// many threads, all of them alike, few operations each
    pub fn crowded(self, native: bool) -> Self {
        Profile {
            crowd: 100,
            crowd_threads: if native { (6, 24) } else { (6, 16) },
            iter_threads: 14,
            phases: (1, 1),
            ops: (1, 2),
            main_ops: 20,
            thread_drain: 70,
            nested: 5,
            iter_len: 60,
            lens: vec![(1, (0, 3)), (3, (3, 12)), (4, (12, 40))],
            ..self
        }
    }

    /// for interpreters
    pub fn tiny(self) -> Self {
        Profile { lens: vec![(1, (0, 0)), (2, (1, 1)), (5, (2, 6))], threads: (2, 3), crowd: 0, ops: (1, 3), phases: (1, 1), ..self }
    }
}

/// array lengths the harness is compiled for
pub const ARR: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 33, 64, 129];

struct G<'a> {
    p: &'a Profile,
    len: usize,
    skip: bool,
    huge: bool,
    single: bool,
    foreach: bool,
    clone_iter: bool,
    kind: Kind,
    n_iters: usize,
}

impl G<'_> {
    fn chunk(&self, r: &mut Rng, one_shot: bool) -> usize {
        if one_shot && r.chance(self.p.chunk0) {
            return 0;
        }
        if self.huge && r.chance(25) {
            return r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX - self.len, usize::MAX / 2 + 1, isize::MAX as usize, 1 << 40]);
        }
        let n = match r.below(if self.p.big_chunks { 14 } else { 10 }) {
            0 | 1 => 1,
            2 | 3 => 2,
            4 => 3,
            5 | 6 => r.range(1, 5),
            7 => self.len,
            8 => self.len + r.range(0, 3),
            9 => self.len / 2,
            10 => r.range(1, 70),
            11 => r.pick(&[7, 8, 16, 31, 32, 33, 63, 64, 65]),
            12 => r.pick(&[100, 128, 256, 511, 512, 1000, 1024]),
            _ => r.range(1, self.len.max(1)),
        };
        match one_shot {
            true => n.max(1),
            false => n.clamp(1, self.p.max_buf),
        }
    }
    fn take(&self, r: &mut Rng) -> Take {
        match r.below(15) {
            12 => Take::SkipNth(r.below(4)),
            13 => Take::Last,
            14 => Take::Count,
            0 => Take::Fold,
            1 => Take::Collect,
            2 => Take::Nth,
            3 | 4 => Take::Part(r.below(4)),
            5 => Take::Part(0),
            6 => Take::Split(r.below(3)),
            _ => Take::All,
        }
    }
    fn how(&self, r: &mut Rng) -> How {
        if self.single {
            return r.pick(&[How::Next, How::NextId, How::Values, How::Ids]);
        }
        match r.below(6) {
            0 => How::Next,
            1 => How::NextId,
            2 => How::Chunk(self.chunk(r, true).max(1)),
            3 => How::Buf(self.chunk(r, false)),
            4 => How::Values,
            _ => How::Ids,
        }
    }
    fn foreach_op(&self, r: &mut Rng, depth: usize) -> Op {
        let n = if self.single { 1 } else { self.chunk(r, false) };
        if depth < 2 && r.chance(self.p.nested) {
            let at = if r.chance(50) { 1 } else { r.range(1, self.len.clamp(1, 40)) };
            let mut ops = vec![];
            if self.skip && r.chance(70) {
                ops.push(Op::Skip);
            }
            if ops.is_empty() || r.chance(40) {
                ops.append(&mut self.ops(r, 1, 2, depth + 1));
            }
            return Op::Visit(r.below(3) as u8, n, at, ops);
        }
        match r.below(3) {
            0 => Op::ForEach(n),
            1 => Op::EnumForEach(n),
            _ => Op::Fold(n),
        }
    }
    fn op(&self, r: &mut Rng, depth: usize) -> Op {
        if self.foreach {
            return match r.chance(10) {
                true => r.pick(&[Op::Len, Op::HasMore]),
                false => self.foreach_op(r, depth),
            };
        }
        let w = |x: usize, c: bool| if c { x } else { 0 };
        let which = r.weighted(&[
            (6, 0),
            (7, 1),
            (w(10, !self.single), 2),
            (w(8, !self.single), 3),
            (3, 4),
            (3, 5),
            (self.p.w_foreach, 6),
            (w(5, self.skip), 7),
            (self.p.w_query, 8),
            (self.p.w_query, 9),
            (self.p.w_drain, 10),
            (w(6, self.clone_iter && depth < 2), 11),
        ]);
        match which {
            0 => Op::Next,
            1 => Op::NextId,
            2 => {
                let take = self.take(r);
                let inner = match take {
                    Take::Split(_) if depth < 2 => self.ops(r, 0, 2, depth + 1),
                    _ => vec![],
                };
                Op::Chunk(self.chunk(r, true), take, inner)
            }
            3 => {
                let n = self.chunk(r, false);
                let k = r.range(1, 3);
                let steps = (0..k)
                    .map(|_| match depth < 2 && r.chance(20) {
                        true => BStep::Ops(self.ops(r, 1, 2, depth + 1)),
                        false => BStep::Pull(self.take(r)),
                    })
                    .collect();
                Op::Buf(n, steps)
            }
            4 => Op::Values(r.range(1, 3)),
            5 => Op::Ids(r.range(1, 3)),
            6 => self.foreach_op(r, depth),
            7 => Op::Skip,
            8 => Op::Len,
            9 => Op::HasMore,
            10 => Op::Drain(self.how(r), r.range(0, 3)),
            _ => match self.skip || r.chance(65) {
                true => Op::WithClone(self.ops(r, 1, 3, depth + 1)),
                false => Op::CloneSeq(self.ops(r, 0, 2, depth + 1)),
            },
        }
    }
    fn ops(&self, r: &mut Rng, a: usize, b: usize, depth: usize) -> Vec<Op> {
        (0..r.range(a, b)).map(|_| self.op(r, depth)).collect()
    }
    fn on(&self, r: &mut Rng, ops: Vec<Op>) -> Vec<Op> {
        match self.n_iters {
            1 => ops,
            n => {
                // distribute among the iterators
                let mut out: Vec<Op> = vec![];
                for op in ops {
                    let k = r.below(n);
                    match k {
                        0 => out.push(op),
                        _ => out.push(Op::On(k, vec![op])),
                    }
                }
                out
            }
        }
    }
}

pub fn gen(r: &mut Rng, p: &Profile) -> Program {
    let kind = r.weighted(&p.kinds);
    let (a, b) = r.weighted(&p.lens);
    let mut len = r.range(a, b);
    if kind.is_iter() {
        len = len.min(p.iter_len);
    }
    if kind.is_array() {
        let mut best = 0;
        for (i, &n) in ARR.iter().enumerate() {
            if n <= len {
                best = i;
            }
        }
        len = ARR[best];
    }
    let hint = match r.chance(p.exact) {
        true => Hint::Exact,
        false => r.pick(&[Hint::Unknown, Hint::Unknown, Hint::Upper, Hint::Loose, Hint::Lower, Hint::Wide]),
    };
    let hint = match kind.is_iter() && r.chance(p.dishonest) {
        true => r.pick(&[Hint::Over, Hint::Under, Hint::Zero, Hint::Infinite]),
        false => hint,
    };
    let revive = if kind.is_iter() && r.chance(p.nonfused) { r.range(1, 5) } else { 0 };
    let start = match kind {
        Range => match r.below(if p.range_starts { 6 } else { 4 }) {
            0 => 0,
            1 => r.range(1, 9),
            2 => 1000,
            3 => 0,
            4 => usize::MAX - len - r.below(3),
            _ => (1 << 32) - len / 2,
        },
        _ => 0,
    };
    let src = Src { kind, len, hint, revive, start, cap_extra: if r.chance(50) { 0 } else { r.range(1, 9) }, ctor: r.below(4) as u8 };
    let skip = r.chance(p.skip);
    let n_iters = if kind != IterRef && p.multi_iter > 0 && r.chance(p.multi_iter) { r.range(2, 3) } else { 1 };
    let g = G {
        p,
        len,
        skip,
        huge: r.chance(p.huge),
        single: r.chance(p.single_only),
        foreach: r.chance(p.foreach_only),
        clone_iter: kind.can_clone_iter() && r.chance(p.clone_iter),
        kind,
        n_iters,
    };
    let n_phases = r.range(p.phases.0, p.phases.1);
    let mut phases = vec![];
    let main_ops = |r: &mut Rng, g: &G| -> Vec<Op> {
        if r.chance(p.main_ops) {
            let ops = if p.phases.1 == 0 { g.ops(r, p.ops.0, p.ops.1, 0) } else { g.ops(r, 1, 2, 0) };
            g.on(r, ops)
        } else {
            vec![]
        }
    };
    for i in 0..n_phases.max(1) {
        let mut nt = if n_phases == 0 { 0 } else { r.range(p.threads.0, p.threads.1) };
        if nt > 0 && r.chance(p.crowd) {
            nt = r.range(p.crowd_threads.0, p.crowd_threads.1);
        }
        if kind.is_iter() {
            nt = nt.min(p.iter_threads);
        }
        let last = i + 1 == n_phases.max(1);
        let mut threads = vec![];
        for _ in 0..nt {
            let mut ops = g.ops(r, p.ops.0, p.ops.1, 0);
            if r.chance(p.thread_drain) && !g.foreach {
                ops.push(Op::Drain(g.how(r), r.range(0, 2)));
            }
            threads.push(g.on(r, ops));
        }
        if nt > 4 && p.crowd == 100 && r.chance(50) {
            // all of them do the same
            let first = threads[0].clone();
            threads.iter_mut().for_each(|t| *t = first.clone());
        }
        let mut main = main_ops(r, &g);
        if last && n_phases > 0 {
            main.insert(0, r.pick(&[Op::Len, Op::HasMore]));
        }
        phases.push(Phase { threads, main });
    }
    let end = match r.chance(p.into_seq) && n_iters == 1 {
        true => End::Seq(match r.below(4) {
            0 => r.below(len + 1),
            _ => usize::MAX,
        }),
        false => End::Drop,
    };
    if end == End::Drop && r.chance(80) {
        let last = phases.last_mut().unwrap();
        for k in 0..n_iters {
            let op = Op::Drain(if g.foreach { r.pick(&[How::Next, How::NextId]) } else { g.how(r) }, r.range(1, 3));
            last.main.push(if k == 0 { op } else { Op::On(k, vec![op]) });
        }
        last.main.push(r.pick(&[Op::Len, Op::HasMore]));
    }
    let fault = match r.chance(p.fault) {
        true => {
            let at = match r.below(4) {
                0 => 1,
                1 => r.range(1, 3) as u64,
                _ => r.range(1, len + 2) as u64,
            };
            match r.pick(&p.fault_kinds) {
                0 if kind.is_iter() => FaultAt::Next(at),
                1 if kind.cloned() => FaultAt::Clone(at),
                3 if kind.is_iter() => FaultAt::Hint(at),
                0..=3 => FaultAt::Closure(at),
                _ => FaultAt::None,
            }
        }
        false => FaultAt::None,
    };
    let fault_times = r.pick(&[1, 1, 1, 2, 3, u64::MAX]);
    let seq_how = r.below(4) as u8;
    let drops = match r.chance(p.unwind) {
        true => Drops::Unwind,
        false if r.chance(p.forget) => Drops::Forget,
        false => Drops::Normal,
    };
    Program { src, n_iters, phases, end, fault, fault_times, seq_how, hold: r.chance(p.hold), skip, huge: g.huge, drops }
}
