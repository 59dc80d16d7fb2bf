//! Oracles over the recorded operations of one execution.
use crate::exec::*;
use crate::ledger::Form;
use crate::prog::*;
use orx_concurrent_iter::HasMore;

#[derive(Clone, Debug)]
pub struct Finding {
    pub class: &'static str,
    pub msg: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// interleavings; real time order is the execution order
    Time,
    /// weak memory simulation; only happens-before counts
    Hb,
    /// only operations of the same thread are ordered
    Thread,
}

struct F {
    v: Vec<Finding>,
}
impl F {
    fn add(&mut self, class: &'static str, msg: String) {
        if self.v.iter().filter(|f| f.class == class).count() < 3 {
            self.v.push(Finding { class, msg });
        }
    }
}

struct Group<'a> {
    iter: usize,
    recs: Vec<&'a OpRec>,
    pos: Vec<Vec<i64>>,
    /// first position of the iterator (Some(0) for original ones)
    base: Option<usize>,
}

/// Classes which completed operations show although others are in flight.
const PARTIAL: [&str; 15] = [
    "panic", "garbage", "ghost", "index", "form", "chunk", "chunk0", "fold", "dup", "order", "order-thread", "revive", "skip-revive", "no-revive", "len-increase",
];

/// An execution which does not end: what has been observed of it so far.
pub fn partial(prog: &Program, recs: Vec<OpRec>, mode: Mode) -> Vec<Finding> {
    if !prog.honest() {
        return vec![];
    }
    let mut out = Outcome::default();
    out.recs = recs;
    out.fired = (prog.fault != FaultAt::None) as u64;
    let mut v = check(prog, &out, mode, &[]);
    v.retain(|f| PARTIAL.contains(&f.class));
    v
}

pub fn check(prog: &Program, out: &Outcome, mode: Mode, races: &[String]) -> Vec<Finding> {
    let mut f = F { v: vec![] };
    let src = &prog.src;
    let len = src.len;
    let prec = |a: &OpRec, b: &OpRec| -> bool {
        match mode {
            Mode::Time => a.end < b.start,
            // thread 0 runs when no other thread does
            Mode::Thread => (a.thread == b.thread || a.thread == 0 || b.thread == 0) && a.end < b.start,
            Mode::Hb => match a.thread == b.thread {
                true => a.end < b.start,
                false => a.ec[a.thread] <= b.sc[a.thread],
            },
        }
    };
    let fault = out.fired > 0;

    for r in races {
        f.add("race", r.clone());
    }
    if out.overlap > 0 {
        f.add("overlap", format!("next of the wrapped iterator is executed by two threads at the same time ({} times)", out.overlap));
    }
    for (c, m) in &out.ledger_bad {
        f.add(c, m.clone());
    }
    for m in &out.hold_bad {
        f.add("hold", m.clone());
    }
    for m in &out.source_bad {
        f.add("source", m.clone());
    }
    if let Some(l) = &out.leak {
        f.add("alloc-leak", l.clone());
    }
    if let Some(m) = &out.seq_panic {
        f.add("panic", format!("panic at the end of the iterator: {m}"));
    }
    let injected = out.recs.iter().filter(|r| r.panicked == Panicked::Injected).count() as u64 + out.end_injected as u64;
    if injected != out.fired {
        f.add("panic-lost", format!("{} injected panics unwound {} calls", out.fired, injected));
    }
    for r in &out.recs {
        if r.panicked == Panicked::Unexpected {
            f.add("panic", format!("unexpected panic in {}", r.brief()));
        }
    }

    // element level
    let form = match src.kind {
        Kind::Range => Form::Plain,
        k if k.owning() => Form::Orig,
        k if k.adaptor() => Form::Clone,
        _ => Form::Ref,
    };
    let mut element = |pos: i64, idx: Option<usize>, fo: Form, addr: usize, whence: &dyn Fn() -> String| {
        match pos {
            -2 => f.add("ghost", format!("an element after the end of the source is delivered: {}", whence())),
            p if p < 0 => f.add("garbage", format!("a value which is not in the source is delivered: {}", whence())),
            p => {
                if idx.is_some() && idx != Some(p as usize) {
                    f.add("index", format!("element of position {p} is delivered with index {}: {}", idx.unwrap(), whence()));
                }
                if form == Form::Ref && !out.addr0.is_empty() && out.addr0[p as usize] != addr {
                    f.add("address", format!("reference of position {p} does not point at the original element: {}", whence()));
                }
            }
        }
        if fo != form {
            f.add("form", format!("{fo:?} is delivered instead of {form:?}: {}", whence()));
        }
    };
    for r in &out.recs {
        for d in &r.deliv {
            element(d.pos, d.idx, d.form, d.addr, &|| r.brief());
        }
    }
    if let Some((rest, _)) = &out.seq {
        for (p, fo, addr) in rest {
            if *p != -2 {
                element(*p, None, *fo, *addr, &|| "into_seq_iter".into());
            }
        }
    }

    // chunks
    for r in &out.recs {
        if let Some(c) = &r.chunk {
            if r.n == 0 {
                f.add("chunk0", format!("a pull of zero elements returned a chunk: {}", r.brief()));
                continue;
            }
            if c.announced == 0 || c.announced > r.n {
                f.add("chunk", format!("length is not in 1..={}: {}", r.n, r.brief()));
            }
            if c.announced < r.n && c.begin.saturating_add(c.announced) != len && !fault {
                f.add("chunk", format!("short chunk does not end at the end {len} of the source: {}", r.brief()));
            }
            if c.complete && c.yielded != c.announced && r.panicked == Panicked::No {
                f.add("chunk", format!("announced {} elements but yielded {}: {}", c.announced, c.yielded, r.brief()));
            }
            if c.yielded > c.announced {
                f.add("chunk", format!("announced {} elements but yielded at least {}: {}", c.announced, c.yielded, r.brief()));
            }
            if let Some(b) = &c.bad {
                f.add("chunk", format!("{b}: {}", r.brief()));
            }
            if r.deliv.iter().any(|d| d.pos >= 0 && d.idx != Some(d.pos as usize)) {
                f.add("chunk", format!("elements of a chunk are not the consecutive ones starting at its begin index: {}", r.brief()));
            }
        }
        // pulls in flight deliver what they had reserved
        if let Some(k) = r.visits_after_skip.filter(|k| *k >= r.n) {
            f.add("skip-revive", format!("{k} further visits after skip_to_end within the closure, chunk size {}: {}", r.n, r.brief()));
        }
        if let (Some(fold), Panicked::No) = (r.fold, r.panicked) {
            let e = r.deliv.iter().fold(Fold::default(), |a, d| a.add(d.key));
            if e != fold {
                f.add("fold", format!("fold result {fold:?} is not the fold {e:?} of the visited elements: {}", r.brief()));
            }
        }
    }

    // groups of operations on the same iterator
    let mut groups: Vec<Group> = vec![];
    let n_iter = out.recs.iter().map(|r| r.iter + 1).max().unwrap_or(1).max(prog.n_iters);
    for i in 0..n_iter {
        let mut recs: Vec<&OpRec> = out.recs.iter().filter(|r| r.iter == i).collect();
        recs.sort_by_key(|r| r.start);
        let pos = recs.iter().map(|r| r.positions()).collect();
        groups.push(Group { iter: i, recs, pos, base: (i < prog.n_iters).then_some(0) });
    }

    // clones of iterators: base positions
    let clone_recs: Vec<&OpRec> = out.recs.iter().filter(|r| r.what == What::CloneIter && r.panicked == Panicked::No).collect();
    let mut sorted = clone_recs.clone();
    sorted.sort_by_key(|r| r.child);
    let mut progress = true;
    while progress {
        progress = false;
        for c in &sorted {
            if groups.len() <= c.child || groups[c.child].base.is_some() {
                continue;
            }
            let g = &groups[c.iter];
            let Some(base) = g.base else { continue };
            // (an operation which panicked may have consumed elements it delivered to nobody)
            let quiet = g.recs.iter().all(|r| (!(r.what.pull() || r.what == What::Skip) || prec(r, c) || prec(c, r)) && (!fault || r.panicked == Panicked::No));
            if !quiet {
                continue;
            }
            let skipped = g.recs.iter().any(|r| r.what == What::Skip && prec(r, c));
            let n: usize = g.recs.iter().zip(&g.pos).filter(|(r, _)| prec(r, c)).map(|(_, p)| p.len()).sum();
            let b = match skipped {
                true => len,
                false => (base + n).min(len),
            };
            groups[c.child].base = Some(b);
            progress = true;
        }
    }
    for c in &sorted {
        if groups.len() <= c.child {
            continue;
        }
        let (p, q) = (&groups[c.iter], &groups[c.child]);
        let first = q.pos.iter().flatten().copied().min();
        let below = p.recs.iter().zip(&p.pos).filter(|(r, _)| prec(r, c)).flat_map(|(_, p)| p.iter().copied()).max();
        let above = p.recs.iter().zip(&p.pos).filter(|(r, _)| prec(c, r)).flat_map(|(_, p)| p.iter().copied()).min();
        if let (Some(a), Some(b)) = (first, below) {
            if a <= b {
                f.add("clone-pos", format!("clone delivers position {a} although {b} was already delivered when it was created: {}", c.brief()));
            }
        }
        if let (Some(a), Some(b)) = (first, above) {
            if a > b {
                f.add("clone-pos", format!("first position of the clone is {a} although the original delivers {b} later: {}", c.brief()));
            }
        }
        if let (Some(a), Some(b)) = (first, q.base) {
            if a != b as i64 {
                f.add("clone-pos", format!("first position of the clone is {a} but the original's position is {b}: {}", c.brief()));
            }
        }
    }

    for g in &groups {
        check_group(prog, out, mode, &mut f, g, &prec, fault);
    }

    // into_seq_iter
    if let Some((rest, exhausted)) = &out.seq {
        let g = &groups[0];
        if !fault && src.revive == 0 && out.seq_panic.is_none() {
            let mut seen = vec![false; len];
            for &p in g.pos.iter().flatten() {
                if p >= 0 && (p as usize) < len {
                    seen[p as usize] = true;
                }
            }
            let undelivered: Vec<i64> = (0..len as i64).filter(|&p| !seen[p as usize]).collect();
            let undelivered = match out.seq_off {
                usize::MAX => {
                    if undelivered.len() > len % 3 && !g.recs.iter().any(|r| r.what == What::Skip) {
                        f.add("seq", format!("nth({}) of the remainder reports the end, {} elements are undelivered", len % 3, undelivered.len()));
                    }
                    vec![]
                }
                k => undelivered[k.min(undelivered.len())..].to_vec(),
            };
            if let Some(m) = &out.seq_hint {
                f.add("seq", m.clone());
            }
            let got: Vec<i64> = rest.iter().map(|x| x.0).collect();
            let k = match prog.end {
                End::Seq(k) => k,
                _ => 0,
            };
            let skipped = g.recs.iter().any(|r| r.what == What::Skip);
            let ok = match skipped {
                false => got == undelivered[..undelivered.len().min(k)],
                true => match *exhausted {
                    true => undelivered.ends_with(&got),
                    false => got.is_empty() || undelivered.windows(got.len()).any(|w| w == &got[..]),
                },
            };
            if !ok {
                f.add(
                    "seq",
                    format!(
                        "remainder is {:?}.. ({} elements), undelivered are {:?}.. ({}), skipped: {skipped}",
                        &got[..got.len().min(12)],
                        got.len(),
                        &undelivered[..undelivered.len().min(12)],
                        undelivered.len()
                    ),
                );
            }
        }
    }
    if prog.drops == Drops::Forget {
        f.v.retain(|f| !matches!(f.class, "leak" | "clone-leak" | "alloc-leak"));
    }
    if !prog.honest() {
        // wrong lengths are admissible then, memory errors and data races are not
        f.v.retain(|f| matches!(f.class, "ledger" | "leak" | "clone-leak" | "dup" | "garbage" | "race" | "overlap" | "hold" | "source" | "address" | "form" | "alloc-leak"));
    }
    f.v
}

fn numeric(r: &OpRec) -> Option<Option<usize>> {
    match (r.what, r.len, r.has) {
        (What::Len, Some(x), _) => Some(x),
        (What::HasMore, _, Some(h)) => Some(match h {
            HasMore::Yes(n) => Some(n),
            HasMore::No => Some(0),
            HasMore::Maybe => None,
        }),
        _ => None,
    }
}

fn check_group(prog: &Program, out: &Outcome, mode: Mode, f: &mut F, g: &Group, prec: &dyn Fn(&OpRec, &OpRec) -> bool, fault: bool) {
    let src = &prog.src;
    let len = src.len;
    let name = match prog.n_iters == 1 && g.iter == 0 {
        true => String::new(),
        false => format!(" (iterator {})", g.iter),
    };
    let skip_in_group = g.recs.iter().any(|r| r.what == What::Skip);

    // exactly once
    let mut count = vec![0u32; len];
    for (r, ps) in g.recs.iter().zip(&g.pos) {
        for &p in ps {
            if p < 0 || p as usize >= len {
                if r.chunk.is_some() && p >= 0 {
                    f.add("chunk", format!("chunk reaches beyond the end {len} of the source: {}", r.brief()));
                }
                continue;
            }
            count[p as usize] += 1;
            if count[p as usize] == 2 {
                let who: Vec<String> = g.recs.iter().zip(&g.pos).filter(|(_, ps)| ps.contains(&p)).map(|(r, _)| r.brief()).take(3).collect();
                f.add("dup", format!("position {p} is delivered twice{name}: {}", who.join(" | ")));
            }
        }
    }
    let ended: Vec<&&OpRec> = g.recs.iter().filter(|r| r.ended && r.what.pull()).collect();
    if !ended.is_empty() && !skip_in_group && !fault {
        let from = g.base.or_else(|| g.pos.iter().flatten().filter(|p| **p >= 0).min().map(|p| *p as usize)).unwrap_or(len);
        if let Some(p) = (from.min(len)..len).find(|&p| count[p] == 0) {
            let missing = (from..len).filter(|&p| count[p] == 0).count();
            f.add("lost", format!("the end is reported but position {p} ({missing} in total) is not delivered{name}: {}", ended[0].brief()));
        }
    }
    if g.base.is_none() || g.base == Some(0) || skip_in_group {
        // nothing more to say about the first positions
    }

    for (r, ps) in g.recs.iter().zip(&g.pos).filter(|(r, _)| r.what == What::IntoSeq && r.finished && r.panicked == Panicked::No) {
        // the remainder of a clone, nobody else uses it any more
        if let (Some(base), false, false) = (g.base, skip_in_group, fault) {
            let n: usize = g.recs.iter().zip(&g.pos).filter(|(x, _)| x.what != What::IntoSeq).map(|(_, p)| p.len()).sum();
            let exp: Vec<i64> = ((base + n) as i64..len as i64).collect();
            if *ps != exp {
                f.add("seq", format!("remainder of the clone has {} elements from {:?}, {} from {} are undelivered{name}: {}", ps.len(), ps.first(), exp.len(), base + n, r.brief()));
            }
        }
    }

    // order
    let range = |ps: &Vec<i64>| -> Option<(i64, i64)> {
        let it = ps.iter().copied().filter(|p| *p >= 0);
        it.clone().min().zip(it.max())
    };
    let mut last: std::collections::HashMap<usize, i64> = Default::default();
    for (r, ps) in g.recs.iter().zip(&g.pos) {
        let mut prev = -1;
        for d in r.deliv.iter().filter(|d| d.pos >= 0) {
            if d.pos <= prev {
                f.add("order-thread", format!("position {} is delivered after {prev}{name}: {}", d.pos, r.brief()));
            }
            prev = d.pos;
        }
        if let Some((a, b)) = range(ps) {
            // operations of a closure run while the call which runs the closure does
            if r.nested || r.hosts {
                continue;
            }
            // nested operations start after the pull of the kept chunk has returned
            let l = last.entry(r.thread).or_insert(-1);
            if a <= *l && !r.what.compound() {
                f.add("order-thread", format!("thread {} gets position {a} after {}{name}: {}", r.thread, *l, r.brief()));
            } else if a <= *l {
                f.add("order-thread", format!("thread {} visits position {a} after {}{name}: {}", r.thread, *l, r.brief()));
            }
            *l = (*l).max(b);
        }
    }
    match mode {
        Mode::Time => {
            let mut by_end: Vec<usize> = (0..g.recs.len()).collect();
            by_end.sort_by_key(|&i| g.recs[i].end);
            let mut k = 0;
            let mut max: (i64, usize) = (-1, 0);
            for (i, r) in g.recs.iter().enumerate() {
                while k < by_end.len() && g.recs[by_end[k]].end < r.start {
                    if let Some((_, b)) = range(&g.pos[by_end[k]]) {
                        max = max.max((b, by_end[k]));
                    }
                    k += 1;
                }
                if let Some((a, _)) = range(&g.pos[i]) {
                    if a < max.0 {
                        f.add("order", format!("{} returned before {} started{name}", g.recs[max.1].brief(), r.brief()));
                    }
                }
            }
        }
        Mode::Hb | Mode::Thread => {
            // quadratic: operations of the same thread are compared above anyway
            let n = if g.recs.len() > 2000 { 0 } else { g.recs.len() };
            for (i, a) in g.recs.iter().take(n).enumerate() {
                let Some((_, hi)) = range(&g.pos[i]) else { continue };
                for (j, b) in g.recs.iter().enumerate() {
                    if i != j && prec(a, b) {
                        if let Some((lo, _)) = range(&g.pos[j]) {
                            if lo < hi {
                                f.add("order", format!("{} happens before {}{name}", a.brief(), b.brief()));
                            }
                        }
                    }
                }
            }
        }
    }

    // gap-free prefix whenever no pull is in flight
    if mode == Mode::Time && !skip_in_group && !fault {
        if let Some(base) = g.base {
            let mut ev: Vec<(u64, bool, usize)> = vec![];
            for (i, r) in g.recs.iter().enumerate() {
                if r.what.pull() {
                    ev.push((r.start, true, i));
                    ev.push((r.end, false, i));
                }
            }
            ev.sort_by_key(|e| e.0);
            let (mut inflight, mut n, mut max) = (0, 0usize, -1i64);
            for (t, start, i) in ev {
                match start {
                    true => inflight += 1,
                    false => {
                        inflight -= 1;
                        n += g.pos[i].len();
                        if let Some((_, b)) = range(&g.pos[i]) {
                            max = max.max(b);
                        }
                        if inflight == 0 && n > 0 && (max + 1) as usize != base + n {
                            f.add("gap", format!("at {t} no pull is in flight, {n} elements are delivered but the largest position is {max}{name}: {}", g.recs[i].brief()));
                        }
                    }
                }
            }
        }
    }

    // the end is permanent; skip_to_end
    let enders: Vec<&OpRec> = g.recs.iter().copied().filter(|r| r.ended && r.what.pull()).collect();
    let skips: Vec<&OpRec> = g.recs.iter().copied().filter(|r| r.what == What::Skip && r.panicked == Panicked::No).collect();
    let zeros: Vec<&OpRec> = g.recs.iter().copied().filter(|r| numeric(r) == Some(Some(0))).collect();
    let first = |v: &Vec<&OpRec>, b: &OpRec| -> Option<String> {
        match mode {
            Mode::Time => v.iter().min_by_key(|r| r.end).filter(|a| prec(a, b)).map(|a| a.brief()),
            Mode::Hb | Mode::Thread => v.iter().find(|a| prec(a, b)).map(|a| a.brief()),
        }
    };
    for r in &g.recs {
        if r.what == What::IntoSeq && skip_in_group {
            continue;
        }
        if r.what.pull() && r.delivers() {
            if let Some(a) = first(&enders, r) {
                f.add("revive", format!("elements after the end{name}: {a} | {}", r.brief()));
            }
            if let Some(a) = first(&skips, r) {
                f.add("skip-revive", format!("elements after skip_to_end{name}: {a} | {}", r.brief()));
            }
            if let Some(a) = first(&zeros, r) {
                f.add("no-revive", format!("elements after a definitive answer{name}: {a} | {}", r.brief()));
            }
        }
        if let Some(v) = numeric(r) {
            if v.unwrap_or(0) > 0 {
                if let Some(a) = first(&enders, r) {
                    f.add("len-after-end", format!("positive length after the end{name}: {a} | {}", r.brief()));
                }
            }
            if r.what == What::HasMore && v != Some(0) || v.unwrap_or(0) > 0 {
                if let Some(a) = first(&skips, r) {
                    f.add("skip-query", format!("has_more is not No after skip_to_end{name}: {a} | {}", r.brief()));
                }
            }
        }
    }

    // lengths
    let queries: Vec<&OpRec> = g.recs.iter().copied().filter(|r| numeric(r).is_some()).collect();
    for (i, a) in queries.iter().enumerate() {
        let va = numeric(a).unwrap();
        if a.what == What::HasMore && a.has == Some(HasMore::Yes(0)) {
            f.add("len", format!("Yes(0){name}: {}", a.brief()));
        }
        if va.is_none() && src.known_len() {
            f.add("len", format!("length of a source with known length is not reported{name}: {}", a.brief()));
        }
        // monotone
        let upto = if mode == Mode::Time { queries.len().min(i + 60) } else { queries.len() };
        for b in &queries[if mode == Mode::Time { i + 1 } else { 0 }..upto] {
            if let (Some(x), Some(y)) = (va, numeric(b).unwrap()) {
                if y > x && prec(a, b) {
                    f.add("len-increase", format!("reported length increases{name}: {} | {}", a.brief(), b.brief()));
                }
            }
        }
        let quiet = g.recs.iter().all(|r| !(r.what.pull() || r.what == What::Skip) || prec(r, a) || prec(a, r));
        let Some(base) = g.base else { continue };
        if !quiet || fault {
            continue;
        }
        let skipped = skips.iter().any(|s| prec(s, a));
        let before: usize = g.recs.iter().zip(&g.pos).filter(|(r, _)| prec(r, a)).map(|(_, p)| p.len()).sum();
        let truth = match skipped {
            true => 0,
            false => len.saturating_sub(base + before),
        };
        match va {
            Some(v) if v != truth => f.add("len", format!("{v} remaining elements are reported instead of {truth}{name}: {}", a.brief())),
            None if a.what == What::HasMore => {
                if let Some(e) = enders.iter().find(|e| matches!(e.what, What::Next | What::NextId | What::ValNext | What::IdNext | What::Chunk) && prec(e, a)) {
                    f.add("len", format!("Maybe is reported after the end{name}: {} | {}", e.brief(), a.brief()));
                }
            }
            _ => {}
        }
    }
    let _ = out;
}

/// Single threaded programs: every operation has exactly one admissible result.
pub fn lockstep(prog: &Program, out: &Outcome) -> Vec<Finding> {
    let mut f = F { v: vec![] };
    let len = prog.src.len;
    let unknown = !prog.src.known_len();
    let mut recs: Vec<&OpRec> = out.recs.iter().collect();
    recs.sort_by_key(|r| r.start);
    // position; whether a single or one-shot pull reported the end
    let mut cur: std::collections::BTreeMap<usize, (usize, bool)> = (0..prog.n_iters).map(|i| (i, (0, false))).collect();
    for r in recs {
        let Some(&(pos, definite)) = cur.get(&r.iter) else { continue };
        let mut next = (pos, definite);
        let mut bad: Option<String> = None;
        if r.panicked != Panicked::No {
            continue;
        }
        let got = r.positions();
        match r.what {
            What::CloneIter => {
                cur.insert(r.child, next);
                continue;
            }
            What::IntoSeq => {
                let want: Vec<i64> = (pos as i64..len as i64).collect();
                if got != want {
                    f.add("seq", format!("the remainder of a clone is not the positions {pos}..{len}: {}", r.brief()));
                }
                next = (len, true);
            }
            What::Skip => next = (len, true),
            What::Len | What::HasMore => {
                let v = numeric(r).unwrap();
                let ok = match (unknown, v) {
                    (false, v) => v == Some(len - pos),
                    // the size hint of the wrapped iterator may be exact by chance
                    (true, Some(v)) => v == len - pos || v == 0 && pos >= len,
                    (true, None) => r.what == What::Len || !definite,
                };
                if !ok {
                    bad = Some(format!("{} elements remain", len - pos));
                }
            }
            w => {
                let want = match w {
                    What::Next | What::NextId | What::ValNext | What::IdNext => 1.min(len - pos),
                    What::ForEach | What::EnumForEach | What::Fold => len - pos,
                    _ => r.n.min(len - pos),
                };
                let exp: Vec<i64> = (pos..pos + want).map(|x| x as i64).collect();
                let mut sorted = got.clone();
                sorted.sort();
                if sorted != exp {
                    bad = Some(format!("positions {pos}..{} are expected", pos + want));
                }
                let end = match w {
                    What::ForEach | What::EnumForEach | What::Fold => true,
                    What::Chunk if r.n == 0 => false,
                    _ => want == 0,
                };
                if end != r.ended && bad.is_none() {
                    bad = Some(format!("end: expected {end}"));
                }
                next = (pos + want, definite || r.ended && !matches!(w, What::BufPull | What::ForEach | What::EnumForEach | What::Fold));
            }
        }
        if let Some(b) = bad {
            f.add("lockstep", format!("the sequential iterator is at {pos} of {len}: {b}: {}", r.brief()));
            break;
        }
        cur.insert(r.iter, next);
    }
    if let (Some((rest, ex)), End::Seq(k)) = (&out.seq, prog.end) {
        let (pos, _) = cur[&0];
        let skipped = out.recs.iter().any(|r| r.what == What::Skip && r.iter == 0);
        if f.v.is_empty() && !skipped && prog.src.revive == 0 {
            let got: Vec<i64> = rest.iter().map(|x| x.0).collect();
            let exp: Vec<i64> = (pos as i64..len as i64).skip(out.seq_off).take(k).collect();
            if got != exp || (*ex && out.seq_off == 0 && k < len - pos) {
                f.add("seq", format!("remainder is {:?}.. ({}) instead of the positions {pos}..{len}", &got[..got.len().min(12)], got.len()));
            }
        }
    }
    f.v
}
