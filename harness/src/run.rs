//! Campaigns: generated programs executed under generated schedules (or real threads), judged by the oracles.
use crate::exec::{self, Outcome, What};
use crate::json::{self, Obj};
use crate::oracle::{self, Finding, Mode};
use crate::prog::*;
use crate::rng::{mix, Rng};
use crate::{alloc, ledger, sched};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct Args {
    pub engine: String,
    pub prop: String,
    pub seed: u64,
    pub from: u64,
    pub stride: u64,
    pub max: u64,
    pub secs: f64,
    pub out: String,
    pub progress: String,
    pub classes: Vec<String>,
    pub schedules: u64,
    pub verbose: bool,
    pub heap: bool,
    pub relaxed: bool,
    pub tiny: bool,
    pub transcript: String,
    pub features: Vec<String>,
    pub kind: String,
}

impl Args {
    pub fn parse() -> Self {
        let mut a = Args { stride: 1, max: u64::MAX, secs: 10.0, schedules: 4, seed: 1, ..Default::default() };
        let mut it = std::env::args().skip(1);
        a.engine = it.next().unwrap_or_default();
        while let Some(k) = it.next() {
            let mut v = || it.next().unwrap_or_else(|| panic!("value of {k}"));
            match k.as_str() {
                "--prop" => a.prop = v(),
                "--seed" => a.seed = v().parse().unwrap(),
                "--from" => a.from = v().parse().unwrap(),
                "--stride" => a.stride = v().parse().unwrap(),
                "--max" => a.max = v().parse().unwrap(),
                "--secs" => a.secs = v().parse().unwrap(),
                "--out" => a.out = v(),
                "--progress" => a.progress = v(),
                "--classes" => a.classes = v().split(',').map(|x| x.to_string()).collect(),
                "--schedules" => a.schedules = v().parse().unwrap(),
                "--features" => a.features = v().split(',').map(|x| x.to_string()).collect(),
                "--kind" => a.kind = v(),
                "--transcript" => a.transcript = v(),
                "--verbose" => a.verbose = true,
                "--heap" => a.heap = true,
                "--relaxed" => a.relaxed = true,
                "--tiny" => a.tiny = true,
                _ => panic!("unknown argument {k}"),
            }
        }
        a
    }
}

pub struct Current {
    pub args: Args,
    pub index: u64,
    pub program: String,
    pub config: String,
}
static CURRENT: Mutex<Option<Current>> = Mutex::new(None);
static MODE: AtomicU64 = AtomicU64::new(0);
static TICK: AtomicU64 = AtomicU64::new(0);
static FATAL_OUT: Mutex<String> = Mutex::new(String::new());

/// an execution which cannot be continued: record it and exit, the runner goes on with the next one
fn on_fatal(class: &str, msg: &str) {
    let path = FATAL_OUT.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let (index, program, config) = match CURRENT.try_lock() {
        Ok(g) => g.as_ref().map(|c| (c.index, c.program.clone(), c.config.clone())).unwrap_or_default(),
        Err(_) => Default::default(),
    };
    // a wrapped iterator with a wrong size hint may well not reach the end
    let class = match ["hint: Over", "hint: Under", "hint: Zero", "hint: Infinite"].iter().any(|h| program.contains(h)) {
        true => format!("dishonest-{class}"),
        false => class.to_string(),
    };
    // what the completed operations show already
    let mode = match MODE.load(Relaxed) {
        0 => Mode::Time,
        1 => Mode::Hb,
        _ => Mode::Thread,
    };
    let found = std::panic::catch_unwind(|| exec::completed().map(|(p, recs)| oracle::partial(&p, recs, mode)).unwrap_or_default()).unwrap_or_default();
    let found = json::arr(found.iter().map(|f| json::arr([json::s(f.class), json::s(&f.msg)])));
    let o = Obj::new().raw("findings", found).str("class", &class).str("msg", msg).num("index", index).str("program", &program).str("config", &config).end();
    if !path.is_empty() {
        _ = std::fs::write(&path, o);
    } else {
        eprintln!("{o}");
    }
    std::process::exit(4);
}
fn on_hang(msg: &str) {
    on_fatal("hang", msg)
}

/// CPU time of the process in seconds, and whether any other thread is not asleep
fn activity() -> Option<(f64, bool)> {
    if cfg!(miri) {
        return None;
    }
    let me = std::fs::read_link("/proc/thread-self").ok()?.file_name()?.to_os_string();
    let (mut cpu, mut awake) = (0.0, false);
    for e in std::fs::read_dir("/proc/self/task").ok()? {
        let e = e.ok()?;
        let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else { continue };
        let w: Vec<&str> = s[s.rfind(')')? + 1..].split_whitespace().collect();
        awake |= e.file_name() != me && !matches!(*w.first()?, "S" | "Z" | "X");
        cpu += (w.get(11)?.parse::<f64>().ok()? + w.get(12)?.parse::<f64>().ok()?) / 100.0;
    }
    Some((cpu, awake))
}

pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = TICK.load(Relaxed).wrapping_add(sched::ticks());
        let mut since = Instant::now();
        let (mut cpu0, mut woke) = (None, false);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = TICK.load(Relaxed).wrapping_add(sched::ticks());
            if now != last {
                last = now;
                since = Instant::now();
                (cpu0, woke) = (None, false);
                continue;
            }
            // with enough CPU time spent, or with all threads asleep all the time, it is not the machine which is slow
            match (activity(), cpu0) {
                (Some((cpu, awake)), Some(c0)) => {
                    woke |= awake;
                    let (used, secs) = (cpu - c0, since.elapsed().as_secs());
                    if secs >= 14 && (used >= 14.0 || !woke && used < 0.5) {
                        let how = if woke { format!("{used:.0} s of CPU time are spent") } else { "all threads sleep".to_string() };
                        on_fatal("stall", &format!("certain: no completion within {secs} s of real time while {how}"));
                    }
                }
                (Some((cpu, _)), None) => cpu0 = Some(cpu),
                (None, _) => {}
            }
            if since.elapsed().as_secs() >= secs {
                on_fatal("stall", &format!("no completion within {secs} s of real time"));
            }
        }
    });
}

#[derive(Default)]
pub struct Sum {
    pub execs: u64,
    pub programs: u64,
    pub ops: u64,
    pub delivered: u64,
    pub steps: u64,
    pub switches: u64,
    pub atomic_ops: u64,
    pub contended_execs: u64,
    pub weak_execs: u64,
    pub stale_reads: u64,
    pub spurious: u64,
    pub freeze_hits: u64,
    pub frozen_stalls: u64,
    pub overlapping: u64,
    pub tracked_allocs: u64,
    pub next_calls: u64,
    pub fired: u64,
    pub feats: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub others: BTreeMap<String, (u64, String)>,
    pub samples: Vec<String>,
}

impl Sum {
    pub fn feat(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.feats.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn json(&self, violations: &[String], wall: f64) -> String {
        Obj::new()
            .num("execs", self.execs)
            .num("programs", self.programs)
            .num("ops", self.ops)
            .num("delivered", self.delivered)
            .num("steps", self.steps)
            .num("switches", self.switches)
            .num("atomic_ops", self.atomic_ops)
            .num("contended_execs", self.contended_execs)
            .num("weak_execs", self.weak_execs)
            .num("stale_reads", self.stale_reads)
            .num("spurious", self.spurious)
            .num("freeze_hits", self.freeze_hits)
            .num("frozen_stalls", self.frozen_stalls)
            .num("overlapping", self.overlapping)
            .num("tracked_allocs", self.tracked_allocs)
            .num("next_calls", self.next_calls)
            .num("fired", self.fired)
            .num("distinct", self.hashes.len())
            .num("wall", format!("{wall:.2}"))
            .raw("features", self.feats.iter().fold(Obj::new(), |o, (k, v)| o.num(k, v)).end())
            .raw("others", self.others.iter().fold(Obj::new(), |o, (k, (n, m))| o.raw(k, json::arr([n.to_string(), json::s(m)]))).end())
            .raw("samples", json::arr(self.samples.iter().map(|x| json::s(x))))
            .raw("violations", json::arr(violations.iter().cloned()))
            .end()
    }
}

pub struct Plan {
    pub prog: Program,
    pub seed: u64,
    #[allow(dead_code)]
    pub rng: Rng,
}

pub fn profile(a: &Args) -> Profile {
    let mut p = Profile::of(&a.prop);
    for f in &a.features {
        match f.as_str() {
            "skip" => p.skip = 60,
            "foreach" => p.foreach_only = 60,
            "seq" => p.into_seq = 70,
            "fault" => {
                p.fault = 100;
                p.fault_kinds = vec![0, 1, 2]
            }
            "ranges" => p.range_starts = true,
            "huge" => p.huge = 40,
            "iters" => p.kinds = weights(|k| if k.is_iter() { 1 } else { 0 }),
            "owned" => p.kinds = weights(|k| if k.owning() { 1 } else { 0 }),
            "known" => p.kinds = weights(|k| if k.is_iter() { 0 } else { 1 }),
            _ => {}
        }
    }
    match a.engine.as_str() {
        "seq" => p = p.sequential(),
        "native" if !a.tiny => p = p.native(),
        _ => {}
    }
    if a.features.iter().any(|f| f == "crowd") {
        p = p.crowded(a.engine == "native");
    }
    if a.features.iter().any(|f| f == "slow") {
        p.kinds = weights(|k| if k.is_iter() { 1 } else { 0 });
        p.lens = vec![(1, (2, 12)), (2, (12, 60))];
        p.threads = (2, 4);
        p.huge = 0;
        p.dishonest = 0;
    }
    if a.relaxed {
        // sanitizers: many small programs
        p.lens = vec![(1, (0, 1)), (4, (2, 8)), (4, (9, 60)), (1, (61, 400))];
    }
    if a.tiny {
        p = p.tiny();
    }
    p
}

pub fn plan(a: &Args, p: &Profile, index: u64) -> Plan {
    let k = match a.engine.as_str() {
        "sim" => a.schedules.max(1),
        _ => 1,
    };
    let mut r = Rng::new(mix(mix(a.seed, index / k), 0x1234));
    let prog = gen(&mut r, p);
    let seed = r.next();
    let mut rng = Rng::new(mix(mix(a.seed, index), 0x9999));
    rng.next();
    Plan { prog, seed, rng }
}

#[cfg(orx_concurrent_iter_verif)]
fn sim_config(a: &Args, plan: &mut Plan) -> sched::Config {
    let r = &mut plan.rng;
    let p = &plan.prog;
    let n = p.n_threads();
    let k = (p.n_ops() * 6 + p.src.len * 4 + 10) as u32;
    let strategy = match r.below(20) {
        0..=7 => sched::Strategy::Random { p: r.pick(&[8, 25, 60, 128, 220]) },
        8..=16 => sched::Strategy::Pct { d: r.range(1, 4) as u32, k: if r.chance(50) { k } else { k / 3 + 5 } },
        _ => sched::Strategy::RoundRobin { q: r.range(1, 6) as u32 },
    };
    let known = !p.src.kind.is_iter();
    let (weakp, freezep) = match a.prop.as_str() {
        "C07" => (60, 10),
        "C09" => (20, 60),
        _ => (30, 8),
    };
    let freeze = match n > 1 && r.chance(freezep) {
        true => Some((r.range(1, n), r.range(1, (k as usize / n.max(1)).clamp(4, 60)) as u64)),
        false => None,
    };
    sched::Config {
        seed: r.next(),
        strategy,
        weak: r.chance(weakp),
        spurious: r.chance(30),
        freeze,
        nonblocking: known,
        max_steps: 20_000,
    }
}

fn set_current(a: &Args, index: u64, prog: &Program, config: String) {
    let mut c = CURRENT.lock().unwrap_or_else(|e| e.into_inner());
    *c = Some(Current { args: a.clone(), index, program: format!("{prog:?}"), config });
}

/// Everything a caller observes, without addresses.
fn text(p: &Program, out: &Outcome, fs: &[Finding]) -> String {
    let mut recs: Vec<_> = out.recs.iter().collect();
    recs.sort_by_key(|r| r.start);
    let mut s = String::new();
    for r in recs {
        s += &r.brief();
        for d in r.deliv.iter().skip(12) {
            s += &format!(",{}", d.pos);
        }
        s += ";";
    }
    s += &format!("seq {:?} {:?}", out.seq.as_ref().map(|(v, e)| (v.iter().map(|x| x.0).collect::<Vec<_>>(), *e)), out.seq_panic);
    for f in fs {
        s += &format!("{} {};", f.class, f.msg);
    }
    _ = p;
    s
}

pub fn set_current_text(a: &Args, index: u64, text: &str) {
    let mut c = CURRENT.lock().unwrap_or_else(|e| e.into_inner());
    *c = Some(Current { args: a.clone(), index, program: text.to_string(), config: String::new() });
}

pub fn violation(a: &Args, index: u64, f: &[Finding], plan: &Plan, config: &str, out: &Outcome) -> String {
    let mut recs: Vec<_> = out.recs.iter().collect();
    recs.sort_by_key(|r| r.start);
    Obj::new()
        .str("engine", &a.engine)
        .str("prop", &a.prop)
        .num("seed", a.seed)
        .num("index", index)
        .num("schedules", a.schedules)
        .raw("findings", json::arr(f.iter().map(|f| json::arr([json::s(f.class), json::s(&f.msg)]))))
        .str("program", &format!("{:?}", plan.prog))
        .str("config", config)
        .raw("log", json::arr(recs.iter().take(60).map(|r| json::s(&r.brief()))))
        .end()
}

/// Prepares fatal exits and the watchdog.
pub fn setup(a: &Args) {
    *FATAL_OUT.lock().unwrap() = match a.out.is_empty() {
        true => String::new(),
        false => format!("{}.fatal", a.out),
    };
    *exec::FATAL.lock().unwrap() = Some(on_fatal);
    #[cfg(orx_concurrent_iter_verif)]
    sched::on_hang(on_hang);
    let _ = on_hang as fn(&str);
    ledger::HEAP.store(a.heap, Relaxed);
    if !sched::SIM {
        if !cfg!(miri) {
            watchdog(40);
        }
        #[cfg(not(orx_concurrent_iter_verif))]
        sched::RELAXED.store(a.relaxed as usize, Relaxed);
    } else {
        watchdog(60);
    }
}

/// A violation is on disk as soon as it is found: a later execution may end the process.
pub fn keep(a: &Args, v: &str) {
    if !a.out.is_empty() {
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}.viol", a.out)) {
            _ = writeln!(f, "{v}");
        }
    }
}

pub fn tick() {
    TICK.fetch_add(1, Relaxed);
}

/// Digest of the observable results of every execution, one line each.
pub struct Transcript(Option<std::io::BufWriter<std::fs::File>>);
impl Transcript {
    pub fn new(a: &Args) -> Self {
        Self((!a.transcript.is_empty()).then(|| std::io::BufWriter::new(std::fs::File::create(&a.transcript).unwrap())))
    }
    pub fn line(&mut self, index: u64, text: &str) {
        if let Some(f) = &mut self.0 {
            let h = text.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            _ = writeln!(f, "{index} {h:016x}");
        }
    }
}

pub fn campaign(a: &Args) {
    let start = Instant::now();
    setup(a);
    let p = profile(a);
    alloc::enable(!cfg!(miri) && !a.relaxed);
    let mut transcript = Transcript::new(a);
    let progress = (!a.progress.is_empty()).then(|| std::fs::File::create(&a.progress).unwrap());
    let mut sum = Sum::default();
    let mut violations = vec![];
    let mut index = a.from;
    let mut n = 0u64;
    while n < a.max && (sched::SIM && n % 8 != 0 || start.elapsed().as_secs_f64() < a.secs) {
        if let Some(f) = &progress {
            _ = f.write_at(&index.to_le_bytes(), 0);
        }
        tick();
        let mut plan = plan(a, &p, index);
        if let Some(f) = &progress {
            _ = f.write_at(&(!plan.prog.honest() as u64).to_le_bytes(), 8);
        }
        #[allow(unused_mut, unused_assignments)]
        let mut mode = Mode::Time;
        let mut races: Vec<String> = vec![];
        #[allow(unused_mut)]
        let mut config = String::new();
        let out;
        #[cfg(orx_concurrent_iter_verif)]
        {
            let cfg = sim_config(a, &mut plan);
            config = format!("{cfg:?}");
            set_current(a, index, &plan.prog, config.clone());
            if cfg.weak {
                mode = Mode::Hb;
                sum.weak_execs += 1;
            }
            MODE.store((mode == Mode::Hb) as u64, Relaxed);
            sched::begin(cfg);
            out = exec::execute(&plan.prog, plan.seed);
            let st = sched::end();
            races = st.races;
            sum.steps += st.steps;
            sum.switches += st.switches;
            sum.atomic_ops += st.atomic_ops;
            sum.contended_execs += (st.contended > 0) as u64;
            sum.stale_reads += st.stale_reads;
            sum.spurious += st.spurious_fails;
            sum.freeze_hits += st.freeze_hits;
            sum.frozen_stalls += st.frozen_stall as u64;
            if st.contended > 0 && sum.hashes.len() < 4_000_000 {
                sum.hashes.insert(st.hash ^ plan.seed);
            }
        }
        #[cfg(not(orx_concurrent_iter_verif))]
        {
            let j = plan.rng.pick(&[0, 0, 30, 150, 400]);
            sched::JITTER.store(if cfg!(miri) || a.engine == "seq" { 0 } else { j }, Relaxed);
            let slow = a.features.iter().any(|f| f == "slow").then(|| (plan.rng.range(1, plan.prog.src.len) as u64, plan.rng.range(600, 1400) as u64)).unwrap_or_default();
            exec::SLOW[0].store(slow.0, Relaxed);
            exec::SLOW[1].store(slow.1, Relaxed);
            set_current(a, index, &plan.prog, format!("jitter {j}, slow {slow:?}"));
            MODE.store(if a.relaxed { 2 } else { 0 }, Relaxed);
            out = exec::execute(&plan.prog, plan.seed);
            if a.relaxed {
                // time stamps of different threads are not comparable then
                mode = Mode::Thread;
            }
        }
        let mut fs = oracle::check(&plan.prog, &out, mode, &races);
        if plan.prog.n_threads() == 0 && out.fired == 0 && plan.prog.honest() && !plan.prog.visits() {
            fs.extend(oracle::lockstep(&plan.prog, &out));
        }
        if a.features.iter().any(|f| f == "twin") && plan.prog.n_threads() == 0 && plan.prog.src.kind.adaptor() && out.fired == 0 {
            // the same operations on the underlying iterator have the same results
            let mut twin = plan.prog.clone();
            twin.src.kind = twin.src.kind.underlying();
            let other = exec::execute(&twin, plan.seed);
            let (x, y) = (text(&plan.prog, &out, &[]), text(&twin, &other, &[]));
            sum.feat("compared_with_underlying_iterator", 1);
            if x != y {
                let at = x.bytes().zip(y.bytes()).position(|(a, b)| a != b).unwrap_or(0);
                let cut = |s: &str| s.chars().skip(at.saturating_sub(60)).take(160).collect::<String>();
                fs.push(Finding { class: "twin", msg: format!("adaptor: ..{} underlying: ..{}", cut(&x), cut(&y)) });
            }
        }
        races.clear();
        account(&mut sum, &plan.prog, &out, mode);
        if !sched::SIM && sum.hashes.len() < 1_000_000 {
            sum.hashes.insert(shape(&out));
        }
        n += 1;
        if sum.samples.len() < 3 && out.recs.len() > 3 && out.recs.len() < 30 {
            let mut recs: Vec<_> = out.recs.iter().collect();
            recs.sort_by_key(|r| r.start);
            let log: Vec<String> = recs.iter().take(30).map(|r| r.brief()).collect();
            sum.samples.push(format!("#{index} {:?} len={} {config}: {}", plan.prog.src.kind, plan.prog.src.len, log.join("; ")));
        }
        if transcript.0.is_some() {
            transcript.line(index, &text(&plan.prog, &out, &fs));
        }
        if a.verbose {
            let mut recs: Vec<_> = out.recs.iter().collect();
            recs.sort_by_key(|r| r.start);
            println!("#{index} {:?}\n  {config}", plan.prog);
            for r in recs {
                println!("  {}", r.brief());
            }
            println!("  text {}", text(&plan.prog, &out, &fs));
            println!("  findings {fs:?} leak {:?} seq {:?}", out.leak, out.seq.as_ref().map(|s| s.0.len()));
        }
        let mine = |f: &Finding| a.classes.is_empty() || a.classes.iter().any(|c| c == f.class);
        let (v, o): (Vec<_>, Vec<_>) = fs.into_iter().partition(mine);
        for f in o {
            let e = sum.others.entry(f.class.to_string()).or_insert((0, format!("#{index} {}", f.msg)));
            e.0 += 1;
        }
        if !v.is_empty() {
            let v = violation(a, index, &v, &plan, &config, &out);
            keep(a, &v);
            violations.push(v);
            if violations.len() >= 3 {
                break;
            }
        }
        index += a.stride;
    }
    drop(transcript);
    let j = sum.json(&violations, start.elapsed().as_secs_f64());
    match a.out.is_empty() {
        true => println!("{j}"),
        false => std::fs::File::create(&a.out).unwrap().write_all(j.as_bytes()).unwrap(),
    }
    // the parked workers of the simulation are not joined
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}

fn shape(out: &Outcome) -> u64 {
    let mut h = 0u64;
    let mut recs: Vec<_> = out.recs.iter().collect();
    recs.sort_by_key(|r| r.start);
    for r in recs {
        h = mix(h, (r.thread as u64) << 32 ^ (r.what as u64) << 40 ^ r.deliv.first().map_or(0, |d| d.pos as u64 + 1) ^ (r.n as u64) << 48);
    }
    h
}

fn account(sum: &mut Sum, p: &Program, out: &Outcome, mode: Mode) {
    sum.execs += 1;
    sum.ops += out.recs.len() as u64;
    sum.delivered += out.recs.iter().map(|r| r.deliv.len() as u64).sum::<u64>();
    sum.tracked_allocs += out.tracked_allocs as u64;
    sum.next_calls += out.next_calls;
    sum.fired += out.fired;
    sum.feat(&format!("source_{:?}", p.src.kind), 1);
    sum.feat("executions_with_skip", out.recs.iter().any(|r| r.what == What::Skip) as u64);
    sum.feat("executions_with_end_observed", out.recs.iter().any(|r| r.ended) as u64);
    sum.feat("executions_with_into_seq_iter", out.seq.is_some() as u64);
    sum.feat("executions_with_nonfused_source", (p.src.revive > 0) as u64);
    sum.feat("executions_with_injected_panic", (out.fired > 0) as u64);
    sum.feat("executions_with_iterator_clones", out.recs.iter().any(|r| r.what == What::CloneIter) as u64);
    sum.feat("executions_with_several_iterators", (p.n_iters > 1) as u64);
    sum.feat("executions_with_huge_chunks", p.huge as u64);
    sum.feat("executions_with_operations_in_closures", out.recs.iter().any(|r| r.nested) as u64);
    sum.feat("executions_with_skip_in_closures", out.recs.iter().any(|r| r.visits_after_skip.is_some()) as u64);
    sum.feat("executions_with_wrong_size_hint", !p.honest() as u64);
    sum.feat("remainders_of_clones", out.recs.iter().filter(|r| r.what == What::IntoSeq).count() as u64);
    sum.feat("executions_for_each_only", p.foreach_only() as u64);
    sum.feat("queries", out.recs.iter().filter(|r| matches!(r.what, What::Len | What::HasMore)).count() as u64);
    sum.feat("chunks", out.recs.iter().filter(|r| r.chunk.is_some()).count() as u64);
    sum.feat("partly_consumed_chunks", out.recs.iter().filter(|r| r.chunk.as_ref().map_or(false, |c| c.yielded < c.announced)).count() as u64);
    sum.feat("pulls_after_the_end", out.recs.iter().filter(|r| r.ended).count().saturating_sub(1) as u64);
    sum.feat("calls_of_wrapped_next_after_its_end", out.calls_after_end);
    if mode == Mode::Time {
        // operations of different threads which overlap in time
        let mut recs: Vec<_> = out.recs.iter().filter(|r| r.what.pull()).collect();
        recs.sort_by_key(|r| r.start);
        let mut last: Vec<(usize, u64)> = vec![];
        for r in recs {
            if last.iter().any(|(t, e)| *t != r.thread && *e > r.start) {
                sum.overlapping += 1;
            }
            match last.iter_mut().find(|l| l.0 == r.thread) {
                Some(l) => l.1 = r.end,
                None => last.push((r.thread, r.end)),
            }
        }
    }
}
