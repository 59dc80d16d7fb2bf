//! Campaigns over self-judging cases (element types, boundary grid).
use crate::json::{self, Obj};
use crate::oracle::Finding;
use crate::rng::{mix, Rng};
use crate::run::{self, Args, Sum};
use crate::{alloc, grid, sched, types};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::Instant;

pub fn campaign(a: &Args) {
    let start = Instant::now();
    run::setup(a);
    alloc::enable(!cfg!(miri) && !a.relaxed && a.engine == "types");
    let progress = (!a.progress.is_empty()).then(|| std::fs::File::create(&a.progress).unwrap());
    let mut transcript = run::Transcript::new(a);
    let mut sum = Sum::default();
    let mut violations = vec![];
    let mut index = a.from;
    let mut n = 0u64;
    while n < a.max && start.elapsed().as_secs_f64() < a.secs {
        if let Some(f) = &progress {
            _ = f.write_at(&index.to_le_bytes(), 0);
        }
        run::tick();
        let mut r = Rng::new(mix(mix(a.seed, index), 0x4242));
        run::set_current_text(a, index, &a.engine);
        let mut log = String::new();
        let fs: Vec<Finding> = match a.engine.as_str() {
            "types" => {
                let conc = index % 3 == 2 && a.features.iter().all(|f| f != "noconc");
                let which = r.below(14);
                sum.feat(&format!("element_type_{which}"), 1);
                #[cfg(orx_concurrent_iter_verif)]
                {
                    sched::begin(sched::Config {
                        seed: r.next(),
                        strategy: sched::Strategy::Random { p: r.pick(&[20, 80, 200]) },
                        weak: false,
                        spurious: r.chance(30),
                        freeze: None,
                        nonblocking: false,
                        max_steps: 20_000,
                    });
                }
                let fs = types::execute(&mut r, conc, which);
                #[cfg(orx_concurrent_iter_verif)]
                {
                    let st = sched::end();
                    sum.steps += st.steps;
                    sum.switches += st.switches;
                    sum.atomic_ops += st.atomic_ops;
                    sum.hashes.insert(st.hash);
                }
                sum.feat(if conc { "concurrent_cases" } else { "sequential_cases" }, 1);
                fs
            }
            _ => {
                if n == 0 {
                    let z = grid::zeros();
                    sum.feat("zero_chunk_size_panics_checked", 31 * 6);
                    for f in z.into_iter().take(3) {
                        if a.classes.is_empty() || a.classes.iter().any(|c| c == f.class) {
                            let v = violation(a, index, &[f], "");
                            run::keep(a, &v);
                            violations.push(v);
                        }
                    }
                }
                let (fs, l) = grid::execute(&mut r, &a.features);
                sum.ops += l.matches(' ').count() as u64;
                sum.hashes.insert(l.bytes().fold(7u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
                if sum.samples.len() < 4 {
                    sum.samples.push(format!("#{index} {l}"));
                }
                log = l;
                fs
            }
        };
        sum.execs += 1;
        n += 1;
        if !sched::SIM && a.engine == "types" {
            sum.hashes.insert(index);
        }
        let text = format!("{log} {}", fs.iter().map(|f| format!("{}: {}; ", f.class, f.msg)).collect::<String>());
        transcript.line(index, &text);
        if a.verbose {
            println!("#{index} {text}");
        }
        let mine = |f: &Finding| a.classes.is_empty() || a.classes.iter().any(|c| c == f.class);
        let (v, o): (Vec<_>, Vec<_>) = fs.into_iter().partition(mine);
        for f in o {
            let e = sum.others.entry(f.class.to_string()).or_insert((0, format!("#{index} {}", f.msg)));
            e.0 += 1;
        }
        if !v.is_empty() {
            let v = violation(a, index, &v, &log);
            run::keep(a, &v);
            violations.push(v);
            if violations.len() >= 3 {
                break;
            }
        }
        index += a.stride;
    }
    drop(transcript);
    let j = sum.json(&violations, start.elapsed().as_secs_f64());
    match a.out.is_empty() {
        true => println!("{j}"),
        false => std::fs::File::create(&a.out).unwrap().write_all(j.as_bytes()).unwrap(),
    }
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}

fn violation(a: &Args, index: u64, f: &[Finding], log: &str) -> String {
    Obj::new()
        .str("engine", &a.engine)
        .str("prop", &a.prop)
        .num("seed", a.seed)
        .num("index", index)
        .num("schedules", a.schedules)
        .raw("findings", json::arr(f.iter().map(|f| json::arr([json::s(f.class), json::s(&f.msg)]))))
        .str("program", log)
        .str("config", "")
        .raw("log", json::arr([]))
        .end()
}
