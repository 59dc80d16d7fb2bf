mod alloc;
mod cases;
mod exec;
mod grid;
mod json;
mod ledger;
mod oracle;
mod prog;
mod rng;
mod run;
mod sched;
mod types;

#[global_allocator]
static A: alloc::Tracker = alloc::Tracker;

fn main() {
    let args = run::Args::parse();
    exec::install_panic_hook();
    match args.engine.as_str() {
        "sim" | "native" | "seq" => run::campaign(&args),
        "types" | "grid" => cases::campaign(&args),
        e => {
            eprintln!("unknown engine {e}");
            std::process::exit(2)
        }
    }
}
