mod engine;
mod refs;
mod runner;
mod scen;
mod seams;

use engine::*;

fn usage() -> ! {
    eprintln!("usage: rcsim check PROP | worker PROP | replay FILE | one PROP RUN | determinism PROP [RUNS] | selftest | list");
    std::process::exit(2)
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").ok().as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") if args.len() > 2 => runner::supervise(&args[2], seed, tier),
        Some("worker") if args.len() > 2 => runner::worker(&args[2], seed, tier),
        Some("replay") if args.len() > 2 => runner::replay(&args[2]),
        Some("one") if args.len() > 3 => runner::one(&args[2], args[3].parse().unwrap_or(0), seed, tier),
        Some("determinism") if args.len() > 2 => {
            runner::determinism(&args[2], args.get(3).and_then(|s| s.parse().ok()).unwrap_or(2000), seed, tier)
        }
        Some("selftest") => match refs::selftest::run() {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("{}", e);
                2
            }
        },
        Some("list") => {
            for s in scen::all() {
                println!("{}", s.id());
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
