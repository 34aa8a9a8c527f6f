//! Deterministic simulation of the worker daemon.
#![allow(dead_code)]
mod director;
mod oracle;
mod plan;
mod rng;
mod search;
mod source;
mod world;

fn env(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|x| x.parse().ok())
}

fn main() {
    std::env::remove_var("RUST_LIB_BACKTRACE");
    std::env::set_var("RUST_BACKTRACE", "0");
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let dir = std::env::var("AMPSIM_DIR").unwrap_or_else(|_| "/verif".into());
    let code = match arg(1) {
        "check" => {
            let quick = std::env::var("VERIF_TIER").map_or(true, |t| t != "thorough");
            let secs = env("AMPSIM_SECS").unwrap_or(if quick { 30 } else { 1800 });
            let b = search::Budget {
                secs: secs as f64,
                max_runs: env("AMPSIM_RUNS").unwrap_or(u64::MAX),
                threads: env("AMPSIM_THREADS").unwrap_or(8) as usize,
            };
            search::watchdog(secs + 300);
            search::check(arg(2), if quick { "quick" } else { "thorough" }, env("VERIF_SEED").unwrap_or(1), b, &dir)
        }
        "replay" => search::replay(arg(2)),
        "show" => search::show(arg(2), arg(3).parse().unwrap_or(0)),
        "selftest" => search::selftest(arg(2).parse().unwrap_or(32)),
        _ => {
            eprintln!("usage: ampdsim check PROPERTY | replay FILE | show PROPERTY RUN | selftest N");
            2
        }
    };
    std::process::exit(code);
}
