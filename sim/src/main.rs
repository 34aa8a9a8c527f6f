//! Deterministic simulation of an Axelar Amplifier deployment.
#![allow(dead_code)]
#![recursion_limit = "512"]
mod chain;
mod check;
mod codec;
mod ext;
mod gen;
mod model;
mod recover;
mod rng;
mod run;
mod scenario;
mod world;

fn env(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|x| x.parse().ok())
}

fn main() {
    // contracts write backtraces into their reports when asked to: costly, and not reproducible
    std::env::remove_var("RUST_LIB_BACKTRACE");
    std::env::set_var("RUST_BACKTRACE", "0");
    chain::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let dir = std::env::var("AMPSIM_DIR").unwrap_or_else(|_| "/verif".into());
    let code = match arg(1) {
        "check" => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let quick = tier != "thorough";
            let secs = env("AMPSIM_SECS").unwrap_or(if quick { 40 } else { 1800 });
            let b = run::Budget {
                secs: secs as f64,
                max_runs: env("AMPSIM_RUNS").unwrap_or(u64::MAX),
                threads: env("AMPSIM_THREADS").unwrap_or(8) as usize,
            };
            run::watchdog(secs + 300);
            run::check(arg(2), if quick { "quick" } else { "thorough" }, env("VERIF_SEED").unwrap_or(1), b, &dir)
        }
        "replay" => run::replay(arg(2)),
        "selftest" => run::selftest(arg(2).parse().unwrap_or(64)),
        _ => {
            eprintln!("usage: ampsim check PROPERTY | replay FILE | selftest N");
            2
        }
    };
    std::process::exit(code);
}
