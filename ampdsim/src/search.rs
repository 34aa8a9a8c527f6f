//! Seeded search over deployments, work and faults; minimisation; replay; evidence.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simnet::mix;

use crate::director::{run, Outcome};
use crate::plan::*;
use crate::world::Viol;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub rule: String,
    pub detail: String,
    pub verif_seed: u64,
    pub run: u64,
    pub plan: Plan,
}

pub struct Budget {
    pub secs: f64,
    pub max_runs: u64,
    pub threads: usize,
}

static NEXT_DIR: AtomicU64 = AtomicU64::new(0);

/// every run has a directory of its own, of a fixed length of name
fn scratch() -> String {
    let n = NEXT_DIR.fetch_add(1, Ordering::SeqCst);
    format!("{}/ampdsim-{:08x}-{n:08x}", std::env::temp_dir().display(), std::process::id())
}

pub fn go(plan: &Plan, log: bool) -> Outcome {
    run(plan, &scratch(), log)
}

pub fn run_seed(property: &str, verif_seed: u64, i: u64) -> u64 {
    let p = property.bytes().fold(0u64, |h, b| mix(h ^ b as u64));
    mix(mix(verif_seed) ^ p ^ mix(i))
}

/// property and rule of the findings that are recorded rather than repaired
fn known(dir: &str) -> Vec<(String, String, String)> {
    let mut out = vec![];
    for l in std::fs::read_to_string(format!("{dir}/known-findings.txt")).unwrap_or_default().lines() {
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let (Some((p, rest)), Some(i)) = (rest.split_once(' '), rest.find("rule=\"")) else { continue };
        let tail = &l["known: property=".len()..][i + 6..];
        let Some((rule, _)) = tail.split_once('"') else { continue };
        out.push((p.to_string(), rule.to_string(), rest.to_string()));
    }
    out
}

fn relevant(p: &str) -> &'static [&'static str] {
    match p {
        "C31" => &["votes: confirmed", "votes: denied", "votes: not found"],
        "C32" => &["answers broadcast"],
        "C33" => &["duties fulfilled"],
        "C34" => &["transactions"],
        "C35" => &["ended: asked to stop"],
        "C36" => &["recovered"],
        "C37" => &["register_public_key", "bond_worker", "declare_chain_support"],
        _ => &[],
    }
}

fn nontrivial(p: &str, o: &Outcome) -> bool {
    let has = |k: &&str| o.counts.get(*k).copied().unwrap_or(0) > 0;
    relevant(p).iter().any(|k| has(k)) && (o.faults.values().sum::<u64>() > 0 || matches!(p, "C31" | "C32" | "C34" | "C37"))
}

#[derive(Default)]
struct Totals {
    runs: u64,
    distinct: BTreeSet<u64>,
    schedules: BTreeSet<u64>,
    steps: u64,
    switches: u64,
    sim_ms: u128,
    faults: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    diverged: BTreeMap<String, u64>,
    broken: Vec<String>,
    samples: Vec<Value>,
}

impl Totals {
    fn add(&mut self, p: &str, i: u64, plan: &Plan, o: &Outcome) {
        self.runs += 1;
        self.schedules.insert(o.schedule);
        if nontrivial(p, o) {
            self.distinct.insert(o.digest);
            if self.samples.len() < 2 {
                self.samples.push(json!({"run": i, "seed": plan.cfg.seed, "workers": plan.cfg.workers,
                    "chains": plan.cfg.evm.iter().map(|e| e.name.clone()).chain(["sui".to_string()]).collect::<Vec<_>>(),
                    "work": plan.work.len(), "faults": plan.faults, "activity": o.counts, "simulated_seconds": o.sim_ms / 1000,
                    "log_digest": format!("{:016x}", o.digest)}));
            }
        }
        self.steps += o.steps;
        self.switches += o.switches;
        self.sim_ms += o.sim_ms as u128;
        for (k, n) in &o.faults {
            *self.faults.entry(k.clone()).or_insert(0) += n;
        }
        for (k, n) in &o.counts {
            *self.counts.entry(k.clone()).or_insert(0) += n;
        }
        for v in o.viols.iter().filter(|v| v.property != p) {
            if std::env::var("AMPSIM_OTHERS").is_ok() {
                println!("run {i}: {} {}: {}", v.property, v.rule, short(&v.detail, 600));
            }
            *self.diverged.entry(format!("{} {}", v.property, v.rule)).or_insert(0) += 1;
        }
    }
}

fn short(s: &str, n: usize) -> String {
    if s.chars().count() > n { s.chars().take(n).collect::<String>() + "…" } else { s.into() }
}

fn find<'a>(p: &str, listed: &[(String, String, String)], o: &'a Outcome) -> Option<&'a Viol> {
    o.viols.iter().find(|v| v.property == p && !listed.iter().any(|k| k.0 == v.property && k.1 == v.rule))
}

pub fn check(p: &str, tier: &str, seed: u64, b: Budget, dir: &str) -> i32 {
    let t0 = Instant::now();
    println!("{p}: tier {tier}, VERIF_SEED {seed}");
    let listed = known(dir);
    // the recorded findings still happen
    let mut said = vec![];
    for (i, k) in listed.iter().enumerate().filter(|(_, k)| k.0 == p) {
        let file = k.2.split_whitespace().find_map(|w| w.strip_prefix("replay=")).unwrap_or("");
        let Ok(s) = std::fs::read_to_string(format!("{dir}/{file}")) else {
            println!("cannot read {file} of finding {i}");
            return 2;
        };
        let Ok(r) = serde_json::from_str::<Replay>(&s) else { return 2 };
        let o = go(&r.plan, false);
        if o.viols.iter().any(|v| v.property == k.0 && v.rule == k.1) {
            println!("KNOWN-FINDING: property={p} {}", k.2);
            said.push(k.2.clone());
        }
    }
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let best: Arc<Mutex<Option<(u64, Plan, Viol)>>> = Arc::new(Mutex::new(None));
    let tot = Arc::new(Mutex::new(Totals::default()));
    let hs: Vec<_> = (0..b.threads)
        .map(|_| {
            let (next, stop, best, tot, p, listed) = (next.clone(), stop.clone(), best.clone(), tot.clone(), p.to_string(), listed.clone());
            std::thread::spawn(move || loop {
                if stop.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > b.secs {
                    return;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= b.max_runs {
                    return;
                }
                let plan = generate(&p, run_seed(&p, seed, i));
                let o = go(&plan, false);
                let mut t = tot.lock().unwrap();
                if let Some(e) = &o.broken {
                    t.broken.push(format!("run {i}: {e}"));
                    if o.viols.is_empty() {
                        continue;
                    }
                }
                t.add(&p, i, &plan, &o);
                drop(t);
                if let Some(v) = find(&p, &listed, &o) {
                    stop.store(true, Ordering::SeqCst);
                    let mut x = best.lock().unwrap();
                    if x.as_ref().map_or(true, |(j, ..)| i < *j) {
                        *x = Some((i, plan, v.clone()));
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let found = best.lock().unwrap().take();
    let t = std::mem::take(&mut *tot.lock().unwrap());
    let wall = t0.elapsed().as_secs_f64();
    evidence(p, tier, seed, dir, &t, wall, found.is_some() as u64, &said);
    println!(
        "{p}: {} runs, {} distinct nontrivial, {} schedules, {:.1} simulated hours, {wall:.1} s",
        t.runs,
        t.distinct.len(),
        t.schedules.len(),
        t.sim_ms as f64 / 3.6e6
    );
    for (k, n) in &t.diverged {
        println!("of other properties: {k}: {n}");
    }
    for e in t.broken.iter().take(3) {
        println!("simulator error: {e}");
    }
    match found {
        Some((i, plan, v)) => {
            println!("{p}: run {i} (seed {}) violates it: {}: {}", plan.cfg.seed, v.rule, short(&v.detail, 1500));
            let plan = minimise(&v, plan, if tier == "quick" { 60.0 } else { 300.0 });
            let v = fails(&v, &plan).unwrap_or(v);
            let r = Replay { property: p.into(), rule: v.rule.clone(), detail: v.detail.clone(), verif_seed: seed, run: i, plan };
            let _ = std::fs::create_dir_all(format!("{dir}/replays"));
            let path = format!("{dir}/replays/{p}-{}.json", r.plan.cfg.seed);
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
            println!("{p}: {}\n{}", v.rule, short(&v.detail, 2000));
            println!("minimised to {} pieces of work and {} faults", r.plan.work.len(), r.plan.faults.len());
            println!("VIOLATION property={p} replay={path}");
            1
        }
        None if t.runs == 0 || t.broken.len() as u64 > t.runs => 2,
        None => 0,
    }
}

fn fails(v: &Viol, plan: &Plan) -> Option<Viol> {
    go(plan, false).viols.into_iter().find(|x| x.property == v.property && x.rule == v.rule)
}

/// fewer faults, then less work, then fewer workers
pub fn minimise(v: &Viol, plan: Plan, secs: f64) -> Plan {
    let t0 = Instant::now();
    let mut cur = plan;
    let spent = || t0.elapsed().as_secs_f64() > secs;
    fn shrink(cur: &mut Plan, len: fn(&Plan) -> usize, cut: fn(&mut Plan, usize, usize), v: &Viol, spent: &dyn Fn() -> bool) {
        let mut chunk = len(cur).max(1);
        while chunk >= 1 && !spent() {
            let starts: Vec<usize> = (0..len(cur)).step_by(chunk).rev().collect();
            for group in starts.chunks(8) {
                if spent() {
                    return;
                }
                let hs: Vec<_> = group
                    .iter()
                    .filter(|s| **s < len(cur))
                    .map(|&s| {
                        let mut c = cur.clone();
                        cut(&mut c, s, (s + chunk).min(len(cur)));
                        let v = v.clone();
                        std::thread::spawn(move || fails(&v, &c).map(|_| c))
                    })
                    .collect();
                if let Some(c) = hs.into_iter().filter_map(|h| h.join().ok().flatten()).min_by_key(|c| len(c)) {
                    *cur = c;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = (chunk + 1) / 2;
        }
    }
    for _ in 0..2 {
        shrink(&mut cur, |p| p.faults.len(), |p, a, b| drop(p.faults.drain(a..b)), v, &spent);
        shrink(&mut cur, |p| p.work.len(), |p, a, b| drop(p.work.drain(a..b)), v, &spent);
    }
    // single questions
    for i in 0..cur.work.len() {
        let n = if let Work::Poll { items, .. } = &cur.work[i] { items.len() } else { 0 };
        for k in (0..n).rev() {
            if n < 2 || spent() {
                break;
            }
            let mut c = cur.clone();
            if let Work::Poll { items, .. } = &mut c.work[i] {
                if items.len() < 2 {
                    break;
                }
                items.remove(k);
            }
            if fails(v, &c).is_some() {
                cur = c;
            }
        }
    }
    cur
}

fn load(path: &str) -> Option<Replay> {
    match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(r) => Some(r),
        Err(e) => {
            println!("cannot read {path}: {e}");
            None
        }
    }
}

pub fn replay(path: &str) -> i32 {
    let Some(r) = load(path) else { return 2 };
    println!("{}: replaying run {} (VERIF_SEED {}, seed {})", r.property, r.run, r.verif_seed, r.plan.cfg.seed);
    let o = go(&r.plan, true);
    for l in &o.log {
        println!("{}", short(l, 400));
    }
    match o.viols.iter().find(|v| v.property == r.property && v.rule == r.rule) {
        Some(v) => {
            println!("{}: {}", v.rule, short(&v.detail, 3000));
            println!("{}", if v.detail == r.detail { "reproduced exactly" } else { "reproduced with other details" });
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        None => {
            println!("no violation; {:?} {:?}", o.viols, o.broken);
            0
        }
    }
}

pub fn show(p: &str, i: u64) -> i32 {
    let seed = env_seed();
    let plan = generate(p, run_seed(p, seed, i));
    println!("{}", serde_json::to_string(&plan).unwrap());
    let o = go(&plan, true);
    for l in &o.log {
        println!("{}", short(l, 600));
    }
    println!("{:?}\n{:?}\n{:?} {:?}\n{} s simulated, {} steps", o.counts, o.faults, o.viols, o.broken, o.sim_ms / 1000, o.steps);
    0
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1)
}

fn evidence(p: &str, tier: &str, seed: u64, dir: &str, t: &Totals, wall: f64, violations: u64, said: &[String]) {
    let hours = wall / 3600.0;
    let v = json!({
        "property": p, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": violations,
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.distinct.len(),
            "rule": format!("one evaluation is one simulated execution of the whole deployment of worker daemons generated from one seed; non-trivial: at least one of {:?} happened{}; distinct: different digest of everything observed and of the schedule", relevant(p), if matches!(p, "C31" | "C32" | "C34" | "C37") { "" } else { " and at least one fault was injected" }),
            "samples": t.samples,
            "exhaustive": false,
            "runs_per_hour": (t.runs as f64 / hours) as u64,
            "seeds_per_hour": (t.runs as f64 / hours) as u64,
            "simulated_hours": t.sim_ms as f64 / 3.6e6,
            "scheduler_steps": t.steps,
            "process_switches": t.switches,
            "distinct_states": t.schedules.len(),
            "distinct_states_measure": "distinct interleavings: hash of the sequence of (process, task) chosen by the scheduler over the whole run",
            "faults_injected": t.faults,
            "activity": t.counts,
            "divergences_of_other_properties": t.diverged,
            "simulator_errors": t.broken.len(),
            "known_findings": said,
            "real_components": ["ampd: commands, event subscription and processor, all handlers, finalizers, verifiers, block height monitor, queued broadcaster, transaction builder, signer client, state file", "events, events-derive", "events emitted and messages decoded by the real contracts' types", "file system (with injected faults)"],
            "stubbed_components": ["tokio runtime (seeded scheduler, virtual time)", "tonic, tendermint-rpc, ethers and Sui JSON-RPC transports (simulated network)", "Axelar nodes and chain", "contracts' reaction to votes and signatures", "signing service", "nodes of the source chains"]
        },
        "assumptions": [
            "a source chain's node reports true blocks, at most its configured lag behind, and reorganises only what is not final",
            "the signing service signs with the key derived from the key id it is given",
            "tasks of a process interleave at await points, chosen by the seed (a single-threaded runtime)"
        ]
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let _ = std::fs::write(format!("{dir}/evidence/{p}.json"), serde_json::to_string_pretty(&v).unwrap());
}

pub fn selftest(n: u64) -> i32 {
    let bad = Arc::new(AtomicU64::new(0));
    let next = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = (0..8)
        .map(|_| {
            let (bad, next) = (bad.clone(), next.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    return;
                }
                let p = format!("C{}", 31 + i % 7);
                let plan = generate(&p, run_seed(&p, 7, i));
                let a = go(&plan, false);
                let b = go(&plan, true);
                let text = serde_json::to_string(&plan).unwrap();
                let c = go(&serde_json::from_str(&text).unwrap(), false);
                if a.digest != b.digest || a.digest != c.digest || a.viols != b.viols || a.viols != c.viols || a.broken.is_some() {
                    bad.fetch_add(1, Ordering::SeqCst);
                    println!("run {i} ({p}): {:x} {:x} {:x} {:?}", a.digest, b.digest, c.digest, a.broken);
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    println!("{n} runs, each three times: {} differ", bad.load(Ordering::SeqCst));
    (bad.load(Ordering::SeqCst) > 0) as i32
}

pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(secs));
        println!("watchdog: no result after {secs} s");
        std::process::exit(2);
    });
}
