//! Seeded search: many runs on all cores, the lowest failing run minimised and written down for
//! replay, and the evidence of what was covered.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::gen::{gen_cfg, Gen};
use crate::rng::{mix, seed_os_random, Rng};
use crate::world::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub rule: String,
    pub detail: String,
    pub verif_seed: u64,
    pub run: u64,
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}

#[derive(Default)]
pub struct Outcome {
    pub viol: Option<Viol>,
    /// the operations executed, the last one being the one that failed
    pub ops: Vec<Op>,
    pub stats: Stats,
    /// fingerprint of everything observable that happened
    pub log: u64,
    /// the error outside the system under test that ended the run
    pub broken: Option<String>,
    pub sim_nanos: u64,
    pub sim_blocks: u64,
    pub diverged: Option<Viol>,
    pub polls: u64,
    pub sessions: u64,
}

pub enum Source {
    Seed(u64),
    Ops(Vec<Op>),
}

/// One simulated execution, on a thread of its own (so that nothing carries over).
pub fn simulate(cfg: &Cfg, focus: &str, src: Source) -> Outcome {
    let (cfg, focus) = (cfg.clone(), focus.to_string());
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inner(cfg, focus, src)));
            r.unwrap_or_else(|e| {
                let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string()));
                Outcome { broken: Some(s.unwrap_or_default()), ..Outcome::default() }
            })
        })
        .unwrap()
        .join()
        .unwrap()
}

fn inner(cfg: Cfg, focus: String, src: Source) -> Outcome {
    seed_os_random(cfg.seed);
    let mut out = Outcome::default();
    let mut w = match World::new(cfg.clone()) {
        Ok(w) => w,
        Err(e) => {
            out.viol = Some(viol(&[focus.as_str()], "deployment refused", e));
            return out;
        }
    };
    w.focus = focus;
    let mut log = mix(cfg.seed);
    let mut go = |w: &mut World, op: &Op, i: u64, out: &mut Outcome| -> bool {
        out.ops.push(op.clone());
        let before = w.stats.accepted;
        let mut r = w.step(op);
        if r.is_ok() && i % 24 == 23 {
            r = w.compare_views(None);
        }
        log = mix(log ^ (w.stats.accepted - before) ^ w.stats.txs << 20 ^ w.stats.views << 32);
        if i % 6 == 0 {
            let d = w.chain.digest();
            log = mix(log ^ d);
            if w.stats.states.len() < 4096 {
                w.stats.states.insert(d);
            }
        }
        match r {
            Ok(()) => true,
            Err(v) => {
                out.viol = Some(v);
                false
            }
        }
    };
    match src {
        Source::Seed(s) => {
            let mut g = Gen::new(&w);
            let mut r = Rng::new(s ^ 0x57E9);
            let len = g.setup_len() as u64 + r.range(40, 260);
            let mut i = 0;
            let mut ok = true;
            while ok && i < len {
                let op = g.next(&w);
                ok = go(&mut w, &op, i, &mut out);
                i += 1;
            }
            if ok {
                for op in g.epilogue(&w) {
                    if !go(&mut w, &op, i, &mut out) {
                        break;
                    }
                    i += 1;
                }
            }
        }
        Source::Ops(ops) => {
            for (i, op) in ops.iter().enumerate() {
                if !go(&mut w, op, i as u64, &mut out) {
                    break;
                }
            }
        }
    }
    if out.viol.is_none() {
        if let Err(v) = w.final_views() {
            out.viol = Some(v);
        }
    }
    out.log = mix(log ^ w.chain.digest());
    out.sim_nanos = w.chain.nanos - w.sim_start;
    out.sim_blocks = w.chain.height - cfg.height;
    out.diverged = w.diverged.clone();
    out.polls = w.polls.len() as u64;
    out.sessions = w.sessions.len() as u64;
    out.stats = w.stats;
    out
}

pub fn run_seed(property: &str, verif_seed: u64, i: u64) -> u64 {
    let p = property.bytes().fold(0u64, |h, b| mix(h ^ b as u64));
    mix(mix(verif_seed) ^ p ^ mix(i))
}

/// Which accepted transactions make a run say something about the property.
fn relevant_kinds(p: &str) -> &'static [&'static str] {
    match p {
        "C01" => &["approved by destination"],
        "C02" | "C03" => &["ok: verifier vote"],
        "C04" => &["ok: verifier end_poll"],
        "C05" => &["poll opened"],
        "C06" => &["ok: gateway route_messages"],
        "C07" | "C10" => &["ok: router route_messages", "ok: gateway route_messages"],
        "C08" => &["ok: router freeze_chain", "ok: router unfreeze_chain"],
        "C09" => &["ok: router register_chain", "ok: router upgrade_gateway"],
        "C11" => &["ok: nexus route_messages_from_nexus"],
        "C12" | "C13" => &["ok: multisig submit_signature"],
        "C14" => &["ok: multisig start_signing_session", "session opened"],
        "C15" => &["approved by destination", "rotated by destination"],
        "C16" => &["ok: prover construct_proof"],
        "C17" | "C18" => &["ok: prover update_worker_set"],
        "C19" => &["ok: registry declare_chain_support", "ok: registry authorize_workers"],
        "C20" => &["ok: registry bond_worker", "ok: registry unbond_worker", "ok: registry claim_stake"],
        "C21" | "C22" | "C23" | "C24" => &["ok: rewards distribute_rewards"],
        "C25" => &["ok: verifier end_poll", "ok: multisig submit_signature"],
        "C26" => &["ok: batching batch"],
        "C27" => &["fault injected"],
        "C28" => &["recovered"],
        "C29" => &["ok: verifier verify_messages", "ok: gateway verify_messages"],
        "C30" => &["refused: only governance manages gateways", "refused: only the admin freezes", "refused: only governance authorizes workers"],
        _ => &[],
    }
}

fn nontrivial(p: &str, o: &Outcome) -> bool {
    let s = &o.stats;
    let has = |k: &&str| match *k {
        "approved by destination" => s.approvals > 0,
        "rotated by destination" => s.rotations > 0,
        "poll opened" => o.polls > 0,
        "session opened" => o.sessions > 0,
        "fault injected" => !s.faults.is_empty(),
        "recovered" => s.recoveries > 0,
        k => s.counts.get(k).copied().unwrap_or(0) > 0,
    };
    s.accepted >= 20 && relevant_kinds(p).iter().any(|k| has(k))
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: BTreeSet<u64>,
    ops: u64,
    txs: u64,
    accepted: u64,
    refused: u64,
    views: u64,
    forks: u64,
    restarts: u64,
    approvals: u64,
    rotations: u64,
    recoveries: u64,
    polls: u64,
    sessions: u64,
    nanos: u128,
    blocks: u64,
    faults: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    broken: Vec<String>,
    diverged: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

impl Totals {
    fn add(&mut self, p: &str, i: u64, seed: u64, cfg: &Cfg, o: &Outcome) {
        self.runs += 1;
        if nontrivial(p, o) {
            self.nontrivial.insert(o.log);
        }
        let s = &o.stats;
        self.ops += o.ops.len() as u64;
        self.txs += s.txs;
        self.accepted += s.accepted;
        self.refused += s.refused;
        self.views += s.views;
        self.forks += s.forks;
        self.restarts += s.restarts;
        self.approvals += s.approvals;
        self.rotations += s.rotations;
        self.recoveries += s.recoveries;
        self.polls += o.polls;
        self.sessions += o.sessions;
        self.nanos += o.sim_nanos as u128;
        self.blocks += o.sim_blocks;
        for (k, n) in &s.faults {
            *self.faults.entry(k.clone()).or_insert(0) += n;
        }
        for (k, n) in &s.counts {
            *self.counts.entry(k.clone()).or_insert(0) += n;
        }
        for d in &s.states {
            if self.states.len() < 4_000_000 {
                self.states.insert(*d);
            }
        }
        if let Some(v) = &o.diverged {
            *self.diverged.entry(v.rule.clone()).or_insert(0) += 1;
        }
        if self.samples.len() < 2 && nontrivial(p, o) {
            let mut k: BTreeMap<String, u64> = BTreeMap::new();
            for op in &o.ops {
                *k.entry(op_kind(op)).or_insert(0) += 1;
            }
            let excerpt: Vec<String> = o.ops.iter().rev().skip(1).take(6).rev().map(|x| short(&serde_json::to_string(x).unwrap(), 300)).collect();
            self.samples.push(json!({"run": i, "seed": seed, "chains": cfg.chains.len(), "workers": cfg.workers,
                "dishonest": cfg.byz.len(), "operations": k, "last_operations": excerpt, "log_digest": format!("{:016x}", o.log)}));
        }
    }
}

fn short(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        s.chars().take(n).collect::<String>() + "…"
    } else {
        s.into()
    }
}

pub fn op_kind(op: &Op) -> String {
    match op {
        Op::Tx { msg, fault, .. } => format!("{}{}", crate::check::variant(msg), if fault.is_some() { " (fault)" } else { "" }),
        Op::HonestVote { .. } => "vote (honest)".into(),
        Op::HonestSign { .. } => "sign (honest)".into(),
        Op::Block { .. } => "block".into(),
        Op::Restart => "restart".into(),
        Op::Emit { .. } => "emit".into(),
        Op::Ext { .. } => "external gateway".into(),
        Op::FaultSweep { .. } => "fault sweep".into(),
        Op::Recover { .. } => "recover".into(),
    }
}

pub struct Budget {
    pub secs: f64,
    pub max_runs: u64,
    pub threads: usize,
}

/// Returns the process exit code.
pub fn check(p: &str, tier: &str, seed: u64, b: Budget, dir: &str) -> i32 {
    let t0 = Instant::now();
    println!("{p}: tier {tier}, VERIF_SEED {seed}");
    let mut known = vec![];
    let mut extra = json!({});
    if let Err((v, r)) = crate::scenario::known(p, dir, &mut known, &mut extra) {
        return report(p, tier, seed, dir, &r, v, t0);
    }
    for k in &known {
        println!("KNOWN-FINDING: property={p} {k}");
    }
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let best: Arc<Mutex<Option<(u64, Cfg, Outcome)>>> = Arc::new(Mutex::new(None));
    let tot = Arc::new(Mutex::new(Totals::default()));
    let hs: Vec<_> = (0..b.threads)
        .map(|_| {
            let (next, stop, best, tot, p) = (next.clone(), stop.clone(), best.clone(), tot.clone(), p.to_string());
            std::thread::spawn(move || loop {
                if stop.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > b.secs {
                    return;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= b.max_runs {
                    return;
                }
                let s = run_seed(&p, seed, i);
                let cfg = gen_cfg(&p, s);
                let o = simulate(&cfg, &p, Source::Seed(s));
                let mut t = tot.lock().unwrap();
                if let Some(e) = &o.broken {
                    t.broken.push(format!("run {i}: {e}"));
                    continue;
                }
                t.add(&p, i, s, &cfg, &o);
                drop(t);
                if o.viol.is_some() {
                    stop.store(true, Ordering::SeqCst);
                    let mut x = best.lock().unwrap();
                    if x.as_ref().map_or(true, |(j, ..)| i < *j) {
                        *x = Some((i, cfg, o));
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let found = best.lock().unwrap().take();
    let t = std::mem::take(&mut *tot.lock().unwrap());
    let wall = t0.elapsed().as_secs_f64();
    evidence(p, tier, seed, dir, &t, wall, found.is_some() as u64, &known, &extra);
    println!(
        "{p}: {} runs, {} transactions ({} accepted), {} distinct nontrivial, {} states, {:.1} s",
        t.runs,
        t.txs,
        t.accepted,
        t.nontrivial.len(),
        t.states.len(),
        wall
    );
    for e in t.broken.iter().take(3) {
        println!("simulator error: {e}");
    }
    match found {
        Some((i, cfg, o)) => {
            let v = o.viol.clone().unwrap();
            println!("{p}: run {i} (seed {}) violates it after {} operations: {}", cfg.seed, o.ops.len(), v.rule);
            let ops = minimise(&cfg, p, &v, o.ops, 75.0);
            let v = simulate(&cfg, p, Source::Ops(ops.clone())).viol.unwrap_or(v);
            let r = Replay { property: p.into(), rule: v.rule.clone(), detail: v.detail.clone(), verif_seed: seed, run: i, cfg, ops };
            report(p, tier, seed, dir, &r, v, t0)
        }
        None if t.runs == 0 || t.broken.len() as u64 > t.runs => 2,
        None => 0,
    }
}

fn report(p: &str, _tier: &str, _seed: u64, dir: &str, r: &Replay, v: Viol, _t0: Instant) -> i32 {
    let _ = std::fs::create_dir_all(format!("{dir}/replays"));
    let path = format!("{dir}/replays/{p}-{}.json", r.cfg.seed);
    let _ = std::fs::write(&path, serde_json::to_string_pretty(r).unwrap());
    println!("{p}: {}", v.rule);
    println!("{}", short(&v.detail, 2000));
    println!("minimised to {} operations", r.ops.len());
    println!("VIOLATION property={p} replay={path}");
    1
}

fn fails(cfg: &Cfg, focus: &str, rule: &str, ops: Vec<Op>) -> Option<Vec<Op>> {
    let o = simulate(cfg, focus, Source::Ops(ops.clone()));
    match o.viol {
        Some(v) if v.rule == rule => Some(if o.ops.len() < ops.len() { o.ops } else { ops }),
        _ => None,
    }
}

/// Delta debugging over the operations, candidates of a round tried in parallel.
pub fn minimise(cfg: &Cfg, focus: &str, v: &Viol, ops: Vec<Op>, secs: f64) -> Vec<Op> {
    let t0 = Instant::now();
    let Some(mut cur) = fails(cfg, focus, &v.rule, ops.clone()) else { return ops };
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        // candidates: the operations without one chunk
        let starts: Vec<usize> = (0..cur.len()).step_by(chunk).rev().collect();
        let mut shrunk = false;
        for group in starts.chunks(8) {
            if t0.elapsed().as_secs_f64() > secs {
                break;
            }
            let hs: Vec<_> = group
                .iter()
                .filter(|s| **s < cur.len())
                .map(|&s| {
                    let mut c = cur.clone();
                    c.drain(s..(s + chunk).min(c.len()));
                    let (cfg, focus, rule) = (cfg.clone(), focus.to_string(), v.rule.clone());
                    (s, std::thread::spawn(move || fails(&cfg, &focus, &rule, c)))
                })
                .collect();
            let good: Vec<(usize, Vec<Op>)> = hs.into_iter().filter_map(|(s, h)| Some((s, h.join().ok()??))).collect();
            if good.is_empty() {
                continue;
            }
            shrunk = true;
            // all of them together, if that still fails
            let mut all = cur.clone();
            for (s, _) in &good {
                all.drain(*s..(*s + chunk).min(all.len()));
            }
            cur = match fails(cfg, focus, &v.rule, all) {
                Some(c) => c,
                None => good.into_iter().min_by_key(|g| g.1.len()).unwrap().1,
            };
        }
        if !shrunk || chunk > cur.len() {
            if chunk == 1 {
                break;
            }
            chunk = (chunk / 2).max(1).min(cur.len().max(1));
        }
    }
    // simpler operations: no fault, the shortest passing of time
    for i in 0..cur.len() {
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        let mut c = cur.clone();
        let simpler = match &mut c[i] {
            Op::Tx { fault, .. } if fault.is_some() => {
                *fault = None;
                true
            }
            Op::Block { dh, dt } if *dh > 1 => {
                *dh = 1;
                *dt = 5_000_000_000;
                true
            }
            _ => false,
        };
        if simpler {
            if let Some(c) = fails(cfg, focus, &v.rule, c) {
                if c.len() == cur.len() {
                    cur = c;
                }
            }
        }
    }
    cur
}

pub fn replay(path: &str) -> i32 {
    let r: Replay = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            println!("cannot read {path}: {e}");
            return 2;
        }
    };
    println!("{}: replaying {} operations of run {} (VERIF_SEED {}, seed {})", r.property, r.ops.len(), r.run, r.verif_seed, r.cfg.seed);
    for op in &r.ops {
        println!("  {}", short(&serde_json::to_string(op).unwrap(), 400));
    }
    let o = if let Some(name) = r.rule.strip_prefix("scenario ") {
        crate::scenario::again(&r.property, name)
    } else {
        simulate(&r.cfg, &r.property, Source::Ops(r.ops.clone()))
    };
    match o.viol {
        Some(v) => {
            println!("{}: {}", v.rule, short(&v.detail, 3000));
            if v.rule == r.rule && v.detail == r.detail {
                println!("reproduced exactly");
            } else {
                println!("a different violation than recorded ({}: {})", r.rule, short(&r.detail, 600));
            }
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &str, tier: &str, seed: u64, dir: &str, t: &Totals, wall: f64, violations: u64, known: &[String], extra: &Value) {
    let hours = wall / 3600.0;
    let level = if p == "C27" { "fault_enumeration" } else { "exploration" };
    let v = json!({
        "property": p, "tier": tier, "seed": seed, "level": level, "wall_s": wall, "violations": violations,
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": format!("one evaluation is one simulated execution of the whole deployment generated from one seed; non-trivial: at least 20 accepted transactions and at least one of {:?}; distinct: different digest of the complete observable log", relevant_kinds(p)),
            "samples": t.samples,
            "exhaustive": false,
            "runs_per_hour": (t.runs as f64 / hours) as u64,
            "seeds_per_hour": (t.runs as f64 / hours) as u64,
            "operations": t.ops,
            "transactions": t.txs,
            "transactions_accepted": t.accepted,
            "transactions_refused": t.refused,
            "queries_compared_with_model": t.views,
            "forked_executions": t.forks,
            "simulated_days": t.nanos as f64 / 86_400e9,
            "simulated_blocks": t.blocks,
            "faults_injected": t.faults,
            "node_restarts": t.restarts,
            "polls": t.polls,
            "signing_sessions": t.sessions,
            "messages_approved_by_external_gateways": t.approvals,
            "handovers_executed_by_external_gateways": t.rotations,
            "recovery_phases": t.recoveries,
            "distinct_states": t.states.len(),
            "distinct_states_measure": "digest of the complete storage of all contracts and the bank, sampled every 6 operations",
            "activity": t.counts,
            "divergences_of_other_properties": t.diverged,
            "simulator_errors": t.broken.len(),
            "known_findings": known,
            "scenarios": extra,
            "real_components": ["aggregate-verifier", "batching", "connection-router", "gateway", "multisig", "multisig-prover", "nexus-gateway", "rewards", "service-registry", "voting-verifier", "axelar-wasm-std", "cw-multi-test bank and contract engine"],
            "stubbed_components": ["nexus module (records what it is sent)", "external chains' gateways (executable reference of the Axelar gateway: proof recovery, operator epochs, command ids)", "worker daemons (honest policy and dishonest variants)", "block production (chosen by the scheduler)", "wasm virtual machine (contracts run natively)"]
        },
        "assumptions": [
            "the chain executes transactions one at a time and atomically, as CosmWasm specifies; the simulator owns the order",
            "honest workers vote what their node of the source chain shows and sign every session they are part of",
            "external gateways behave as the reference in sim/src/ext.rs"
        ]
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let _ = std::fs::write(format!("{dir}/evidence/{p}.json"), serde_json::to_string_pretty(&v).unwrap());
}

/// Every seed twice, in parallel with others and alone: the logs must agree.
pub fn selftest(n: u64) -> i32 {
    let props: Vec<String> = (1..=30).map(|i| format!("C{i:02}")).collect();
    let bad = Arc::new(AtomicU64::new(0));
    let next = Arc::new(AtomicU64::new(0));
    let all = Arc::new(Mutex::new(BTreeMap::new()));
    let hs: Vec<_> = (0..8)
        .map(|_| {
            let (bad, next, props, all) = (bad.clone(), next.clone(), props.clone(), all.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    return;
                }
                let p = &props[i as usize % props.len()];
                let s = run_seed(p, 7, i);
                let cfg = gen_cfg(p, s);
                let a = simulate(&cfg, "*", Source::Seed(s));
                let b = simulate(&cfg, "*", Source::Seed(s));
                let c = simulate(&cfg, "*", Source::Ops(a.ops.clone()));
                all.lock().unwrap().insert(i, a.log);
                if a.log != b.log || a.log != c.log || a.viol != b.viol || a.viol != c.viol || a.broken.is_some() {
                    bad.fetch_add(1, Ordering::SeqCst);
                    println!("run {i} ({p}, seed {s}): {:x} {:x} {:x} {:?} {:?}", a.log, b.log, c.log, a.viol.map(|v| v.rule), a.broken);
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let total = all.lock().unwrap().iter().fold(0u64, |h, (i, l)| mix(h ^ mix(*i) ^ l));
    println!("{n} runs, each three times: {} differ; digest of all logs {total:016x}", bad.load(Ordering::SeqCst));
    (bad.load(Ordering::SeqCst) > 0) as i32
}

pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(secs));
        println!("watchdog: no result after {secs} s");
        std::process::exit(2);
    });
}
