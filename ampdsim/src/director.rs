//! One run: block production, the workers and whoever restarts them, the faults at their times, and
//! what follows when they are over.

use std::cell::RefCell;
use std::path::Path;
use std::rc::Rc;

use serde_json::{json, Value};
use simnet::rt::{self, WORLD};
use simnet::sys;
use simnet::net;

use crate::plan::*;
use crate::rng::Rng;
use crate::world::*;

type W = Rc<RefCell<World>>;

const SIGTERM: i32 = 15;
/// time between the last fault and the probes
const SETTLE_MS: u64 = 90_000;

#[derive(Default)]
pub struct Outcome {
    pub viols: Vec<Viol>,
    pub digest: u64,
    pub counts: std::collections::BTreeMap<String, u64>,
    pub faults: std::collections::BTreeMap<String, u64>,
    pub sim_ms: u64,
    pub steps: u64,
    pub switches: u64,
    pub schedule: u64,
    pub log: Vec<String>,
    pub broken: Option<String>,
}

impl World {
    fn config(&self, w: usize) -> Value {
        let c = &self.plan.cfg;
        let mut hs: Vec<Value> = vec![];
        for (i, e) in c.evm.iter().enumerate() {
            for (sets, ty) in [(false, "EvmMsgVerifier"), (true, "EvmWorkerSetVerifier")] {
                if self.handles(w, i, sets) {
                    hs.push(json!({"type": ty, "cosmwasm_contract": self.verifier(i), "chain_name": e.name, "chain_rpc_url": format!("http://evm{i}-{w}/")}));
                }
            }
        }
        for (sets, ty) in [(false, "SuiMsgVerifier"), (true, "SuiWorkerSetVerifier")] {
            if self.handles(w, c.evm.len(), sets) {
                hs.push(json!({"type": ty, "cosmwasm_contract": self.verifier(c.evm.len()), "rpc_url": format!("http://sui-{w}/")}));
            }
        }
        if self.signs(w) {
            hs.push(json!({"type": "MultisigSigner", "cosmwasm_contract": self.multisig()}));
        }
        Rng::new(c.seed ^ w as u64).shuffle(&mut hs);
        json!({
            "tm_jsonrpc": format!("http://axelar-{w}/"),
            "tm_grpc": format!("http://axelar-{w}/"),
            "event_buffer_cap": 100_000,
            "broadcast": {
                "chain_id": c.chain_id,
                "tx_fetch_interval": format!("{}ms", c.fetch_ms),
                "tx_fetch_max_retries": c.retries,
                "gas_adjustment": c.gas_adjustment,
                "gas_price": format!("{}{DENOM}", c.gas_price),
                "batch_gas_limit": c.batch_gas_limit,
                "queue_cap": c.queue_cap,
                "broadcast_interval": format!("{}ms", c.broadcast_ms),
            },
            "handlers": hs,
            "tofnd_config": {"url": format!("http://tofnd-{w}/"), "party_uid": format!("worker{w}"), "key_uid": KEY_UID},
            "service_registry": {"cosmwasm_contract": self.registry},
        })
    }
}

enum End {
    Ok,
    Err(String),
    Panic(String),
    Gone,
}

/// runs a process of a worker until it ends
async fn process<F>(world: &W, w: usize, kind: &'static str, start: impl FnOnce(ampd::config::Config, std::path::PathBuf) -> F) -> How
where
    F: std::future::Future<Output = Result<Option<String>, String>> + 'static,
{
    let pid = rt::new_process(&format!("worker{w}"));
    let (cfg, path, dir) = {
        let mut x = world.borrow_mut();
        x.start_proc(w, pid, kind);
        x.current[w] = Some(pid);
        let c: ampd::config::Config = serde_json::from_value(x.config(w)).expect("configuration");
        let dir = x.workers[w].dir.clone();
        (c, Path::new(&dir).join("state.json"), dir)
    };
    let fut = start(cfg, path);
    let j = rt::spawn_in(pid, fut);
    let end = std::future::poll_fn(|cx| {
        j.poll_out(cx).map(|o| match o {
            rt::Out::Done(Ok(_)) => End::Ok,
            rt::Out::Done(Err(e)) => End::Err(e),
            rt::Out::Panicked(p) => {
                End::Panic(p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())
            }
            rt::Out::Cancelled => End::Gone,
        })
    })
    .await;
    let died = sys::died(&dir);
    let fired = sys::take_fired_in(&dir);
    sys::disarm(&dir);
    if rt::alive(pid) {
        rt::kill(pid);
    }
    let (how, err) = match end {
        _ if died => (How::Killed, "in the middle of writing its state".to_string()),
        End::Ok => (How::Ok, String::new()),
        End::Err(e) => (How::Err, e),
        End::Panic(e) => (How::Panic, e),
        End::Gone => (How::Killed, String::new()),
    };
    let mut x = world.borrow_mut();
    for k in fired {
        x.fault_done(format!("disk: {k:?} while writing the state"));
        if let Some(p) = x.proc_mut(pid) {
            p.disk_fault = true;
        }
    }
    x.current[w] = None;
    let err = err.replace(dir.trim_start_matches('/'), "DIR");
    x.ended(w, pid, how, err);
    how
}

/// the causes of an error, without colours and places
fn first_line(e: impl std::fmt::Debug) -> String {
    let s = format!("{e:?}");
    let mut t = String::new();
    let mut cs = s.chars();
    while let Some(c) = cs.next() {
        if c == '\u{1b}' {
            cs.by_ref().find(|c| c.is_ascii_alphabetic());
        } else {
            t.push(c);
        }
    }
    let l: Vec<&str> = t
        .lines()
        .take_while(|l| !l.contains("────────"))
        .map(|l| l.trim_start_matches(|c: char| !c.is_alphanumeric()))
        .filter(|l| !l.is_empty() && !l.starts_with("at /") && !l.starts_with("backtrace"))
        .take(8)
        .collect();
    l.join(" | ").chars().take(400).collect()
}

async fn worker(world: W, w: usize) {
    let mut r = Rng::new(world.borrow().plan.cfg.seed ^ 0x55 ^ (w as u64) << 8);
    rt::sleep(r.below(4000) * MS).await;
    let signs = world.borrow().signs(w);
    let mut first: Vec<&'static str> = vec![];
    if signs {
        first.push("register_public_key");
    }
    if world.borrow().plan.cfg.commands {
        first.push("bond_worker");
        if !world.borrow().declared(w).is_empty() {
            first.push("declare_chain_support");
        }
    }
    r.shuffle(&mut first);
    for c in first {
        let n = world.borrow().registry_msgs.len();
        let (bond, chains) = {
            let x = world.borrow();
            (x.bond(w), x.declared(w))
        };
        let how = process(&world, w, c, move |cfg, path| async move {
            let service_name = "amplifier".to_string().try_into().unwrap();
            match c {
                "register_public_key" => ampd::commands::register_public_key::run(cfg, &path).await.map_err(first_line),
                "bond_worker" => {
                    let a = ampd::commands::bond_worker::Args { service_name, amount: bond, denom: DENOM.into() };
                    ampd::commands::bond_worker::run(cfg, &path, a).await.map_err(first_line)
                }
                _ => {
                    let a = ampd::commands::declare_chain_support::Args { service_name, chains: chains.iter().map(|c| c.parse().unwrap()).collect() };
                    ampd::commands::declare_chain_support::run(cfg, &path, a).await.map_err(first_line)
                }
            }
        })
        .await;
        let done = {
            let x = world.borrow();
            if c == "register_public_key" { x.workers[w].registered.is_some() } else { x.registry_msgs[n..].iter().any(|m| m.sender == x.workers[w].addr) }
        };
        if done != (how == How::Ok) {
            world.borrow_mut().viol("C37", "command's result is wrong", format!("worker {w}: {c} ended {how:?}, included: {done}"));
        }
        if how != How::Ok {
            let e = world.borrow().workers[w].procs.last().unwrap().error.clone();
            world.borrow_mut().viol("C37", "command fails on a healthy network", format!("worker {w}: {c}: {e}"));
        }
        rt::sleep(r.range(100, 2000) * MS).await;
    }
    loop {
        if world.borrow().closing {
            break;
        }
        process(&world, w, "daemon", |cfg, path| async move { ampd::commands::daemon::run(cfg, &path).await.map_err(first_line) }).await;
        if world.borrow().closing {
            break;
        }
        rt::sleep(r.range(1000, 5000) * MS).await;
    }
    world.borrow_mut().closed += 1;
}

async fn blocks(world: W) {
    let (ms, seed) = {
        let x = world.borrow();
        (x.plan.cfg.block_ms, x.plan.cfg.seed)
    };
    let mut r = Rng::new(seed ^ 0xB10C);
    loop {
        let jitter = r.below(ms / 5 + 1);
        let slow = if r.pct(3) { ms * r.range(1, 3) } else { 0 };
        rt::sleep((ms - ms / 10 + jitter + slow) * MS).await;
        let x = &mut *world.borrow_mut();
        let probes = std::mem::take(&mut x.probes);
        let probe = !probes.is_empty();
        x.make_block(probes, probe);
    }
}

async fn faults(world: W, f: Fault) {
    let at = match &f {
        Fault::Crash { at_ms, .. } | Fault::Term { at_ms, .. } | Fault::Stall { at_ms, .. } | Fault::Lag { at_ms, .. } | Fault::Unreadable { at_ms, .. } => *at_ms,
        Fault::Down { at_ms, .. } | Fault::Slow { at_ms, .. } => *at_ms,
        Fault::Call { .. } => return,
    };
    rt::sleep(at * MS).await;
    let cur = |w: usize| world.borrow().current[w];
    match f {
        Fault::Crash { w, .. } => {
            if let Some(p) = cur(w) {
                world.borrow_mut().touch_by(p, "worker killed");
                rt::kill(p);
            }
        }
        Fault::Term { w, disk, .. } => {
            if let Some(p) = cur(w) {
                let dir = {
                    let mut x = world.borrow_mut();
                    x.touch_by(p, "worker asked to stop");
                    if let Some(q) = x.proc_mut(p) {
                        q.term_ms.get_or_insert(now_ms());
                    }
                    x.workers[w].dir.clone()
                };
                if let Some((skip, k)) = disk {
                    let k = match k {
                        Disk::Crash => sys::DiskKind::Crash,
                        Disk::Full => sys::DiskKind::Full,
                        Disk::Error => sys::DiskKind::Error,
                        Disk::Short => sys::DiskKind::Short,
                    };
                    sys::arm(&dir, skip, k);
                }
                rt::signal(p, SIGTERM);
            }
        }
        Fault::Stall { w, ms, .. } => {
            if let Some(p) = cur(w) {
                world.borrow_mut().touch_by(p, "worker stalled");
                rt::pause(p, rt::now() + ms * MS);
            }
        }
        Fault::Lag { w, .. } => {
            if let Some(p) = cur(w) {
                world.borrow_mut().touch_by(p, "node lagging");
            }
        }
        Fault::Unreadable { w, ms, .. } => {
            let dir = world.borrow().workers[w].dir.clone();
            if let Some(p) = cur(w) {
                world.borrow_mut().touch_by(p, "state unreadable");
            }
            sys::fail_reads(&dir, true);
            world.borrow_mut().unreadable[w] = true;
            rt::sleep(ms * MS).await;
            sys::fail_reads(&dir, false);
            world.borrow_mut().unreadable[w] = false;
        }
        Fault::Down { .. } | Fault::Slow { .. } | Fault::Call { .. } => {}
    }
}

fn over(p: &Plan) -> u64 {
    let mut t = CALM_MS + 5_000;
    for f in &p.faults {
        t = t.max(match f {
            Fault::Crash { at_ms, .. } => *at_ms,
            Fault::Term { at_ms, .. } => at_ms + 5_000,
            Fault::Stall { at_ms, ms, .. }
            | Fault::Down { at_ms, ms, .. }
            | Fault::Slow { at_ms, ms, .. }
            | Fault::Lag { at_ms, ms, .. }
            | Fault::Unreadable { at_ms, ms, .. } => at_ms + ms,
            Fault::Call { .. } => 0,
        });
    }
    for w in &p.work {
        t = t.max(w.at());
    }
    t + 2_000
}

async fn script(world: W) {
    let (t, block_ms, n) = {
        let x = world.borrow();
        (over(&x.plan), x.plan.cfg.block_ms, x.workers.len())
    };
    rt::sleep(t * MS).await;
    for w in 0..n {
        let d = world.borrow().workers[w].dir.clone();
        sys::disarm(&d);
    }
    {
        let mut x = world.borrow_mut();
        x.faults_over = true;
        x.faults_over_ms = now_ms();
        x.note(|| "faults are over".into());
    }
    let busy = world.borrow().plan.work.len() as u64;
    rt::sleep((SETTLE_MS + busy * 5_000) * MS).await;
    // questions everyone can answer now
    let mut r = Rng::new(world.borrow().plan.cfg.seed ^ 0x9806);
    {
        let mut x = world.borrow_mut();
        let now = now_ms();
        let mut ps = vec![];
        for chain in 0..=x.plan.cfg.evm.len() {
            for sets in [false, true] {
                if let Work::Poll { items, .. } = poll(&mut r, "", &x.plan.cfg, now, chain, sets) {
                    let ttl = 200_000 / block_ms + 20;
                    ps.push(Work::Poll { at_ms: now, chain, sets, foreign: false, other_chain: false, ttl, parts: 0xff, items });
                }
            }
        }
        ps.push(Work::Session { at_ms: now, foreign: false, parts: 0xff, seed: r.next() });
        x.note(|| "probes".into());
        x.probes = ps;
    }
    rt::sleep((70_000 + 14 * block_ms) * MS).await;
    {
        let x = &mut *world.borrow_mut();
        let mut late = vec![];
        for w in 0..n {
            let me = x.workers[w].addr.clone();
            for p in x.polls.iter().filter(|p| p.probe && p.parts.contains(&me) && x.handles(w, p.chain, p.sets)) {
                if !p.votes.contains_key(&me) && !x.lost(w, p.height) {
                    late.push(format!("worker {w}: poll {} of {} (sets {})", p.id, p.named, p.sets));
                }
            }
            for s in x.sessions.iter().filter(|s| s.probe && s.keys.contains_key(&me) && x.signs(w)) {
                if !s.signed.contains_key(&me) && !x.lost(w, s.height) {
                    late.push(format!("worker {w}: session {}", s.id));
                }
            }
        }
        if !late.is_empty() {
            let errs: Vec<String> = x.workers.iter().map(|w| w.procs.last().map(|p| format!("{:?} {}", p.end, p.error)).unwrap_or_default()).collect();
            let back: Vec<String> = x
                .workers
                .iter()
                .map(|w| w.procs.iter().rev().take(3).map(|p| format!("{}: {}", p.pid, p.error)).collect::<Vec<_>>().join("; "))
                .collect();
            let looping = (0..n).all(|w| x.repeats(w) || !late.iter().any(|l| l.starts_with(&format!("worker {w}:"))));
            let rule = if looping { "stops at the same block again and again" } else { "not answered although all is well again" };
            x.viol("C36", rule, format!("{late:?}; processes {errs:?}; {back:?}"));
        } else {
            x.count("recovered");
        }
        x.looping = (0..n).map(|w| x.repeats(w)).collect();
        x.closing = true;
    }
    // a clean stop of everyone
    for w in 0..n {
        let cur = world.borrow().current[w];
        if let Some(p) = cur {
            if let Some(q) = world.borrow_mut().proc_mut(p) {
                q.term_ms.get_or_insert(now_ms());
            }
            rt::signal(p, SIGTERM);
        }
    }
    let limit = now_ms() + 60_000 + 10 * block_ms;
    while now_ms() < limit && world.borrow().closed < n {
        rt::sleep(500 * MS).await;
    }
    if world.borrow().closed < n {
        let x = &mut *world.borrow_mut();
        let who: Vec<usize> = (0..n).filter(|w| x.current[*w].is_some()).collect();
        x.viol("C35", "does not stop when asked to", format!("workers {who:?}"));
    } else {
        let x = &mut *world.borrow_mut();
        for w in 0..n {
            let Some(p) = x.workers[w].procs.last().cloned() else { continue };
            if p.kind == "daemon" && p.term_ms.is_some() {
                match p.end {
                    Some((_, How::Ok)) => {}
                    // asked before it listens to signals
                    Some((_, How::Killed)) if p.fetched.is_empty() => {}
                    _ if x.looping[w] || x.repeats(w) => {}
                    e => x.viol("C35", "does not stop cleanly", format!("worker {w}: {e:?} {}", p.error)),
                }
            }
        }
    }
    world.borrow_mut().judge_end();
    rt::stop();
}

pub fn run(plan: &Plan, dir: &str, log: bool) -> Outcome {
    let (plan, dir) = (plan.clone(), dir.to_string());
    let h = std::thread::Builder::new().stack_size(32 << 20).spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inner(plan, &dir, log)));
        let o = r.unwrap_or_else(|e| {
            let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string()));
            Outcome { broken: Some(s.unwrap_or_default()), ..Outcome::default() }
        });
        sys::in_sim(false);
        let _ = std::fs::remove_dir_all(&dir);
        o
    });
    h.unwrap().join().unwrap()
}

fn inner(plan: Plan, dir: &str, log: bool) -> Outcome {
    sys::seed_os_random(plan.cfg.seed);
    sys::reset_disk();
    std::fs::create_dir_all(dir).expect("scratch directory");
    let n = plan.cfg.workers;
    for w in 0..n {
        std::fs::create_dir_all(format!("{dir}/w{w}")).expect("scratch directory");
    }
    rt::reset(plan.cfg.seed);
    let fs = plan.faults.clone();
    let world: W = Rc::new(RefCell::new(World::new(plan, dir, log)));
    net::set_server(Some(world.clone()));
    sys::in_sim(true);
    rt::spawn_in(WORLD, blocks(world.clone()));
    for w in 0..n {
        rt::spawn_in(WORLD, worker(world.clone(), w));
    }
    for f in fs {
        rt::spawn_in(WORLD, faults(world.clone(), f));
    }
    rt::spawn_in(WORLD, script(world.clone()));
    let ended = rt::run(3_600_000 * MS, 30_000_000);
    let (steps, switches, schedule) = rt::stats();
    let sim_ms = now_ms();
    net::set_server(None);
    rt::teardown();
    sys::in_sim(false);
    let x = world.borrow();
    Outcome {
        viols: x.viols.clone(),
        digest: simnet::mix(x.digest ^ schedule),
        counts: x.counts.clone(),
        faults: x.used.clone(),
        sim_ms,
        steps,
        switches,
        schedule,
        log: x.log.clone().unwrap_or_default(),
        broken: (ended != rt::Ended::Stopped).then(|| format!("the run did not end: {ended:?}")),
    }
}

