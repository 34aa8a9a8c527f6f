//! Directed scenarios: the known findings, each shown by a short fixed history. A scenario
//! reports `Some(what)` if the finding is still there.

use serde_json::{json, Value};

use crate::codec::Key;
use crate::recover::register_service;
use crate::rng::seed_os_random;
use crate::run::{Outcome, Replay};
use crate::world::*;

type Finding = fn(&mut World) -> Result<Option<String>, Viol>;

/// (property, name, finding); the names are those of known-findings.txt
const ALL: [(&str, &str, Finding); 5] = [
    ("C29", "tx-id-notation", tx_id_notation),
    ("C28", "hash-concatenation", hash_concatenation),
    ("C17", "earlier-set-again", earlier_set_again),
    ("C28", "earlier-set-again", earlier_set_wedged),
    ("C28", "shared-public-key", shared_key),
];

fn cfg() -> Cfg {
    let chain = |name: &str, i: u64| ChainCfg {
        name: name.into(),
        abi: true,
        chain_id: i,
        svc: 0,
        agg: false,
        expiry: 10,
        vthr: (2, 3),
        sthr: (2, 3),
        conf: 10,
        gw_addr: format!("0xgateway{i}"),
        diff: 0,
    };
    Cfg {
        property: "scenario".into(),
        seed: 1,
        chains: vec![chain("ethereum", 1), chain("avalanche", 2)],
        svcs: vec![SvcCfg { name: "svc0".into(), min_bond: 10, denom: "ubond".into(), days: 1, min_workers: 1, max_workers: Some(100) }],
        workers: 4,
        byz: vec![],
        eoa_chain: "fantom".into(),
        grace: 2,
        rewards: (10, 100, 1, 2),
        height: 100,
        nanos: 1_700_000_000_000_000_000,
    }
}

fn tx(w: &mut World, from: &str, to: &str, msg: Value) -> Result<bool, Viol> {
    w.tx(from, to, &msg, &vec![], None)
}

/// Four honest workers, both chains connected, first worker sets in place.
fn start(focus: &str) -> Result<World, Viol> {
    seed_os_random(1);
    let mut w = World::new(cfg()).map_err(|e| viol(&[focus], "deployment refused", e))?;
    w.focus = focus.into();
    let a = w.a.clone();
    let c = w.cfg.clone();
    let all: Vec<String> = (0..c.workers).map(worker).collect();
    tx(&mut w, GOV, &a.registry, register_service(&c.svcs[0]))?;
    tx(&mut w, GOV, &a.registry, json!({"authorize_workers": {"workers": all, "service_name": "svc0"}}))?;
    for x in &all {
        w.tx(x, &a.registry, &json!({"bond_worker": {"service_name": "svc0"}}), &vec![("ubond".into(), 10)], None)?;
        tx(&mut w, x, &a.registry, json!({"declare_chain_support": {"service_name": "svc0", "chains": ["ethereum", "avalanche"]}}))?;
        let k = hex::encode(Key::from_name(&format!("{x}#0")).pubkey(true));
        tx(&mut w, x, &a.multisig, json!({"register_public_key": {"public_key": {"ecdsa": k}}}))?;
    }
    for c in &c.chains {
        tx(&mut w, GOV, &a.router, json!({"register_chain": {"chain": c.name, "gateway_address": a.gateway[&c.name]}}))?;
        tx(&mut w, GOV, &a.multisig, json!({"authorize_caller": {"contract_address": a.prover[&c.name]}}))?;
        tx(&mut w, RELAYER, &a.prover[&c.name], json!("update_worker_set"))?;
    }
    Ok(w)
}

fn event(w: &mut World, tx: &str, src: &str) -> ExtEvent {
    let e = ExtEvent {
        chain: "ethereum".into(),
        tx: tx.into(),
        index: 0,
        src: src.into(),
        dst_chain: "avalanche".into(),
        dst: format!("0x{}", "11".repeat(20)),
        hash: "22".repeat(32),
    };
    w.events.push(e.clone());
    e
}

/// The transaction id of a message is compared as text: the same event, written with upper-case
/// digits, is another message, is verified by honest workers and approved a second time.
fn tx_id_notation(w: &mut World) -> Result<Option<String>, Viol> {
    let e = event(w, &format!("0x{}", "ab".repeat(32)), "0xsender");
    let m = e.msg();
    let mut m2 = m.clone();
    m2.id = format!("0x{}:0", "AB".repeat(32));
    let _ = w.deliver(&m)?;
    let before = w.stats.approvals;
    match w.deliver(&m2) {
        Err(v) if v.rule == "approved-twice" => Ok(Some("an event whose transaction id is written with other digits' case is verified and approved again".into())),
        Err(v) => Err(v),
        Ok(_) if w.stats.approvals > before => Ok(Some("an event whose transaction id is written with other digits' case is verified and approved again".into())),
        Ok(_) => Ok(None),
    }
}

/// The parts of a message are hashed without separators.
fn hash_concatenation(w: &mut World) -> Result<Option<String>, Viol> {
    let mut e = event(w, "0x77", "abc");
    w.events.clear();
    e.index = 10;
    w.events.push(e.clone());
    let m = e.msg();
    let mut fake = m.clone();
    fake.id = "0x77:1".into();
    fake.src = "0abc".into();
    let v = w.a.verifier["ethereum"].clone();
    w.focus = "none".into();
    tx(w, "mallory", &v, json!({"verify_messages": {"messages": [fake.json()]}}))?;
    Ok(match w.deliver(&m)? {
        Err(x) => Some(format!("a genuine message can no longer be verified once one with the same concatenated fields was submitted ({x})")),
        Ok(()) => None,
    })
}

fn swap(w: &mut World, i: usize, on: bool) -> Result<(), Viol> {
    let k = if on { "authorize_workers" } else { "unauthorize_workers" };
    let a = w.a.registry.clone();
    tx(w, GOV, &a, json!({ k: {"workers": [worker(i)], "service_name": "svc0"}}))?;
    Ok(())
}

/// set A, hand over to B, to A, then to B again: the second B counts as verified at once.
fn reuse(w: &mut World) -> Result<bool, Viol> {
    for on in [false, true] {
        swap(w, 3, on)?;
        if w.rotate("ethereum")?.is_err() {
            return Ok(false);
        }
    }
    swap(w, 3, false)?;
    let p = w.a.prover["ethereum"].clone();
    w.focus = "none".into();
    tx(w, RELAYER, &p, json!("update_worker_set"))?;
    tx(w, RELAYER, &p, json!("confirm_worker_set"))
}

fn earlier_set_again(w: &mut World) -> Result<Option<String>, Viol> {
    if reuse(w)? {
        let now = w.prover_set("ethereum").and_then(|s| s.ops(true));
        if now.as_ref() != w.ext["ethereum"].current() {
            return Ok(Some("handing over to a set that was in charge before is confirmed without the gateway having executed it".into()));
        }
    }
    Ok(None)
}

fn earlier_set_wedged(w: &mut World) -> Result<Option<String>, Viol> {
    if reuse(w)? {
        // the gateway has not executed the hand-over, and the prover signs with the new set
        let now = w.prover_set("ethereum").and_then(|s| s.ops(true));
        if now.as_ref() != w.ext["ethereum"].current() {
            return Ok(Some("a hand-over to an earlier set leaves prover and gateway with different signers; no hand-over after it is accepted".into()));
        }
    }
    Ok(None)
}

/// A worker registers the public key of another one: no gateway accepts the resulting set.
fn shared_key(w: &mut World) -> Result<Option<String>, Viol> {
    let ms = w.a.multisig.clone();
    let k = hex::encode(Key::from_name("worker0#0").pubkey(true));
    if !tx(w, &worker(3), &ms, json!({"register_public_key": {"public_key": {"ecdsa": k}}}))? {
        return Ok(None);
    }
    w.focus = "none".into();
    swap(w, 2, false)?;
    let p = w.a.prover["ethereum"].clone();
    if !tx(w, RELAYER, &p, json!("update_worker_set"))? {
        return Ok(None);
    }
    let id = *w.sessions.keys().last().unwrap();
    w.sign_all(id)?;
    w.ext_exec("ethereum", id)?;
    if w.ext["ethereum"].epochs.len() == 1 {
        // governance removes the offender, but the pending hand-over stays
        swap(w, 3, false)?;
        swap(w, 2, true)?;
        if !tx(w, RELAYER, &p, json!("update_worker_set"))? {
            return Ok(Some("a worker with another worker's public key makes a hand-over no gateway can execute, and it stays pending after governance removed that worker".into()));
        }
    }
    Ok(None)
}

fn run(p: &str, f: Finding) -> (Option<String>, Option<Viol>, Vec<Op>) {
    let p = p.to_string();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || match start(&p) {
            Err(v) => (None, Some(v), vec![]),
            Ok(mut w) => match f(&mut w) {
                Ok(x) => (x, None, w.ops),
                Err(v) => (None, Some(v), w.ops),
            },
        })
        .unwrap()
        .join()
        .unwrap_or((None, None, vec![]))
}

pub fn known(p: &str, dir: &str, known: &mut Vec<String>, extra: &mut Value) -> Result<(), (Viol, Replay)> {
    let listed = std::fs::read_to_string(format!("{dir}/known-findings.txt")).unwrap_or_default();
    let mut n = 0;
    for (q, name, f) in ALL {
        if q != p {
            continue;
        }
        n += 1;
        let (what, bad, ops) = run(p, f);
        let is_listed = listed.lines().any(|l| l.starts_with(&format!("known: property={p} scenario={name} ")));
        let v = match (what, bad) {
            (_, Some(v)) => Viol { tags: v.tags, rule: format!("scenario {name}"), detail: format!("{}: {}", v.rule, v.detail) },
            (Some(x), None) if is_listed => {
                known.push(format!("{name}: {x}"));
                continue;
            }
            (Some(x), None) => viol(&[p], &format!("scenario {name}"), x),
            (None, None) => continue,
        };
        let r = Replay { property: p.into(), rule: v.rule.clone(), detail: v.detail.clone(), verif_seed: 0, run: 0, cfg: cfg(), ops };
        return Err((v, r));
    }
    *extra = json!({ "known_finding_scenarios": n });
    Ok(())
}

/// Repeats a scenario for a replay file.
pub fn again(p: &str, name: &str) -> Outcome {
    let mut o = Outcome::default();
    for (q, nm, f) in ALL {
        if q == p && nm == name {
            let (what, bad, ops) = run(p, f);
            o.ops = ops;
            o.viol = match (what, bad) {
                (_, Some(v)) => Some(Viol { tags: v.tags, rule: format!("scenario {name}"), detail: format!("{}: {}", v.rule, v.detail) }),
                (Some(x), None) => Some(viol(&[p], &format!("scenario {name}"), x)),
                _ => None,
            };
        }
    }
    o
}
