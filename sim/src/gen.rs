//! Seeded generation: the deployment, and at every step the next operation, chosen from what an
//! off-chain party could know. Messages to the chain wait in a mempool from which they are taken
//! in random order, duplicated or lost.

use std::collections::BTreeMap;

use cosmwasm_std::Binary;
use serde_json::{json, Value};

use crate::chain::{Fault, FaultKind};
use crate::codec::{self, Key};
use crate::model::*;
use crate::recover::register_service;
use crate::rng::Rng;
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Cat {
    Emit,
    Verify,
    Route,
    Forge,
    Vote,
    EndPoll,
    Construct,
    Sign,
    Ext,
    WorkerSet,
    Registry,
    Stake,
    Rewards,
    Router,
    Freeze,
    Keys,
    Caller,
    Nexus,
    AccountGw,
    Batch,
    Credit,
}

const BASE: [(Cat, u64); 21] = [
    (Cat::Emit, 10),
    (Cat::Verify, 8),
    (Cat::Route, 8),
    (Cat::Forge, 4),
    (Cat::Vote, 4),
    (Cat::EndPoll, 4),
    (Cat::Construct, 6),
    (Cat::Sign, 4),
    (Cat::Ext, 3),
    (Cat::WorkerSet, 4),
    (Cat::Registry, 3),
    (Cat::Stake, 3),
    (Cat::Rewards, 3),
    (Cat::Router, 2),
    (Cat::Freeze, 2),
    (Cat::Keys, 2),
    (Cat::Caller, 2),
    (Cat::Nexus, 3),
    (Cat::AccountGw, 3),
    (Cat::Batch, 4),
    (Cat::Credit, 1),
];

fn focus(p: &str) -> &'static [(Cat, u64)] {
    use Cat::*;
    match p {
        "C01" | "C28" => &[(Emit, 16), (Forge, 12), (Construct, 12), (WorkerSet, 8), (Nexus, 4)],
        "C02" | "C03" | "C04" | "C05" => &[(Emit, 14), (Verify, 20), (Vote, 20), (EndPoll, 14), (Registry, 10), (Stake, 8), (WorkerSet, 8)],
        "C06" => &[(Verify, 25), (Route, 25), (Emit, 14), (Forge, 8)],
        "C07" | "C09" => &[(Router, 14), (AccountGw, 20), (Route, 12), (Nexus, 6), (Forge, 8)],
        "C08" => &[(Freeze, 20), (AccountGw, 20), (Route, 14), (Nexus, 10), (Router, 4)],
        "C10" => &[(AccountGw, 25), (Nexus, 10), (Route, 14), (Router, 4)],
        "C11" => &[(Nexus, 30), (AccountGw, 20), (Route, 10)],
        "C12" | "C13" | "C14" => &[(Sign, 30), (Caller, 16), (Keys, 14), (Construct, 12)],
        "C15" | "C16" => &[(Construct, 30), (Emit, 14), (AccountGw, 14), (WorkerSet, 6), (Ext, 6), (Router, 5)],
        "C17" | "C18" => &[(WorkerSet, 20), (Registry, 12), (Stake, 8), (Keys, 8), (Construct, 8)],
        "C19" => &[(Registry, 40), (Stake, 30)],
        "C20" => &[(Stake, 60), (Registry, 8)],
        "C21" | "C22" | "C23" | "C24" => &[(Rewards, 40), (Credit, 30), (EndPoll, 8)],
        "C25" => &[(Vote, 10), (EndPoll, 16), (Sign, 12), (Verify, 12)],
        "C26" => &[(Batch, 60)],
        "C27" => &[(Batch, 20), (Construct, 14), (EndPoll, 8), (Rewards, 8)],
        "C29" => &[(Emit, 16), (Forge, 20), (Verify, 20)],
        "C30" => &[(Router, 14), (Freeze, 8), (Registry, 10), (Caller, 10), (Nexus, 10), (Rewards, 8)],
        _ => &[],
    }
}

pub fn gen_cfg(property: &str, seed: u64) -> Cfg {
    let mut r = Rng::new(seed ^ 0xC0F1);
    let nc = r.range(2, 3) as usize;
    let names = ["ethereum", "sui-test", "avalanche"];
    let nsvc = r.range(1, 2) as usize;
    let maj = [(1u64, 2u64), (2, 3), (3, 5), (1, 1), (51, 100), (9, 10), (2, 3)];
    let majority = |r: &mut Rng| {
        let t = *r.pick(&maj);
        if t == (1, 2) {
            (501, 1000)
        } else {
            t
        }
    };
    let chains = (0..nc)
        .map(|i| ChainCfg {
            name: names[i].into(),
            abi: if i == 1 { r.pct(25) } else { r.pct(75) },
            chain_id: r.range(1, 90_000),
            svc: if nsvc == 1 { 0 } else { (i != 0) as usize },
            agg: r.pct(30),
            expiry: *r.pick(&[6, 10, 15, 25, 40]),
            vthr: majority(&mut r),
            sthr: majority(&mut r),
            conf: r.range(1, 100),
            gw_addr: format!("0xgateway{i}"),
            diff: *r.pick(&[0, 0, 0, 1, 2]),
        })
        .collect();
    let svcs = (0..nsvc)
        .map(|i| SvcCfg {
            name: format!("svc{i}"),
            min_bond: *r.pick(&[1, 10, 100]),
            denom: if i == 0 { "ubond".into() } else { r.pick(&["uaxl", "ubond"]).to_string() },
            days: *r.pick(&[0, 1, 7, 10]),
            min_workers: *r.pick(&[0, 1, 5, 200]),
            max_workers: *r.pick(&[None, Some(100), Some(1), Some(2), Some(4)]),
        })
        .collect();
    // now and then far more workers than anywhere in the tests
    let many = if ["C18", "C19", "C21"].contains(&property) { 41 } else { 22 };
    let workers = if r.pct(6) { r.range(9, many) } else { r.range(3, 7) } as usize;
    let nbyz = r.below(workers as u64 / 2 + 1) as usize;
    let mut idx: Vec<usize> = (0..workers).collect();
    r.shuffle(&mut idx);
    let mut byz = idx[..nbyz].to_vec();
    byz.sort();
    Cfg {
        property: property.into(),
        seed,
        chains,
        svcs,
        workers,
        byz,
        eoa_chain: r.pick(&["fantom", "fantom", "fantom", "eth", "ñandú-ÿ", "sui-test-2"]).to_string(),
        grace: *r.pick(&[0, 2, 5, 20]),
        rewards: {
            let d = r.range(1, 12);
            (*r.pick(&[3, 7, 15, 40]), *r.pick(&[1, 5, 100, 1000]), r.range(1, d), d)
        },
        height: r.range(1, 500),
        nanos: 1_700_000_000_000_000_000 + r.below(1_000_000_000_000),
    }
}

/// accounts that record participation for pools of their own
const CREDITORS: [&str; 2] = [USERS[2], USERS[1]];

pub struct Gen {
    r: Rng,
    mempool: Vec<Op>,
    weights: Vec<(Cat, u64)>,
    setup: Vec<Op>,
    seen_polls: usize,
    seen_session: u64,
    seen_rot: BTreeMap<String, usize>,
    done_sessions: Vec<u64>,
    key_gen: BTreeMap<String, u64>,
    events: Vec<ExtEvent>,
    nexus_msgs: Vec<Msg>,
    account_msgs: Vec<Msg>,
    tx_counter: u64,
    fault_pct: u64,
    loss_pct: u64,
    dup_pct: u64,
    block_pct: u64,
    restart_pm: u64,
    sets: Vec<WSet>,
    hostile_pct: u64,
    sweep: bool,
    nexus_pct: u64,
}

fn tx(from: &str, to: &str, msg: Value) -> Op {
    Op::Tx { from: from.into(), to: to.into(), msg, funds: vec![], fault: None }
}

fn paid(from: &str, to: &str, msg: Value, funds: Funds) -> Op {
    Op::Tx { from: from.into(), to: to.into(), msg, funds, fault: None }
}

impl Gen {
    pub fn new(w: &World) -> Gen {
        let cfg = &w.cfg;
        let mut r = Rng::new(cfg.seed);
        let mut weights: Vec<(Cat, u64)> = BASE.to_vec();
        // swarm: leave some kinds of activity out of a run altogether
        for x in weights.iter_mut() {
            if r.pct(20) {
                x.1 = 0;
            } else if r.pct(15) {
                x.1 *= 3;
            }
        }
        for (c, n) in focus(&cfg.property) {
            for x in weights.iter_mut() {
                if x.0 == *c {
                    x.1 = (x.1).max(n / 2) + n / 2;
                }
            }
        }
        let p = cfg.property.as_str();
        let mut g = Gen {
            mempool: vec![],
            weights,
            setup: vec![],
            seen_polls: 0,
            seen_session: 0,
            seen_rot: BTreeMap::new(),
            done_sessions: vec![],
            key_gen: BTreeMap::new(),
            events: vec![],
            nexus_msgs: vec![],
            account_msgs: vec![],
            tx_counter: 0,
            fault_pct: if p == "C27" { 30 } else { *r.pick(&[0, 2, 5, 10]) },
            loss_pct: *r.pick(&[0, 2, 5, 15]),
            dup_pct: *r.pick(&[0, 5, 10, 20]),
            block_pct: *r.pick(&[10, 20, 30, 40]),
            restart_pm: *r.pick(&[0, 2, 5, 10]),
            sets: vec![],
            hostile_pct: if p == "C30" { 40 } else { *r.pick(&[0, 3, 8, 15]) },
            sweep: p == "C27",
            nexus_pct: if p == "C11" { 45 } else { *r.pick(&[5, 5, 10, 30]) },
            r,
        };
        g.make_setup(w);
        g
    }

    pub fn setup_len(&self) -> usize {
        self.setup.len()
    }

    /// What ends a run: everything that can be paid out is, then recovery.
    pub fn epilogue(&mut self, w: &World) -> Vec<Op> {
        let a = &w.a;
        let mut ops = vec![];
        let p = w.cfg.property.as_str();
        if ["C20", "C21", "C22", "C23", "C24"].contains(&p) || self.r.pct(25) {
            ops.push(Op::Block { dh: 3 * w.cfg.rewards.0.max(10), dt: 5_000_000_000 });
            for addr in a.verifier.values().cloned().chain([a.multisig.clone()]).chain(CREDITORS.map(String::from)) {
                let addr = &addr;
                let h = w.chain.height + 3 * w.cfg.rewards.0.max(10);
                let lacks = w.model.as_ref().and_then(|m| {
                    let (_, pay) = m.rewards.due(addr, h, 1000)?;
                    pay.values().sum::<u128>().checked_sub(m.rewards.pools.get(addr).copied().unwrap_or(0))
                });
                let funds = vec![("uaxl".to_string(), lacks.filter(|l| *l > 0).unwrap_or(20_000))];
                ops.push(paid(RELAYER, &a.rewards, json!({"add_rewards": {"contract_address": addr}}), funds));
                let m = json!({"distribute_rewards": {"contract_address": addr, "epoch_count": 1000}});
                ops.push(tx(RELAYER, &a.rewards, m.clone()));
                ops.push(tx(RELAYER, &a.rewards, m));
            }
        }
        let exit: Vec<String> = if p == "C20" { (0..w.cfg.workers).map(worker).collect() } else { vec![] };
        for s in w.cfg.svcs.iter() {
            for x in &exit {
                ops.push(tx(x, &a.registry, json!({"declare_chain_support": {"service_name": s.name, "chains": []}})));
                ops.push(tx(x, &a.registry, json!({"unbond_worker": {"service_name": s.name}})));
            }
        }
        if !exit.is_empty() {
            ops.push(Op::Block { dh: 1000, dt: crate::recover::days(40) });
            for s in w.cfg.svcs.iter() {
                for x in &exit {
                    ops.push(tx(x, &a.registry, json!({"claim_stake": {"service_name": s.name}})));
                }
            }
        }
        ops.push(Op::Recover { seed: self.r.next() });
        ops
    }

    fn make_setup(&mut self, w: &World) {
        let cfg = &w.cfg;
        let a = &w.a;
        let mut ops = vec![];
        for (si, s) in cfg.svcs.iter().enumerate() {
            ops.push(tx(GOV, &a.registry, register_service(s)));
            let all: Vec<String> = (0..cfg.workers).map(worker).collect();
            let auth = if self.r.pct(60) { all.clone() } else { self.r.subset(&all, 70) };
            ops.push(tx(GOV, &a.registry, json!({"authorize_workers": {"workers": auth, "service_name": s.name}})));
            let chains: Vec<String> = cfg.chains.iter().filter(|c| c.svc == si).map(|c| c.name.clone()).collect();
            for x in &all {
                if self.r.pct(90) {
                    let amt = s.min_bond as u128 * self.r.range(1, 3) as u128;
                    ops.push(paid(x, &a.registry, json!({"bond_worker": {"service_name": s.name}}), vec![(s.denom.clone(), amt)]));
                    let cs = if self.r.pct(75) { chains.clone() } else { self.r.subset(&chains, 60) };
                    ops.push(tx(x, &a.registry, json!({"declare_chain_support": {"service_name": s.name, "chains": cs}})));
                }
            }
        }
        for i in 0..cfg.workers {
            let x = worker(i);
            if self.r.pct(96) {
                ops.push(self.register_key(w, &x));
            }
        }
        for c in &cfg.chains {
            ops.push(tx(GOV, &a.router, json!({"register_chain": {"chain": c.name, "gateway_address": a.gateway[&c.name]}})));
            ops.push(tx(GOV, &a.multisig, json!({"authorize_caller": {"contract_address": a.prover[&c.name]}})));
        }
        ops.push(tx(GOV, &a.router, json!({"register_chain": {"chain": cfg.eoa_chain, "gateway_address": EOA_GW}})));
        if self.r.pct(70) {
            ops.push(tx(GOV, &a.multisig, json!({"authorize_caller": {"contract_address": SIGNER_ACC}})));
        }
        for c in &cfg.chains {
            ops.push(tx(RELAYER, &a.prover[&c.name], json!("update_worker_set")));
        }
        for c in &cfg.chains {
            for addr in [&a.verifier[&c.name], &a.multisig] {
                if self.r.pct(70) {
                    let amt = self.r.range(100, 5000) as u128;
                    ops.push(paid(RELAYER, &a.rewards, json!({"add_rewards": {"contract_address": addr}}), vec![("uaxl".into(), amt)]));
                }
            }
        }
        ops.reverse();
        self.setup = ops;
    }

    fn register_key(&mut self, w: &World, who: &str) -> Op {
        let g = self.key_gen.entry(who.to_string()).or_insert(0);
        let name = format!("{who}#{}", *g % 6);
        *g += 1;
        let key = if self.r.pct(15) {
            json!({"ed25519": hex::encode(codec::ed25519_pub(&name))})
        } else {
            let compressed = self.r.pct(85);
            json!({"ecdsa": hex::encode(Key::from_name(&name).pubkey(compressed))})
        };
        tx(who, &w.a.multisig, json!({"register_public_key": {"public_key": key}}))
    }

    // ---------------------------------------------------------------- reactions

    fn react(&mut self, w: &World) {
        while self.seen_polls < w.polls.len() {
            let p = &w.polls[self.seen_polls];
            self.seen_polls += 1;
            for x in &p.parts {
                let op = if w.is_byz(x) && self.r.pct(85) {
                    self.byz_vote(w, x, p)
                } else {
                    let miss = if self.r.pct(10) { self.r.next() & 7 } else { 0 };
                    Op::HonestVote { worker: x.clone(), verifier: p.verifier.clone(), poll: p.id, miss }
                };
                self.mempool.push(op);
            }
            self.mempool.push(tx(RELAYER, &p.verifier, json!({"end_poll": {"poll_id": n(p.id)}})));
            if let ObsItems::Msgs(v) = &p.items {
                let ms: Vec<Value> = v
                    .iter()
                    .map(|i| {
                        json!({"cc_id": {"chain": p.chain, "id": format!("{}:{}", i.tx, i.index)}, "source_address": i.src,
                        "destination_chain": i.dst_chain, "destination_address": i.dst, "payload_hash": i.hash})
                    })
                    .collect();
                if let Some(g) = w.a.gateway.get(&p.chain) {
                    self.mempool.push(tx(RELAYER, g, json!({ "route_messages": ms })));
                }
            } else if let Some(x) = w.a.prover.get(&p.chain) {
                self.mempool.push(tx(RELAYER, x, json!("confirm_worker_set")));
            }
        }
        let seen = self.seen_session;
        for s in w.sessions.values().filter(|s| s.id > seen) {
            for x in s.keys.keys() {
                let op = if w.is_byz(x) && self.r.pct(70) {
                    self.byz_sign(w, x, s.id)
                } else {
                    Op::HonestSign { worker: x.clone(), session: s.id }
                };
                self.mempool.push(op);
            }
            self.seen_session = s.id;
        }
        for s in w.sessions.values().filter(|s| s.done && s.prover) {
            if !self.done_sessions.contains(&s.id) {
                self.done_sessions.push(s.id);
                self.mempool.push(Op::Ext { chain: s.chain.clone(), session: s.id });
            }
        }
        for (c, x) in &w.ext {
            let k = self.seen_rot.entry(c.clone()).or_insert(0);
            while *k < x.rotations.len() {
                let rot = &x.rotations[*k];
                *k += 1;
                self.mempool.push(verify_set(w, c, rot));
            }
        }
        if self.mempool.len() > 80 {
            let n = self.mempool.len() - 60;
            self.mempool.drain(..n);
        }
    }

    fn byz_vote(&mut self, w: &World, x: &str, p: &ObsPoll) -> Op {
        let n_items = match &p.items {
            ObsItems::Msgs(v) => v.len(),
            _ => 1,
        };
        let honest = w.honest_votes(p, 0);
        let all = [Vote::SucceededOnChain, Vote::FailedOnChain, Vote::NotFound];
        let mode = self.r.below(4);
        let mut votes: Vec<Vote> = (0..n_items)
            .map(|i| match mode {
                0 => Vote::SucceededOnChain,
                1 => *self.r.pick(&all),
                2 if honest[i] == Vote::SucceededOnChain => Vote::NotFound,
                2 => Vote::SucceededOnChain,
                _ => Vote::FailedOnChain,
            })
            .collect();
        match self.r.below(12) {
            0 => votes.push(Vote::SucceededOnChain),
            1 => {
                votes.pop();
            }
            _ => {}
        }
        tx(x, &p.verifier, json!({"vote": {"poll_id": n(p.id), "votes": votes}}))
    }

    fn byz_sign(&mut self, w: &World, x: &str, session: u64) -> Op {
        let Some(s) = w.sessions.get(&session) else { return Op::Restart };
        let mut digest: [u8; 32] = s.digest.clone().try_into().unwrap_or([0; 32]);
        let name = s.keys.get(x).and_then(|k| w.keys.get(&k.1)).cloned();
        let ty = s.keys.get(x).map(|k| k.0.clone()).unwrap_or("ecdsa".into());
        let own = name.clone().unwrap_or(format!("{x}#0"));
        let sig = match self.r.below(9) {
            0 => vec![7; 64],
            1 => {
                digest[3] ^= 1;
                Key::from_name(&own).sign(&digest)
            }
            2 => {
                let other = s.keys.iter().filter(|k| k.0 != x).find_map(|k| w.keys.get(&k.1 .1)).cloned();
                Key::from_name(&other.unwrap_or_else(|| "nobody".into())).sign(&digest)
            }
            3 => {
                // a signature of the same worker over another session's message
                let o = w.sessions.values().map(|o| o.digest.clone()).find(|d| *d != s.digest);
                let d: [u8; 32] = o.and_then(|d| d.try_into().ok()).unwrap_or([1; 32]);
                Key::from_name(&own).sign(&d)
            }
            4 => Key::from_name(&own).sign_high_s(&digest),
            5 => {
                let mut v = Key::from_name(&own).sign(&digest);
                v.push(0);
                v
            }
            6 => codec::ed25519_sign(&own, &digest),
            7 => {
                // with a key registered after the session started
                let g = self.r.below(6);
                Key::from_name(&format!("{x}#{g}")).sign(&digest)
            }
            _ if ty == "ed25519" => codec::ed25519_sign(&own, &digest),
            _ => Key::from_name(&own).sign(&digest),
        };
        tx(x, &w.a.multisig, json!({"submit_signature": {"session_id": n(session), "signature": hex::encode(sig)}}))
    }

    // ---------------------------------------------------------------- next operation

    pub fn next(&mut self, w: &World) -> Op {
        if let Some(op) = self.setup.pop() {
            return op;
        }
        self.react(w);
        if self.r.below(1000) < self.restart_pm {
            return Op::Restart;
        }
        if self.r.pct(self.block_pct) {
            return self.block(w);
        }
        let mem = if self.mempool.len() > 15 { 75 } else { 45 };
        let mut op = None;
        while op.is_none() {
            if !self.mempool.is_empty() && self.r.pct(mem) {
                let i = self.r.below(self.mempool.len() as u64) as usize;
                if self.r.pct(self.dup_pct) {
                    op = Some(self.mempool[i].clone());
                } else {
                    let o = self.mempool.swap_remove(i);
                    if self.r.pct(self.loss_pct) {
                        continue;
                    }
                    op = Some(o);
                }
            } else {
                let total: u64 = self.weights.iter().map(|x| x.1).sum();
                let mut k = self.r.below(total.max(1));
                let mut cat = Cat::Emit;
                for (c, n) in &self.weights {
                    if k < *n {
                        cat = *c;
                        break;
                    }
                    k -= n;
                }
                op = self.fresh(w, cat);
            }
        }
        let mut op = op.unwrap();
        // wrong sender
        if self.r.pct(self.hostile_pct) {
            if let Op::Tx { from, msg, .. } = &mut op {
                // a contract of the deployment calling what is none of its business
                let own = ["route_messages", "start_signing_session", "record_participation"].contains(&crate::check::variant(msg).as_str());
                *from = if self.r.pct(30) && !own { self.a_contract(w) } else { self.anyone(w) };
            }
        }
        if let Op::Tx { from, to, msg, funds, fault } = &mut op {
            if self.sweep && self.r.pct(12) {
                return Op::FaultSweep { from: from.clone(), to: to.clone(), msg: msg.clone(), funds: funds.clone() };
            }
            if self.r.pct(self.fault_pct) {
                let at = if self.r.pct(40) { self.r.below(3) } else { self.r.below(14) } as u32;
                let kind = if self.r.pct(50) { FaultKind::ErrBefore } else { FaultKind::ErrAfter };
                *fault = Some(Fault { at, kind });
                // the sender retries later
                if self.r.pct(70) {
                    self.mempool.push(Op::Tx { from: from.clone(), to: to.clone(), msg: msg.clone(), funds: funds.clone(), fault: None });
                }
            }
        }
        op
    }

    fn block(&mut self, w: &World) -> Op {
        let open = w.polls.iter().filter(|p| !p.ended && p.expires > w.chain.height).map(|p| p.expires).min();
        let dh = match self.r.below(20) {
            0 => self.r.range(20, 60),
            1 | 2 => open.map_or(1, |e| e - w.chain.height),
            3 => open.map_or(1, |e| (e - w.chain.height).saturating_sub(1).max(1)),
            4 => w.cfg.grace.max(1),
            5 => w.cfg.rewards.0,
            _ => self.r.range(1, 3),
        };
        let dt = match self.r.below(20) {
            0 => crate::recover::days(self.r.range(1, 10)),
            1 => {
                let d = w.cfg.svcs[0].days;
                crate::recover::days(d).saturating_sub(self.r.below(3))
            }
            2 => 1,
            _ => dh * 5_000_000_000,
        };
        Op::Block { dh, dt }
    }

    fn anyone(&mut self, w: &World) -> String {
        let mut v: Vec<String> = [GOV, ADMIN, RELAYER, NEXUS, EOA_GW, SIGNER_ACC].iter().chain(&USERS).map(|x| x.to_string()).collect();
        v.extend((0..w.cfg.workers).map(worker));
        self.r.pick(&v).clone()
    }

    fn a_contract(&mut self, w: &World) -> String {
        let a = &w.a;
        let mut v = vec![a.router.clone(), a.nexus.clone(), a.registry.clone(), a.rewards.clone(), a.multisig.clone()];
        for m in [&a.gateway, &a.verifier, &a.prover] {
            v.extend(m.values().cloned());
        }
        self.r.pick(&v).clone()
    }

    fn a_worker(&mut self, w: &World) -> String {
        worker(self.r.below(w.cfg.workers as u64) as usize)
    }

    fn dst(&mut self, w: &World, chain: &str) -> String {
        let abi = w.chain_cfg(chain).map_or(true, |c| c.abi);
        let b = self.r.bytes32();
        match self.r.below(25) {
            0 => "not-an-address".into(),
            1 => hex::encode(&b[..19]),
            _ if abi => format!("{}{}", if self.r.pct(70) { "0x" } else { "" }, hex::encode(&b[..20])),
            _ => format!("{}{}", if self.r.pct(50) { "0x" } else { "" }, hex::encode(b)),
        }
    }

    fn any_chain(&mut self, w: &World) -> String {
        if self.r.pct(self.nexus_pct) {
            return self.r.pick(&["osmosis", "osmosis", "osmosis", "Kujira"]).to_string();
        }
        match self.r.below(11) {
            0 => w.cfg.eoa_chain.clone(),
            2 => self.case(w.cfg.chains[0].name.clone()),
            3 => self.case(w.cfg.eoa_chain.clone()),
            _ => self.r.pick(&w.cfg.chains).name.clone(),
        }
    }

    /// event indices whose decimal notations are prefixes of each other
    fn index(&mut self) -> u64 {
        match self.r.below(10) {
            0..=4 => *self.r.pick(&[0u64, 1, 2, 3, 10, 11, 12, 20, 100, 101, 111, 1000]),
            5 => *self.r.pick(&[u64::MAX, u32::MAX as u64, 1 << 32, (1 << 53) + 1]),
            _ => self.r.below(12),
        }
    }

    fn case(&mut self, s: String) -> String {
        match self.r.below(3) {
            0 => s.to_uppercase(),
            1 => {
                let mut c = s.chars();
                c.next().map(|f| f.to_uppercase().to_string()).unwrap_or_default() + c.as_str()
            }
            _ => s,
        }
    }

    fn new_event(&mut self, w: &World) -> ExtEvent {
        let chain = self.r.pick(&w.cfg.chains).name.clone();
        let mut dst_chain = self.any_chain(w).to_lowercase();
        if dst_chain == chain && self.r.pct(80) {
            dst_chain = w.cfg.chains.iter().find(|c| c.name != chain).unwrap().name.clone();
        }
        let (tx, index) = match self.r.pick_opt(&self.events.iter().filter(|e| e.chain == chain).cloned().collect::<Vec<_>>()) {
            // another call in the same transaction
            Some(e) if self.r.pct(30) => {
                let e = e.clone();
                if self.r.pct(50) {
                    dst_chain = e.dst_chain.clone();
                }
                // often with an id of which the other is a prefix, or the other way round
                let i = match self.r.below(4) {
                    0 if e.index >= 10 => e.index / 10,
                    0 | 1 if e.index < 1 << 40 => e.index * 10 + self.r.below(10),
                    _ => self.index(),
                };
                (e.tx, i)
            }
            // the same transaction id on another chain
            _ if !self.events.is_empty() && self.r.pct(8) => {
                let e = self.r.pick(&self.events).clone();
                (e.tx, e.index)
            }
            _ => (format!("0x{}", hex::encode(self.r.bytes32())), self.index()),
        };
        let dst = self.dst(w, &dst_chain);
        ExtEvent {
            chain,
            tx,
            index,
            src: format!("0x{}", hex::encode(&self.r.bytes32()[..20])),
            dst_chain,
            dst,
            hash: hex::encode(self.r.bytes32()),
        }
    }

    fn some_events(&mut self, chain: Option<&str>, max: u64) -> Vec<Msg> {
        let v: Vec<&ExtEvent> = self.events.iter().filter(|e| chain.map_or(true, |c| e.chain == c)).collect();
        if v.is_empty() {
            return vec![];
        }
        let k = 1 + self.r.below(max);
        let mut out = vec![];
        for _ in 0..k {
            // recent ones mostly
            let i = if self.r.pct(70) { v.len() - 1 - self.r.below(v.len().min(6) as u64) as usize } else { self.r.below(v.len() as u64) as usize };
            let m = v[i].msg();
            if self.r.pct(4) || !out.contains(&m) {
                out.push(m);
            }
        }
        out
    }

    /// A message nobody emitted, often close to a genuine one.
    fn forged(&mut self, w: &World) -> Msg {
        let e = match self.r.pick_opt(&self.events.clone()) {
            Some(e) => e.clone(),
            None => self.new_event(w),
        };
        let mut m = e.msg();
        let (t, i) = (e.tx.clone(), e.index);
        match self.r.below(14) {
            0 => m.hash = hex::encode(self.r.bytes32()),
            1 => m.src = "0xattacker".into(),
            2 => m.dst = self.dst(w, &e.dst_chain),
            3 => m.dst_chain = self.any_chain(w).to_lowercase(),
            4 => m.id = format!("{t}:{}", i.saturating_add(1 + self.r.below(3))),
            5 => m.id = format!("0x{}:{}", hex::encode(self.r.bytes32()), i),
            6 => m.chain = self.r.pick(&w.cfg.chains).name.clone(),
            7 => m.id = format!("{t}:0{i}"),
            8 => m.id = format!("{t}:+{i}"),
            9 => m.id = t,
            10 => m.id = format!("{t}:{i}:0"),
            11 => m.id = format!("{t}:"),
            12 => m.id = format!("{t}:18446744073709551616"),
            _ => {
                if let Some(o) = self.r.pick_opt(&self.events) {
                    m.hash = o.hash.clone();
                    m.dst = o.dst.clone();
                }
            }
        }
        m
    }

    fn gw(&mut self, w: &World, chain: &str) -> String {
        match w.a.gateway.get(chain) {
            None => self.r.pick(&w.a.gateway.values().cloned().collect::<Vec<_>>()).clone(),
            Some(g) => {
                if self.r.pct(8) {
                    w.a.spare[chain].clone()
                } else {
                    g.clone()
                }
            }
        }
    }

    fn mixed(&mut self, w: &World, chain: &str) -> Vec<Value> {
        let long = self.r.pct(25);
        let mut v: Vec<Msg> = self.some_events(Some(chain), if long { 10 } else { 4 });
        if self.r.pct(15) {
            let f = self.forged(w);
            v.push(f);
        }
        if long {
            // some more on which the honest votes differ
            for _ in 0..self.r.below(4) {
                let mut f = self.forged(w);
                f.chain = chain.to_string();
                v.push(f);
            }
        }
        if self.r.pct(6) {
            let o = self.some_events(None, 2);
            v.extend(o);
        }
        if self.r.pct(5) && !v.is_empty() {
            let x = v[0].clone();
            v.push(x);
        }
        self.r.shuffle(&mut v);
        v.iter().map(|m| self.spell(m.json())).collect()
    }

    /// equivalent spellings
    fn spell(&mut self, mut v: Value) -> Value {
        if self.r.pct(8) {
            if let Some(c) = v["cc_id"]["chain"].as_str().map(|x| x.to_string()) {
                v["cc_id"]["chain"] = self.case(c).into();
            }
        }
        if self.r.pct(8) {
            if let Some(c) = v["destination_chain"].as_str().map(|x| x.to_string()) {
                v["destination_chain"] = self.case(c).into();
            }
        }
        v
    }

    fn fresh(&mut self, w: &World, cat: Cat) -> Option<Op> {
        let a = w.a.clone();
        let chain = self.r.pick(&w.cfg.chains).name.clone();
        let user = self.r.pick(&[RELAYER, USERS[0], USERS[1]]).to_string();
        Some(match cat {
            Cat::Emit => {
                let e = self.new_event(w);
                if self.events.iter().any(|o| o.chain == e.chain && o.tx == e.tx && o.index == e.index) {
                    return None;
                }
                self.events.push(e.clone());
                let g = self.gw(w, &e.chain);
                self.mempool.push(tx(RELAYER, &g, json!({"verify_messages": [e.msg().json()]})));
                if self.r.pct(60) {
                    if let Some(p) = a.prover.get(&e.dst_chain) {
                        let id = e.msg();
                        self.mempool.push(tx(RELAYER, p, json!({"construct_proof": {"message_ids": [{"chain": id.chain, "id": id.id}]}})));
                    }
                }
                Op::Emit { chain: e.chain, tx: e.tx, index: e.index, src: e.src, dst_chain: e.dst_chain, dst: e.dst, hash: e.hash }
            }
            Cat::Verify => {
                let ms = self.mixed(w, &chain);
                match self.r.below(10) {
                    0..=2 => tx(&user, &a.verifier[&chain], json!({"verify_messages": {"messages": ms}})),
                    3 => tx(&user, &a.agg[&chain], json!({"verify_messages": {"messages": ms}})),
                    _ => {
                        let g = self.gw(w, &chain);
                        tx(&user, &g, json!({ "verify_messages": ms }))
                    }
                }
            }
            Cat::Route => {
                let ms = self.mixed(w, &chain);
                let g = if self.r.pct(7) { a.router.clone() } else { self.gw(w, &chain) };
                tx(&user, &g, json!({ "route_messages": ms }))
            }
            Cat::Forge => {
                let m = self.forged(w);
                let g = self.gw(w, &m.chain);
                let k = if self.r.pct(60) { "verify_messages" } else { "route_messages" };
                let ok = self.r.pct(50);
                let j = m.json();
                if ok {
                    tx(&user, &g, json!({ k: [j] }))
                } else {
                    let o = self.some_events(Some(&m.chain), 2);
                    let mut v: Vec<Value> = o.iter().map(|m| m.json()).collect();
                    v.push(j);
                    tx(&user, &g, json!({ k: v }))
                }
            }
            Cat::Vote => {
                let p = self.recent_poll(w)?;
                let x = if self.r.pct(70) { self.r.pick_opt(&p.parts)?.clone() } else { self.a_worker(w) };
                if w.is_byz(&x) || !p.parts.contains(&x) || self.r.pct(15) {
                    if !w.is_byz(&x) && p.parts.contains(&x) {
                        // a worker whose daemon repeats itself
                        return Some(Op::HonestVote { worker: x, verifier: p.verifier.clone(), poll: p.id, miss: 0 });
                    }
                    self.byz_vote(w, &x, &p)
                } else {
                    Op::HonestVote { worker: x, verifier: p.verifier.clone(), poll: p.id, miss: 0 }
                }
            }
            Cat::EndPoll => {
                let p = self.recent_poll(w)?;
                let id = if self.r.pct(4) { 999 } else { p.id };
                tx(&user, &p.verifier, json!({"end_poll": {"poll_id": n(id)}}))
            }
            Cat::Construct => {
                let mut v: Vec<(String, String)> =
                    self.events.iter().filter(|e| e.dst_chain == chain).map(|e| e.msg().cc()).collect();
                v.extend(self.nexus_msgs.iter().chain(&self.account_msgs).filter(|m| m.dst_chain == chain).map(|m| m.cc()));
                let out: Vec<(String, String)> = w
                    .model
                    .as_ref()
                    .map(|m| m.gws[&a.gateway[&chain]].out.keys().cloned().collect())
                    .unwrap_or_default();
                let k = 1 + if self.r.pct(10) { self.r.below(12) } else { self.r.below(4) } as usize;
                let mut ids = vec![];
                for _ in 0..k {
                    let pool = if !out.is_empty() && self.r.pct(93) { &out } else { &v };
                    if let Some(x) = self.r.pick_opt(pool) {
                        if !ids.contains(x) {
                            ids.push(x.clone());
                        }
                    }
                }
                if self.r.pct(2) {
                    if let Some(e) = self.r.pick_opt(&self.events) {
                        ids.push(e.msg().cc());
                    }
                }
                let ids: Vec<Value> = ids.iter().map(|(c, i)| json!({"chain": c, "id": i})).collect();
                if ids.is_empty() && self.r.pct(90) {
                    return None;
                }
                tx(&user, &a.prover[&chain], json!({"construct_proof": {"message_ids": ids}}))
            }
            Cat::Sign => {
                let ids: Vec<u64> = w.sessions.keys().rev().take(8).cloned().collect();
                let id = *self.r.pick_opt(&ids)?;
                let s = &w.sessions[&id];
                let members: Vec<String> = s.keys.keys().cloned().collect();
                let x = if self.r.pct(80) { self.r.pick_opt(&members)?.clone() } else { self.a_worker(w) };
                if (w.is_byz(&x) || !members.contains(&x)) && self.r.pct(80) {
                    self.byz_sign(w, &x, id)
                } else {
                    Op::HonestSign { worker: x, session: id }
                }
            }
            Cat::Ext => {
                let ids: Vec<(u64, String)> = w.sessions.values().filter(|s| s.prover).map(|s| (s.id, s.chain.clone())).collect();
                let (id, c) = self.r.pick_opt(&ids)?.clone();
                Op::Ext { chain: c, session: id }
            }
            Cat::WorkerSet => match self.r.below(10) {
                0..=4 => tx(&user, &a.prover[&chain], json!("update_worker_set")),
                5..=6 => tx(&user, &a.prover[&chain], json!("confirm_worker_set")),
                7 => {
                    let rots = &w.ext[&chain].rotations;
                    match self.r.pick_opt(rots) {
                        Some(rot) => verify_set(w, &chain, rot),
                        None => return None,
                    }
                }
                _ => {
                    // a hand-over nobody executed
                    let m = w.model.as_ref()?;
                    let sets: Vec<_> = m.uni.opsets.iter().cloned().collect();
                    let mut o = self.r.pick_opt(&sets)?.clone();
                    if self.r.pct(50) {
                        o.threshold += 1;
                    }
                    let id = match self.r.pick_opt(&w.ext[&chain].rotations) {
                        Some(r) if self.r.pct(60) => format!("{}:{}", r.tx_id, r.index),
                        _ => format!("0x{}:{}", hex::encode(self.r.bytes32()), self.r.below(3)),
                    };
                    tx(&user, &a.verifier[&chain], json!({"verify_worker_set": {"message_id": id, "new_operators": ops_json(&o)}}))
                }
            },
            Cat::Registry => {
                let s = self.r.pick(&w.cfg.svcs).clone();
                let svc = if self.r.pct(4) { "nosuch".to_string() } else { s.name.clone() };
                let who = self.a_worker(w);
                match self.r.below(10) {
                    0..=2 => {
                        let mut many = vec![who];
                        while self.r.pct(25) {
                            many.push(if self.r.pct(90) { self.a_worker(w) } else { USERS[0].into() });
                        }
                        tx(GOV, &a.registry, json!({"unauthorize_workers": {"workers": many, "service_name": svc}}))
                    }
                    3..=5 => {
                        // rejoining workers bring a new key, so that no operator set returns
                        let mut many = vec![who.clone()];
                        while self.r.pct(30) {
                            many.push(if self.r.pct(90) { self.a_worker(w) } else { USERS[0].into() });
                        }
                        if self.r.pct(70) {
                            let k = self.register_key(w, &who);
                            self.mempool.push(k);
                        }
                        tx(GOV, &a.registry, json!({"authorize_workers": {"workers": many, "service_name": svc}}))
                    }
                    6..=8 => {
                        let all: Vec<String> =
                            w.cfg.chains.iter().map(|c| c.name.clone()).chain(std::iter::once("osmosis".to_string())).collect();
                        let cs: Vec<String> = self.r.subset(&all, 40).into_iter().map(|c| self.case(c)).collect();
                        tx(&who, &a.registry, json!({"declare_chain_support": {"service_name": svc, "chains": cs}}))
                    }
                    _ => {
                        let mut s2 = s.clone();
                        if self.r.pct(50) {
                            s2.name = "extra".into();
                        }
                        s2.min_bond += 1;
                        tx(GOV, &a.registry, register_service(&s2))
                    }
                }
            }
            Cat::Stake => {
                let s = self.r.pick(&w.cfg.svcs).clone();
                let svc = if self.r.pct(3) { "nosuch".to_string() } else { s.name.clone() };
                let who = if self.r.pct(95) { self.a_worker(w) } else { user };
                match self.r.below(10) {
                    0..=3 => {
                        let mut f: Funds = match self.r.below(12) {
                            0 => vec![],
                            1 => vec![("ufake".into(), 5)],
                            2 => vec![(s.denom.clone(), 5), ("ufake".into(), 3)],
                            3 => vec![(s.denom.clone(), 5_000_000)],
                            _ => {
                                let x = self.r.range(1, 2 * s.min_bond);
                                vec![(s.denom.clone(), x as u128)]
                            }
                        };
                        f.sort();
                        paid(&who, &a.registry, json!({"bond_worker": {"service_name": svc}}), f)
                    }
                    4..=6 => tx(&who, &a.registry, json!({"unbond_worker": {"service_name": svc}})),
                    _ => tx(&who, &a.registry, json!({"claim_stake": {"service_name": svc}})),
                }
            }
            Cat::Rewards => {
                let mut pools: Vec<String> = a.verifier.values().cloned().collect();
                pools.push(a.multisig.clone());
                pools.extend(CREDITORS.map(String::from));
                let pool = self.r.pick(&pools).clone();
                // now and then a pool gets exactly what it lacks, or almost
                let limit = self.r.range(1, 6);
                let lacks = w.model.as_ref().and_then(|m| {
                    let (_, pay) = m.rewards.due(&pool, w.chain.height, limit)?;
                    pay.values().sum::<u128>().checked_sub(m.rewards.pools.get(&pool).copied().unwrap_or(0))
                });
                if let Some(lacks) = lacks.filter(|l| *l > 0) {
                    if self.r.pct(50) {
                        let x = if lacks > 1 && self.r.pct(25) { lacks - 1 } else { lacks };
                        self.mempool.push(tx(&user, &a.rewards, json!({"distribute_rewards": {"contract_address": pool, "epoch_count": limit}})));
                        return Some(paid(&user, &a.rewards, json!({"add_rewards": {"contract_address": pool}}), vec![("uaxl".into(), x)]));
                    }
                }
                match self.r.below(10) {
                    0..=2 => {
                        let x = self.r.range(1, 3000) as u128;
                        let f = match self.r.below(12) {
                            0 => vec![("ufake".to_string(), x)],
                            1 => vec![("uaxl".to_string(), x), ("ubond".to_string(), 1)],
                            2 => vec![],
                            _ => vec![("uaxl".to_string(), x)],
                        };
                        paid(&user, &a.rewards, json!({"add_rewards": {"contract_address": pool}}), f)
                    }
                    3..=7 => {
                        let c = match self.r.below(10) {
                            0 => Value::Null,
                            1 => json!(0),
                            2 => json!(u64::MAX),
                            _ => json!(self.r.range(1, 4)),
                        };
                        tx(&user, &a.rewards, json!({"distribute_rewards": {"contract_address": pool, "epoch_count": c}}))
                    }
                    _ => {
                        let d = self.r.range(1, 12);
                        let nn = self.r.range(1, d);
                        let dur = *self.r.pick(&[1u64, 2, 5, 10, 20, 50]);
                        let amt = *self.r.pick(&[1u64, 7, 50, 1000]);
                        tx(
                            GOV,
                            &a.rewards,
                            json!({"update_params": {"params": {"epoch_duration": n(dur), "rewards_per_epoch": n(amt),
                                "participation_threshold": [n(nn), n(d)]}}}),
                        )
                    }
                }
            }
            Cat::Credit => {
                // pools of ordinary accounts: every call is a participation in its own events
                let k = self.r.below(6);
                let by = *self.r.pick(&CREDITORS);
                let who = self.a_worker(w);
                let id = if self.r.pct(50) { format!("e{}-{k}", w.chain.height / 3) } else { format!("f{}-{}", w.chain.height / 12, k / 3) };
                // the same worker is never recorded twice for one event
                if self.key_gen.contains_key(&format!("credit {by} {id} {who}")) {
                    return None;
                }
                let op = tx(by, &a.rewards, json!({"record_participation": {"event_id": id, "worker_address": who}}));
                self.tx_counter += 1;
                self.key_gen.insert(format!("credit {by} {id} {who}"), 1);
                op
            }
            Cat::Router => match self.r.below(10) {
                0..=3 => {
                    let c = self.any_chain(w);
                    let g = match self.r.below(4) {
                        0 => USERS[1].to_string(),
                        1 => a.spare.get(&c.to_lowercase()).cloned().unwrap_or(EOA_GW.into()),
                        2 => a.gateway[&chain].clone(),
                        _ => format!("newgateway{}", self.r.below(3)),
                    };
                    tx(GOV, &a.router, json!({"register_chain": {"chain": c, "gateway_address": g}}))
                }
                4 if w.cfg.chains.len() > 1 => {
                    // one chain's gateway becomes another chain's
                    let other = self.r.pick(&w.cfg.chains).name.clone();
                    if other == chain {
                        return None;
                    }
                    self.mempool.push(tx(GOV, &a.router, json!({"upgrade_gateway": {"chain": other, "contract_address": a.gateway[&chain]}})));
                    tx(GOV, &a.router, json!({"upgrade_gateway": {"chain": chain, "contract_address": a.spare[&chain]}}))
                }
                _ => {
                    let c = if self.r.pct(40) { w.cfg.eoa_chain.clone() } else { chain.clone() };
                    let g = if c == w.cfg.eoa_chain {
                        self.r.pick(&[EOA_GW.to_string(), USERS[0].to_string(), a.spare[&chain].clone()]).clone()
                    } else {
                        self.r.pick(&[a.gateway[&c].clone(), a.spare[&c].clone(), a.gateway[&chain].clone()]).clone()
                    };
                    let c = if self.r.pct(15) { self.case(c) } else { c };
                    tx(GOV, &a.router, json!({"upgrade_gateway": {"chain": c, "contract_address": g}}))
                }
            },
            Cat::Freeze => {
                let c = if self.r.pct(40) { w.cfg.eoa_chain.clone() } else { self.any_chain(w) };
                let d = self.r.pick(&["None", "Incoming", "Outgoing", "Bidirectional", "Incoming", "Outgoing"]).to_string();
                let k = if self.r.pct(45) { "freeze_chain" } else { "unfreeze_chain" };
                tx(ADMIN, &a.router, json!({k: {"chain": c, "direction": d}}))
            }
            Cat::Keys => match self.r.below(10) {
                0..=5 => {
                    let x = self.a_worker(w);
                    self.register_key(w, &x)
                }
                6 => {
                    let x = self.a_worker(w);
                    let k = match self.r.below(3) {
                        0 => json!({"ecdsa": "02".repeat(32)}),
                        1 => json!({"ed25519": "02".repeat(33)}),
                        _ => json!({"ecdsa": ""}),
                    };
                    tx(&x, &a.multisig, json!({"register_public_key": {"public_key": k}}))
                }
                _ => {
                    let s = self.custom_set(w);
                    tx(&user, &a.multisig, json!({"register_worker_set": {"worker_set": s.json()}}))
                }
            },
            Cat::Caller => match self.r.below(10) {
                0 => {
                    let c = self.r.pick(&[SIGNER_ACC.to_string(), a.prover[&chain].clone(), USERS[1].to_string()]).clone();
                    tx(GOV, &a.multisig, json!({"unauthorize_caller": {"contract_address": c}}))
                }
                1..=3 => {
                    let c = self.r.pick(&[SIGNER_ACC.to_string(), a.prover[&chain].clone(), USERS[1].to_string()]).clone();
                    tx(GOV, &a.multisig, json!({"authorize_caller": {"contract_address": c}}))
                }
                4 => {
                    let s = self.custom_set(w);
                    tx(&user, &a.multisig, json!({"register_worker_set": {"worker_set": s.json()}}))
                }
                _ => {
                    let mut ids: Vec<String> = self.sets.iter().map(|s| s.id()).collect();
                    if let Some(m) = &w.model {
                        ids.extend(m.provers.values().filter_map(|p| p.current.as_ref()).map(|c| c.id()));
                    }
                    ids.push("nosuchset".into());
                    let id = self.r.pick(&ids).clone();
                    let len = if self.r.pct(95) { 32 } else { 31 };
                    // sometimes a message another session already has
                    let d = match self.r.pick_opt(&w.sessions.values().map(|s| s.digest.clone()).collect::<Vec<_>>()) {
                        Some(d) if self.r.pct(20) => d.clone(),
                        _ => self.r.bytes32()[..len].to_vec(),
                    };
                    let who = self.r.pick(&[SIGNER_ACC, SIGNER_ACC, SIGNER_ACC, USERS[1]]).to_string();
                    tx(&who, &a.multisig, json!({"start_signing_session": {"worker_set_id": id, "msg": hex::encode(d), "chain_name": "customchain"}}))
                }
            },
            Cat::Nexus => {
                if self.r.pct(15) {
                    // towards nexus, from the wrong sender
                    let ms: Vec<Value> = self.some_events(None, 2).iter().map(|m| m.json()).collect();
                    return Some(tx(&user, &a.nexus, json!({ "route_messages": ms })));
                }
                let k = 1 + self.r.below(3);
                let mut v = vec![];
                for _ in 0..k {
                    if !self.nexus_msgs.is_empty() && self.r.pct(15) {
                        v.push(self.r.pick(&self.nexus_msgs).to_nexus());
                        continue;
                    }
                    let dst_chain = if self.r.pct(10) { self.any_chain(w).to_lowercase() } else { self.r.pick(&w.cfg.chains).name.clone() };
                    let b = self.r.bytes32();
                    let l = *self.r.pick(&[32usize, 20, 1]);
                    let src = self.r.pick(&["axelarnet", "cosmoshub", "osmosis"]).to_string();
                    let m = Msg {
                        chain: src,
                        id: match self.r.pick_opt(&self.nexus_msgs).cloned() {
                            Some(o) if self.r.pct(25) => format!("{}:{}", o.id.split(':').next().unwrap(), self.index()),
                            // bytes that are also readable text
                            _ if self.r.pct(10) => format!("{}:{}", hex::encode(hex::encode(&b[..16])), self.index()),
                            _ => format!("{}:{}", hex::encode(&b[..l]), self.index()),
                        },
                        src: "axelar1sender".into(),
                        dst: self.dst(w, &dst_chain),
                        dst_chain,
                        hash: hex::encode(self.r.bytes32()),
                    };
                    if self.nexus_msgs.iter().any(|o| o.cc() == m.cc()) {
                        continue;
                    }
                    v.push(m.to_nexus());
                    self.nexus_msgs.push(m);
                }
                tx(NEXUS, &a.nexus, json!({ "route_messages_from_nexus": v }))
            }
            Cat::AccountGw => {
                let k = 1 + self.r.below(4);
                let mut v: Vec<Value> = vec![];
                let mut cur: Vec<String> = vec![];
                let gw = w.model.as_ref().and_then(|m| m.router.chains.get(&w.cfg.eoa_chain)).map(|e| e.gw.clone()).unwrap_or(EOA_GW.into());
                let from = if self.r.pct(90) && !gw.starts_with("contract") { gw } else { EOA_GW.to_string() };
                for _ in 0..k {
                    let m = if !self.account_msgs.is_empty() && self.r.pct(20) {
                        self.r.pick(&self.account_msgs).clone()
                    } else {
                        let dst_chain = if self.r.pct(30) { "osmosis".to_string() } else { self.any_chain(w).to_lowercase() };
                        let b = self.r.bytes32();
                        let idx = if self.r.pct(50) { self.index() } else { self.r.below(300) };
                        let before = self.account_msgs.iter().chain(&self.nexus_msgs).filter(|m| m.id.contains(':')).map(|m| m.id.clone());
                        let mut before: Vec<String> = before.collect();
                        before.extend(self.events.iter().map(|e| e.msg().id));
                        let id = match self.r.below(12) {
                            0 => format!("plain-{}", hex::encode(&b[..4])),
                            1 => format!("0x{}:0{idx}", hex::encode(b)),
                            2 => format!("0x0x{}:{idx}", hex::encode(b)),
                            3 => format!("0x{}:18446744073709551616", hex::encode(&b[..5])),
                            4 => format!("0x{}:{idx}", hex::encode(b).to_uppercase()),
                            5 => format!("{}:{idx}", hex::encode(b)),
                            // another event of a transaction, or an id another chain uses as well
                            6 | 7 if !before.is_empty() => {
                                let o = self.r.pick(&before).clone();
                                if self.r.pct(50) {
                                    o
                                } else {
                                    format!("{}:{idx}", o.split(':').next().unwrap())
                                }
                            }
                            _ => format!("0x{}:{idx}", hex::encode(b)),
                        };
                        let m = Msg {
                            chain: if self.r.pct(95) { w.cfg.eoa_chain.clone() } else { chain.clone() },
                            id,
                            src: "0xsource".into(),
                            dst: self.dst(w, &dst_chain),
                            dst_chain,
                            hash: hex::encode(self.r.bytes32()),
                        };
                        if self.account_msgs.iter().any(|o| o.cc() == m.cc()) && self.r.pct(70) {
                            continue;
                        }
                        if m.chain == w.cfg.eoa_chain {
                            self.account_msgs.push(m.clone());
                        }
                        m
                    };
                    if cur.contains(&m.id) && self.r.pct(80) {
                        continue;
                    }
                    cur.push(m.id.clone());
                    v.push(m.json());
                }
                let v: Vec<Value> = v.into_iter().map(|x| self.spell(x)).collect();
                tx(&from, &a.router, json!({ "route_messages": v }))
            }
            Cat::Batch => {
                let (nm, no) = (self.r.below(3), self.r.below(4));
                let mut must = vec![];
                let mut may = vec![];
                for i in 0..nm + no {
                    for _ in 0..8 {
                        let c = if self.r.pct(12) {
                            let to = self.r.pick(&[USERS[0].to_string(), a.registry.clone(), USERS[2].to_string()]).clone();
                            let amt = if self.r.pct(20) { 50_000_000 } else { self.r.range(1, 50) };
                            Some(json!({"bank": {"send": {"to_address": to, "amount": [{"denom": "uaxl", "amount": n(amt)}]}}}))
                        } else {
                            self.batchable(w)
                        };
                        if let Some(c) = c {
                            if i < nm {
                                must.push(c);
                            } else {
                                may.push(c);
                            }
                            break;
                        }
                    }
                }
                let f = if self.r.pct(10) { vec![("uaxl".to_string(), self.r.range(1, 9) as u128)] } else { vec![] };
                paid(&user, &a.batching, json!({"batch": {"must_succeed_msgs": must, "can_fail_msgs": may}}), f)
            }
        })
    }

    fn batchable(&mut self, w: &World) -> Option<Value> {
        let op = if !self.mempool.is_empty() && self.r.pct(40) {
            self.r.pick(&self.mempool).clone()
        } else {
            let cats = [
                Cat::Verify,
                Cat::Route,
                Cat::Construct,
                Cat::EndPoll,
                Cat::WorkerSet,
                Cat::Rewards,
                Cat::Stake,
                Cat::Registry,
                Cat::Router,
                Cat::Freeze,
                Cat::Caller,
                Cat::Nexus,
                Cat::Forge,
                Cat::Keys,
            ];
            let c = *self.r.pick(&cats);
            self.fresh(w, c)?
        };
        let Op::Tx { to, msg, funds, .. } = op else { return None };
        if to == w.a.batching || !to.starts_with("contract") || msg.get("register_public_key").is_some() {
            return None;
        }
        let funds: Vec<Value> = funds.iter().map(|(d, x)| json!({"denom": d, "amount": x.to_string()})).collect();
        let m = Binary(serde_json::to_vec(&msg).unwrap()).to_base64();
        Some(json!({"wasm": {"execute": {"contract_addr": to, "msg": m, "funds": funds}}}))
    }

    fn recent_poll(&mut self, w: &World) -> Option<ObsPoll> {
        if w.polls.is_empty() {
            return None;
        }
        let k = w.polls.len();
        let i = if self.r.pct(75) { k - 1 - self.r.below(k.min(5) as u64) as usize } else { self.r.below(k as u64) as usize };
        Some(w.polls[i].clone())
    }

    /// A worker set with arbitrary weights, for sessions of an authorized account.
    fn custom_set(&mut self, w: &World) -> WSet {
        let mut signers = BTreeMap::new();
        let mut total = 0u128;
        for i in 0..w.cfg.workers {
            if self.r.pct(30) {
                continue;
            }
            let x = worker(i);
            let name = format!("{x}#{}", self.r.below(6));
            let key = if self.r.pct(25) {
                ("ed25519".to_string(), hex::encode(codec::ed25519_pub(&name)))
            } else {
                ("ecdsa".to_string(), hex::encode(Key::from_name(&name).pubkey(true)))
            };
            let weight = *self.r.pick(&[1u128, 1, 2, 5, 10, 1 << 70]);
            total += weight;
            signers.insert(x, Signer { weight, key });
        }
        let threshold = match self.r.below(6) {
            0 => total,
            1 => total + 1,
            2 => 1,
            _ => total / 2 + 1,
        };
        let s = WSet { signers, threshold, created: self.r.below(100) };
        if !s.signers.is_empty() {
            self.sets.push(s.clone());
        }
        s
    }
}

fn verify_set(w: &World, chain: &str, rot: &crate::ext::Rotation) -> Op {
    tx(
        RELAYER,
        &w.a.verifier[chain],
        json!({"verify_worker_set": {"message_id": format!("{}:{}", rot.tx_id, rot.index), "new_operators": ops_json(&rot.ops)}}),
    )
}
