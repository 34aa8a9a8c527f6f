//! One simulated deployment: the real contracts, the reference model, the external chains, the
//! ground truth of what happened on them, and what off-chain actors can observe.

use std::collections::{BTreeMap, BTreeSet};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::chain::{Chain, Code, Fault, SimEvent};
use crate::codec::{self, Key, OpSet};
use crate::ext::{Approval, ExtGw, Rotation};
use crate::model::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChainCfg {
    pub name: String,
    pub abi: bool,
    pub chain_id: u64,
    pub svc: usize,
    pub agg: bool,
    pub expiry: u64,
    pub vthr: (u64, u64),
    pub sthr: (u64, u64),
    pub conf: u64,
    pub gw_addr: String,
    pub diff: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SvcCfg {
    pub name: String,
    pub min_bond: u64,
    pub denom: String,
    pub days: u64,
    /// bounds on the number of workers that a service may state; nothing enforces them
    #[serde(default = "one")]
    pub min_workers: u64,
    #[serde(default)]
    pub max_workers: Option<u64>,
}

fn one() -> u64 {
    1
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub property: String,
    pub seed: u64,
    pub chains: Vec<ChainCfg>,
    pub svcs: Vec<SvcCfg>,
    pub workers: usize,
    /// indices of dishonest workers
    pub byz: Vec<usize>,
    /// name of the chain whose gateway is an ordinary account
    pub eoa_chain: String,
    pub grace: u64,
    /// epoch duration, rewards per epoch, threshold
    pub rewards: (u64, u64, u64, u64),
    pub height: u64,
    pub nanos: u64,
}

pub const GOV: &str = "governance";
pub const ADMIN: &str = "admin";
pub const RELAYER: &str = "relayer";
pub const NEXUS: &str = "nexusmodule";
pub const EOA_GW: &str = "accountgateway";
pub const SIGNER_ACC: &str = "signingcaller";
pub const USERS: [&str; 3] = ["alice", "mallory", "trudy"];
pub const DENOMS: [&str; 3] = ["uaxl", "ubond", "ufake"];

pub fn worker(i: usize) -> String {
    format!("worker{i}")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    /// a transaction of an account
    Tx {
        from: String,
        to: String,
        msg: Value,
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        funds: Funds,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        fault: Option<Fault>,
    },
    /// an honest worker's daemon votes on a poll after looking at its node of the source chain
    /// (which lags behind on the items of `miss`)
    HonestVote { worker: String, verifier: String, poll: u64, miss: u64 },
    /// an honest worker's daemon signs a session's message
    HonestSign { worker: String, session: u64 },
    /// blocks pass
    Block { dh: u64, dt: u64 },
    /// the node crashes and restarts from its durable state
    Restart,
    /// a contract call is emitted by the gateway of an external chain
    Emit { chain: String, tx: String, index: u64, src: String, dst_chain: String, dst: String, hash: String },
    /// a relayer submits the proof of a session to the destination chain's gateway
    Ext { chain: String, session: u64 },
    /// every seam of this transaction is made to fail in turn (in forks)
    FaultSweep { from: String, to: String, msg: Value, funds: Funds },
    /// faults stop; honest parties drive everything pending to completion
    Recover { seed: u64 },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Viol {
    pub tags: Vec<String>,
    pub rule: String,
    pub detail: String,
}

pub fn viol(tags: &[&str], rule: &str, detail: impl Into<String>) -> Viol {
    Viol { tags: tags.iter().map(|t| t.to_string()).collect(), rule: rule.into(), detail: detail.into() }
}

#[derive(Clone, Debug)]
pub struct ExtEvent {
    pub chain: String,
    pub tx: String,
    pub index: u64,
    pub src: String,
    pub dst_chain: String,
    pub dst: String,
    pub hash: String,
}

impl ExtEvent {
    pub fn msg(&self) -> Msg {
        Msg {
            chain: self.chain.clone(),
            id: format!("{}:{}", self.tx, self.index),
            src: self.src.clone(),
            dst_chain: self.dst_chain.clone(),
            dst: self.dst.clone(),
            hash: self.hash.clone(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct ObsItem {
    pub tx: String,
    pub index: u64,
    pub src: String,
    pub dst_chain: String,
    pub dst: String,
    pub hash: String,
}

#[derive(Clone, Debug)]
pub enum ObsItems {
    Msgs(Vec<ObsItem>),
    Ws(String, u64, OpSet),
}

#[derive(Clone, Debug)]
pub struct ObsPoll {
    pub verifier: String,
    pub id: u64,
    pub chain: String,
    pub gw: String,
    pub items: ObsItems,
    pub parts: Vec<String>,
    pub expires: u64,
    pub ended: bool,
}

#[derive(Clone, Debug)]
pub struct ObsSession {
    pub id: u64,
    pub set: String,
    pub chain: String,
    pub digest: Vec<u8>,
    /// worker -> (key type, key)
    pub keys: BTreeMap<String, (String, String)>,
    pub done: bool,
    pub prover: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Addrs {
    pub registry: String,
    pub rewards: String,
    pub multisig: String,
    pub router: String,
    pub nexus: String,
    pub batching: String,
    pub verifier: BTreeMap<String, String>,
    pub agg: BTreeMap<String, String>,
    pub gateway: BTreeMap<String, String>,
    pub prover: BTreeMap<String, String>,
    pub spare: BTreeMap<String, String>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub txs: u64,
    pub accepted: u64,
    pub refused: u64,
    pub faults: BTreeMap<String, u64>,
    pub restarts: u64,
    pub approvals: u64,
    pub rotations: u64,
    pub recoveries: u64,
    pub views: u64,
    pub forks: u64,
    pub states: BTreeSet<u64>,
    pub counts: BTreeMap<String, u64>,
}

impl Stats {
    pub fn bump(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
}

pub struct World {
    pub cfg: Cfg,
    pub chain: Chain,
    /// None once the real system diverged from it
    pub model: Option<Model>,
    pub ext: BTreeMap<String, ExtGw>,
    pub events: Vec<ExtEvent>,
    /// messages the nexus module and the account gateway sent
    pub sent: BTreeSet<Msg>,
    /// every (chain, gateway) governance ever appointed
    pub gateways: BTreeSet<(String, String)>,
    pub polls: Vec<ObsPoll>,
    pub sessions: BTreeMap<u64, ObsSession>,
    pub a: Addrs,
    /// public key -> name it was derived from
    pub keys: BTreeMap<String, String>,
    /// messages (concat form) of polls in which dishonest participants could decide
    pub excused: BTreeSet<String>,
    pub excused_sets: BTreeSet<OpSet>,
    /// chains for which an operator set was used twice (known finding) or is otherwise out of scope
    pub tainted: BTreeSet<String>,
    pub stats: Stats,
    pub ops: Vec<Op>,
    pub focus: String,
    pub diverged: Option<Viol>,
    pub sim_start: u64,
    /// look at everything, not at a sample
    pub thorough_views: bool,
    /// the session the last transaction was about
    pub touched: Option<u64>,
}

pub fn norm_tx(t: &str) -> String {
    let t = t.to_lowercase();
    t.strip_prefix("0x").unwrap_or(&t).to_string()
}

pub fn n(v: u64) -> String {
    v.to_string()
}

impl World {
    pub fn new(cfg: Cfg) -> Result<World, String> {
        let mut c = Chain::new(cfg.height, cfg.nanos);
        let mut accounts: Vec<String> =
            [GOV, ADMIN, RELAYER, NEXUS, EOA_GW, SIGNER_ACC].iter().chain(&USERS).map(|x| x.to_string()).collect();
        accounts.extend((0..cfg.workers).map(worker));
        let mut bank = BTreeMap::new();
        let mut give = |c: &mut Chain, who: &str, amt: u128| {
            let coins: Vec<(String, u128)> = DENOMS.iter().map(|d| (d.to_string(), amt)).collect();
            c.fund(who, &coins);
            for (d, a) in coins {
                bank.insert((who.to_string(), d), a);
            }
        };
        for a in &accounts {
            give(&mut c, a, 1_000_000);
        }
        let mut a = Addrs::default();
        let thr = |t: (u64, u64)| json!([n(t.0), n(t.1)]);
        let rw = &cfg.rewards;
        let rparams = json!({"epoch_duration": n(rw.0), "rewards_per_epoch": n(rw.1), "participation_threshold": thr((rw.2, rw.3))});
        a.registry = c.instantiate(Code::Registry, GOV, &json!({"governance_account": GOV}))?;
        a.rewards = c.instantiate(
            Code::Rewards,
            GOV,
            &json!({"governance_address": GOV, "rewards_denom": "uaxl", "params": rparams}),
        )?;
        a.multisig = c.instantiate(
            Code::Multisig,
            GOV,
            &json!({"governance_address": GOV, "rewards_address": a.rewards, "grace_period": cfg.grace}),
        )?;
        a.router = c.instantiate(
            Code::Router,
            GOV,
            &json!({"admin_address": ADMIN, "governance_address": GOV, "nexus_gateway": "contract4"}),
        )?;
        a.nexus = c.instantiate(Code::NexusGateway, GOV, &json!({"nexus": NEXUS, "router": a.router}))?;
        if a.nexus != "contract4" {
            return Err(format!("unexpected contract address {}", a.nexus));
        }
        a.batching = c.instantiate(Code::Batching, GOV, &json!({}))?;
        give(&mut c, &a.batching, 1_000_000);
        let mut m = Model {
            height: cfg.height,
            nanos: cfg.nanos,
            contracts: BTreeMap::new(),
            bank,
            registry: Registry { gov: GOV.into(), ..Default::default() },
            rewards: Rewards {
                gov: GOV.into(),
                denom: "uaxl".into(),
                params: parse_rparams(&rparams).ok_or("bad reward parameters")?,
                mark: (0, cfg.height),
                events: BTreeMap::new(),
                tallies: BTreeMap::new(),
                pools: BTreeMap::new(),
                water: BTreeMap::new(),
            },
            multisig: Multisig { gov: GOV.into(), rewards: a.rewards.clone(), grace: cfg.grace, ..Default::default() },
            router: Router { admin: ADMIN.into(), gov: GOV.into(), nexus_gw: a.nexus.clone(), ..Default::default() },
            nexus: NexusGw { nexus: NEXUS.into(), router: a.router.clone(), ..Default::default() },
            vers: BTreeMap::new(),
            gws: BTreeMap::new(),
            provers: BTreeMap::new(),
            nexus_log: vec![],
            uni: Universe::default(),
            a_registry: a.registry.clone(),
            a_rewards: a.rewards.clone(),
            a_multisig: a.multisig.clone(),
            a_router: a.router.clone(),
            a_nexus: a.nexus.clone(),
            a_batching: a.batching.clone(),
        };
        m.contracts.insert(a.registry.clone(), CRef::Registry);
        m.contracts.insert(a.rewards.clone(), CRef::Rewards);
        m.contracts.insert(a.multisig.clone(), CRef::Multisig);
        m.contracts.insert(a.router.clone(), CRef::Router);
        m.contracts.insert(a.nexus.clone(), CRef::Nexus);
        m.contracts.insert(a.batching.clone(), CRef::Batching);
        m.uni.denoms.extend(DENOMS.iter().map(|d| d.to_string()));
        m.uni.workers.extend((0..cfg.workers).map(worker));
        let mut ext = BTreeMap::new();
        for ch in &cfg.chains {
            let svc = &cfg.svcs[ch.svc];
            let ver = c.instantiate(
                Code::Verifier,
                GOV,
                &json!({"service_registry_address": a.registry, "service_name": svc.name, "source_gateway_address": ch.gw_addr,
                    "voting_threshold": thr(ch.vthr), "block_expiry": ch.expiry, "confirmation_height": ch.conf,
                    "source_chain": ch.name, "rewards_address": a.rewards}),
            )?;
            let agg = c.instantiate(Code::Aggregate, GOV, &json!({"verifier_address": ver}))?;
            let front = if ch.agg { agg.clone() } else { ver.clone() };
            let gw = c.instantiate(Code::Gateway, GOV, &json!({"verifier_address": front, "router_address": a.router}))?;
            let prover = c.instantiate(
                Code::Prover,
                GOV,
                &json!({"admin_address": GOV, "gateway_address": gw, "multisig_address": a.multisig,
                    "service_registry_address": a.registry, "voting_verifier_address": ver,
                    "destination_chain_id": n(ch.chain_id), "signing_threshold": thr(ch.sthr), "service_name": svc.name,
                    "chain_name": ch.name, "worker_set_diff_threshold": ch.diff,
                    "encoder": if ch.abi {"abi"} else {"bcs"}, "key_type": "ecdsa"}),
            )?;
            let spare = c.instantiate(Code::Gateway, GOV, &json!({"verifier_address": front, "router_address": a.router}))?;
            m.contracts.insert(ver.clone(), CRef::Ver);
            m.contracts.insert(agg.clone(), CRef::Agg(ver.clone()));
            m.contracts.insert(gw.clone(), CRef::Gw);
            m.contracts.insert(spare.clone(), CRef::Gw);
            m.contracts.insert(prover.clone(), CRef::Prover);
            m.uni.chains.insert(ch.name.clone());
            m.vers.insert(
                ver.clone(),
                Verifier {
                    cfg: VCfg {
                        registry: a.registry.clone(),
                        rewards: a.rewards.clone(),
                        service: svc.name.clone(),
                        chain: ch.name.clone(),
                        gw_addr: ch.gw_addr.clone(),
                        thr: ch.vthr,
                        expiry: ch.expiry,
                        conf: ch.conf,
                    },
                    polls: BTreeMap::new(),
                    msg_poll: BTreeMap::new(),
                    ws_poll: BTreeMap::new(),
                },
            );
            for g in [&gw, &spare] {
                m.gws.insert(g.clone(), Gateway { verifier: front.clone(), router: a.router.clone(), out: BTreeMap::new() });
            }
            m.provers.insert(
                prover.clone(),
                Prover {
                    cfg: PCfg {
                        gateway: gw.clone(),
                        verifier: ver.clone(),
                        chain_id: ch.chain_id as u128,
                        thr: ch.sthr,
                        service: svc.name.clone(),
                        chain: ch.name.clone(),
                        diff: ch.diff,
                        abi: ch.abi,
                    },
                    current: None,
                    next: None,
                    batches: BTreeMap::new(),
                    sessions: BTreeMap::new(),
                    history: vec![],
                },
            );
            ext.insert(ch.name.clone(), ExtGw { abi: ch.abi, chain_id: ch.chain_id as u128, ..Default::default() });
            a.verifier.insert(ch.name.clone(), ver);
            a.agg.insert(ch.name.clone(), agg);
            a.gateway.insert(ch.name.clone(), gw);
            a.prover.insert(ch.name.clone(), prover);
            a.spare.insert(ch.name.clone(), spare);
        }
        m.uni.chains.insert(cfg.eoa_chain.clone());
        let mut keys = BTreeMap::new();
        for i in 0..cfg.workers {
            for g in 0..6 {
                let name = format!("{}#{g}", worker(i));
                let k = Key::from_name(&name);
                keys.insert(hex::encode(k.pubkey(true)), name.clone());
                keys.insert(hex::encode(k.pubkey(false)), name.clone());
                keys.insert(hex::encode(codec::ed25519_pub(&name)), name.clone());
            }
        }
        Ok(World {
            focus: cfg.property.clone(),
            sim_start: cfg.nanos,
            thorough_views: false,
            touched: None,
            cfg,
            chain: c,
            model: Some(m),
            ext,
            events: vec![],
            sent: BTreeSet::new(),
            gateways: BTreeSet::new(),
            polls: vec![],
            sessions: BTreeMap::new(),
            a,
            keys,
            excused: BTreeSet::new(),
            excused_sets: BTreeSet::new(),
            tainted: BTreeSet::new(),
            stats: Stats::default(),
            ops: vec![],
            diverged: None,
        })
    }

    pub fn is_byz(&self, w: &str) -> bool {
        self.cfg.byz.iter().any(|i| worker(*i) == w)
    }

    pub fn chain_cfg(&self, name: &str) -> Option<&ChainCfg> {
        self.cfg.chains.iter().find(|c| c.name == name)
    }

    // ---------------------------------------------------------------- observation

    /// What off-chain parties learn from the events of an executed transaction.
    pub fn observe(&mut self, events: &[SimEvent]) {
        for e in events {
            let at = e.get("_contract_addr").unwrap_or("").to_string();
            let num = |k: &str| e.get(k).and_then(|x| x.trim_matches('"').parse::<u64>().ok());
            match e.ty.as_str() {
                "wasm-messages_poll_started" | "wasm-worker_set_poll_started" => {
                    let (Some(id), Some(expires)) = (num("poll_id"), num("expires_at")) else { continue };
                    let parse = |k: &str| e.get(k).and_then(|x| serde_json::from_str::<Value>(x).ok()).unwrap_or(Value::Null);
                    let st = |v: &Value| v.as_str().unwrap_or("").to_string();
                    let items = if e.ty == "wasm-messages_poll_started" {
                        ObsItems::Msgs(
                            parse("messages")
                                .as_array()
                                .into_iter()
                                .flatten()
                                .map(|v| ObsItem {
                                    tx: st(&v["tx_id"]),
                                    index: v["event_index"].as_u64().unwrap_or(u64::MAX),
                                    src: st(&v["source_address"]),
                                    dst_chain: st(&v["destination_chain"]),
                                    dst: st(&v["destination_address"]),
                                    hash: st(&v["payload_hash"]),
                                })
                                .collect(),
                        )
                    } else {
                        let v = parse("worker_set");
                        let Some(ops) = ops_key(&v["operators"]) else { continue };
                        ObsItems::Ws(st(&v["tx_id"]), v["event_index"].as_u64().unwrap_or(u64::MAX), ops)
                    };
                    let parts: Vec<String> =
                        parse("participants").as_array().into_iter().flatten().map(|x| st(x)).collect();
                    let p = ObsPoll {
                        verifier: at,
                        id,
                        chain: e.get("source_chain").unwrap_or("").into(),
                        gw: e.get("source_gateway_address").unwrap_or("").into(),
                        items,
                        parts,
                        expires,
                        ended: false,
                    };
                    self.excuse(&p);
                    self.polls.push(p);
                }
                "wasm-poll_ended" => {
                    if let Some(id) = num("poll_id") {
                        if let Some(p) = self.polls.iter_mut().find(|p| p.verifier == at && p.id == id) {
                            p.ended = true;
                        }
                    }
                }
                "wasm-signing_started" => {
                    let Some(id) = num("session_id") else { continue };
                    let keys = e
                        .get("pub_keys")
                        .and_then(|x| serde_json::from_str::<Value>(x).ok())
                        .and_then(|v| v.as_object().cloned())
                        .unwrap_or_default()
                        .into_iter()
                        .filter_map(|(w, k)| {
                            let (t, k) = k.as_object()?.iter().next()?;
                            Some((w, (t.clone(), k.as_str()?.to_string())))
                        })
                        .collect();
                    self.sessions.insert(
                        id,
                        ObsSession {
                            id,
                            set: e.get("worker_set_id").unwrap_or("").into(),
                            chain: e.get("chain").unwrap_or("").into(),
                            digest: hex::decode(e.get("msg").unwrap_or("")).unwrap_or_default(),
                            keys,
                            done: false,
                            prover: false,
                        },
                    );
                }
                "wasm-signing_completed" => {
                    if let Some(s) = num("session_id").and_then(|id| self.sessions.get_mut(&id)) {
                        s.done = true;
                    }
                }
                "wasm-proof_under_construction" => {
                    if let Some(s) = num("multisig_session_id").and_then(|id| self.sessions.get_mut(&id)) {
                        s.prover = true;
                    }
                }
                _ => {}
            }
        }
        // sessions opened by a prover are known by their chain too
        for s in self.sessions.values_mut() {
            if !s.prover && self.a.prover.contains_key(&s.chain) && s.id > 0 {
                s.prover = true;
            }
        }
    }

    /// Polls in which dishonest participants alone reach the threshold prove nothing.
    fn excuse(&mut self, p: &ObsPoll) {
        let Some(c) = self.chain_cfg(&p.chain) else { return };
        let byz = p.parts.iter().filter(|w| self.is_byz(w)).count() as u64;
        let quorum = (p.parts.len() as u64 * c.vthr.0 + c.vthr.1 - 1) / c.vthr.1;
        if byz < quorum {
            return;
        }
        match &p.items {
            ObsItems::Msgs(v) => {
                for i in v {
                    let k = format!("{}:{}:{}", p.chain, i.tx, i.index);
                    self.excused.insert(k);
                }
            }
            ObsItems::Ws(_, _, o) => {
                self.excused_sets.insert(o.clone().sorted());
            }
        }
    }

    // ---------------------------------------------------------------- honest daemons

    pub fn honest_votes(&self, p: &ObsPoll, miss: u64) -> Vec<Vote> {
        let gw_ok = self.chain_cfg(&p.chain).map_or(false, |c| c.gw_addr == p.gw);
        match &p.items {
            ObsItems::Msgs(v) => v
                .iter()
                .enumerate()
                .map(|(i, it)| {
                    if miss >> i.min(63) & 1 == 1 || !gw_ok {
                        return Vote::NotFound;
                    }
                    let same_tx: Vec<&ExtEvent> =
                        self.events.iter().filter(|e| e.chain == p.chain && norm_tx(&e.tx) == norm_tx(&it.tx)).collect();
                    match same_tx.iter().find(|e| e.index == it.index) {
                        Some(e)
                            if e.src == it.src && e.dst_chain == it.dst_chain && e.dst == it.dst && e.hash == it.hash =>
                        {
                            Vote::SucceededOnChain
                        }
                        _ if same_tx.is_empty() => Vote::NotFound,
                        _ => Vote::FailedOnChain,
                    }
                })
                .collect(),
            ObsItems::Ws(tx, idx, ops) => {
                if miss & 1 == 1 || !gw_ok {
                    return vec![Vote::NotFound];
                }
                let Some(x) = self.ext.get(&p.chain) else { return vec![Vote::NotFound] };
                let rot: Vec<&Rotation> = x.rotations.iter().filter(|r| norm_tx(&r.tx_id) == norm_tx(tx)).collect();
                match rot.iter().find(|r| r.index == *idx) {
                    Some(r) if r.ops.clone().sorted() == ops.clone().sorted() => vec![Vote::SucceededOnChain],
                    _ if rot.is_empty() => vec![Vote::NotFound],
                    _ => vec![Vote::FailedOnChain],
                }
            }
        }
    }

    pub fn poll(&self, verifier: &str, id: u64) -> Option<&ObsPoll> {
        self.polls.iter().find(|p| p.verifier == verifier && p.id == id)
    }

    /// The signature an honest worker's daemon produces for a session.
    pub fn honest_sig(&self, w: &str, session: u64) -> Option<String> {
        let s = self.sessions.get(&session)?;
        let (ty, key) = s.keys.get(w)?;
        let name = self.keys.get(key)?;
        if !name.starts_with(&format!("{w}#")) {
            return None;
        }
        Some(hex::encode(match ty.as_str() {
            "ecdsa" => Key::from_name(name).sign(s.digest.as_slice().try_into().ok()?),
            _ => codec::ed25519_sign(name, &s.digest),
        }))
    }

    pub fn is_truth(&self, dst: &str, a: &Approval, abi: bool) -> bool {
        let fits = |m: &Msg| {
            m.dst_chain == dst
                && m.chain == a.chain
                && m.src == a.src
                && dst_address(abi, &m.dst).as_deref() == Some(&a.dst[..])
                && m.hash == hex::encode(a.hash)
                && codec::keccak(format!("{}:{}", m.chain, m.id).as_bytes()) == a.id
        };
        self.sent.iter().any(fits) || self.events.iter().any(|e| fits(&e.msg()))
    }

    pub fn is_excused(&self, a: &Approval) -> bool {
        self.excused.iter().any(|k| codec::keccak(k.as_bytes()) == a.id)
    }
}
