//! Executable reference model of the whole on-chain system, written from the properties. It
//! predicts for every transaction whether it is accepted and what it does.

use std::collections::{BTreeMap, BTreeSet};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::codec::{self, OpSet, Params};

pub type Tags = &'static [&'static str];

#[derive(Clone, Debug)]
pub struct Rej {
    pub tags: Tags,
    pub why: &'static str,
}

pub type Res<T> = Result<T, Rej>;

pub fn rej<T>(tags: Tags, why: &'static str) -> Res<T> {
    Err(Rej { tags, why })
}

// ------------------------------------------------------------------ data

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Msg {
    pub chain: String,
    pub id: String,
    pub src: String,
    pub dst_chain: String,
    pub dst: String,
    pub hash: String,
}

fn s(v: &Value) -> Option<String> {
    v.as_str().map(|x| x.to_string())
}

fn chain_name(v: &Value) -> Option<String> {
    let c = v.as_str()?;
    if c.is_empty() || c.contains(':') {
        return None;
    }
    Some(c.to_lowercase())
}

fn nonempty(v: &Value) -> Option<String> {
    s(v).filter(|x| !x.is_empty())
}

impl Msg {
    pub fn parse(v: &Value) -> Option<Msg> {
        let hash = s(&v["payload_hash"])?.to_lowercase();
        if hex::decode(&hash).ok()?.len() != 32 {
            return None;
        }
        Some(Msg {
            chain: chain_name(&v["cc_id"]["chain"])?,
            id: nonempty(&v["cc_id"]["id"])?,
            src: nonempty(&v["source_address"])?,
            dst_chain: chain_name(&v["destination_chain"])?,
            dst: nonempty(&v["destination_address"])?,
            hash,
        })
    }
    pub fn json(&self) -> Value {
        json!({"cc_id": {"chain": self.chain, "id": self.id}, "source_address": self.src,
               "destination_chain": self.dst_chain, "destination_address": self.dst, "payload_hash": self.hash})
    }
    pub fn cc(&self) -> (String, String) {
        (self.chain.clone(), self.id.clone())
    }
    pub fn show(&self) -> String {
        serde_json::to_string(&self.json()).unwrap()
    }
    /// what the code under test hashes to look a message up
    pub fn concat(&self) -> String {
        format!("{}:{}{}{}{}{}", self.chain, self.id, self.src, self.dst_chain, self.dst, self.hash)
    }
    pub fn from_nexus(v: &Value) -> Option<Msg> {
        let bytes = |v: &Value| -> Option<Vec<u8>> {
            v.as_array()?.iter().map(|b| b.as_u64().filter(|b| *b < 256).map(|b| b as u8)).collect()
        };
        let hash = bytes(&v["payload_hash"]).filter(|h| h.len() == 32)?;
        let tx = bytes(&v["source_tx_id"]).filter(|h| !h.is_empty())?;
        Some(Msg {
            chain: chain_name(&v["source_chain"])?,
            id: format!("{}:{}", hex::encode(tx), v["source_tx_index"].as_u64()?),
            src: nonempty(&v["source_address"])?,
            dst_chain: chain_name(&v["destination_chain"])?,
            dst: nonempty(&v["destination_address"])?,
            hash: hex::encode(hash),
        })
    }
    /// the form in which a message must reach the nexus module
    pub fn to_nexus(&self) -> Value {
        let parsed = match self.id.split(':').collect::<Vec<_>>().as_slice() {
            [tx, idx] => {
                let mut t = *tx;
                while let Some(x) = t.strip_prefix("0x") {
                    t = x;
                }
                match (hex::decode(t), idx.parse::<u64>()) {
                    (Ok(b), Ok(i)) if !b.is_empty() => Some((b, i)),
                    _ => None,
                }
            }
            _ => None,
        };
        let (tx, idx) = parsed.unwrap_or((self.id.as_bytes().to_vec(), u64::MAX));
        json!({"source_chain": self.chain, "source_address": self.src, "destination_chain": self.dst_chain,
               "destination_address": self.dst, "payload_hash": hex::decode(&self.hash).unwrap(),
               "source_tx_id": tx, "source_tx_index": idx})
    }
}

pub fn parse_msgs(v: &Value) -> Option<Vec<Msg>> {
    v.as_array()?.iter().map(Msg::parse).collect()
}

/// (transaction id, event index) of a canonical message id
pub fn split_id(id: &str) -> Option<(String, u64)> {
    let (tx, idx) = id.split_once(':')?;
    if tx.is_empty() || idx.contains(':') {
        return None;
    }
    let n = idx.parse::<u64>().ok()?;
    if n.to_string() != idx {
        return None;
    }
    Some((tx.to_string(), n))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Vote {
    SucceededOnChain,
    FailedOnChain,
    NotFound,
}

pub fn ops_key(v: &Value) -> Option<OpSet> {
    let ops = v["weights_by_addresses"]
        .as_array()?
        .iter()
        .map(|p| Some((hex::decode(p[0].as_str()?).ok()?, p[1].as_str()?.parse().ok()?)))
        .collect::<Option<Vec<(Vec<u8>, u128)>>>()?;
    Some(OpSet { ops, threshold: v["threshold"].as_str()?.parse().ok()? })
}

pub fn ops_json(o: &OpSet) -> Value {
    let w: Vec<Value> = o.ops.iter().map(|(a, w)| json!([hex::encode(a), w.to_string()])).collect();
    json!({"weights_by_addresses": w, "threshold": o.threshold.to_string()})
}

// ---- registry

#[derive(Clone, Debug)]
pub struct Service {
    pub min_bond: u128,
    pub denom: String,
    pub days: u64,
    pub raw: Value,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bond {
    Bonded(u128),
    Unbonding(u128, u64),
    Unbonded,
}

#[derive(Clone, Debug)]
pub struct Worker {
    pub bond: Bond,
    pub auth: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Registry {
    pub gov: String,
    pub services: BTreeMap<String, Service>,
    pub workers: BTreeMap<(String, String), Worker>,
    pub support: BTreeSet<(String, String, String)>,
}

impl Registry {
    pub fn active(&self, svc: &str, chain: &str) -> Vec<String> {
        let Some(sv) = self.services.get(svc) else { return vec![] };
        self.support
            .iter()
            .filter(|(a, b, _)| a == svc && b == chain)
            .filter(|(_, _, w)| {
                self.workers
                    .get(&(svc.to_string(), w.clone()))
                    .map_or(false, |x| x.auth && matches!(x.bond, Bond::Bonded(b) if b >= sv.min_bond))
            })
            .map(|(_, _, w)| w.clone())
            .collect()
    }
}

// ---- rewards

#[derive(Clone, Debug)]
pub struct RParams {
    pub dur: u64,
    pub amount: u128,
    pub thr: (u64, u64),
}

pub fn parse_rparams(v: &Value) -> Option<RParams> {
    let n = |v: &Value| v.as_str()?.parse::<u64>().ok();
    let p = RParams {
        dur: n(&v["epoch_duration"])?,
        amount: v["rewards_per_epoch"].as_str()?.parse().ok()?,
        thr: (n(&v["participation_threshold"][0])?, n(&v["participation_threshold"][1])?),
    };
    if p.dur == 0 || p.amount == 0 || p.thr.0 == 0 || p.thr.1 == 0 || p.thr.0 > p.thr.1 {
        return None;
    }
    Some(p)
}

#[derive(Clone, Debug)]
pub struct Tally {
    pub events: u64,
    pub part: BTreeMap<String, u64>,
    pub params: RParams,
}

#[derive(Clone, Debug)]
pub struct Rewards {
    pub gov: String,
    pub denom: String,
    pub params: RParams,
    /// epoch number and start height at the last parameter update
    pub mark: (u64, u64),
    pub events: BTreeMap<(String, String), u64>,
    pub tallies: BTreeMap<(String, u64), Tally>,
    pub pools: BTreeMap<String, u128>,
    pub water: BTreeMap<String, u64>,
}

impl Rewards {
    /// what a distribution now covers: the last epoch and everybody's share
    pub fn due(&self, c: &str, h: u64, limit: u64) -> Option<(u64, BTreeMap<String, u128>)> {
        let cur = self.epoch(h).0;
        let first = self.water.get(c).map_or(0, |w| w + 1);
        if cur < 2 || limit == 0 || first > cur - 2 {
            return None;
        }
        let last = first.saturating_add(limit - 1).min(cur - 2);
        let mut pay: BTreeMap<String, u128> = BTreeMap::new();
        for e in first..=last {
            let Some(t) = self.tallies.get(&(c.to_string(), e)) else { continue };
            let win: Vec<&String> = t
                .part
                .iter()
                .filter(|(_, n)| **n <= t.events && **n as u128 * t.params.thr.1 as u128 >= t.params.thr.0 as u128 * t.events as u128)
                .map(|(w, _)| w)
                .collect();
            if win.is_empty() {
                continue;
            }
            let each = t.params.amount / win.len() as u128;
            if each > 0 {
                for w in win {
                    *pay.entry(w.clone()).or_insert(0) += each;
                }
            }
        }
        Some((last, pay))
    }

    pub fn epoch(&self, h: u64) -> (u64, u64) {
        let n = (h - self.mark.1) / self.params.dur;
        (self.mark.0 + n, self.mark.1 + n * self.params.dur)
    }
}

// ---- verifier

#[derive(Clone, Debug)]
pub enum Items {
    Msgs(Vec<Msg>),
    Ws(OpSet, String),
}

#[derive(Clone, Debug)]
pub struct Poll {
    pub items: Items,
    pub parts: BTreeMap<String, Option<Vec<Vote>>>,
    pub expires: u64,
    pub finished: bool,
    pub quorum: u64,
}

impl Poll {
    pub fn size(&self) -> usize {
        match &self.items {
            Items::Msgs(m) => m.len(),
            Items::Ws(..) => 1,
        }
    }
    pub fn count(&self, i: usize, v: Vote) -> u64 {
        self.parts.values().flatten().filter(|x| x[i] == v).count() as u64
    }
    pub fn result(&self, i: usize) -> Option<Vote> {
        [Vote::FailedOnChain, Vote::NotFound, Vote::SucceededOnChain]
            .into_iter()
            .find(|v| self.count(i, *v) >= self.quorum)
    }
}

#[derive(Clone, Debug)]
pub struct VCfg {
    pub registry: String,
    pub rewards: String,
    pub service: String,
    pub chain: String,
    pub gw_addr: String,
    pub thr: (u64, u64),
    pub expiry: u64,
    pub conf: u64,
}

#[derive(Clone, Debug)]
pub struct Verifier {
    pub cfg: VCfg,
    pub polls: BTreeMap<u64, Poll>,
    pub msg_poll: BTreeMap<Msg, (u64, usize)>,
    pub ws_poll: BTreeMap<OpSet, u64>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    NotVerified,
    InProgress,
    Failed,
    Verified,
}

impl Verifier {
    fn st(&self, p: &Poll, i: usize) -> Status {
        if p.result(i) == Some(Vote::SucceededOnChain) {
            Status::Verified
        } else if p.finished {
            Status::Failed
        } else {
            Status::InProgress
        }
    }
    pub fn status(&self, m: &Msg) -> Status {
        match self.msg_poll.get(m) {
            None => Status::NotVerified,
            Some((p, i)) => self.st(&self.polls[p], *i),
        }
    }
    pub fn ws_status(&self, o: &OpSet) -> Status {
        match self.ws_poll.get(o) {
            None => Status::NotVerified,
            Some(p) => self.st(&self.polls[p], 0),
        }
    }
}

// ---- router etc.

#[derive(Clone, Debug)]
pub struct Endpoint {
    pub gw: String,
    pub frozen: u8,
}

#[derive(Clone, Debug, Default)]
pub struct Router {
    pub admin: String,
    pub gov: String,
    pub nexus_gw: String,
    pub chains: BTreeMap<String, Endpoint>,
}

#[derive(Clone, Debug)]
pub struct Gateway {
    pub verifier: String,
    pub router: String,
    pub out: BTreeMap<(String, String), Msg>,
}

#[derive(Clone, Debug, Default)]
pub struct NexusGw {
    pub nexus: String,
    pub router: String,
    pub routed: BTreeSet<(String, String)>,
}

// ---- multisig

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Signer {
    pub weight: u128,
    /// "ecdsa" or "ed25519", hex key
    pub key: (String, String),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct WSet {
    pub signers: BTreeMap<String, Signer>,
    pub threshold: u128,
    pub created: u64,
}

impl WSet {
    pub fn json(&self) -> Value {
        let s: serde_json::Map<String, Value> = self
            .signers
            .iter()
            .map(|(a, s)| {
                let mut k = serde_json::Map::new();
                k.insert(s.key.0.clone(), s.key.1.clone().into());
                (a.clone(), json!({"address": a, "weight": s.weight.to_string(), "pub_key": k}))
            })
            .collect();
        json!({"signers": s, "threshold": self.threshold.to_string(), "created_at": self.created})
    }
    pub fn parse(v: &Value) -> Option<WSet> {
        let mut signers = BTreeMap::new();
        for (a, s) in v["signers"].as_object()? {
            let k = s["pub_key"].as_object()?;
            let (t, h) = k.iter().next()?;
            let h = h.as_str()?.to_lowercase();
            let n = hex::decode(&h).ok()?.len();
            if !(t == "ecdsa" && (n == 33 || n == 65) || t == "ed25519" && n == 32) {
                return None;
            }
            signers.insert(a.clone(), Signer { weight: s["weight"].as_str()?.parse().ok()?, key: (t.clone(), h) });
        }
        Some(WSet { signers, threshold: v["threshold"].as_str()?.parse().ok()?, created: v["created_at"].as_u64()? })
    }
    /// the identifier clients use for the set
    pub fn id(&self) -> String {
        let mut o = String::from("{\"signers\":{");
        for (i, (a, s)) in self.signers.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o += &format!(
                "\"{a}\":{{\"address\":\"{a}\",\"weight\":\"{}\",\"pub_key\":{{\"{}\":\"{}\"}}}}",
                s.weight, s.key.0, s.key.1
            );
        }
        o += &format!("}},\"threshold\":\"{}\",\"created_at\":{}}}", self.threshold, self.created);
        hex::encode(codec::keccak(o.as_bytes()))
    }
    pub fn ops(&self, abi: bool) -> Option<OpSet> {
        let ops = self
            .signers
            .values()
            .map(|s| {
                let k = hex::decode(&s.key.1).ok()?;
                Some((if abi { codec::evm_address(&k)? } else { k }, s.weight))
            })
            .collect::<Option<Vec<_>>>()?;
        Some(OpSet { ops, threshold: self.threshold }.sorted())
    }
    pub fn same(&self, o: &WSet) -> bool {
        self.signers == o.signers && self.threshold == o.threshold
    }
}

#[derive(Clone, Debug)]
pub struct Session {
    pub ws: String,
    pub digest: String,
    pub chain: String,
    /// height at which it completed
    pub done: Option<u64>,
    pub sigs: BTreeMap<String, String>,
}

#[derive(Clone, Debug, Default)]
pub struct Multisig {
    pub gov: String,
    pub rewards: String,
    pub grace: u64,
    pub keys: BTreeMap<(String, String), String>,
    pub sets: BTreeMap<String, WSet>,
    pub sessions: BTreeMap<u64, Session>,
    pub callers: BTreeSet<String>,
}

// ---- prover

#[derive(Clone, Debug)]
pub struct PCfg {
    pub gateway: String,
    pub verifier: String,
    pub chain_id: u128,
    pub thr: (u64, u64),
    pub service: String,
    pub chain: String,
    pub diff: u64,
    pub abi: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum PCmd {
    Approve(Msg),
    Transfer(WSet),
}

impl PCmd {
    pub fn id(&self) -> [u8; 32] {
        match self {
            PCmd::Approve(m) => codec::keccak(format!("{}:{}", m.chain, m.id).as_bytes()),
            PCmd::Transfer(w) => hex::decode(w.id()).unwrap().try_into().unwrap(),
        }
    }
    pub fn params(&self, abi: bool) -> Option<Params> {
        Some(match self {
            PCmd::Approve(m) => Params::Approve {
                chain: m.chain.clone(),
                src: m.src.clone(),
                dst: dst_address(abi, &m.dst)?,
                hash: hex::decode(&m.hash).unwrap().try_into().unwrap(),
            },
            PCmd::Transfer(w) => Params::Transfer(w.ops(abi)?),
        })
    }
}

pub fn dst_address(abi: bool, d: &str) -> Option<Vec<u8>> {
    let b = hex::decode(d.strip_prefix("0x").unwrap_or(d)).ok()?;
    (b.len() == if abi { 20 } else { 32 }).then_some(b)
}

#[derive(Clone, Debug)]
pub struct Batch {
    pub ids: Vec<(String, String)>,
    pub cmds: Vec<PCmd>,
    /// learned when a session is first opened over it
    pub digest: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Prover {
    pub cfg: PCfg,
    pub current: Option<WSet>,
    pub next: Option<WSet>,
    pub batches: BTreeMap<String, Batch>,
    pub sessions: BTreeMap<u64, String>,
    /// every set ever confirmed, in order
    pub history: Vec<WSet>,
}

// ------------------------------------------------------------------ effects

/// Observable effects of a transaction beyond state: (kind, description).
#[derive(Clone, Debug, Default)]
pub struct Fx {
    pub items: Vec<(&'static str, String)>,
    /// messages handed over by the router, per receiver, in order
    pub deliver: BTreeMap<String, Vec<Msg>>,
    pub nexus: Vec<(String, Value)>,
    pub new_sessions: Vec<(u64, String)>,
    pub touched: BTreeSet<String>,
    /// a batch's optional call failed: traces cannot be compared
    pub partial: bool,
}

#[derive(Clone, Debug)]
pub enum CRef {
    Registry,
    Rewards,
    Multisig,
    Router,
    Nexus,
    Batching,
    Agg(String),
    Ver,
    Gw,
    Prover,
}

/// Every identifier ever mentioned, for observation.
#[derive(Clone, Debug, Default)]
pub struct Universe {
    pub msgs: BTreeSet<Msg>,
    pub ids: BTreeSet<(String, String)>,
    pub opsets: BTreeSet<OpSet>,
    pub chains: BTreeSet<String>,
    pub services: BTreeSet<String>,
    pub workers: BTreeSet<String>,
    pub wsets: BTreeSet<String>,
    pub denoms: BTreeSet<String>,
    pub concat: BTreeMap<String, Msg>,
    /// two different messages the code cannot tell apart (known finding)
    pub collision: bool,
}

#[derive(Clone)]
pub struct Model {
    pub height: u64,
    pub nanos: u64,
    pub contracts: BTreeMap<String, CRef>,
    pub bank: BTreeMap<(String, String), u128>,
    pub registry: Registry,
    pub rewards: Rewards,
    pub multisig: Multisig,
    pub router: Router,
    pub nexus: NexusGw,
    pub vers: BTreeMap<String, Verifier>,
    pub gws: BTreeMap<String, Gateway>,
    pub provers: BTreeMap<String, Prover>,
    pub nexus_log: Vec<(String, Value)>,
    pub uni: Universe,
    // addresses of the singletons
    pub a_registry: String,
    pub a_rewards: String,
    pub a_multisig: String,
    pub a_router: String,
    pub a_nexus: String,
    pub a_batching: String,
}

pub type Funds = Vec<(String, u128)>;

const BAD: Tags = &[];

impl Model {
    pub fn bal(&self, who: &str, denom: &str) -> u128 {
        self.bank.get(&(who.to_string(), denom.to_string())).copied().unwrap_or(0)
    }

    fn send(&mut self, from: &str, to: &str, coins: &[(String, u128)], tags: Tags) -> Res<()> {
        let coins: Vec<_> = coins.iter().filter(|c| c.1 > 0).collect();
        if coins.is_empty() {
            return rej(tags, "empty transfer");
        }
        for (d, a) in coins {
            let b = self.bal(from, d);
            if b < *a {
                return rej(tags, "insufficient funds");
            }
            self.bank.insert((from.to_string(), d.clone()), b - a);
            let t = self.bal(to, d);
            self.bank.insert((to.to_string(), d.clone()), t + a);
        }
        Ok(())
    }

    /// Executes a transaction atomically.
    pub fn exec(&mut self, from: &str, to: &str, msg: &Value, funds: &Funds, skip_optional: Option<usize>) -> Res<Fx> {
        self.note(msg);
        let mut next = self.clone();
        let mut fx = Fx::default();
        next.call(from, to, msg, funds, &mut fx, skip_optional)?;
        for (f, v) in &fx.nexus {
            next.nexus_log.push((f.clone(), v.clone()));
        }
        *self = next;
        Ok(fx)
    }

    /// Remembers identifiers appearing in a message.
    fn note(&mut self, v: &Value) {
        match v {
            Value::Object(o) => {
                if o.contains_key("cc_id") {
                    if let Some(m) = Msg::parse(v) {
                        self.note_msg(m);
                    }
                } else if o.contains_key("source_tx_id") {
                    if let Some(m) = Msg::from_nexus(v) {
                        self.note_msg(m);
                    }
                }
                if o.contains_key("weights_by_addresses") {
                    if let Some(k) = ops_key(v) {
                        self.uni.opsets.insert(k);
                    }
                }
                for (k, x) in o {
                    if k == "msg" {
                        if let Some(inner) = x.as_str().and_then(b64).and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
                            self.note(&inner);
                        }
                    }
                    self.note(x);
                }
            }
            Value::Array(a) => a.iter().for_each(|x| self.note(x)),
            _ => {}
        }
    }

    pub fn note_msg(&mut self, m: Msg) {
        self.uni.ids.insert(m.cc());
        self.uni.chains.insert(m.chain.clone());
        self.uni.chains.insert(m.dst_chain.clone());
        let c = m.concat();
        if let Some(o) = self.uni.concat.get(&c) {
            if *o != m {
                self.uni.collision = true;
            }
        } else {
            self.uni.concat.insert(c, m.clone());
        }
        self.uni.msgs.insert(m);
    }

    fn call(&mut self, from: &str, to: &str, msg: &Value, funds: &Funds, fx: &mut Fx, skip: Option<usize>) -> Res<()> {
        let Some(c) = self.contracts.get(to).cloned() else {
            return rej(&["C07", "C08", "C09", "C10"], "no such contract");
        };
        if !funds.is_empty() {
            self.send(from, to, funds, &["C20", "C21"])?;
        }
        fx.touched.insert(to.to_string());
        let (var, body) = match msg {
            Value::Object(o) if o.len() == 1 => {
                let (k, v) = o.iter().next().unwrap();
                (k.as_str(), v)
            }
            Value::String(x) => (x.as_str(), &Value::Null),
            _ => return rej(BAD, "malformed"),
        };
        match c {
            CRef::Registry => self.registry_exec(from, var, body, funds, fx),
            CRef::Rewards => self.rewards_exec(from, var, body, funds, fx),
            CRef::Multisig => self.multisig_exec(from, var, body, fx),
            CRef::Router => self.router_exec(from, var, body, fx),
            CRef::Nexus => self.nexus_exec(from, var, body, fx),
            CRef::Batching => self.batching_exec(var, body, fx, skip),
            CRef::Agg(v) => match var {
                "verify_messages" => self.call(to, &v, msg, &vec![], fx, None),
                _ => rej(BAD, "unknown"),
            },
            CRef::Ver => self.verifier_exec(from, to, var, body, fx),
            CRef::Gw => self.gateway_exec(from, to, var, body, fx),
            CRef::Prover => self.prover_exec(to, var, fx, body),
        }
    }

    // -------------------------------------------------------------- registry

    fn registry_exec(&mut self, from: &str, var: &str, b: &Value, funds: &Funds, _fx: &mut Fx) -> Res<()> {
        let r = &mut self.registry;
        let Some(svc) = s(&b["service_name"]) else { return rej(BAD, "malformed") };
        let key = (svc.clone(), from.to_string());
        match var {
            "register_service" => {
                if from != r.gov {
                    return rej(&["C30", "C19"], "only governance registers services");
                }
                if r.services.contains_key(&svc) {
                    return rej(&["C30", "C19"], "service exists");
                }
                let service = (|| {
                    Some(Service {
                        min_bond: b["min_worker_bond"].as_str()?.parse().ok()?,
                        denom: s(&b["bond_denom"])?,
                        days: b["unbonding_period_days"].as_u64().filter(|d| *d < 65536)?,
                        raw: b.clone(),
                    })
                })();
                let Some(service) = service else { return rej(BAD, "malformed") };
                self.uni.denoms.insert(service.denom.clone());
                self.uni.services.insert(svc.clone());
                r.services.insert(svc, service);
                Ok(())
            }
            "authorize_workers" | "unauthorize_workers" => {
                if from != r.gov {
                    return rej(&["C30", "C19"], "only governance authorizes workers");
                }
                if !r.services.contains_key(&svc) {
                    return rej(&["C19"], "no such service");
                }
                for w in b["workers"].as_array().into_iter().flatten().filter_map(s) {
                    self.uni.workers.insert(w.clone());
                    r.workers
                        .entry((svc.clone(), w))
                        .or_insert(Worker { bond: Bond::Unbonded, auth: false })
                        .auth = var == "authorize_workers";
                }
                Ok(())
            }
            "bond_worker" => {
                let Some(service) = r.services.get(&svc) else { return rej(&["C20", "C19"], "no such service") };
                if funds.iter().any(|f| f.0 != service.denom) {
                    return rej(&["C20"], "wrong denomination");
                }
                let amt: u128 = funds.iter().map(|f| f.1).sum();
                self.uni.workers.insert(from.to_string());
                match r.workers.get_mut(&key) {
                    None => {
                        r.workers.insert(key, Worker { bond: Bond::Bonded(amt), auth: false });
                    }
                    Some(w) => {
                        let total = amt
                            + match w.bond {
                                Bond::Bonded(x) | Bond::Unbonding(x, _) => x,
                                Bond::Unbonded => 0,
                            };
                        if total == 0 {
                            return rej(&["C19", "C20"], "empty bond");
                        }
                        w.bond = Bond::Bonded(total);
                    }
                }
                Ok(())
            }
            "declare_chain_support" => {
                if !r.services.contains_key(&svc) {
                    return rej(&["C19"], "no such service");
                }
                if !r.workers.contains_key(&key) {
                    return rej(&["C19"], "unknown worker");
                }
                let Some(chains) = b["chains"].as_array().map(|a| a.iter().map(chain_name).collect::<Option<Vec<_>>>()) else {
                    return rej(BAD, "malformed");
                };
                let Some(chains) = chains else { return rej(BAD, "malformed") };
                for c in chains {
                    self.uni.chains.insert(c.clone());
                    r.support.insert((svc.clone(), c, from.to_string()));
                }
                Ok(())
            }
            "unbond_worker" => {
                if !r.services.contains_key(&svc) {
                    return rej(&["C19", "C20"], "no such service");
                }
                match r.workers.get_mut(&key) {
                    Some(w) => match w.bond {
                        Bond::Bonded(a) => {
                            w.bond = Bond::Unbonding(a, self.nanos);
                            Ok(())
                        }
                        _ => rej(&["C19", "C20"], "not bonded"),
                    },
                    None => rej(&["C19", "C20"], "unknown worker"),
                }
            }
            "claim_stake" => {
                let Some(service) = r.services.get(&svc).cloned() else { return rej(&["C20"], "no such service") };
                match r.workers.get_mut(&key) {
                    Some(w) => match w.bond {
                        Bond::Unbonding(a, t) if t + service.days * 86_400_000_000_000 <= self.nanos => {
                            w.bond = Bond::Unbonded;
                            let me = self.a_registry.clone();
                            self.send(&me, from, &[(service.denom, a)], &["C20"])
                        }
                        _ => rej(&["C20"], "nothing to claim yet"),
                    },
                    None => rej(&["C20"], "unknown worker"),
                }
            }
            _ => rej(BAD, "unknown"),
        }
    }

    // -------------------------------------------------------------- rewards

    fn rewards_exec(&mut self, from: &str, var: &str, b: &Value, funds: &Funds, fx: &mut Fx) -> Res<()> {
        let h = self.height;
        let r = &mut self.rewards;
        match var {
            "record_participation" => {
                let (Some(ev), Some(w)) = (nonempty(&b["event_id"]), s(&b["worker_address"])) else {
                    return rej(BAD, "malformed");
                };
                fx.items.push(("credit", format!("{from} {ev} {w}")));
                let cur = r.epoch(h).0;
                let key = (ev, from.to_string());
                let (e, new) = match r.events.get(&key) {
                    Some(e) => (*e, false),
                    None => (cur, true),
                };
                r.events.insert(key, e);
                let params = r.params.clone();
                let t = r
                    .tallies
                    .entry((from.to_string(), e))
                    .or_insert(Tally { events: 0, part: BTreeMap::new(), params });
                *t.part.entry(w).or_insert(0) += 1;
                if new {
                    t.events += 1;
                }
                Ok(())
            }
            "add_rewards" => {
                let Some(c) = s(&b["contract_address"]) else { return rej(BAD, "malformed") };
                if funds.len() != 1 || funds[0].0 != r.denom {
                    return rej(&["C21"], "wrong funds");
                }
                if funds[0].1 == 0 {
                    return rej(&["C21"], "no funds");
                }
                *r.pools.entry(c).or_insert(0) += funds[0].1;
                Ok(())
            }
            "distribute_rewards" => {
                let Some(c) = s(&b["contract_address"]) else { return rej(BAD, "malformed") };
                let limit = b["epoch_count"].as_u64().unwrap_or(10);
                let Some((last, pay)) = r.due(&c, h, limit) else { return rej(&["C22"], "nothing to distribute") };
                let total: u128 = pay.values().sum();
                let pool = r.pools.entry(c.clone()).or_insert(0);
                if *pool < total {
                    return rej(&["C21"], "pool cannot fund the distribution");
                }
                *pool -= total;
                r.water.insert(c, last);
                let denom = r.denom.clone();
                let me = self.a_rewards.clone();
                for (w, a) in pay {
                    self.uni.workers.insert(w.clone());
                    self.send(&me, &w, &[(denom.clone(), a)], &["C21"])?;
                }
                Ok(())
            }
            "update_params" => {
                if from != r.gov {
                    return rej(&["C24", "C30"], "only governance updates parameters");
                }
                let Some(p) = parse_rparams(&b["params"]) else { return rej(BAD, "malformed") };
                let (n, start) = r.epoch(h);
                r.mark = if start + p.dur < h { (n + 1, h) } else { (n, start) };
                r.params = p;
                Ok(())
            }
            _ => rej(BAD, "unknown"),
        }
    }

    // -------------------------------------------------------------- verifier

    pub fn is_verified(&self, verifier: &str, m: &Msg) -> bool {
        match self.contracts.get(verifier) {
            Some(CRef::Agg(v)) => self.is_verified(v, m),
            Some(CRef::Ver) => self.vers[verifier].status(m) == Status::Verified,
            _ => false,
        }
    }

    fn verifier_exec(&mut self, from: &str, me: &str, var: &str, b: &Value, fx: &mut Fx) -> Res<()> {
        let h = self.height;
        let cfg = self.vers[me].cfg.clone();
        match var {
            "verify_messages" => {
                let Some(msgs) = parse_msgs(&b["messages"]) else { return rej(BAD, "malformed") };
                for m in &msgs {
                    fx.items.push(("verify", format!("{me} {}", m.show())));
                }
                if msgs.is_empty() {
                    return rej(&["C05"], "empty batch");
                }
                if msgs.iter().any(|m| m.chain != cfg.chain) {
                    return rej(&["C05"], "foreign source chain");
                }
                let v = self.vers.get_mut(me).unwrap();
                let todo: Vec<Msg> = msgs
                    .into_iter()
                    .filter(|m| matches!(v.status(m), Status::NotVerified | Status::Failed))
                    .collect();
                if todo.is_empty() {
                    return Ok(());
                }
                if todo.iter().any(|m| split_id(&m.id).is_none()) {
                    return rej(&["C05", "C29"], "malformed message id");
                }
                let items = todo
                    .iter()
                    .map(|m| {
                        let (t, i) = split_id(&m.id).unwrap();
                        format!("{t}:{i} {} {} {} {}", m.src, m.dst_chain, m.dst, m.hash)
                    })
                    .collect::<Vec<_>>()
                    .join(" | ");
                let id = self.open_poll(me, &cfg, Items::Msgs(todo.clone()), items, fx)?;
                let v = self.vers.get_mut(me).unwrap();
                for (i, m) in todo.into_iter().enumerate() {
                    v.msg_poll.insert(m, (id, i));
                }
                Ok(())
            }
            "verify_worker_set" => {
                let (Some(mid), Some(ops)) = (nonempty(&b["message_id"]), ops_key(&b["new_operators"])) else {
                    return rej(BAD, "malformed");
                };
                if self.vers[me].ws_status(&ops) == Status::Verified {
                    return rej(&["C04"], "worker set already verified");
                }
                let Some((t, i)) = split_id(&mid) else { return rej(&["C05", "C29"], "malformed message id") };
                let id = self.open_poll(me, &cfg, Items::Ws(ops.clone(), mid), format!("{t}:{i} {}", ops.show()), fx)?;
                self.vers.get_mut(me).unwrap().ws_poll.insert(ops, id);
                Ok(())
            }
            "vote" => {
                let v = self.vers.get_mut(me).unwrap();
                let (Some(id), Ok(votes)) = (
                    b["poll_id"].as_str().and_then(|x| x.parse::<u64>().ok()),
                    serde_json::from_value::<Vec<Vote>>(b["votes"].clone()),
                ) else {
                    return rej(BAD, "malformed");
                };
                let Some(p) = v.polls.get_mut(&id) else { return rej(&["C03"], "no such poll") };
                let n = p.size();
                let expires = p.expires;
                let Some(slot) = p.parts.get_mut(from) else { return rej(&["C03", "C02"], "not a participant") };
                if h >= expires {
                    return rej(&["C03", "C05"], "poll expired");
                }
                if votes.len() != n {
                    return rej(&["C03"], "wrong number of votes");
                }
                if slot.is_some() {
                    return rej(&["C03", "C02"], "already voted");
                }
                *slot = Some(votes);
                Ok(())
            }
            "end_poll" => {
                let v = self.vers.get_mut(me).unwrap();
                let Some(id) = b["poll_id"].as_str().and_then(|x| x.parse::<u64>().ok()) else { return rej(BAD, "malformed") };
                let Some(p) = v.polls.get_mut(&id) else { return rej(&["C04"], "no such poll") };
                if p.finished {
                    return rej(&["C04", "C25"], "poll already ended");
                }
                if h < p.expires {
                    return rej(&["C04", "C05"], "poll not expired yet");
                }
                p.finished = true;
                let results: Vec<Option<Vote>> = (0..p.size()).map(|i| p.result(i)).collect();
                fx.items.push(("ended", format!("{me} {id} {}", serde_json::to_string(&results).unwrap())));
                let good: Vec<String> = p
                    .parts
                    .iter()
                    .filter(|(_, v)| {
                        v.as_ref().map_or(false, |v| v.iter().zip(&results).all(|(a, r)| r.map_or(true, |r| r == *a)))
                    })
                    .map(|(w, _)| w.clone())
                    .collect();
                for w in good {
                    let m = json!({"record_participation": {"event_id": id.to_string(), "worker_address": w}});
                    self.call(me, &cfg.rewards, &m, &vec![], fx, None)?;
                }
                Ok(())
            }
            _ => rej(BAD, "unknown"),
        }
    }

    fn open_poll(&mut self, me: &str, cfg: &VCfg, items: Items, desc: String, fx: &mut Fx) -> Res<u64> {
        let parts = self.registry.active(&cfg.service, &cfg.chain);
        if parts.is_empty() {
            return rej(&["C05"], "no active workers");
        }
        let n = parts.len() as u64;
        let quorum = (n * cfg.thr.0 + cfg.thr.1 - 1) / cfg.thr.1;
        let v = self.vers.get_mut(me).unwrap();
        let id = v.polls.len() as u64 + 1;
        let kind = if matches!(items, Items::Msgs(_)) { "messages" } else { "worker_set" };
        fx.items.push((
            "poll",
            format!(
                "{me} {kind} id={id} chain={} gw={} conf={} expires={} participants={} items={desc}",
                cfg.chain,
                cfg.gw_addr,
                cfg.conf,
                self.height + cfg.expiry,
                parts.join(",")
            ),
        ));
        v.polls.insert(
            id,
            Poll {
                items,
                parts: parts.into_iter().map(|w| (w, None)).collect(),
                expires: self.height + cfg.expiry,
                finished: false,
                quorum,
            },
        );
        Ok(id)
    }

    // -------------------------------------------------------------- gateway, router, nexus

    fn unique(msgs: &[Msg]) -> bool {
        let mut seen = BTreeSet::new();
        msgs.iter().all(|m| seen.insert(m.cc()))
    }

    fn gateway_exec(&mut self, from: &str, me: &str, var: &str, b: &Value, fx: &mut Fx) -> Res<()> {
        let Some(msgs) = parse_msgs(b) else { return rej(BAD, "malformed") };
        let g = self.gws[me].clone();
        match var {
            "verify_messages" => {
                if msgs.is_empty() {
                    return Ok(());
                }
                if !Self::unique(&msgs) {
                    return rej(&["C06"], "duplicate ids");
                }
                let todo: Vec<&Msg> = msgs.iter().filter(|m| !self.is_verified(&g.verifier, m)).collect();
                if todo.is_empty() {
                    return Ok(());
                }
                let m = json!({"verify_messages": {"messages": todo.iter().map(|m| m.json()).collect::<Vec<_>>()}});
                self.call(me, &g.verifier, &m, &vec![], fx, None)
            }
            "route_messages" => {
                if !Self::unique(&msgs) {
                    return rej(&["C06", "C10"], "duplicate ids");
                }
                if from == g.router {
                    let g = self.gws.get_mut(me).unwrap();
                    for m in msgs {
                        g.out.insert(m.cc(), m);
                    }
                    return Ok(());
                }
                let ok: Vec<Value> = msgs.iter().filter(|m| self.is_verified(&g.verifier, m)).map(|m| m.json()).collect();
                if ok.is_empty() {
                    return Ok(());
                }
                self.call(me, &g.router, &json!({ "route_messages": ok }), &vec![], fx, None)
            }
            _ => rej(BAD, "unknown"),
        }
    }

    fn router_exec(&mut self, from: &str, var: &str, b: &Value, fx: &mut Fx) -> Res<()> {
        let r = &mut self.router;
        if var == "route_messages" {
            let Some(msgs) = parse_msgs(b) else { return rej(BAD, "malformed") };
            for m in &msgs {
                fx.items.push(("to_router", format!("{from} {}", m.show())));
            }
            if from != r.nexus_gw {
                let Some((name, c)) = r.chains.iter().find(|(_, c)| c.gw == from) else {
                    return rej(&["C07", "C01"], "sender is not a registered gateway");
                };
                if c.frozen & 1 != 0 {
                    return rej(&["C08"], "source chain frozen");
                }
                if msgs.iter().any(|m| m.chain != *name) {
                    return rej(&["C07", "C01"], "message of another source chain");
                }
            }
            let mut groups: Vec<(String, Vec<Msg>)> = vec![];
            for m in msgs {
                let to = match r.chains.get(&m.dst_chain) {
                    Some(c) if c.frozen & 2 != 0 => return rej(&["C08"], "destination chain frozen"),
                    Some(c) => c.gw.clone(),
                    None if from != r.nexus_gw => r.nexus_gw.clone(),
                    None => return rej(&["C10", "C11"], "unknown destination from nexus"),
                };
                match groups.last_mut() {
                    Some((g, v)) if *g == to && v[0].dst_chain == m.dst_chain => v.push(m),
                    _ => groups.push((to, vec![m])),
                }
            }
            let me = self.a_router.clone();
            for (to, v) in groups {
                fx.deliver.entry(to.clone()).or_default().extend(v.clone());
                let m = json!({"route_messages": v.iter().map(|m| m.json()).collect::<Vec<_>>()});
                self.call(&me, &to, &m, &vec![], fx, None)?;
            }
            return Ok(());
        }
        let Some(chain) = chain_name(&b["chain"]) else { return rej(BAD, "malformed") };
        self.uni.chains.insert(chain.clone());
        let dir = match b["direction"].as_str() {
            Some("None") => 0,
            Some("Incoming") => 1,
            Some("Outgoing") => 2,
            Some("Bidirectional") => 3,
            _ => b["direction"].as_u64().unwrap_or(0) as u8,
        };
        match var {
            "register_chain" | "upgrade_gateway" => {
                if from != r.gov {
                    return rej(&["C09", "C30"], "only governance manages gateways");
                }
                let Some(gw) = s(&b["gateway_address"]).or(s(&b["contract_address"])) else { return rej(BAD, "malformed") };
                if r.chains.values().any(|c| c.gw == gw) {
                    return rej(&["C09"], "gateway already serves a chain");
                }
                match (var, r.chains.get_mut(&chain)) {
                    ("register_chain", Some(_)) => rej(&["C09"], "chain already registered"),
                    ("register_chain", None) => {
                        r.chains.insert(chain, Endpoint { gw, frozen: 0 });
                        Ok(())
                    }
                    (_, Some(c)) => {
                        c.gw = gw;
                        Ok(())
                    }
                    (_, None) => rej(&["C09"], "no such chain"),
                }
            }
            "freeze_chain" | "unfreeze_chain" => {
                if from != r.admin {
                    return rej(&["C08", "C30"], "only the admin freezes");
                }
                let Some(c) = r.chains.get_mut(&chain) else { return rej(&["C08"], "no such chain") };
                if var == "freeze_chain" {
                    c.frozen |= dir;
                    fx.items.push(("freeze_event", format!("chain_frozen {chain}")));
                } else {
                    c.frozen &= !dir;
                    fx.items.push(("freeze_event", format!("chain_unfrozen {chain}")));
                }
                Ok(())
            }
            _ => rej(BAD, "unknown"),
        }
    }

    fn nexus_exec(&mut self, from: &str, var: &str, b: &Value, fx: &mut Fx) -> Res<()> {
        match var {
            "route_messages" => {
                let Some(msgs) = parse_msgs(b) else { return rej(BAD, "malformed") };
                if from != self.nexus.router {
                    return rej(&["C11", "C30"], "only the router sends to nexus");
                }
                for m in msgs {
                    if self.nexus.routed.insert(m.cc()) {
                        fx.nexus.push((self.a_nexus.clone(), m.to_nexus()));
                    }
                }
                Ok(())
            }
            "route_messages_from_nexus" => {
                let Some(msgs) = b.as_array().and_then(|a| a.iter().map(Msg::from_nexus).collect::<Option<Vec<_>>>()) else {
                    return rej(BAD, "malformed");
                };
                if from != self.nexus.nexus {
                    return rej(&["C11", "C30", "C01"], "only nexus sends from nexus");
                }
                if msgs.is_empty() {
                    return Ok(());
                }
                let (me, router) = (self.a_nexus.clone(), self.nexus.router.clone());
                let m = json!({"route_messages": msgs.iter().map(|m| m.json()).collect::<Vec<_>>()});
                self.call(&me, &router, &m, &vec![], fx, None)
            }
            _ => rej(BAD, "unknown"),
        }
    }

    // -------------------------------------------------------------- batching

    fn batching_exec(&mut self, var: &str, b: &Value, fx: &mut Fx, skip: Option<usize>) -> Res<()> {
        if var != "batch" {
            return rej(BAD, "unknown");
        }
        let me = self.a_batching.clone();
        let must = b["must_succeed_msgs"].as_array().cloned().unwrap_or_default();
        let may = b["can_fail_msgs"].as_array().cloned().unwrap_or_default();
        for c in &must {
            self.cosmos(&me, c, fx).map_err(|_| Rej { tags: &["C26"], why: "a mandatory call fails" })?;
        }
        for (i, c) in may.iter().enumerate() {
            let mut next = self.clone();
            let mut f = fx.clone();
            if skip != Some(i) && next.cosmos(&me, c, &mut f).is_ok() {
                *self = next;
                *fx = f;
            } else {
                fx.partial = true;
                fx.touched.extend(f.touched);
            }
        }
        Ok(())
    }

    fn cosmos(&mut self, me: &str, c: &Value, fx: &mut Fx) -> Res<()> {
        let funds = |v: &Value| -> Funds {
            v.as_array()
                .into_iter()
                .flatten()
                .filter_map(|c| Some((s(&c["denom"])?, c["amount"].as_str()?.parse().ok()?)))
                .collect()
        };
        let e = &c["wasm"]["execute"];
        if let (Some(to), Some(m)) = (e["contract_addr"].as_str(), e["msg"].as_str().and_then(b64)) {
            let Ok(m) = serde_json::from_slice::<Value>(&m) else { return rej(BAD, "malformed") };
            return self.call(me, to, &m, &funds(&e["funds"]), fx, None);
        }
        let e = &c["bank"]["send"];
        if let Some(to) = e["to_address"].as_str() {
            return self.send(me, to, &funds(&e["amount"]), &["C26"]);
        }
        rej(BAD, "malformed")
    }

    // -------------------------------------------------------------- multisig

    fn multisig_exec(&mut self, from: &str, var: &str, b: &Value, fx: &mut Fx) -> Res<()> {
        let h = self.height;
        match var {
            "start_signing_session" => {
                let (Some(ws), Some(d), Some(chain)) = (
                    s(&b["worker_set_id"]),
                    s(&b["msg"]).and_then(|m| hex::decode(m).ok()),
                    chain_name(&b["chain_name"]),
                ) else {
                    return rej(BAD, "malformed");
                };
                if d.len() != 32 {
                    return rej(&["C14"], "not a digest");
                }
                self.start_session(from, ws, Some(hex::encode(d)), chain, fx).map(|_| ())
            }
            "submit_signature" => {
                let m = &mut self.multisig;
                let (Some(id), Some(sig)) =
                    (b["session_id"].as_str().and_then(|x| x.parse::<u64>().ok()), s(&b["signature"]).and_then(|x| hex::decode(x).ok()))
                else {
                    return rej(BAD, "malformed");
                };
                let Some(se) = m.sessions.get_mut(&id) else { return rej(&["C12"], "no such session") };
                let ws = &m.sets[&se.ws];
                let Some(signer) = ws.signers.get(from) else { return rej(&["C12"], "not a member of the session") };
                if matches!(se.done, Some(d) if d + m.grace < h) {
                    return rej(&["C12", "C13"], "session closed");
                }
                let key = hex::decode(&signer.key.1).unwrap();
                let digest = hex::decode(&se.digest).unwrap();
                let valid = match signer.key.0.as_str() {
                    "ecdsa" => codec::verify(&key, &digest, &sig),
                    _ => crate::codec::verify_ed25519(&key, &digest, &sig),
                };
                if !valid {
                    return rej(&["C12"], "invalid signature");
                }
                if se.sigs.contains_key(from) {
                    return rej(&["C12", "C25"], "already signed");
                }
                se.sigs.insert(from.to_string(), hex::encode(&sig));
                let weight: u128 = se.sigs.keys().map(|a| ws.signers[a].weight).sum();
                if se.done.is_none() && weight >= ws.threshold {
                    se.done = Some(h);
                    fx.items.push(("completed", format!("{id} at {h}")));
                }
                fx.items.push(("signed", format!("{id} {from} {}", hex::encode(&sig))));
                let (me, rw) = (self.a_multisig.clone(), self.multisig.rewards.clone());
                let r = json!({"record_participation": {"event_id": id.to_string(), "worker_address": from}});
                self.call(&me, &rw, &r, &vec![], fx, None)
            }
            "register_worker_set" => {
                let Some(ws) = WSet::parse(&b["worker_set"]) else { return rej(BAD, "malformed") };
                self.register_set(ws);
                Ok(())
            }
            "register_public_key" => {
                let Some((t, k)) = b["public_key"].as_object().and_then(|o| o.iter().next()) else { return rej(BAD, "malformed") };
                let Some(k) = s(k).map(|k| k.to_lowercase()) else { return rej(BAD, "malformed") };
                let Ok(raw) = hex::decode(&k) else { return rej(BAD, "malformed") };
                if !(t == "ecdsa" && (raw.len() == 33 || raw.len() == 65) || t == "ed25519" && raw.len() == 32) {
                    return rej(&["C14"], "wrong key length");
                }
                self.uni.workers.insert(from.to_string());
                self.multisig.keys.insert((from.to_string(), t.clone()), k);
                Ok(())
            }
            "authorize_caller" | "unauthorize_caller" => {
                if from != self.multisig.gov {
                    return rej(&["C14", "C30"], "only governance authorizes callers");
                }
                let Some(c) = s(&b["contract_address"]) else { return rej(BAD, "malformed") };
                if var == "authorize_caller" {
                    self.multisig.callers.insert(c);
                } else {
                    self.multisig.callers.remove(&c);
                }
                Ok(())
            }
            _ => rej(BAD, "unknown"),
        }
    }

    fn register_set(&mut self, ws: WSet) {
        let id = ws.id();
        self.uni.wsets.insert(id.clone());
        self.multisig.sets.insert(id, ws);
        let a = self.a_multisig.clone();
        let _ = a;
    }

    /// `digest` None: learned from the real execution.
    fn start_session(&mut self, from: &str, ws: String, digest: Option<String>, chain: String, fx: &mut Fx) -> Res<u64> {
        let m = &mut self.multisig;
        fx.touched.insert(self.a_multisig.clone());
        if !m.callers.contains(from) {
            return rej(&["C14", "C30"], "caller not authorized");
        }
        let Some(set) = m.sets.get(&ws) else { return rej(&["C14"], "no such worker set") };
        let id = m.sessions.len() as u64 + 1;
        let keys: Vec<String> = set.signers.iter().map(|(a, s)| format!("{a}={}:{}", s.key.0, s.key.1)).collect();
        fx.items.push((
            "session",
            format!("id={id} set={ws} chain={chain} digest={} keys={}", digest.clone().unwrap_or_default(), keys.join(",")),
        ));
        fx.new_sessions.push((id, ws.clone()));
        m.sessions.insert(id, Session { ws, digest: digest.unwrap_or_default(), chain, done: None, sigs: BTreeMap::new() });
        Ok(id)
    }

    // -------------------------------------------------------------- prover

    /// The set of now-active workers; Err if one cannot be formed.
    pub fn wanted_set(&self, p: &PCfg) -> Res<WSet> {
        let act = self.registry.active(&p.service, &p.chain);
        if act.is_empty() {
            return rej(&["C18"], "no active workers");
        }
        let mut signers = BTreeMap::new();
        for w in &act {
            let Some(k) = self.multisig.keys.get(&(w.clone(), "ecdsa".to_string())) else {
                return rej(&["C18"], "active worker without key");
            };
            signers.insert(w.clone(), Signer { weight: 1, key: ("ecdsa".into(), k.clone()) });
        }
        let n = act.len() as u128;
        let threshold = (n * p.thr.0 as u128 + p.thr.1 as u128 - 1) / p.thr.1 as u128;
        Ok(WSet { signers, threshold, created: self.height })
    }

    pub fn differs(p: &PCfg, a: &WSet, b: &WSet) -> bool {
        let d = |x: &WSet, y: &WSet| x.signers.iter().filter(|(k, v)| y.signers.get(*k) != Some(v)).count() as u64;
        d(a, b) + d(b, a) > p.diff
    }

    fn prover_exec(&mut self, me: &str, var: &str, fx: &mut Fx, b: &Value) -> Res<()> {
        let cfg = self.provers[me].cfg.clone();
        let cur = self.provers[me].current.clone();
        match var {
            "construct_proof" => {
                let Some(ids) = b["message_ids"]
                    .as_array()
                    .and_then(|a| a.iter().map(|v| Some((chain_name(&v["chain"])?, nonempty(&v["id"])?))).collect::<Option<Vec<_>>>())
                else {
                    return rej(BAD, "malformed");
                };
                self.uni.ids.extend(ids.iter().cloned());
                let g = &self.gws[&cfg.gateway];
                let mut msgs = vec![];
                for id in &ids {
                    match g.out.get(id) {
                        Some(m) if m.dst_chain == cfg.chain => msgs.push(m.clone()),
                        Some(_) => return rej(&["C16"], "message for another chain"),
                        None => return rej(&["C16", "C01"], "message was never routed here"),
                    }
                }
                let mut names: Vec<String> = ids.iter().map(|(c, i)| format!("{c}:{i}")).collect();
                names.sort();
                let mut key = names.join(",");
                if !self.provers[me].batches.contains_key(&key) {
                    let mut cmds = vec![];
                    let new = self.next_set(me)?;
                    if let Some(new) = new {
                        self.set_next(me, &new)?;
                        names.push(new.id());
                        key = names.join(",");
                        cmds.push(PCmd::Transfer(new));
                    }
                    for m in msgs {
                        if dst_address(cfg.abi, &m.dst).is_none() {
                            return rej(&["C16"], "bad destination address");
                        }
                        cmds.push(PCmd::Approve(m));
                    }
                    self.add_batch(me, &key, ids, cmds)?;
                }
                self.open_session(me, &cfg, &key, fx)
            }
            "update_worker_set" => match cur {
                None => {
                    let w = self.wanted_set(&cfg)?;
                    self.register_set(w.clone());
                    fx.touched.insert(self.a_multisig.clone());
                    let p = self.provers.get_mut(me).unwrap();
                    p.history.push(w.clone());
                    p.current = Some(w);
                    Ok(())
                }
                Some(_) => {
                    let Some(new) = self.next_set(me)? else { return rej(&["C18"], "worker set unchanged") };
                    self.set_next(me, &new)?;
                    let key = new.id();
                    self.add_batch(me, &key, vec![], vec![PCmd::Transfer(new)])?;
                    self.open_session(me, &cfg, &key, fx)
                }
            },
            "confirm_worker_set" => {
                let Some(next) = self.provers[me].next.clone() else { return rej(&["C17"], "no pending worker set") };
                let Some(ops) = next.ops(cfg.abi) else { return rej(&["C17"], "operators have no address") };
                if self.vers[&cfg.verifier].ws_status(&ops) != Status::Verified {
                    return rej(&["C17"], "hand-over not verified");
                }
                self.uni.opsets.insert(ops);
                let p = self.provers.get_mut(me).unwrap();
                p.history.push(next.clone());
                p.current = Some(next.clone());
                p.next = None;
                fx.touched.insert(self.a_multisig.clone());
                self.register_set(next);
                Ok(())
            }
            _ => rej(BAD, "unknown"),
        }
    }

    fn next_set(&self, me: &str) -> Res<Option<WSet>> {
        let p = &self.provers[me];
        let w = self.wanted_set(&p.cfg)?;
        match &p.current {
            None => rej(&["C17", "C18"], "no worker set yet"),
            Some(c) => Ok(Self::differs(&p.cfg, &w, c).then_some(w)),
        }
    }

    fn set_next(&mut self, me: &str, new: &WSet) -> Res<()> {
        let p = self.provers.get_mut(me).unwrap();
        if let Some(n) = &p.next {
            if !n.same(new) {
                return rej(&["C17"], "another hand-over is pending");
            }
        }
        p.next = Some(new.clone());
        Ok(())
    }

    fn add_batch(&mut self, me: &str, key: &str, ids: Vec<(String, String)>, cmds: Vec<PCmd>) -> Res<()> {
        let p = self.provers.get_mut(me).unwrap();
        for c in &cmds {
            if let PCmd::Transfer(w) = c {
                match w.ops(p.cfg.abi) {
                    None => return rej(&["C18", "C15"], "operator key is not a valid point"),
                    Some(o) => {
                        self.uni.opsets.insert(o);
                    }
                }
            }
        }
        p.batches.insert(key.to_string(), Batch { ids, cmds, digest: None });
        Ok(())
    }

    fn open_session(&mut self, me: &str, cfg: &PCfg, key: &str, fx: &mut Fx) -> Res<()> {
        let Some(cur) = self.provers[me].current.clone() else { return rej(&["C17"], "no worker set yet") };
        let digest = self.provers[me].batches[key].digest.clone();
        let id = self.start_session(me, cur.id(), digest, cfg.chain.clone(), fx)?;
        self.provers.get_mut(me).unwrap().sessions.insert(id, key.to_string());
        Ok(())
    }

    /// Called after the real execution: the digests announced for new sessions.
    pub fn learn_digest(&mut self, session: u64, digest: &str) -> Result<(), String> {
        let Some(se) = self.multisig.sessions.get_mut(&session) else { return Ok(()) };
        if se.digest.is_empty() {
            se.digest = digest.to_string();
        } else if se.digest != digest {
            return Err(format!("session {session}: digest {digest}, expected {}", se.digest));
        }
        for p in self.provers.values_mut() {
            if let Some(k) = p.sessions.get(&session) {
                let b = p.batches.get_mut(k).unwrap();
                match &b.digest {
                    None => b.digest = Some(digest.to_string()),
                    Some(d) if d != digest => return Err(format!("session {session}: batch changed its digest")),
                    _ => {}
                }
            }
        }
        Ok(())
    }
}

pub fn b64(x: &str) -> Option<Vec<u8>> {
    cosmwasm_std::Binary::from_base64(x).ok().map(|b| b.0)
}
