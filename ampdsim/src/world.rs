//! The simulated world around the daemons: the Axelar chain and its nodes, the signing services,
//! the source chains' nodes, the faults, and what every daemon was seen to do.

use std::collections::{BTreeMap, BTreeSet};

use base64::{engine::general_purpose::STANDARD, Engine};
use cosmwasm_std::{Addr, HexBinary};
use k256::ecdsa::signature::hazmat::{PrehashSigner, PrehashVerifier};
use k256::ecdsa::{Signature, SigningKey, VerifyingKey};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use simnet::net::{self, Reply, Req};
use simnet::rt::{self, Pid};
use simnet::{hash, mix};

use axelar_wasm_std::voting::{PollId, Vote};
use voting_verifier::events::{PollMetadata, PollStarted, TxEventConfirmation, WorkerSetConfirmation};

use crate::plan::*;
use crate::rng::Rng;
use crate::source::*;

pub const MS: u64 = 1_000_000;

pub fn now_ms() -> u64 {
    rt::now() / MS
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Viol {
    pub property: String,
    pub rule: String,
    pub detail: String,
}

// ---------------------------------------------------------------- Axelar

#[derive(Clone, Debug)]
pub struct PollRec {
    pub id: u64,
    pub contract: String,
    pub chain: usize,
    pub sets: bool,
    pub named: String,
    pub foreign: bool,
    pub height: u64,
    pub at_ms: u64,
    pub expires: u64,
    pub parts: BTreeSet<String>,
    pub asked: Vec<Asked>,
    pub votes: BTreeMap<String, (Vec<Vote>, u64)>,
    pub probe: bool,
}

#[derive(Clone, Debug)]
pub struct SessRec {
    pub id: u64,
    pub contract: String,
    pub foreign: bool,
    pub height: u64,
    pub at_ms: u64,
    pub keys: BTreeMap<String, Vec<u8>>,
    pub msg: [u8; 32],
    pub signed: BTreeMap<String, u64>,
    pub probe: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TxRaw {
    pub body_bytes: Vec<u8>,
    pub auth_info_bytes: Vec<u8>,
    pub signatures: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, Deserialize)]
pub struct AnyMsg {
    pub type_url: String,
    pub value: Vec<u8>,
}

#[derive(Clone, Debug, Deserialize)]
pub struct Body {
    pub messages: Vec<AnyMsg>,
}

#[derive(Clone, Debug, Deserialize)]
pub struct CoinJ {
    pub denom: String,
    pub amount: u128,
}

#[derive(Clone, Debug, Deserialize)]
pub struct FeeJ {
    pub amount: Vec<CoinJ>,
    pub gas_limit: u64,
}

#[derive(Clone, Debug, Deserialize)]
pub struct SignerJ {
    pub sequence: u64,
}

#[derive(Clone, Debug, Deserialize)]
pub struct Auth {
    pub signer_infos: Vec<SignerJ>,
    pub fee: FeeJ,
}

#[derive(Serialize)]
struct SignDoc<'a> {
    body_bytes: &'a [u8],
    auth_info_bytes: &'a [u8],
    chain_id: &'a str,
    account_number: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Deserialize)]
pub struct Exec {
    pub sender: String,
    pub contract: String,
    pub msg: Vec<u8>,
    #[serde(default)]
    pub funds: Vec<Value2>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Deserialize)]
pub struct Value2 {
    pub denom: String,
    pub amount: u128,
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub hash: String,
    pub from: usize,
    pub pid: Pid,
    pub sequence: u64,
    pub msgs: Vec<Exec>,
}

pub struct Block {
    pub begin: Vec<Value>,
    pub txs: Vec<Value>,
    pub end: Vec<Value>,
}

/// what a message of a daemon is
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Act {
    Vote(String, u64),
    Sign(String, u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Ok,
    Err,
    Panic,
    Killed,
}

#[derive(Clone, Debug)]
pub struct Proc {
    pub pid: Pid,
    pub kind: &'static str,
    pub start_ms: u64,
    pub end: Option<(u64, How)>,
    pub error: String,
    /// heights the node reported as the latest: (time, height)
    pub latest: Vec<(u64, u64)>,
    pub fetched: Vec<(u64, u64)>,
    pub requests: u64,
    /// messages whose execution was estimated alone, with the gas, in order
    pub estimated: Vec<(Exec, u64)>,
    /// the messages of its queue that it is about to broadcast, and their gas
    pub batch: Option<(Vec<Exec>, u64)>,
    pub unconfirmed: bool,
    pub sent: Vec<Tx>,
    pub acts: BTreeMap<Act, u64>,
    /// a transaction, or what is needed for one, failed
    pub tx_trouble: bool,
    pub src_trouble: bool,
    pub receipt_failed: BTreeSet<[u8; 32]>,
    /// height of the block whose question it answered although the answer is on the chain
    pub repeated: Option<u64>,
    pub failed_tx: bool,
    pub start_seq: Option<u64>,
    pub acc_number: Option<u64>,
    pub term_ms: Option<u64>,
    pub touched_ms: Option<u64>,
    pub disk_fault: bool,
    pub unreadable: bool,
}

pub struct Worker {
    pub addr: String,
    pub key: SigningKey,
    pub sign_key: SigningKey,
    pub registered: Option<Vec<u8>>,
    pub number: u64,
    /// sequence after each height
    pub seq: u64,
    pub seq_hist: Vec<(u64, u64)>,
    pub procs: Vec<Proc>,
    pub calls: BTreeMap<String, u64>,
    pub dir: String,
}

pub struct World {
    pub plan: Plan,
    pub height: u64,
    pub blocks: BTreeMap<u64, Block>,
    pub mempool: Vec<Tx>,
    pub seen: BTreeSet<String>,
    pub done: BTreeMap<String, (u64, u32, String)>,
    pub polls: Vec<PollRec>,
    pub sessions: Vec<SessRec>,
    pub workers: Vec<Worker>,
    pub pid_of: BTreeMap<Pid, usize>,
    pub next_work: usize,
    pub used: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub viols: Vec<Viol>,
    pub digest: u64,
    pub log: Option<Vec<String>>,
    pub faults_over: bool,
    pub faults_over_ms: u64,
    pub registry: String,
    pub registry_msgs: Vec<Exec>,
    pub states: BTreeSet<u64>,
    pub block_times: BTreeMap<u64, u64>,
    pub current: Vec<Option<Pid>>,
    pub unreadable: Vec<bool>,
    pub probes: Vec<Work>,
    pub closing: bool,
    pub looping: Vec<bool>,
    pub closed: usize,
}

pub fn account(parts: &[&[u8]]) -> String {
    cosmrs::AccountId::new("axelar", &b32(parts)[..20]).unwrap().to_string()
}

fn key_of(parts: &[&[u8]]) -> SigningKey {
    let mut b = b32(parts);
    b[0] &= 0x7f;
    SigningKey::from_slice(&b).unwrap()
}

pub fn addr_of(k: &SigningKey) -> String {
    cosmrs::crypto::PublicKey::from(k.verifying_key()).account_id("axelar").unwrap().to_string()
}

pub const KEY_UID: &str = "axelar-key";
pub const DENOM: &str = "uaxl";

impl World {
    pub fn new(plan: Plan, dir: &str, log: bool) -> World {
        let seed = plan.cfg.seed.to_le_bytes();
        let multisig = account(&[b"multisig", &seed]);
        let workers = (0..plan.cfg.workers)
            .map(|w| {
                let key = tofnd_key(plan.cfg.seed, w, KEY_UID);
                Worker {
                    addr: addr_of(&key),
                    sign_key: tofnd_key(plan.cfg.seed, w, &multisig),
                    key,
                    registered: None,
                    number: 10 + w as u64 * 7,
                    seq: hash(&[b"seq", &seed, &[w as u8]]) % 50,
                    seq_hist: vec![],
                    procs: vec![],
                    calls: BTreeMap::new(),
                    dir: format!("{dir}/w{w}"),
                }
            })
            .collect();
        let height = plan.cfg.h0;
        let n = plan.cfg.workers;
        let mut w = World {
            registry: account(&[b"registry", &seed]),
            plan,
            height,
            blocks: BTreeMap::new(),
            mempool: vec![],
            seen: BTreeSet::new(),
            done: BTreeMap::new(),
            polls: vec![],
            sessions: vec![],
            workers,
            pid_of: BTreeMap::new(),
            next_work: 0,
            used: BTreeMap::new(),
            counts: BTreeMap::new(),
            viols: vec![],
            digest: 0,
            log: if log { Some(vec![]) } else { None },
            faults_over: false,
            faults_over_ms: u64::MAX,
            registry_msgs: vec![],
            states: BTreeSet::new(),
            block_times: BTreeMap::new(),
            current: vec![None; n],
            unreadable: vec![false; n],
            probes: vec![],
            closing: false,
            looping: vec![],
            closed: 0,
        };
        w.blocks.insert(height, Block { begin: vec![], txs: vec![], end: vec![] });
        for x in &mut w.workers {
            x.seq_hist.push((height, x.seq));
        }
        w
    }

    pub fn source(&self) -> Source<'_> {
        Source { cfg: &self.plan.cfg }
    }
    fn seed(&self) -> [u8; 8] {
        self.plan.cfg.seed.to_le_bytes()
    }
    pub fn verifier(&self, chain: usize) -> String {
        account(&[b"verifier", &[chain as u8], &self.seed()])
    }
    pub fn multisig(&self) -> String {
        account(&[b"multisig", &self.seed()])
    }
    fn foreign(&self) -> String {
        account(&[b"foreign", &self.seed()])
    }
    fn outsider(&self, k: u8) -> String {
        account(&[b"outsider", &[k], &self.seed()])
    }
    pub fn chain_name(&self, chain: usize) -> String {
        self.plan.cfg.evm.get(chain).map(|e| e.name.to_lowercase()).unwrap_or_else(|| "sui".into())
    }
    pub fn handles(&self, w: usize, chain: usize, sets: bool) -> bool {
        self.plan.cfg.handlers[w] >> (2 * chain as u32 + sets as u32) & 1 == 1
    }
    pub fn signs(&self, w: usize) -> bool {
        self.plan.cfg.handlers[w] >> (2 * (self.plan.cfg.evm.len() as u32 + 1)) & 1 == 1
    }

    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if self.log.is_some() || true {
            let s = s();
            self.digest = mix(self.digest ^ hash(&[s.as_bytes(), &rt::now().to_le_bytes()]));
            if let Some(l) = &mut self.log {
                l.push(format!("{:>9.3} h{} {s}", rt::now() as f64 / 1e9, self.height));
            }
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.into()).or_insert(0) += 1;
    }
    fn fired(&mut self, k: String) {
        *self.used.entry(k).or_insert(0) += 1;
    }
    pub fn viol(&mut self, property: &str, rule: &str, detail: String) {
        self.note(|| format!("VIOLATION {property} {rule}: {detail}"));
        if !self.viols.iter().any(|v| v.property == property && v.rule == rule) {
            self.viols.push(Viol { property: property.into(), rule: rule.into(), detail });
        }
    }
    pub fn proc_mut(&mut self, pid: Pid) -> Option<&mut Proc> {
        let w = *self.pid_of.get(&pid)?;
        self.workers[w].procs.iter_mut().find(|p| p.pid == pid)
    }
    pub fn start_proc(&mut self, w: usize, pid: Pid, kind: &'static str) {
        self.pid_of.insert(pid, w);
        self.workers[w].procs.push(Proc {
            pid,
            kind,
            start_ms: now_ms(),
            end: None,
            error: String::new(),
            latest: vec![],
            fetched: vec![],
            requests: 0,
            estimated: vec![],
            batch: None,
            unconfirmed: false,
            sent: vec![],
            acts: BTreeMap::new(),
            tx_trouble: false,
            src_trouble: false,
            receipt_failed: BTreeSet::new(),
            repeated: None,
            failed_tx: false,
            start_seq: None,
            acc_number: None,
            term_ms: None,
            touched_ms: None,
            disk_fault: false,
            unreadable: self.unreadable[w],
        });
        if self.lagging(w) > 0 {
            self.touch(pid);
        }
        self.count(kind);
        self.note(|| format!("worker {w}: {kind} starts as process {pid}"));
    }

    // ------------------------------------------------------------ the chain

    fn wasm_event(&self, contract: &str, e: cosmwasm_std::Event) -> Value {
        let mut at = vec![("_contract_address".to_string(), contract.to_string())];
        at.extend(e.attributes.into_iter().map(|a| (a.key, a.value)));
        event(&format!("wasm-{}", e.ty), &at)
    }

    pub fn open_poll(&mut self, chain: usize, sets: bool, foreign: bool, other: bool, ttl: u64, parts: u32, asked: Vec<Asked>, probe: bool) -> Option<Value> {
        let s = self.source();
        let sui = s.sui();
        let t = now_ms();
        if chain == sui && sets {
            // a Sui node answers a request for one unknown transaction with an error
            if !asked.iter().all(|a| s.find_tx(&a.tx).map_or(false, |i| self.plan.cfg.src[i].chain == sui && s.sui_times(i).0 + 500 < t)) {
                return None;
            }
        }
        let contract = if foreign { self.foreign() } else { self.verifier(chain) };
        let named = if other { "elsewhere".to_string() } else { self.chain_name(chain) };
        let mut who: BTreeSet<String> = BTreeSet::new();
        for w in 0..self.workers.len() {
            if parts >> w & 1 == 1 {
                who.insert(self.workers[w].addr.clone());
            }
        }
        for k in 0..3u8 {
            if parts >> (8 + k) & 1 == 1 {
                who.insert(self.outsider(k));
            }
        }
        let height = self.height;
        let id = 1 + self.polls.iter().filter(|p| p.contract == contract).count() as u64;
        let gateway = s.gateway(chain);
        let meta = PollMetadata {
            poll_id: PollId::from(id),
            source_chain: named.parse().unwrap(),
            source_gateway_address: Source::hexed(&gateway).try_into().unwrap(),
            confirmation_height: self.plan.cfg.evm.get(chain).map_or(1, |e| e.conf),
            expires_at: height + ttl,
            participants: who.iter().map(|a| Addr::unchecked(a.clone())).collect(),
        };
        let ev: cosmwasm_std::Event = if sets {
            let a = &asked[0];
            let What::Ops(o) = &a.what else { return None };
            PollStarted::WorkerSet {
                worker_set: WorkerSetConfirmation {
                    tx_id: s.tx_text(chain, &a.tx).try_into().unwrap(),
                    event_index: a.index,
                    operators: Source::operators(o),
                },
                metadata: meta,
            }
            .into()
        } else {
            let messages = asked
                .iter()
                .filter_map(|a| {
                    let What::Call(c) = &a.what else { return None };
                    Some(TxEventConfirmation {
                        tx_id: s.tx_text(chain, &a.tx).try_into().unwrap(),
                        event_index: a.index,
                        destination_address: c.dest_addr.parse().ok()?,
                        destination_chain: c.dest_chain.parse().ok()?,
                        source_address: Source::hexed(&c.source).parse().ok()?,
                        payload_hash: c.payload_hash,
                    })
                })
                .collect::<Vec<_>>();
            if messages.len() != asked.len() || messages.is_empty() {
                return None;
            }
            PollStarted::Messages { messages, metadata: meta }.into()
        };
        self.note(|| format!("poll {id} at {contract} on {named}, sets {sets}, expires {}", height + ttl));
        self.polls.push(PollRec {
            id,
            contract: contract.clone(),
            chain,
            sets,
            named,
            foreign,
            height,
            at_ms: t,
            expires: height + ttl,
            parts: who,
            asked,
            votes: BTreeMap::new(),
            probe,
        });
        self.count("polls");
        Some(self.wasm_event(&contract, ev))
    }

    pub fn open_session(&mut self, foreign: bool, parts: u32, seed: u64, probe: bool) -> Option<Value> {
        let contract = if foreign { self.foreign() } else { self.multisig() };
        let mut r = Rng::new(seed);
        let msg = r.bytes32();
        let mut keys: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut pub_keys = std::collections::HashMap::new();
        for w in 0..self.workers.len() {
            if parts >> w & 1 == 1 {
                if let Some(k) = &self.workers[w].registered {
                    keys.insert(self.workers[w].addr.clone(), k.clone());
                    pub_keys.insert(self.workers[w].addr.clone(), multisig::key::PublicKey::Ecdsa(HexBinary::from(k.clone())));
                }
            }
        }
        for k in 0..3u8 {
            if parts >> (8 + k) & 1 == 1 {
                let pk = if k == 2 {
                    multisig::key::PublicKey::Ed25519(HexBinary::from(r.bytes32().to_vec()))
                } else {
                    let k = key_of(&[b"outsider", &[k], &seed.to_le_bytes()]);
                    multisig::key::PublicKey::Ecdsa(HexBinary::from(k.verifying_key().to_encoded_point(true).as_bytes().to_vec()))
                };
                pub_keys.insert(self.outsider(k), pk);
            }
        }
        if pub_keys.is_empty() {
            return None;
        }
        let id = 1 + self.sessions.iter().filter(|s| s.contract == contract).count() as u64;
        let ev: cosmwasm_std::Event = multisig::events::Event::SigningStarted {
            session_id: id.into(),
            worker_set_id: hex::encode(r.bytes32()),
            pub_keys,
            msg: HexBinary::from(msg.to_vec()).try_into().unwrap(),
            chain_name: "avalanche".parse().unwrap(),
        }
        .into();
        self.note(|| format!("session {id} at {contract}"));
        self.sessions.push(SessRec {
            id,
            contract: contract.clone(),
            foreign,
            height: self.height,
            at_ms: now_ms(),
            keys,
            msg,
            signed: BTreeMap::new(),
            probe,
        });
        self.count("sessions");
        Some(self.wasm_event(&contract, ev))
    }

    pub fn make_block(&mut self, extra: Vec<Work>, probe: bool) {
        self.height += 1;
        let h = self.height;
        let mut b = Block { begin: vec![], txs: vec![], end: vec![] };
        let mut work = vec![];
        while !probe && self.next_work < self.plan.work.len() && self.plan.work[self.next_work].at() <= now_ms() {
            work.push(self.plan.work[self.next_work].clone());
            self.next_work += 1;
        }
        work.extend(extra);
        let mut evs = vec![];
        for w in work {
            let e = match w {
                Work::Poll { chain, sets, foreign, other_chain, ttl, parts, items, .. } => {
                    let asked: Vec<Asked> = items.iter().map(|i| self.source().asked(chain, sets, i)).collect();
                    let other = other_chain && chain != self.source().sui();
                    self.open_poll(chain, sets, foreign, other, ttl, parts, asked, probe)
                }
                Work::Session { foreign, parts, seed, .. } => self.open_session(foreign, parts, seed, probe),
                Work::Junk { kind, .. } => Some(self.junk(kind)),
            };
            evs.extend(e);
        }
        for (i, e) in evs.into_iter().enumerate() {
            match hash(&[b"place", &h.to_le_bytes(), &[i as u8]]) % 8 {
                0 => b.begin.push(e),
                1 => b.end.push(e),
                2 => b.txs.push(json!({"code": 0, "events": [event("transfer", &[("amount".into(), "5uaxl".into())]), e]})),
                _ => b.txs.push(json!({"code": 0, "events": [e]})),
            }
        }
        // one event more than one per transaction
        if b.txs.len() > 1 && hash(&[b"join", &h.to_le_bytes()]) % 3 == 0 {
            let last = b.txs.pop().unwrap();
            let more = last["events"].as_array().unwrap().clone();
            b.txs.last_mut().unwrap()["events"].as_array_mut().unwrap().extend(more);
        }
        for tx in std::mem::take(&mut self.mempool) {
            let w = tx.from;
            let mut code = 0;
            let mut why = String::new();
            if tx.sequence != self.workers[w].seq {
                code = 32;
                why = "account sequence mismatch".into();
            } else {
                self.workers[w].seq += 1;
                match self.execute(&tx.msgs, true) {
                    Ok(()) => {}
                    Err(e) => {
                        code = 5;
                        why = e;
                    }
                }
            }
            self.count(if code == 0 { "transactions" } else { "failed transactions" });
            self.note(|| format!("tx {} of worker {w} in block: code {code} {why}", &tx.hash[..8]));
            b.txs.push(json!({"code": code, "events": [event("tx", &[("fee".into(), "1uaxl".into())])]}));
            self.done.insert(tx.hash.clone(), (h, code, why));
        }
        for x in &mut self.workers {
            x.seq_hist.push((h, x.seq));
        }
        self.blocks.insert(h, b);
        self.block_times.insert(now_ms(), h);
        self.count("blocks");
    }

    fn junk(&self, kind: u8) -> Value {
        let f = self.foreign();
        let c = ("_contract_address".to_string(), f);
        let kv = |k: &str, v: &str| (k.to_string(), v.to_string());
        match kind {
            0 => event("wasm-something_else", &[c, kv("poll_id", "\"1\"")]),
            1 => event("wasm-messages_poll_started", &[c, kv("messages", "none")]),
            2 => event("wasm-signing_started", &[c, kv("session_id", "abc"), kv("msg", "00")]),
            3 => event("wasm-worker_set_poll_started", &[c, kv("poll_id", "{}"), kv("participants", "[1]")]),
            4 => event("message", &[kv("action", "/cosmos.bank.v1beta1.MsgSend"), kv("", "")]),
            _ => event("wasm-messages_poll_started", &[c]),
        }
    }

    /// the contracts' reaction to these messages; `commit` keeps the effects
    fn execute(&mut self, msgs: &[Exec], commit: bool) -> Result<(), String> {
        let mut voted: BTreeSet<(usize, String)> = BTreeSet::new();
        let mut signed: BTreeSet<(usize, String)> = BTreeSet::new();
        let mut plan: Vec<Box<dyn FnOnce(&mut World)>> = vec![];
        let h = self.height;
        for m in msgs {
            let sender = m.sender.clone();
            if m.contract == self.registry {
                let m = m.clone();
                plan.push(Box::new(move |w| w.registry_msgs.push(m)));
            } else if m.contract == self.multisig() || self.sessions.iter().any(|s| s.contract == m.contract) && !self.polls.iter().any(|p| p.contract == m.contract) {
                match serde_json::from_slice::<multisig::msg::ExecuteMsg>(&m.msg).map_err(|e| e.to_string())? {
                    multisig::msg::ExecuteMsg::SubmitSignature { session_id, signature } => {
                        let i = self.sessions.iter().position(|s| s.contract == m.contract && s.id == session_id.u64()).ok_or("no such session")?;
                        let s = &self.sessions[i];
                        let key = s.keys.get(&sender).ok_or("not a participant")?;
                        if s.signed.contains_key(&sender) || !signed.insert((i, sender.clone())) {
                            return Err("signature already submitted".into());
                        }
                        if !verify(key, &s.msg, signature.as_slice()) {
                            return Err("invalid signature".into());
                        }
                        plan.push(Box::new(move |w| {
                            w.sessions[i].signed.insert(sender, now_ms());
                        }));
                    }
                    multisig::msg::ExecuteMsg::RegisterPublicKey { public_key } => {
                        let multisig::key::PublicKey::Ecdsa(k) = public_key else { return Err("unexpected key".into()) };
                        let w = self.workers.iter().position(|w| w.addr == sender).ok_or("unknown worker")?;
                        plan.push(Box::new(move |x| x.workers[w].registered = Some(k.to_vec())));
                    }
                    _ => return Err("not allowed".into()),
                }
            } else {
                let voting_verifier::msg::ExecuteMsg::Vote { poll_id, votes } =
                    serde_json::from_slice(&m.msg).map_err(|e| e.to_string())?
                else {
                    return Err("not allowed".into());
                };
                let id: String = poll_id.into();
                let i = self.polls.iter().position(|p| p.contract == m.contract && p.id.to_string() == id).ok_or("poll not found")?;
                let p = &self.polls[i];
                if h >= p.expires {
                    return Err("poll has expired".into());
                }
                if !p.parts.contains(&sender) {
                    return Err("not a participant".into());
                }
                if p.votes.contains_key(&sender) || !voted.insert((i, sender.clone())) {
                    return Err("already voted".into());
                }
                if votes.len() != p.asked.len() {
                    return Err("invalid vote size".into());
                }
                plan.push(Box::new(move |w| {
                    w.polls[i].votes.insert(sender, (votes, now_ms()));
                }));
            }
        }
        if commit {
            for f in plan {
                f(self);
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ nodes

    /// what this worker's node has seen of the chain
    fn node_height(&self, w: usize) -> u64 {
        self.height.saturating_sub(self.lagging(w)).max(self.plan.cfg.h0)
    }

    fn lagging(&self, w: usize) -> u64 {
        let t = now_ms();
        let mut lag = 0;
        for f in &self.plan.faults {
            if let Fault::Lag { w: x, at_ms, ms, blocks } = f {
                if *x == w && *at_ms <= t && t < at_ms + ms && !self.faults_over {
                    lag = lag.max(*blocks);
                }
            }
        }
        lag
    }

    fn target(&self, url: &str) -> Option<(usize, usize)> {
        let host = url.split("://").nth(1)?.trim_end_matches('/').to_string();
        let (kind, w) = host.rsplit_once('-')?;
        let w: usize = w.parse().ok()?;
        let t = match kind {
            "axelar" => 0,
            "tofnd" => 1,
            "sui" => 2 + self.plan.cfg.evm.len(),
            k => 2 + k.strip_prefix("evm")?.parse::<usize>().ok()?,
        };
        Some((w, t))
    }

    pub fn touch_by(&mut self, pid: Pid, what: &str) {
        self.note(|| format!("process {pid}: {what}"));
        self.touch(pid);
        self.fired(what.into());
    }
    pub fn fault_done(&mut self, what: String) {
        self.fired(what);
    }

    fn touch(&mut self, pid: Pid) {
        if let Some(p) = self.proc_mut(pid) {
            p.touched_ms.get_or_insert(now_ms());
        }
    }

    pub fn decode(&self, b: &[u8]) -> Result<(TxRaw, Body, Auth, Vec<Exec>), String> {
        let raw: TxRaw = serde_json::from_slice(b).map_err(|e| e.to_string())?;
        let body: Body = serde_json::from_slice(&raw.body_bytes).map_err(|e| e.to_string())?;
        let auth: Auth = serde_json::from_slice(&raw.auth_info_bytes).map_err(|e| e.to_string())?;
        let mut msgs = vec![];
        for m in &body.messages {
            if m.type_url != "/cosmwasm.wasm.v1.MsgExecuteContract" {
                return Err(format!("unexpected message {}", m.type_url));
            }
            msgs.push(serde_json::from_slice::<Exec>(&m.value).map_err(|e| e.to_string())?);
        }
        Ok((raw, body, auth, msgs))
    }

    fn grpc(&mut self, r: &Req, w: usize) -> Reply {
        let bad = |code: i32, m: &str| Reply::Err { code, message: m.into() };
        let ok = |v: Value| Reply::Ok(serde_json::to_vec(&v).unwrap());
        let body: Value = serde_json::from_slice(&r.body).unwrap_or(Value::Null);
        match r.method.as_str() {
            "connect" => Reply::Ok(vec![]),
            "block" => ok(json!({"block": {"header": {"height": self.node_height(w).to_string()}}})),
            "block_results" => {
                let h: u64 = body.as_str().and_then(|s| s.parse().ok()).unwrap_or(0);
                if h > self.node_height(w) {
                    return bad(-32603, "height must be less than or equal to the current blockchain height");
                }
                match self.blocks.get(&h) {
                    Some(b) => ok(json!({"height": h.to_string(),
                        "txs_results": if b.txs.is_empty() { Value::Null } else { json!(b.txs) },
                        "begin_block_events": if b.begin.is_empty() { Value::Null } else { json!(b.begin) },
                        "end_block_events": if b.end.is_empty() { Value::Null } else { json!(b.end) }})),
                    None => bad(-32603, "lowest height is higher than that"),
                }
            }
            "account" => {
                let a = body["address"].as_str().unwrap_or("");
                let v = self.node_height(w);
                match self.workers.iter().find(|x| x.addr == a) {
                    Some(x) => {
                        let seq = x.seq_hist.iter().rev().find(|y| y.0 <= v).map_or(0, |y| y.1);
                        let acc = json!({"address": a, "pub_key": null, "account_number": x.number, "sequence": seq});
                        ok(json!({"account": {"type_url": "/cosmos.auth.v1beta1.BaseAccount", "value": serde_json::to_vec(&acc).unwrap()}}))
                    }
                    None => bad(5, "account not found"),
                }
            }
            "simulate" => {
                let bytes: Vec<u8> = serde_json::from_value(body["tx_bytes"].clone()).unwrap_or_default();
                let (_, _, auth, msgs) = match self.decode(&bytes) {
                    Ok(x) => x,
                    Err(e) => return bad(3, &e),
                };
                self.judge_msgs(w, r.pid, &msgs, false);
                if auth.signer_infos.len() != 1 || auth.signer_infos[0].sequence != self.pending_seq(w) {
                    self.judge_sequence(w, r.pid, &auth);
                    return bad(3, "account sequence mismatch");
                }
                match self.execute(&msgs, false) {
                    Ok(()) => {
                        let gas: u64 = msgs.iter().map(|m| self.gas(m)).sum();
                        ok(json!({"gas_info": {"gas_wanted": 0, "gas_used": gas}, "result": null}))
                    }
                    Err(e) => {
                        self.note(|| format!("worker {w}: simulation fails: {e}"));
                        if let Some(h) = self.given(w, &msgs) {
                            if let Some(p) = self.proc_mut(r.pid) {
                                p.repeated = Some(h);
                            }
                        }
                        bad(2, &e)
                    }
                }
            }
            "broadcast_tx" => {
                let bytes: Vec<u8> = serde_json::from_value(body["tx_bytes"].clone()).unwrap_or_default();
                let hash = hex::encode_upper(Sha256::digest(&bytes));
                if !self.seen.insert(hash.clone()) {
                    return bad(2, "tx already exists in cache");
                }
                let (raw, _, auth, msgs) = match self.decode(&bytes) {
                    Ok(x) => x,
                    Err(e) => return bad(3, &e),
                };
                self.judge_msgs(w, r.pid, &msgs, true);
                self.judge_tx(w, r.pid, &raw, &auth, &msgs);
                let tx = Tx { hash: hash.clone(), from: w, pid: r.pid, sequence: auth.signer_infos.first().map_or(0, |s| s.sequence), msgs };
                self.note(|| format!("worker {w}: broadcast {} seq {} with {} messages", &hash[..8], tx.sequence, tx.msgs.len()));
                if let Some(p) = self.proc_mut(r.pid) {
                    p.sent.push(tx.clone());
                }
                let mut code = 0;
                let mut why = "";
                if !self.signed_by(w, &raw) {
                    code = 4;
                    why = "signature verification failed";
                } else if tx.sequence != self.pending_seq(w) {
                    code = 32;
                    why = "account sequence mismatch";
                } else {
                    self.mempool.push(tx);
                }
                if code != 0 {
                    self.note(|| format!("worker {w}: transaction refused: {why}"));
                }
                ok(json!({"tx_response": resp(0, &hash, code, why)}))
            }
            "get_tx" => {
                let h = body["hash"].as_str().unwrap_or("");
                match self.done.get(h) {
                    Some((height, code, why)) if *height <= self.node_height(w) => {
                        ok(json!({"tx": null, "tx_response": resp(*height, h, *code, why)}))
                    }
                    _ => bad(5, "tx not found"),
                }
            }
            m => bad(12, &format!("unknown method {m}")),
        }
    }

    fn pending_seq(&self, w: usize) -> u64 {
        self.workers[w].seq + self.mempool.iter().filter(|t| t.from == w).count() as u64
    }

    pub fn gas(&self, m: &Exec) -> u64 {
        let b = self.plan.cfg.base_gas;
        if b % 1000 == 0 {
            return b; // all the same
        }
        b - hash(&[&m.msg, m.contract.as_bytes()]) % (b / 4)
    }

    pub fn signed_by(&self, w: usize, raw: &TxRaw) -> bool {
        let doc = SignDoc {
            body_bytes: &raw.body_bytes,
            auth_info_bytes: &raw.auth_info_bytes,
            chain_id: &self.plan.cfg.chain_id,
            account_number: self.workers[w].number,
        };
        let d = Sha256::digest(serde_json::to_vec(&doc).unwrap());
        raw.signatures.len() == 1 && verify(self.workers[w].key.verifying_key().to_encoded_point(true).as_bytes(), &d, &raw.signatures[0])
    }

    fn tofnd(&mut self, r: &Req, w: usize) -> Reply {
        let ok = |v: Value| Reply::Ok(serde_json::to_vec(&v).unwrap());
        let body: Value = serde_json::from_slice(&r.body).unwrap_or(Value::Null);
        let uid = body["key_uid"].as_str().unwrap_or("").to_string();
        let seed = self.plan.cfg.seed;
        match r.method.as_str() {
            "connect" => Reply::Ok(vec![]),
            "keygen" => {
                let k = tofnd_key(seed, w, &uid);
                ok(json!({"keygen_response": {"PubKey": k.verifying_key().to_encoded_point(true).as_bytes().to_vec()}}))
            }
            "sign" => {
                let msg: Vec<u8> = serde_json::from_value(body["msg_to_sign"].clone()).unwrap_or_default();
                let pk: Vec<u8> = serde_json::from_value(body["pub_key"].clone()).unwrap_or_default();
                self.judge_sign(w, r.pid, &uid, &msg, &pk);
                let k = tofnd_key(seed, w, &uid);
                // the service looks for the key pair that this public key and key id belong to
                if k.verifying_key().to_encoded_point(true).as_bytes() != &pk[..] {
                    return ok(json!({"sign_response": {"Error": "no matching seed"}}));
                }
                match k.sign_prehash(&msg) {
                    Ok(s) => {
                        let s: Signature = s;
                        ok(json!({"sign_response": {"Signature": s.to_der().as_bytes().to_vec()}}))
                    }
                    Err(e) => ok(json!({"sign_response": {"Error": e.to_string()}})),
                }
            }
            m => Reply::Err { code: 12, message: format!("unknown method {m}") },
        }
    }

    fn node(&mut self, r: &Req, w: usize, chain: usize) -> Reply {
        let ok = |v: Value| Reply::Ok(serde_json::to_vec(&v).unwrap());
        let body: Value = serde_json::from_slice(&r.body).unwrap_or(Value::Null);
        let t = now_ms();
        let s = self.source();
        if chain == s.sui() {
            let find = |d: &str| -> Option<(usize, Value)> {
                let b: [u8; 32] = bs58::decode(d).into_vec().ok()?.try_into().ok()?;
                let i = s.find_tx(&b)?;
                Some((i, s.sui_block(i, t)?))
            };
            return match r.method.as_str() {
                "sui_getTransactionBlock" => match find(body[0].as_str().unwrap_or("")) {
                    Some((_, v)) => ok(v),
                    None => Reply::Err { code: -32602, message: "Could not find the referenced transaction".into() },
                },
                "sui_multiGetTransactionBlocks" => {
                    let ds: Vec<String> = serde_json::from_value(body[0].clone()).unwrap_or_default();
                    let set: BTreeSet<&String> = ds.iter().collect();
                    if set.len() != ds.len() {
                        return Reply::Err { code: -32602, message: "The list of digests in the input contains duplicates".into() };
                    }
                    ok(Value::Array(ds.iter().map(|d| find(d).map(|x| x.1).unwrap_or(json!({"digest": d}))).collect()))
                }
                m => Reply::Err { code: -32601, message: format!("unknown method {m}") },
            };
        }
        let e = &self.plan.cfg.evm[chain];
        let n = *self.workers[w].calls.get(&format!("{} {}", r.url, r.method)).unwrap_or(&0);
        let lag = if e.lag_ms == 0 { 0 } else { hash(&[b"lag", &r.id.to_le_bytes(), &n.to_le_bytes()]) % e.lag_ms };
        let view = t.saturating_sub(lag);
        match r.method.as_str() {
            "eth_blockNumber" => ok(json!(format!("0x{:x}", s.head(chain, view)))),
            "eth_getBlockByNumber" => {
                let tag = body[0].as_str().unwrap_or("");
                let number = match tag {
                    "finalized" => s.finalized(chain, view).unwrap_or(0),
                    _ => s.head(chain, view),
                };
                let z = |n: usize| format!("0x{}", "0".repeat(n));
                ok(json!({"number": format!("0x{number:x}"), "hash": z(64), "parentHash": z(64), "sha3Uncles": z(64), "miner": z(40),
                    "stateRoot": z(64), "transactionsRoot": z(64), "receiptsRoot": z(64), "gasUsed": "0x0", "gasLimit": "0x1", "extraData": "0x",
                    "logsBloom": z(512), "timestamp": "0x1", "difficulty": "0x0", "totalDifficulty": "0x0", "uncles": [], "transactions": [],
                    "size": "0x1", "mixHash": z(64), "nonce": z(16), "baseFeePerGas": "0x1"}))
            }
            "eth_getTransactionReceipt" => {
                let id = body[0].as_str().and_then(|x| hex::decode(x.trim_start_matches("0x")).ok()).and_then(|x| <[u8; 32]>::try_from(x).ok());
                let v = id.and_then(|id| s.find_tx(&id)).filter(|i| self.plan.cfg.src[*i].chain == chain).and_then(|i| s.receipt(i, view));
                ok(v.unwrap_or(Value::Null))
            }
            m => Reply::Err { code: -32601, message: format!("unknown method {m}") },
        }
    }
}

pub fn tofnd_key(seed: u64, w: usize, uid: &str) -> SigningKey {
    key_of(&[b"key", &seed.to_le_bytes(), &[w as u8], uid.as_bytes()])
}

pub fn verify(key: &[u8], digest: &[u8], sig: &[u8]) -> bool {
    let Ok(k) = VerifyingKey::from_sec1_bytes(key) else { return false };
    let Ok(s) = Signature::from_slice(sig) else { return false };
    k.verify_prehash(digest, &s).is_ok()
}

fn event(ty: &str, attrs: &[(String, String)]) -> Value {
    let a: Vec<Value> = attrs.iter().map(|(k, v)| json!({"key": STANDARD.encode(k), "value": STANDARD.encode(v), "index": true})).collect();
    json!({"type": ty, "attributes": a})
}

fn resp(height: u64, hash: &str, code: u32, log: &str) -> Value {
    json!({"height": height, "txhash": hash, "codespace": "", "code": code, "data": "", "raw_log": log, "info": "", "gas_wanted": 0,
        "gas_used": 0, "tx": null, "timestamp": ""})
}

impl net::Server for World {
    fn plan(&mut self, r: &Req) -> net::Plan {
        let Some((w, target)) = self.target(&r.url) else {
            return net::Plan { out: 0, back: 0, lose_request: Some(MS), lose_reply: None, twice: false };
        };
        let key = format!("{} {}", r.url, r.method);
        let n = {
            let c = self.workers[w].calls.entry(key.clone()).or_insert(0);
            *c += 1;
            *c
        };
        if let Some(p) = self.proc_mut(r.pid) {
            p.requests += 1;
        }
        let d = |what: &[u8]| hash(&[what, key.as_bytes(), &n.to_le_bytes(), &self.plan.cfg.seed.to_le_bytes()]);
        let slow = d(b"tail") % 40 == 0;
        let mut p = net::Plan {
            out: (2 + d(b"out") % if slow { 900 } else { 60 }) * MS + d(b"outns") % MS,
            back: (2 + d(b"back") % if slow { 900 } else { 60 }) * MS + d(b"backns") % MS,
            lose_request: None,
            lose_reply: None,
            twice: false,
        };
        if self.faults_over {
            return p;
        }
        let t = now_ms();
        let mut fired = vec![];
        let mut die = false;
        let name = ["axelar node", "signing service", "source chain node"][target.min(2)];
        for f in &self.plan.faults {
            match f {
                Fault::Down { w: x, target: g, at_ms, ms } if *x == w && *g == target && *at_ms <= t && t < at_ms + ms => {
                    p.lose_request = Some((d(b"timeout") % 5000) * MS);
                    fired.push(format!("{name} unreachable"));
                }
                Fault::Slow { w: x, target: g, at_ms, ms, by_ms } if *x == w && *g == target && *at_ms <= t && t < at_ms + ms => {
                    p.back += by_ms * MS;
                    fired.push(format!("{name} slow"));
                }
                Fault::Call { w: x, method, nth, kind } if *x == w && *method == r.method && *nth == n && t > CALM_MS => {
                    match kind {
                        CallKind::LoseRequest => p.lose_request = Some((d(b"timeout") % 5000) * MS),
                        CallKind::LoseReply => p.lose_reply = Some((d(b"timeout") % 5000) * MS),
                        CallKind::Twice => p.twice = true,
                        CallKind::CrashBefore => die = true,
                        CallKind::Error | CallKind::CrashAfter => {}
                    }
                    fired.push(format!("{kind:?} of {}", r.method));
                }
                _ => {}
            }
        }
        if !fired.is_empty() {
            self.note(|| format!("worker {w}: {fired:?}"));
            self.touch(r.pid);
        }
        for f in fired {
            self.fired(f);
        }
        if die && rt::alive(r.pid) {
            rt::kill(r.pid);
        }
        p
    }

    fn serve(&mut self, r: &Req) -> Reply {
        let Some((w, target)) = self.target(&r.url) else { return Reply::Lost("no such host".into()) };
        let n = *self.workers[w].calls.get(&format!("{} {}", r.url, r.method)).unwrap_or(&0);
        let mut kind = None;
        if !self.faults_over && now_ms() > CALM_MS {
            for f in &self.plan.faults {
                if let Fault::Call { w: x, method, nth, kind: k } = f {
                    if *x == w && *method == r.method && *nth == n {
                        kind = Some(*k);
                    }
                }
            }
        }
        if kind == Some(CallKind::Error) {
            return Reply::Err { code: 14, message: "internal server error".into() };
        }
        let reply = match target {
            0 => self.grpc(r, w),
            1 => self.tofnd(r, w),
            t => self.node(r, w, t - 2),
        };
        if kind == Some(CallKind::CrashAfter) && rt::alive(r.pid) {
            rt::kill(r.pid);
        }
        reply
    }

    fn answered(&mut self, r: &Req, reply: &Reply) {
        self.learned(r, reply);
    }
}
