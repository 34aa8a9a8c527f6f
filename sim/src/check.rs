//! Executes operations against the real system and the reference model, and compares them.

use std::collections::{BTreeMap, BTreeSet};

use serde_json::{json, Value};

use crate::chain::{Fault, FaultKind, SeamKind, TxResult};
use crate::codec::{self, OpSet};
use crate::model::*;
use crate::world::*;

type Check = Result<(), Viol>;

fn fmt_msg(msg: &Value) -> String {
    let s = msg.to_string();
    if s.len() > 600 {
        format!("{}…", &s[..s.char_indices().take_while(|(i, _)| *i < 600).last().map_or(0, |x| x.0)])
    } else {
        s
    }
}

fn err_tail(e: &str) -> String {
    let n = e.chars().count();
    if n > 700 {
        format!("…{}", e.chars().skip(n - 700).collect::<String>())
    } else {
        e.to_string()
    }
}

impl World {
    /// Executes one operation. Err: the first observed violation.
    pub fn step(&mut self, op: &Op) -> Check {
        self.ops.push(op.clone());
        match op {
            Op::Tx { from, to, msg, funds, fault } => self.tx(from, to, msg, funds, *fault).map(|_| ()),
            Op::HonestVote { worker, verifier, poll, miss } => {
                let Some(p) = self.poll(verifier, *poll) else { return Ok(()) };
                let votes = self.honest_votes(p, *miss);
                let msg = json!({"vote": {"poll_id": n(*poll), "votes": votes}});
                self.tx(worker, verifier, &msg, &vec![], None).map(|_| ())
            }
            Op::HonestSign { worker, session } => {
                let Some(sig) = self.honest_sig(worker, *session) else { return Ok(()) };
                let msg = json!({"submit_signature": {"session_id": n(*session), "signature": sig}});
                let to = self.a.multisig.clone();
                self.tx(worker, &to, &msg, &vec![], None).map(|_| ())
            }
            Op::Block { dh, dt } => {
                let (h, t) = (self.chain.height + dh, self.chain.nanos + dt);
                self.chain.set_block(h, t);
                if let Some(m) = &mut self.model {
                    m.height = h;
                    m.nanos = t;
                }
                Ok(())
            }
            Op::Restart => {
                self.chain.restart();
                self.stats.restarts += 1;
                self.compare_views(None)
            }
            Op::Emit { chain, tx, index, src, dst_chain, dst, hash } => {
                if !self.events.iter().any(|e| e.chain == *chain && norm_tx(&e.tx) == norm_tx(tx) && e.index == *index) {
                    self.events.push(ExtEvent {
                        chain: chain.clone(),
                        tx: tx.clone(),
                        index: *index,
                        src: src.clone(),
                        dst_chain: dst_chain.clone(),
                        dst: dst.clone(),
                        hash: hash.clone(),
                    });
                }
                Ok(())
            }
            Op::Ext { chain, session } => self.ext_exec(chain, *session).map(|_| ()),
            Op::FaultSweep { from, to, msg, funds } => self.sweep(from, to, msg, funds),
            Op::Recover { seed } => self.recover(*seed),
        }
    }

    /// The model no longer describes the system; only end-to-end checks continue.
    fn diverge(&mut self, v: Viol) -> Check {
        self.model = None;
        if self.diverged.is_none() {
            self.diverged = Some(v.clone());
        }
        if self.relevant(&v) {
            Err(v)
        } else {
            Ok(())
        }
    }

    pub fn relevant(&self, v: &Viol) -> bool {
        self.focus == "*" || v.tags.iter().any(|t| *t == self.focus)
    }

    fn report(&mut self, v: Viol) -> Check {
        if self.relevant(&v) {
            Err(v)
        } else {
            if self.diverged.is_none() {
                self.diverged = Some(v);
            }
            Ok(())
        }
    }

    fn class(&self, addr: &str) -> &'static str {
        let a = &self.a;
        let has = |m: &BTreeMap<String, String>| m.values().any(|x| x == addr);
        if addr == a.registry {
            "registry"
        } else if addr == a.rewards {
            "rewards"
        } else if addr == a.multisig {
            "multisig"
        } else if addr == a.router {
            "router"
        } else if addr == a.nexus {
            "nexus"
        } else if addr == a.batching {
            "batching"
        } else if has(&a.verifier) {
            "verifier"
        } else if has(&a.agg) {
            "aggregate"
        } else if has(&a.gateway) || has(&a.spare) {
            "gateway"
        } else if has(&a.prover) {
            "prover"
        } else {
            "account"
        }
    }

    fn refused_tags(class: &str, var: &str) -> Tags {
        match (class, var) {
            ("verifier", "verify_messages") | ("aggregate", _) => &["C04", "C05", "C06", "C28"],
            ("verifier", "vote") => &["C03", "C05", "C28"],
            ("verifier", "end_poll") => &["C04", "C05", "C25", "C28"],
            ("verifier", "verify_worker_set") => &["C04", "C05", "C17", "C28"],
            ("gateway", "verify_messages") => &["C06", "C28"],
            ("gateway", _) => &["C06", "C10", "C28"],
            ("router", "route_messages") => &["C07", "C08", "C10", "C28"],
            ("router", "register_chain") | ("router", "upgrade_gateway") => &["C09", "C30"],
            ("router", _) => &["C08", "C30"],
            ("nexus", _) => &["C11", "C10"],
            ("multisig", "submit_signature") => &["C12", "C13", "C25", "C28"],
            ("multisig", "start_signing_session") => &["C14"],
            ("multisig", "authorize_caller") | ("multisig", "unauthorize_caller") => &["C14", "C30"],
            ("multisig", _) => &["C14", "C28"],
            ("prover", "construct_proof") => &["C16", "C17", "C18", "C28"],
            ("prover", _) => &["C17", "C18", "C28"],
            ("registry", "bond_worker") | ("registry", "unbond_worker") | ("registry", "claim_stake") => &["C19", "C20"],
            ("registry", _) => &["C19", "C30"],
            ("rewards", "record_participation") => &["C23", "C24", "C25"],
            ("rewards", "add_rewards") => &["C21"],
            ("rewards", "distribute_rewards") => &["C21", "C22", "C23", "C24"],
            ("rewards", _) => &["C24", "C30"],
            ("batching", _) => &["C26"],
            _ => &[],
        }
    }

    fn bookkeep(&mut self, from: &str, to: &str, msg: &Value) {
        // what trusted message sources say counts as genuine
        if to == self.a.nexus && from == NEXUS {
            for v in msg["route_messages_from_nexus"].as_array().into_iter().flatten() {
                if let Some(m) = Msg::from_nexus(v) {
                    self.sent.insert(m);
                }
            }
        }
        if to == self.a.router {
            if from == GOV {
                for (k, f) in [("register_chain", "gateway_address"), ("upgrade_gateway", "contract_address")] {
                    if let (Some(c), Some(g)) = (msg[k]["chain"].as_str(), msg[k][f].as_str()) {
                        self.gateways.insert((c.to_lowercase(), g.to_string()));
                    }
                }
            }
            for v in msg["route_messages"].as_array().into_iter().flatten() {
                if let Some(m) = Msg::parse(v) {
                    if self.gateways.contains(&(m.chain.clone(), from.to_string())) {
                        self.sent.insert(m);
                    }
                }
            }
        }
    }

    pub fn tx(&mut self, from: &str, to: &str, msg: &Value, funds: &Funds, fault: Option<Fault>) -> Result<bool, Viol> {
        self.stats.txs += 1;
        self.bookkeep(from, to, msg);
        self.touched = msg["submit_signature"]["session_id"].as_str().and_then(|x| x.parse().ok());
        let before = fault.map(|_| self.chain.snapshot());
        let sequential = if to == self.a.batching && fault.is_none() && funds.is_empty() { self.one_by_one(msg) } else { None };
        let mut r = self.chain.execute(from, to, msg, funds, fault);
        let mut skip = None;
        if r.fired.is_some() {
            let f = fault.unwrap();
            let seam = &r.seams[r.fired.unwrap()];
            let k = format!("{:?} {:?}", seam.kind, f.kind).to_lowercase();
            *self.stats.faults.entry(k).or_insert(0) += 1;
            match self.faulted(from, to, msg, funds, &r, before.as_ref().unwrap())? {
                Outcome::Failed => {
                    self.stats.refused += 1;
                    return Ok(false);
                }
                Outcome::AsIfNone => {}
                Outcome::Skipped(k) => skip = Some(k),
            }
            if skip.is_none() {
                // the fault was absorbed: state is as without it; take the plain trace
                self.chain.restore(before.as_ref().unwrap());
                r = self.chain.execute(from, to, msg, funds, None);
            }
        }
        if r.panicked {
            self.stats.bump("contract panics");
        }
        if r.ok {
            self.stats.accepted += 1;
            let e = std::mem::take(&mut r.events);
            self.observe(&e);
            r.events = e;
        } else {
            self.stats.refused += 1;
            if !r.dirty.is_empty() {
                self.report(viol(&["C27"], "failed-tx-changed-state", format!("{from} -> {to} {}: {:?}", fmt_msg(msg), r.dirty)))?;
            }
        }
        if let Some(want) = sequential {
            let got = r.ok.then(|| self.chain.canonical_state());
            if got != want {
                let d = match (&got, &want) {
                    (Some(_), None) => "accepted, though a mandatory message fails".into(),
                    (None, Some(_)) => format!("refused, though every mandatory message succeeds: {}", err_tail(&r.error)),
                    _ => "another state than executing its messages one by one".to_string(),
                };
                self.report(viol(&["C26"], "batch-differs", format!("{from}: {}: {d}", fmt_msg(msg))))?;
            }
        }
        self.compare_tx(from, to, msg, funds, skip, &r)?;
        if r.ok {
            for s in r.seams.iter().filter(|s| s.kind == SeamKind::Execute) {
                self.after_prover_tx(&s.target, &s.variant)?;
            }
        }
        Ok(r.ok)
    }

    /// What executing the messages of a batch one after the other as transactions of their own
    /// leads to: None if the batch must fail as a whole.
    #[allow(clippy::type_complexity)]
    fn one_by_one(&mut self, msg: &Value) -> Option<Option<BTreeMap<Vec<u8>, Vec<u8>>>> {
        let list = |k: &str| -> Option<Vec<_>> {
            msg["batch"][k].as_array()?.iter().map(|m| serde_json::from_value(m.clone()).ok()).collect()
        };
        let (must, may) = (list("must_succeed_msgs")?, list("can_fail_msgs")?);
        let me = self.a.batching.clone();
        self.stats.forks += 1;
        Some(self.chain.fork(|c| {
            for m in must {
                if !c.execute_cosmos(&me, m, None).ok {
                    return None;
                }
            }
            for m in may {
                c.execute_cosmos(&me, m, None);
            }
            Some(c.canonical_state())
        }))
    }

    fn faulted(&mut self, from: &str, to: &str, msg: &Value, funds: &Funds, r: &TxResult, before: &crate::chain::Snapshot) -> Result<Outcome, Viol> {
        let seam = r.seams[r.fired.unwrap()].clone();
        let what = || format!("fault at {:?} {}->{} {} in {from} -> {to} {}", seam.kind, seam.sender, seam.target, seam.variant, fmt_msg(msg));
        if !r.ok {
            if !r.dirty.is_empty() {
                self.report(viol(&["C27"], "failed-tx-changed-state", what()))?;
            }
            return Ok(Outcome::Failed);
        }
        let got = self.chain.canonical_state();
        let after = self.chain.snapshot();
        self.chain.restore(before);
        self.stats.forks += 1;
        let clean = self.chain.fork(|c| {
            let x = c.execute(from, to, msg, funds, None);
            x.ok.then(|| c.canonical_state())
        });
        if clean.as_ref() == Some(&got) {
            return Ok(Outcome::AsIfNone);
        }
        if to == self.a.batching {
            let may = msg["batch"]["can_fail_msgs"].as_array().cloned().unwrap_or_default();
            for k in 0..may.len() {
                let mut less = may.clone();
                less.remove(k);
                let mut m = msg.clone();
                m["batch"]["can_fail_msgs"] = Value::Array(less);
                let s = self.chain.fork(|c| {
                    let x = c.execute(from, to, &m, funds, None);
                    x.ok.then(|| c.canonical_state())
                });
                if s.as_ref() == Some(&got) {
                    self.chain.restore(&after);
                    return Ok(Outcome::Skipped(k));
                }
            }
        }
        self.chain.restore(&after);
        let v = viol(if to == self.a.batching { &["C27", "C26"] } else { &["C27"] }, "partial-effect", what());
        self.diverge(v)?;
        Ok(Outcome::AsIfNone)
    }

    /// Makes every seam of a transaction fail in turn, each in a fork.
    fn sweep(&mut self, from: &str, to: &str, msg: &Value, funds: &Funds) -> Check {
        let probe = self.chain.fork(|c| {
            let x = c.execute(from, to, msg, funds, None);
            (x.ok, x.seams.len())
        });
        self.stats.bump("fault sweeps");
        for at in 0..probe.1.min(64) as u32 {
            for kind in [FaultKind::ErrBefore, FaultKind::ErrAfter] {
                let before = self.chain.snapshot();
                let r = self.chain.execute(from, to, msg, funds, Some(Fault { at, kind }));
                if let Some(i) = r.fired {
                    let k = format!("{:?} {kind:?}", r.seams[i].kind).to_lowercase();
                    *self.stats.faults.entry(k).or_insert(0) += 1;
                    let x = self.faulted(from, to, msg, funds, &r, &before);
                    self.chain.restore(&before);
                    x?;
                    // the same transaction, retried without the fault, must behave as if nothing happened
                    if !r.ok {
                        let again = self.chain.fork(|c| c.execute(from, to, msg, funds, None).ok);
                        if again != probe.0 {
                            let d = format!("retry of {from} -> {to} {} gives {again}, was {}", fmt_msg(msg), probe.0);
                            self.report(viol(&["C27"], "retry-differs", d))?;
                        }
                    }
                } else {
                    self.chain.restore(&before);
                }
            }
        }
        self.tx(from, to, msg, funds, None).map(|_| ())
    }

    fn compare_tx(&mut self, from: &str, to: &str, msg: &Value, funds: &Funds, skip: Option<usize>, r: &TxResult) -> Check {
        let Some(mut m) = self.model.take() else { return Ok(()) };
        let res = m.exec(from, to, msg, funds, skip);
        self.model = Some(m);
        let d = || format!("{from} -> {to} {}", fmt_msg(msg));
        match (res, r.ok) {
            (Err(e), false) => {
                let key = format!("refused: {}", e.why);
                self.stats.bump(&key);
                Ok(())
            }
            (Err(e), true) => {
                if e.tags.is_empty() {
                    self.stats.bump("unmodelled acceptance");
                    self.model = None;
                    return Ok(());
                }
                let mut tags: Vec<&str> = e.tags.to_vec();
                if to == self.a.batching {
                    tags.push("C26");
                }
                self.diverge(viol(&tags, &format!("accepted: {}", e.why), d()))
            }
            (Ok(_), false) => {
                let class = self.class(to);
                let var = variant(msg);
                let mut tags: Vec<&str> = Self::refused_tags(class, &var).to_vec();
                if let Some((t, v)) = r.culprit() {
                    let (t, v) = (t.to_string(), v.to_string());
                    tags.extend(Self::refused_tags(self.class(&t), &v));
                }
                tags.sort();
                tags.dedup();
                self.diverge(viol(&tags, &format!("refused: {class} {var}"), format!("{}: {}", d(), err_tail(&r.error))))
            }
            (Ok(fx), true) => {
                let k = format!("ok: {} {}", self.class(to), variant(msg));
                self.stats.bump(&k);
                self.compare_effects(fx, r, &d())
            }
        }
    }

    fn compare_effects(&mut self, fx: Fx, r: &TxResult, d: &str) -> Check {
        // announced digests
        let mut got = Fx::default();
        for e in &r.events {
            let at = e.get("_contract_addr").unwrap_or("").to_string();
            let g = |k: &str| e.get(k).unwrap_or("").to_string();
            let q = |k: &str| g(k).trim_matches('"').to_string();
            match e.ty.as_str() {
                "wasm-messages_poll_started" | "wasm-worker_set_poll_started" => {
                    let Some(p) = self.polls.iter().rev().find(|p| p.verifier == at && p.id.to_string() == q("poll_id")) else { continue };
                    let (kind, desc) = match &p.items {
                        ObsItems::Msgs(v) => (
                            "messages",
                            v.iter()
                                .map(|i| format!("{}:{} {} {} {} {}", i.tx, i.index, i.src, i.dst_chain, i.dst, i.hash))
                                .collect::<Vec<_>>()
                                .join(" | "),
                        ),
                        ObsItems::Ws(t, i, o) => ("worker_set", format!("{t}:{i} {}", o.show())),
                    };
                    let mut parts = p.parts.clone();
                    parts.sort();
                    got.items.push((
                        "poll",
                        format!(
                            "{at} {kind} id={} chain={} gw={} conf={} expires={} participants={} items={desc}",
                            p.id,
                            p.chain,
                            p.gw,
                            g("confirmation_height"),
                            p.expires,
                            parts.join(",")
                        ),
                    ));
                }
                "wasm-poll_ended" => got.items.push(("ended", format!("{at} {} {}", q("poll_id"), g("results")))),
                "wasm-signing_started" => {
                    let Some(s) = q("session_id").parse().ok().and_then(|i: u64| self.sessions.get(&i)) else { continue };
                    let keys: Vec<String> = s.keys.iter().map(|(w, (t, k))| format!("{w}={t}:{k}")).collect();
                    got.items.push(("session", format!("id={} set={} chain={} keys={}", s.id, s.set, s.chain, keys.join(","))));
                    let (id, digest) = (s.id, hex::encode(&s.digest));
                    if let Some(Err(e)) = self.model.as_mut().map(|m| m.learn_digest(id, &digest)) {
                        return self.diverge(viol(&["C16", "C14", "C12"], "session-message", e));
                    }
                }
                "wasm-signature_submitted" => {
                    got.items.push(("signed", format!("{} {} {}", q("session_id"), g("participant"), g("signature"))))
                }
                "wasm-signing_completed" => {
                    got.items.push(("completed", format!("{} at {}", q("session_id"), g("completed_at"))))
                }
                "wasm-chain_frozen" => got.items.push(("freeze_event", format!("chain_frozen {}", g("name")))),
                "wasm-chain_unfrozen" => got.items.push(("freeze_event", format!("chain_unfrozen {}", g("name")))),
                _ => {}
            }
        }
        let (verifiers, rewards, router) =
            (self.a.verifier.values().cloned().collect::<BTreeSet<_>>(), self.a.rewards.clone(), self.a.router.clone());
        for s in r.seams.iter().filter(|s| s.kind == SeamKind::Execute) {
            let Some(b) = &s.msg else { continue };
            if s.target == rewards && s.variant == "record_participation" {
                let b = &b["record_participation"];
                got.items.push((
                    "credit",
                    format!("{} {} {}", s.sender, b["event_id"].as_str().unwrap_or(""), b["worker_address"].as_str().unwrap_or("")),
                ));
            }
            if verifiers.contains(&s.target) && s.variant == "verify_messages" {
                for m in parse_msgs(&b["verify_messages"]["messages"]).unwrap_or_default() {
                    got.items.push(("verify", format!("{} {}", s.target, m.show())));
                }
            }
            if s.variant == "route_messages" {
                let v = parse_msgs(&b["route_messages"]).unwrap_or_default();
                if s.target == router {
                    for m in &v {
                        got.items.push(("to_router", format!("{} {}", s.sender, m.show())));
                    }
                }
                if s.sender == router {
                    got.deliver.entry(s.target.clone()).or_default().extend(v);
                }
            }
        }
        if !fx.partial {
            for (kind, tags) in [
                ("poll", &["C05", "C04", "C03", "C02"] as Tags),
                ("ended", &["C02", "C04"]),
                ("credit", &["C25"]),
                ("verify", &["C06", "C05"]),
                ("to_router", &["C06", "C07", "C10", "C01", "C11"]),
                ("session", &["C14", "C16", "C17", "C18"]),
                ("signed", &["C12", "C25"]),
                ("completed", &["C13"]),
                ("freeze_event", &["C08"]),
            ] {
                let pick = |f: &Fx| {
                    let mut v: Vec<String> = f
                        .items
                        .iter()
                        .filter(|x| x.0 == kind)
                        .map(|x| {
                            if kind == "session" {
                                // the digest is compared separately
                                let (a, b) = x.1.split_once(" digest=").unwrap_or((&x.1, ""));
                                match b.split_once(" keys=") {
                                    Some((_, k)) => format!("{a} keys={k}"),
                                    None => x.1.clone(),
                                }
                            } else {
                                x.1.clone()
                            }
                        })
                        .collect();
                    v.sort();
                    v
                };
                let (want, have) = (pick(&fx), pick(&got));
                if want != have {
                    let x = format!("{d}: expected {want:?}, got {have:?}");
                    return self.diverge(viol(tags, &format!("effect: {kind}"), x));
                }
            }
            if fx.deliver != got.deliver {
                let x = format!("{d}: expected deliveries {:?}, got {:?}", fx.deliver, got.deliver);
                return self.diverge(viol(&["C10", "C08", "C09"], "effect: delivery", x));
            }
        }
        let mut scope = fx.touched.clone();
        scope.extend(r.dirty.iter().cloned());
        self.compare_views(Some(&scope))
    }

    // ---------------------------------------------------------------- views

    /// Compares what clients can query with the model, for some contracts or all of them.
    pub fn compare_views(&mut self, scope: Option<&BTreeSet<String>>) -> Check {
        let Some(m) = self.model.take() else { return Ok(()) };
        let r = self.views(&m, scope);
        self.model = Some(m);
        match r {
            Ok(()) => Ok(()),
            Err(v) => self.diverge(v),
        }
    }

    /// Every view, without leaving anything out.
    pub fn final_views(&mut self) -> Check {
        self.thorough_views = true;
        let r = self.compare_views(None);
        self.thorough_views = false;
        r
    }

    /// Proofs are expensive to look at: in between, only some of them are.
    fn look_at(&self, id: u64, last: u64, scoped: bool, done: bool) -> bool {
        if self.thorough_views || self.touched == Some(id) || (id == last && !done) {
            return true;
        }
        let k = (self.stats.txs ^ id.wrapping_mul(0x9e37)) % 48;
        if id + 2 > last {
            k < if done { 6 } else { 24 }
        } else if scoped || done {
            k == 0
        } else {
            k < 12
        }
    }

    fn ask(&mut self, to: &str, q: &Value) -> Result<Value, String> {
        self.stats.views += 1;
        self.chain.query(to, q)
    }

    fn views(&mut self, m: &Model, scope: Option<&BTreeSet<String>>) -> Check {
        let on = |a: &str| scope.map_or(true, |s| s.contains(a));
        let a = self.a.clone();
        if on(&a.registry) {
            self.view_registry(m)?;
        }
        if on(&a.router) {
            for c in &m.uni.chains {
                let got = self.ask(&a.router, &json!({ "get_chain_info": c }));
                let want = m.router.chains.get(c);
                let d = format!("chain {c}: expected {want:?}, got {got:?}");
                match (&got, want) {
                    (Err(_), None) => {}
                    (Ok(g), Some(w)) => {
                        if g["gateway"]["address"].as_str() != Some(&w.gw) {
                            return Err(viol(&["C09"], "view: gateway", d));
                        }
                        if frozen(&g["frozen_status"]) != Some(w.frozen) {
                            return Err(viol(&["C08", "C09", "C30"], "view: frozen", d));
                        }
                    }
                    _ => return Err(viol(&["C09", "C30"], "view: chain", d)),
                }
            }
        }
        for (addr, v) in &m.vers {
            if !on(addr) && !a.agg.values().any(|g| scope.is_some() && on(g)) {
                continue;
            }
            self.view_verifier(m, addr, v)?;
        }
        for (addr, g) in &m.gws {
            if !on(addr) {
                continue;
            }
            for (c, i) in &m.uni.ids {
                let got = self.ask(addr, &json!({"get_messages": {"message_ids": [{"chain": c, "id": i}]}}));
                let want = g.out.get(&(c.clone(), i.clone()));
                let same = match (&got, want) {
                    (Err(_), None) => true,
                    (Ok(v), Some(w)) => parse_msgs(v).map_or(false, |v| v == vec![w.clone()]),
                    _ => false,
                };
                if !same {
                    return Err(viol(&["C10", "C01", "C16"], "view: outgoing", format!("{addr} {c}:{i}: expected {want:?}, got {got:?}")));
                }
            }
        }
        if on(&a.multisig) {
            self.view_multisig(m, scope.is_some())?;
        }
        for (addr, p) in &m.provers {
            if on(addr) || on(&a.multisig) {
                self.view_prover(m, addr, p, scope.is_some())?;
            }
        }
        if on("bank") {
            self.view_bank(m)?;
        }
        if on("nexus") || on(&a.nexus) {
            let log = self.chain.nexus_log();
            let want: Vec<Value> = m
                .nexus_log
                .iter()
                .map(|(f, v)| json!({"_sender": f, "msg": v}))
                .collect();
            if log != want {
                let i = log.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(log.len().min(want.len()));
                let d = format!("entry {i}: expected {:?}, got {:?} ({} vs {})", want.get(i), log.get(i), want.len(), log.len());
                return Err(viol(&["C11", "C10"], "view: nexus", d));
            }
        }
        Ok(())
    }

    fn view_registry(&mut self, m: &Model) -> Check {
        let a = self.a.registry.clone();
        for svc in &m.uni.services {
            for c in &m.uni.chains {
                let got = self.ask(&a, &json!({"get_active_workers": {"service_name": svc, "chain_name": c}}));
                let mut have: Vec<String> = match &got {
                    Ok(v) => v.as_array().into_iter().flatten().map(|w| w["address"].as_str().unwrap_or("").to_string()).collect(),
                    Err(e) => {
                        if !m.registry.services.contains_key(svc) {
                            continue;
                        }
                        return Err(viol(&["C19", "C05", "C28"], "view: active workers", format!("{svc}/{c}: {e}")));
                    }
                };
                have.sort();
                let mut want = m.registry.active(svc, c);
                want.sort();
                if have != want {
                    return Err(viol(&["C19", "C05", "C18"], "view: active workers", format!("{svc}/{c}: expected {want:?}, got {have:?}")));
                }
            }
            for w in &m.uni.workers {
                let got = self.ask(&a, &json!({"get_worker": {"service_name": svc, "worker": w}}));
                let want = m.registry.workers.get(&(svc.clone(), w.clone()));
                let d = format!("{svc}/{w}: expected {want:?}, got {got:?}");
                match (&got, want) {
                    (Ok(g), Some(w)) => {
                        let b = &g["bonding_state"];
                        let ok = match &w.bond {
                            Bond::Bonded(x) => b["Bonded"]["amount"] == x.to_string(),
                            Bond::Unbonding(x, t) => {
                                b["Unbonding"]["amount"] == x.to_string() && b["Unbonding"]["unbonded_at"] == t.to_string()
                            }
                            Bond::Unbonded => *b == "Unbonded",
                        };
                        if !ok {
                            return Err(viol(&["C20", "C19"], "view: bond", d));
                        }
                        if (g["authorization_state"] == "Authorized") != w.auth {
                            return Err(viol(&["C19", "C30"], "view: authorization", d));
                        }
                    }
                    (Err(_), None) => {}
                    _ => return Err(viol(&["C19"], "view: worker", d)),
                }
            }
            let got = self.ask(&a, &json!({"get_service": {"service_name": svc}}));
            if let Some(s) = m.registry.services.get(svc) {
                let ok = got.as_ref().map_or(false, |g| {
                    g["min_worker_bond"] == s.min_bond.to_string()
                        && g["bond_denom"] == *s.denom
                        && g["unbonding_period_days"] == s.days
                });
                if !ok {
                    return Err(viol(&["C30", "C19", "C20"], "view: service", format!("{svc}: expected {s:?}, got {got:?}")));
                }
            }
        }
        Ok(())
    }

    fn view_verifier(&mut self, m: &Model, addr: &str, v: &Verifier) -> Check {
        let fronts: Vec<String> = std::iter::once(addr.to_string())
            .chain(m.contracts.iter().filter(|(_, c)| matches!(c, CRef::Agg(x) if x == addr)).map(|(a, _)| a.clone()))
            .collect();
        let msgs: Vec<&Msg> = m.uni.msgs.iter().filter(|x| x.chain == v.cfg.chain).collect();
        for f in fronts {
            for chunk in msgs.chunks(8) {
                let q = json!({"is_verified": {"messages": chunk.iter().map(|x| x.json()).collect::<Vec<_>>()}});
                let got = self.ask(&f, &q);
                let have: Option<Vec<((String, String), bool)>> = got.as_ref().ok().and_then(|g| {
                    g.as_array()?
                        .iter()
                        .map(|p| Some(((p[0]["chain"].as_str()?.to_string(), p[0]["id"].as_str()?.to_string()), p[1].as_bool()?)))
                        .collect()
                });
                let mut want: Vec<_> = chunk.iter().map(|x| (x.cc(), v.status(x) == Status::Verified)).collect();
                let mut have = have.unwrap_or_default();
                want.sort();
                have.sort();
                if have != want {
                    let d = format!("{f}: expected {want:?}, got {got:?}");
                    return Err(viol(&["C02", "C04", "C06", "C01"], "view: verified", d));
                }
            }
        }
        for o in &m.uni.opsets {
            let got = self.ask(addr, &json!({"is_worker_set_verified": {"new_operators": ops_json(o)}}));
            let want = v.ws_status(o) == Status::Verified;
            if got.as_ref().ok().and_then(|g| g.as_bool()) != Some(want) {
                let d = format!("{addr} {}: expected {want}, got {got:?}", o.show());
                return Err(viol(&["C02", "C04", "C17"], "view: worker set verified", d));
            }
        }
        Ok(())
    }

    fn view_multisig(&mut self, m: &Model, scoped: bool) -> Check {
        let a = self.a.multisig.clone();
        let last = m.multisig.sessions.keys().last().copied().unwrap_or(0);
        for (id, s) in &m.multisig.sessions {
            if !self.look_at(*id, last, scoped, s.done.is_some()) {
                continue;
            }
            let got = self.ask(&a, &json!({"get_multisig": {"session_id": n(*id)}}));
            let Ok(g) = &got else {
                return Err(viol(&["C12", "C13", "C14"], "view: session", format!("session {id}: {got:?}")));
            };
            let set = &m.multisig.sets[&s.ws];
            let done = match &g["state"] {
                Value::String(x) if x == "pending" => Some(None),
                v => v["completed"]["completed_at"].as_u64().map(Some),
            };
            if done != Some(s.done) {
                return Err(viol(&["C13"], "view: completion", format!("session {id}: expected {:?}, got {}", s.done, g["state"])));
            }
            if g["quorum"] != set.threshold.to_string() {
                return Err(viol(&["C13", "C14", "C15"], "view: quorum", format!("session {id}: {}", g["quorum"])));
            }
            let mut have = BTreeMap::new();
            for p in g["signers"].as_array().into_iter().flatten() {
                let st = |v: &Value| v.as_str().unwrap_or("").to_string();
                let k = p[0]["pub_key"].as_object().and_then(|o| o.iter().next()).map(|(t, k)| (t.clone(), st(k)));
                let sig = p[1].as_object().and_then(|o| o.values().next()).map(st);
                have.insert(st(&p[0]["address"]), (k, st(&p[0]["weight"]), sig));
            }
            let want: BTreeMap<_, _> = set
                .signers
                .iter()
                .map(|(w, x)| (w.clone(), (Some(x.key.clone()), x.weight.to_string(), s.sigs.get(w).cloned())))
                .collect();
            if have != want || g["signers"].as_array().map_or(0, |x| x.len()) != want.len() {
                return Err(viol(&["C12", "C14", "C13"], "view: signers", format!("session {id}: expected {want:?}, got {have:?}")));
            }
        }
        for id in &m.uni.wsets {
            let got = self.ask(&a, &json!({"get_worker_set": {"worker_set_id": id}}));
            let want = m.multisig.sets.get(id);
            if got.as_ref().ok().and_then(WSet::parse).as_ref() != want {
                return Err(viol(&["C14", "C17"], "view: worker set", format!("{id}: expected {want:?}, got {got:?}")));
            }
        }
        for w in &m.uni.workers {
            for t in ["ecdsa", "ed25519"] {
                let got = self.ask(&a, &json!({"get_public_key": {"worker_address": w, "key_type": t}}));
                let want = m.multisig.keys.get(&(w.clone(), t.to_string()));
                let have = got.as_ref().ok().and_then(|g| g[t].as_str().map(|x| x.to_string()));
                if have.as_ref() != want {
                    return Err(viol(&["C14", "C12", "C18"], "view: key", format!("{w} {t}: expected {want:?}, got {got:?}")));
                }
            }
        }
        Ok(())
    }

    fn view_prover(&mut self, m: &Model, addr: &str, p: &Prover, scoped: bool) -> Check {
        let got = match self.ask(addr, &json!("get_worker_set")) {
            Err(e) if e.contains("parsing") || e.contains("Parse") => self.ask(addr, &json!({"get_worker_set": {}})),
            x => x,
        };
        if got.as_ref().ok().and_then(WSet::parse) != p.current {
            return Err(viol(&["C17", "C18"], "view: prover set", format!("{addr}: expected {:?}, got {got:?}", p.current)));
        }
        let last = m.multisig.sessions.keys().last().copied().unwrap_or(0);
        for (id, key) in &p.sessions {
            let b = &p.batches[key];
            let s = &m.multisig.sessions[id];
            if !self.look_at(*id, last, scoped, s.done.is_some()) {
                continue;
            }
            let got = self.ask(addr, &json!({"get_proof": {"multisig_session_id": n(*id)}}));
            let Ok(g) = &got else {
                return Err(viol(&["C15", "C16", "C28"], "view: proof", format!("{addr} session {id}: {got:?}")));
            };
            let e = |x: &str| viol(&["C16"], "view: batch", format!("{addr} session {id}: {x}, got {}", g["data"]));
            let mut ids: Vec<(String, String)> = g["message_ids"]
                .as_array()
                .into_iter()
                .flatten()
                .map(|v| (v["chain"].as_str().unwrap_or("").into(), v["id"].as_str().unwrap_or("").into()))
                .collect();
            let mut want = b.ids.clone();
            ids.sort();
            want.sort();
            if ids != want {
                return Err(e(&format!("expected messages {want:?}")));
            }
            if g["data"]["destination_chain_id"] != p.cfg.chain_id.to_string() {
                return Err(e("wrong chain id"));
            }
            let abi = p.cfg.abi;
            let mut have: Vec<([u8; 32], Params2)> = vec![];
            for c in g["data"]["commands"].as_array().into_iter().flatten() {
                let id = c["id"].as_str().and_then(|x| hex::decode(x).ok()).and_then(|x| x.try_into().ok());
                let ps = c["params"]
                    .as_str()
                    .and_then(|x| hex::decode(x).ok())
                    .ok_or("no params".to_string())
                    .and_then(|x| codec::decode_params(abi, c["ty"].as_str().unwrap_or(""), &x));
                match (id, ps) {
                    (Some(id), Ok(p)) => have.push((id, norm(p))),
                    (_, Err(x)) => return Err(e(&x)),
                    _ => return Err(e("bad command id")),
                }
            }
            let mut want: Vec<([u8; 32], Params2)> = b.cmds.iter().filter_map(|c| Some((c.id(), norm(c.params(abi)?)))).collect();
            have.sort();
            want.sort();
            if have != want {
                return Err(e(&format!("expected commands {want:?}")));
            }
            let status = &g["status"];
            let data = status["completed"]["execute_data"].as_str();
            match (s.done, data) {
                (None, None) => {}
                (Some(_), Some(x)) => {
                    let set = &m.multisig.sets[&s.ws];
                    let x = hex::decode(x).unwrap_or_default();
                    if let Err(why) = check_proof(abi, &x, set, p.cfg.chain_id, &s.digest, &want) {
                        let tags: &[&str] = if why.starts_with("commands") { &["C16", "C15"] } else { &["C15"] };
                        return Err(viol(tags, "view: execute data", format!("{addr} session {id}: {why}")));
                    }
                }
                _ => {
                    let d = format!("{addr} session {id}: done at {:?}, proof {status}", s.done);
                    return Err(viol(&["C15", "C13"], "view: proof status", d));
                }
            }
        }
        Ok(())
    }

    fn view_bank(&mut self, m: &Model) -> Check {
        let mut who: BTreeSet<String> = m.bank.keys().map(|k| k.0.clone()).collect();
        who.extend(m.contracts.keys().cloned());
        for w in who {
            for d in DENOMS {
                let (have, want) = (self.chain.balance(&w, d), m.bal(&w, d));
                if have != want {
                    let tags: &[&str] = &["C20", "C21", "C22", "C23", "C24", "C26"];
                    return Err(viol(tags, "view: balance", format!("{w} {d}: expected {want}, got {have}")));
                }
            }
        }
        Ok(())
    }
}

pub enum Outcome {
    Failed,
    AsIfNone,
    Skipped(usize),
}

type Params2 = codec::Params;

fn norm(p: codec::Params) -> codec::Params {
    match p {
        codec::Params::Transfer(o) => codec::Params::Transfer(o.sorted()),
        x => x,
    }
}

pub fn variant(msg: &Value) -> String {
    match msg {
        Value::Object(o) => o.keys().next().cloned().unwrap_or_default(),
        Value::String(x) => x.clone(),
        _ => String::new(),
    }
}

fn frozen(v: &Value) -> Option<u8> {
    match v {
        Value::Number(x) => x.as_u64().map(|x| x as u8),
        Value::String(s) => match s.to_lowercase().as_str() {
            "None" => Some(0),
            "Incoming" => Some(1),
            "Outgoing" => Some(2),
            "Bidirectional" => Some(3),
            _ => s.parse().ok(),
        },
        Value::Object(o) => o.values().next().and_then(frozen),
        _ => None,
    }
}

/// What a destination gateway checks of a proof, against the operator set that must have signed.
fn check_proof(abi: bool, x: &[u8], set: &WSet, chain_id: u128, digest: &str, want: &[([u8; 32], codec::Params)]) -> Result<(), String> {
    let e = codec::decode_execute(abi, x)?;
    if e.chain_id != chain_id {
        return Err(format!("chain id {}", e.chain_id));
    }
    let d = codec::digest(abi, &e.data);
    if hex::encode(d) != digest {
        return Err("the signed message is not the digest of the encoded data".into());
    }
    let mut have: Vec<_> = e.cmds.iter().map(|c| (c.id, norm(c.params.clone()))).collect();
    have.sort();
    if have != want {
        return Err(format!("commands {have:?}, expected {want:?}"));
    }
    let ops: OpSet = set.ops(abi).ok_or("operators have no address")?;
    let distinct = ops.strictly_sorted();
    if e.proof.ops != ops {
        return Err(format!("operators {}, expected {}", e.proof.ops.show(), ops.show()));
    }
    let (mut i, mut weight) = (0, 0u128);
    for s in &e.proof.sigs {
        let k = codec::recover(abi, &d, s).ok_or("malformed signature")?;
        while i < ops.ops.len() && !codec::operator_matches(abi, &k, &ops.ops[i].0) {
            i += 1;
        }
        if i == ops.ops.len() {
            return Err("a signature is of no operator or out of order".into());
        }
        weight += ops.ops[i].1;
        i += 1;
    }
    if weight < ops.threshold && distinct {
        return Err(format!("signature weight {weight} below {}", ops.threshold));
    }
    Ok(())
}
