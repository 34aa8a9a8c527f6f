//! What a worker daemon must and must not do, judged while a run proceeds and at its end.

use serde_json::Value;
use simnet::net::{Reply, Req};
use simnet::rt::Pid;

use axelar_wasm_std::voting::Vote;

use crate::plan::CALM_MS;
use crate::world::*;

/// how long a process must have run undisturbed before its state is known to cover all handlers
pub const ANCHOR_MS: u64 = 40_000;

impl World {
    fn proc(&self, pid: Pid) -> Option<&Proc> {
        let w = *self.pid_of.get(&pid)?;
        self.workers[w].procs.iter().find(|p| p.pid == pid)
    }

    // ------------------------------------------------------------ messages

    /// a message is about to be estimated, or is broadcast
    pub fn judge_msgs(&mut self, w: usize, pid: Pid, msgs: &[Exec], broadcast: bool) {
        let Some(kind) = self.proc(pid).map(|p| p.kind) else { return };
        if kind != "daemon" {
            self.judge_command(w, pid, msgs);
            return;
        }
        for m in msgs {
            if let Err((prop, rule, why)) = self.judge_one(w, pid, m, broadcast) {
                let text = String::from_utf8_lossy(&m.msg).into_owned();
                self.viol(prop, rule, format!("worker {w}, process {pid}: {why}; message {text} to {}", m.contract));
            }
        }
    }

    fn judge_one(&mut self, w: usize, pid: Pid, m: &Exec, broadcast: bool) -> Result<(), (&'static str, &'static str, String)> {
        let v = |rule: &'static str, why: String| Err(("C32", rule, why));
        let me = self.workers[w].addr.clone();
        if m.sender != me {
            return v("sender is another account", m.sender.clone());
        }
        if !m.funds.is_empty() {
            return v("funds attached", format!("{:?}", m.funds));
        }
        let act;
        if m.contract == self.multisig() {
            let Ok(multisig::msg::ExecuteMsg::SubmitSignature { session_id, signature }) = serde_json::from_slice(&m.msg) else {
                return v("not a signature", String::new());
            };
            if !self.signs(w) {
                return v("signature without being a signer", String::new());
            }
            let Some(s) = self.sessions.iter().find(|s| s.contract == m.contract && s.id == session_id.u64()) else {
                return v("signature for no session", session_id.to_string());
            };
            let Some(k) = s.keys.get(&me) else { return v("signature for a session of others", session_id.to_string()) };
            if !verify(k, &s.msg, signature.as_slice()) {
                return v("signature does not verify", format!("session {session_id}"));
            }
            if self.fetched_at(pid, s.height).is_none() {
                return v("session signed before its block was seen", session_id.to_string());
            }
            act = Act::Sign(m.contract.clone(), session_id.u64());
        } else {
            let Ok(voting_verifier::msg::ExecuteMsg::Vote { poll_id, votes }) = serde_json::from_slice(&m.msg) else {
                return v("not a vote", String::new());
            };
            let id: String = poll_id.into();
            let Some(p) = self.polls.iter().find(|p| p.contract == m.contract && p.id.to_string() == id).cloned() else {
                return v("vote in no poll", id);
            };
            if p.foreign {
                return v("vote at another contract", id);
            }
            if !self.handles(w, p.chain, p.sets) {
                return v("vote on a chain that is not handled", format!("poll {id} of {}", p.named));
            }
            if p.named != self.chain_name(p.chain) {
                return v("vote on a poll of another chain", format!("poll {id} of {}", p.named));
            }
            if !p.parts.contains(&me) {
                return v("vote in a poll of others", format!("poll {id}"));
            }
            let Some(seen) = self.fetched_at(pid, p.height) else {
                return v("vote before the poll's block was seen", format!("poll {id}"));
            };
            // what the worker knew of the height when it saw the poll
            let pr = self.proc(pid).unwrap();
            let window = if pr.touched_ms.is_some() { 60_000 } else { 12_000 };
            let mut known: Vec<u64> = pr.latest.iter().filter(|l| l.0 <= seen && l.0 + window >= seen).map(|l| l.1).collect();
            if known.is_empty() {
                known = pr.latest.iter().filter(|l| l.0 <= seen).map(|l| l.1).collect();
            }
            if let Some(least) = known.iter().min() {
                if *least >= p.expires {
                    return v("vote in a poll known to have expired", format!("poll {id} expired at {}, known height {least}", p.expires));
                }
            }
            if votes.len() != p.asked.len() {
                return Err(("C31", "number of votes", format!("poll {id}: {} votes for {} questions", votes.len(), p.asked.len())));
            }
            if broadcast {
                if let Err((prop, rule, why)) = self.judge_votes(w, pid, &p, &votes, seen) {
                    let text = String::from_utf8_lossy(&m.msg).into_owned();
                    self.viol(prop, rule, format!("worker {w}, process {pid}: {why}; message {text} to {}", m.contract));
                }
            }
            act = Act::Vote(m.contract.clone(), p.id);
        }
        // the chain refuses a second answer when it is estimated already
        let prev = self.workers[w]
            .procs
            .iter()
            .find(|x| x.acts.contains_key(&act) && (x.pid == pid || x.end.map_or(false, |e| e.1 == How::Ok) && !x.src_trouble && !x.tx_trouble))
            .map(|x| (x.pid, x.tx_trouble));
        if let Some((by, trouble)) = prev {
            if by == pid && !trouble && broadcast {
                return v("same answer sent twice", format!("{act:?}"));
            }
            if by != pid {
                return Err(("C33", "answered again after a clean stop", format!("{act:?}, first by process {by}")));
            }
        }
        if broadcast {
            let now = now_ms();
            if let Some(p) = self.proc_mut(pid) {
                p.acts.insert(act, now);
            }
            self.count("answers broadcast");
        }
        Ok(())
    }

    fn judge_votes(&mut self, w: usize, pid: Pid, p: &PollRec, votes: &[Vote], seen: u64) -> Result<(), (&'static str, &'static str, String)> {
        let now = now_ms();
        let lag = self.plan.cfg.evm.get(p.chain).map_or(0, |e| e.lag_ms);
        let mut kinds = [0u64; 3];
        let mut bad = None;
        for (i, (v, a)) in votes.iter().zip(&p.asked).enumerate() {
            let s = self.source();
            let holds = s.holds(p.chain, a, now);
            let what = || {
                format!(
                    "poll {} (chain {}, sets {}), question {i}, voted {v:?}; tx {} index {} {:?}",
                    p.id,
                    p.named,
                    p.sets,
                    s.tx_text(p.chain, &a.tx),
                    a.index,
                    a.what
                )
            };
            match v {
                Vote::SucceededOnChain => {
                    kinds[0] += 1;
                    if !holds {
                        bad = Some(("C31", "confirmed what is not there", what()));
                    }
                }
                Vote::FailedOnChain => {
                    kinds[1] += 1;
                    if holds {
                        bad = Some(("C31", "denied what is there", what()));
                    } else if !s.is_final(p.chain, &a.tx, now) {
                        bad = Some(("C31", "judged what is not final", what()));
                    }
                }
                Vote::NotFound => {
                    kinds[2] += 1;
                    // its node showed it in full before the poll was seen
                    if s.holds(p.chain, a, seen.saturating_sub(lag)) {
                        let failed = self.proc(pid).map_or(false, |x| x.receipt_failed.contains(&a.tx));
                        bad = Some(("C31", if failed { "missed after a failed query" } else { "missed what is there" }, what()));
                    }
                }
            }
        }
        for (k, n) in ["confirmed", "denied", "not found"].iter().zip(kinds) {
            if n > 0 {
                *self.counts.entry(format!("votes: {k}")).or_insert(0) += n;
            }
        }
        match bad {
            Some((c, r, d)) => Err((c, r, format!("worker {w}: {d}"))),
            None => Ok(()),
        }
    }

    fn fetched_at(&self, pid: Pid, height: u64) -> Option<u64> {
        self.proc(pid)?.fetched.iter().find(|f| f.1 == height).map(|f| f.0)
    }

    fn judge_command(&mut self, w: usize, pid: Pid, msgs: &[Exec]) {
        let me = self.workers[w].addr.clone();
        let kind = self.proc(pid).unwrap().kind;
        let Some(want) = self.expected_command(w, kind) else { return };
        let ok = msgs.len() == 1
            && msgs[0].sender == me
            && msgs[0].contract == want.0
            && msgs[0].funds == want.2
            && serde_json::from_slice::<Value>(&msgs[0].msg).ok() == Some(want.1.clone());
        if !ok {
            self.viol("C37", "command sends another message", format!("worker {w}, {kind}: {msgs:?}, expected {want:?}"));
        }
    }

    /// contract, message, funds
    pub fn expected_command(&self, w: usize, kind: &str) -> Option<(String, Value, Vec<Value2>)> {
        Some(match kind {
            "register_public_key" => {
                // the key the signing service will sign with for the multisig
                let k = self.workers[w].sign_key.verifying_key().to_encoded_point(true).as_bytes().to_vec();
                (self.multisig(), serde_json::json!({"register_public_key": {"public_key": {"ecdsa": hex::encode(k)}}}), vec![])
            }
            "bond_worker" => (
                self.registry.clone(),
                serde_json::json!({"bond_worker": {"service_name": "amplifier"}}),
                vec![Value2 { denom: DENOM.into(), amount: self.bond(w) }],
            ),
            "declare_chain_support" => (
                self.registry.clone(),
                serde_json::json!({"declare_chain_support": {"service_name": "amplifier", "chains": self.declared(w)}}),
                vec![],
            ),
            _ => return None,
        })
    }
    pub fn bond(&self, w: usize) -> u128 {
        1 + (simnet::hash(&[b"bond", &self.plan.cfg.seed.to_le_bytes(), &[w as u8]]) % 1_000_000_000) as u128
    }
    pub fn declared(&self, w: usize) -> Vec<String> {
        (0..=self.plan.cfg.evm.len()).filter(|c| self.handles(w, *c, false) || self.handles(w, *c, true)).map(|c| self.chain_name(c)).collect()
    }

    // ------------------------------------------------------------ transactions

    pub fn judge_sequence(&mut self, w: usize, pid: Pid, auth: &Auth) {
        let Some(p) = self.proc(pid) else { return };
        let earlier_ok = p.sent.iter().all(|t| self.done.get(&t.hash).map_or(false, |d| d.1 == 0));
        let bad = match (p.start_seq, auth.signer_infos.len()) {
            (Some(s), 1) if earlier_ok => {
                let want = s + p.sent.len() as u64;
                let is = auth.signer_infos[0].sequence;
                (is != want).then(|| ("sequence number", format!("{is} instead of {want}")))
            }
            (_, 1) => None,
            (_, n) => Some(("number of signers", n.to_string())),
        };
        if let Some((rule, why)) = bad {
            self.viol("C34", rule, format!("worker {w}, process {pid}: {why}"));
        }
    }

    pub fn judge_tx(&mut self, w: usize, pid: Pid, raw: &TxRaw, auth: &Auth, msgs: &[Exec]) {
        let signed = self.signed_by(w, raw);
        let (adj, price, limit) = (self.plan.cfg.gas_adjustment, self.plan.cfg.gas_price, self.plan.cfg.batch_gas_limit);
        let Some(p) = self.proc(pid) else { return };
        let mut bad: Vec<(&'static str, String)> = vec![];
        if !signed {
            bad.push(("signature is not over the transaction", format!("account number {}", self.workers[w].number)));
        }
        self.judge_sequence(w, pid, auth);
        let Some(p) = self.proc(pid) else { return };
        let (want, gas) = match (&p.batch, p.kind) {
            (Some(b), "daemon") => (b.0.clone(), Some(b.1)),
            (None, "daemon") => (vec![], None),
            _ => (p.estimated.iter().map(|e| e.0.clone()).collect(), p.estimated.last().map(|e| e.1)),
        };
        if msgs != &want[..] {
            bad.push(("messages other than those estimated", format!("{} messages, {} estimated", msgs.len(), want.len())));
        } else if let Some(g) = gas {
            let gl = (g as f64 * adj) as u64;
            let amount = (gl as f64 * price).ceil() as u128;
            let fee = &auth.fee;
            if fee.gas_limit != gl {
                bad.push(("gas limit", format!("{} instead of {gl}", fee.gas_limit)));
            }
            if fee.amount.len() != 1 || fee.amount[0].amount != amount || fee.amount[0].denom != DENOM {
                bad.push(("fee", format!("{:?} instead of {amount}", fee.amount)));
            }
        }
        if p.kind == "daemon" && msgs.len() > 1 {
            let sum: u64 = msgs.iter().map(|m| (self.gas(m) as f64 * adj) as u64).sum();
            if sum >= limit {
                bad.push(("batch over the gas limit", format!("{} messages, {sum} of {limit}", msgs.len())));
            }
            self.count("batches of several messages");
        }
        for (rule, why) in bad {
            self.viol("C34", rule, format!("worker {w}, process {pid}: {why}"));
        }
        let p = self.proc(pid).unwrap();
        if p.unconfirmed {
            let rule = if p.failed_tx { "goes on after a failed transaction" } else { "goes on without a confirmation" };
            self.viol("C34", rule, format!("worker {w}, process {pid}"));
        }
        if let Some(p) = self.proc_mut(pid) {
            p.batch = None;
            let n = msgs.len().min(p.estimated.len());
            p.estimated.drain(..n);
            p.unconfirmed = true;
        }
    }

    // ------------------------------------------------------------ signing service

    pub fn judge_sign(&mut self, w: usize, pid: Pid, uid: &str, msg: &[u8], pk: &[u8]) {
        if self.proc(pid).is_none() {
            return;
        }
        let point = |k: &k256::ecdsa::SigningKey| k.verifying_key().to_encoded_point(true).as_bytes().to_vec();
        let me = &self.workers[w];
        let bad = if uid == KEY_UID {
            (pk != &point(&me.key)[..]).then(|| ("another key than the account's".into(), "C32"))
        } else if uid == self.multisig() {
            match self.sessions.iter().find(|s| !s.foreign && s.msg == msg) {
                None => Some((format!("no session asks for {}", hex::encode(msg)), "C32")),
                Some(s) => match s.keys.get(&me.addr) {
                    None => Some((format!("session {} does not ask this worker", s.id), "C32")),
                    Some(k) if k != pk => Some((format!("session {} lists another key", s.id), "C32")),
                    _ if !self.signs(w) => Some(("not a signer".into(), "C32")),
                    _ => None,
                },
            }
        } else {
            Some((format!("unknown key id {uid}"), "C32"))
        };
        if let Some((why, c)) = bad {
            self.viol(c, "asks its signing service to sign what it must not", format!("worker {w}, process {pid}: {why}"));
        }
    }

    // ------------------------------------------------------------ what a process learnt

    pub fn learned(&mut self, r: &Req, reply: &Reply) {
        let Some(&w) = self.pid_of.get(&r.pid) else { return };
        let now = now_ms();
        let body: Value = serde_json::from_slice(&r.body).unwrap_or(Value::Null);
        let answer: Value = match reply {
            Reply::Ok(b) => serde_json::from_slice(b).unwrap_or(Value::Null),
            _ => Value::Null,
        };
        let failed = !matches!(reply, Reply::Ok(_));
        let m = r.method.as_str();
        if r.url.contains("/evm") || r.url.contains("/sui") {
            if failed {
                let id = body[0].as_str().and_then(|x| hex::decode(x.trim_start_matches("0x")).ok()).and_then(|x| <[u8; 32]>::try_from(x).ok());
                if let Some(p) = self.proc_mut(r.pid) {
                    p.src_trouble = true;
                    if m == "eth_getTransactionReceipt" {
                        p.receipt_failed.extend(id);
                    }
                }
            }
            return;
        }
        match m {
            "block" => {
                if let Some(h) = answer["block"]["header"]["height"].as_str().and_then(|x| x.parse().ok()) {
                    if let Some(p) = self.proc_mut(r.pid) {
                        p.latest.push((now, h));
                    }
                }
            }
            "block_results" if !failed => {
                let h: u64 = answer["height"].as_str().and_then(|x| x.parse().ok()).unwrap_or(0);
                self.fetched(w, r.pid, h);
            }
            "account" => {
                if let Some(v) = answer["account"]["value"].as_array() {
                    let b: Vec<u8> = v.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect();
                    let acc: Value = serde_json::from_slice(&b).unwrap_or(Value::Null);
                    if let Some(p) = self.proc_mut(r.pid) {
                        p.start_seq = acc["sequence"].as_u64();
                        p.acc_number = acc["account_number"].as_u64();
                    }
                }
            }
            "simulate" => {
                let bytes: Vec<u8> = serde_json::from_value(body["tx_bytes"].clone()).unwrap_or_default();
                let Ok((_, _, _, msgs)) = self.decode(&bytes) else { return };
                let gas = answer["gas_info"]["gas_used"].as_u64();
                let mut bad = None;
                let adj = self.plan.cfg.gas_adjustment;
                let _ = adj;
                if let Some(p) = self.proc_mut(r.pid) {
                    let known = p.estimated.len();
                    let prefix = !msgs.is_empty() && msgs.len() <= known && msgs.iter().zip(&p.estimated).all(|(a, b)| *a == b.0);
                    match gas {
                        Some(g) if prefix && msgs.len() + 1 >= known => p.batch = Some((msgs, g)),
                        Some(g) if msgs.len() == 1 && !prefix => p.estimated.push((msgs[0].clone(), g)),
                        Some(_) => bad = Some(format!("{} messages estimated together, {known} in its queue", msgs.len())),
                        None => {
                            p.tx_trouble = true;
                        }
                    }
                }
                if let Some(why) = bad {
                    self.viol("C34", "queue is dropped, repeated or reordered", format!("worker {w}, process {}: {why}", r.pid));
                }
            }
            "broadcast_tx" => {
                let code = answer["tx_response"]["code"].as_u64();
                if let Some(p) = self.proc_mut(r.pid) {
                    if code != Some(0) {
                        p.tx_trouble = true;
                    }
                }
            }
            "get_tx" => {
                let code = answer["tx_response"]["code"].as_u64();
                if let Some(p) = self.proc_mut(r.pid) {
                    match code {
                        Some(0) => p.unconfirmed = false,
                        Some(_) => {
                            p.tx_trouble = true;
                            p.failed_tx = true;
                        }
                        None => {}
                    }
                }
            }
            "sign" if failed || answer["sign_response"]["Error"].is_string() => {
                if let Some(p) = self.proc_mut(r.pid) {
                    p.tx_trouble = true;
                }
            }
            _ => {}
        }
    }

    // ------------------------------------------------------------ blocks

    fn returned(p: &Proc) -> bool {
        matches!(p.end, Some((_, How::Ok | How::Err)))
    }
    /// when what it writes covers every handler
    fn anchored_from(p: &Proc) -> Option<u64> {
        let until = p.touched_ms.or(p.end.map(|e| e.0)).unwrap_or(u64::MAX);
        (p.kind == "daemon" && until >= p.start_ms.saturating_add(ANCHOR_MS)).then_some(p.start_ms + ANCHOR_MS)
    }
    /// the state of the worker's directory covers all handlers before process `pid` starts
    pub fn anchored_before(&self, w: usize, pid: Pid) -> bool {
        self.workers[w].procs.iter().take_while(|p| p.pid != pid).any(|p| Self::returned(p) && !p.disk_fault && Self::anchored_from(p).is_some())
    }

    fn fetched(&mut self, w: usize, pid: Pid, h: u64) {
        let now = now_ms();
        let Some(p) = self.proc(pid) else { return };
        let mut bad = None;
        match p.fetched.last() {
            Some((_, last)) if h != last + 1 => bad = Some(("C33", "blocks out of order", format!("{h} after {last}"))),
            Some(_) => {}
            None => {
                let before: Vec<&Proc> = self.workers[w].procs.iter().take_while(|p| p.pid != pid).filter(|p| p.kind == "daemon").collect();
                if self.anchored_before(w, pid) {
                    // killed while it wrote its state, it may have written it
                    let n = before.iter().rposition(|p| Self::returned(p) || p.disk_fault).map_or(0, |i| i + 1);
                    let most = before[..n].iter().flat_map(|p| p.fetched.iter().map(|f| f.1)).max().unwrap_or(0);
                    if h > most + 1 {
                        let disk = before.iter().any(|p| p.disk_fault) || before.iter().any(|p| p.unreadable) || p.unreadable;
                        bad = Some((
                            if disk { "C35" } else { "C33" },
                            "blocks skipped at a restart",
                            format!("starts at {h} although no process that wrote its state had seen more than {most}"),
                        ));
                    }
                }
            }
        }
        if let Some((c, r, d)) = bad {
            self.viol(c, r, format!("worker {w}, process {pid}: {d}"));
        }
        if let Some(p) = self.proc_mut(pid) {
            p.fetched.push((now, h));
        }
    }

    /// a process ended
    pub fn ended(&mut self, w: usize, pid: Pid, how: How, error: String) {
        let now = now_ms();
        self.note(|| format!("worker {w}: process {pid} ends: {how:?} {error}"));
        let Some(p) = self.proc_mut(pid) else { return };
        p.end = Some((now, how));
        p.error = error.clone();
        if p.unconfirmed {
            p.tx_trouble = true;
        }
        let p = p.clone();
        self.count(match how {
            How::Ok => "ended: asked to stop",
            How::Err => "ended: failed",
            How::Panic => "ended: panicked",
            How::Killed => "ended: killed",
        });
        if p.kind != "daemon" {
            return;
        }
        let who = format!("worker {w}, process {pid}");
        if how == How::Err {
            let cause: Vec<&str> = error.split(" | ").collect();
            let k = format!("failed: {}", cause.last().unwrap_or(&"").chars().take(60).collect::<String>());
            *self.counts.entry(k).or_insert(0) += 1;
        }
        if how == How::Err && error.contains("task panicked") {
            self.viol("C36", "daemon panics", format!("{who}: {error}"));
        } else if how == How::Err && !p.tx_trouble && !p.src_trouble && !p.unreadable && self.used.is_empty() {
            self.viol("C36", "fails although nothing is wrong", format!("{who}: {error}"));
        }
        if how == How::Panic {
            self.viol("C36", "daemon panics", format!("{who}: {error}"));
        }
        if how == How::Ok && p.term_ms.is_none() {
            self.viol("C36", "daemon stops on its own", who.clone());
        }
        if how == How::Ok && !p.estimated.is_empty() && !p.tx_trouble {
            self.viol("C35", "queued answers are dropped by a clean stop", format!("{who}: {:?}", p.estimated.iter().map(|e| String::from_utf8_lossy(&e.0.msg).into_owned()).collect::<Vec<_>>()));
        }
        // its state was damaged before
        let hurt = self.workers[w].procs.iter().take_while(|x| x.pid != pid).any(|x| x.disk_fault);
        if how == How::Err && p.requests == 0 && hurt && !p.unreadable {
            self.viol("C35", "state is lost after a disk fault", format!("{who}: {error}"));
        }
    }

    // ------------------------------------------------------------ at the end

    /// everyone who must answer has answered
    pub fn judge_end(&mut self) {
        for w in 0..self.workers.len() {
            let me = self.workers[w].addr.clone();
            let mut due: Vec<(Act, u64, u64, bool)> = vec![];
            for p in &self.polls {
                if !p.foreign && p.parts.contains(&me) && p.named == self.chain_name(p.chain) && self.handles(w, p.chain, p.sets) {
                    due.push((Act::Vote(p.contract.clone(), p.id), p.height, p.expires, p.probe));
                }
            }
            for s in &self.sessions {
                if !s.foreign && s.keys.contains_key(&me) && self.signs(w) {
                    due.push((Act::Sign(s.contract.clone(), s.id), s.height, u64::MAX, s.probe));
                }
            }
            for (act, height, expires, _) in due {
                let procs = &self.workers[w].procs;
                if procs.iter().any(|p| p.acts.contains_key(&act)) {
                    self.count("duties fulfilled");
                    continue;
                }
                // the last process that saw it
                let Some(l) = procs.iter().rev().find(|p| p.fetched.iter().any(|f| f.1 == height)) else { continue };
                let at = l.fetched.iter().find(|f| f.1 == height).unwrap().0;
                if !Self::returned(l) {
                    continue;
                }
                let calm = l.end.unwrap().1 == How::Ok
                    || self.anchored_before(w, l.pid)
                    || Self::anchored_from(l).map_or(false, |t| t < at);
                if !calm {
                    continue;
                }
                let last = procs.last().map_or(false, |p| p.pid == l.pid);
                if last && l.term_ms.map_or(true, |t| at + 30_000 > t) {
                    continue;
                }
                // expired by the time it would have been dealt with
                let slack = 60_000 + self.disturbed_ms(w);
                let then = self.height_at(at + slack);
                if then >= expires {
                    continue;
                }
                let lost = procs.iter().any(|p| p.tx_trouble && Self::returned(p) && p.fetched.iter().any(|f| f.1 == height));
                let rule = if lost { "answers lost with a failed transaction" } else { "event not answered" };
                let d = format!("worker {w}: {act:?} of block {height}, seen by process {} which ended {:?} {}", l.pid, l.end.unwrap().1, l.error);
                self.viol("C33", rule, d);
            }
        }
    }

    /// a process that saw the block failed at a transaction, and has not been failing all along
    pub fn lost(&self, w: usize, height: u64) -> bool {
        let failed = |p: &&Proc| p.tx_trouble && Self::returned(p) && p.fetched.iter().any(|f| f.1 >= height);
        let n = self.workers[w].procs.iter().filter(failed).count();
        n > 0 && n < 3 && self.workers[w].procs.iter().filter(failed).any(|p| p.fetched.iter().any(|f| f.1 == height))
    }

    /// height of the block of a question that these messages answer a second time
    pub fn given(&self, w: usize, msgs: &[Exec]) -> Option<u64> {
        let me = &self.workers[w].addr;
        msgs.iter().find_map(|m| {
            if let Ok(multisig::msg::ExecuteMsg::SubmitSignature { session_id, .. }) = serde_json::from_slice(&m.msg) {
                return self.sessions.iter().find(|s| s.contract == m.contract && s.id == session_id.u64() && s.signed.contains_key(me)).map(|s| s.height);
            }
            let Ok(voting_verifier::msg::ExecuteMsg::Vote { poll_id, .. }) = serde_json::from_slice(&m.msg) else { return None };
            let id: String = poll_id.into();
            self.polls.iter().find(|p| p.contract == m.contract && p.id.to_string() == id && p.votes.contains_key(me)).map(|p| p.height)
        })
    }

    /// Killed after it answered a block of several questions and before it wrote its state, it begins with
    /// that block again: the second answer stops it before it is done with the block, time and again.
    pub fn repeats(&self, w: usize) -> bool {
        let me = &self.workers[w].addr;
        let again = |p: &&Proc| {
            let Some(h) = p.repeated else { return false };
            let n = self.polls.iter().filter(|q| q.height == h && !q.foreign && q.parts.contains(me)).count()
                + self.sessions.iter().filter(|s| s.height == h && !s.foreign && s.keys.contains_key(me)).count();
            n > 1 && matches!(p.end, Some((_, How::Err)))
        };
        let ended: Vec<&Proc> = self.workers[w].procs.iter().filter(|p| p.kind == "daemon" && p.end.is_some()).collect();
        // three times in a row, and not over before the faults were
        ended.windows(3).any(|x| x.iter().all(again) && x[2].end.map_or(false, |e| e.0 >= self.faults_over_ms))
    }

    fn disturbed_ms(&self, w: usize) -> u64 {
        use crate::plan::Fault::*;
        self.plan
            .faults
            .iter()
            .map(|f| match f {
                Stall { w: x, ms, .. } | Down { w: x, ms, .. } | Lag { w: x, ms, .. } | Slow { w: x, ms, .. } if *x == w => *ms * 2,
                _ => 0,
            })
            .sum()
    }

    fn height_at(&self, ms: u64) -> u64 {
        self.block_times.range(..=ms).next_back().map_or(self.plan.cfg.h0, |x| *x.1)
    }

    /// has this worker answered it
    pub fn answered_by(&self, w: usize, act: &Act) -> bool {
        self.workers[w].procs.iter().any(|p| p.acts.contains_key(act))
    }

    pub fn calm(&self) -> bool {
        now_ms() < CALM_MS
    }
}
