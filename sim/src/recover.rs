//! External chains, end-to-end oracles that need no model, and the honest parties that drive
//! everything pending to completion once faults stop.

use serde_json::{json, Value};

use crate::codec::{self, Key, Params};
use crate::model::*;
use crate::rng::Rng;
use crate::world::*;

type Check = Result<(), Viol>;

const DAY: u64 = 86_400_000_000_000;

impl World {
    fn report_e2e(&mut self, v: Viol) -> Check {
        if self.relevant(&v) {
            Err(v)
        } else {
            if self.diverged.is_none() {
                self.diverged = Some(v);
            }
            Ok(())
        }
    }

    pub fn prover_set(&mut self, chain: &str) -> Option<WSet> {
        let p = self.a.prover.get(chain)?.clone();
        let v = self.chain.query(&p, &json!("get_worker_set")).or_else(|_| self.chain.query(&p, &json!({"get_worker_set": {}}))).ok()?;
        WSet::parse(&v)
    }

    /// Checks that follow every accepted transaction towards a prover.
    pub fn after_prover_tx(&mut self, to: &str, var: &str) -> Check {
        let Some(chain) = self.a.prover.iter().find(|(_, a)| *a == to).map(|(c, _)| c.clone()) else { return Ok(()) };
        let abi = self.ext[&chain].abi;
        if self.ext[&chain].epochs.is_empty() {
            // the external gateway is deployed with the prover's first worker set
            if let Some(s) = self.prover_set(&chain) {
                match s.ops(abi) {
                    Some(o) if o.strictly_sorted() => self.ext.get_mut(&chain).unwrap().epochs.push(o),
                    _ => {
                        self.tainted.insert(chain.clone());
                    }
                }
            }
        }
        if var == "confirm_worker_set" && !self.tainted.contains(&chain) {
            let Some(s) = self.prover_set(&chain) else { return Ok(()) };
            let Some(o) = s.ops(abi) else { return Ok(()) };
            let x = &self.ext[&chain];
            match x.epochs.iter().rposition(|e| *e == o) {
                Some(i) if i + 1 == x.epochs.len() => {}
                Some(_) => {
                    // an earlier set came back (known finding) or a newer hand-over is already executed
                    self.tainted.insert(chain);
                }
                None if self.excused_sets.contains(&o) => {
                    self.tainted.insert(chain);
                }
                None => {
                    let d = format!("{chain}: prover now signs with {}, which its gateway never adopted", o.show());
                    return self.report_e2e(viol(&["C17", "C15"], "signers-not-recognised", d));
                }
            }
        }
        Ok(())
    }

    /// A relayer submits the proof of a session to the destination chain.
    pub fn ext_exec(&mut self, chain: &str, session: u64) -> Result<bool, Viol> {
        let Some(p) = self.a.prover.get(chain).cloned() else { return Ok(false) };
        let Ok(g) = self.chain.query(&p, &json!({"get_proof": {"multisig_session_id": n(session)}})) else { return Ok(false) };
        let Some(data) = g["status"]["completed"]["execute_data"].as_str().and_then(|x| hex::decode(x).ok()) else {
            return Ok(false);
        };
        if self.ext[chain].epochs.is_empty() || self.tainted.contains(chain) {
            return Ok(false);
        }
        let r = self.ext.get_mut(chain).unwrap().execute(chain, &data);
        match r {
            Err(e) => {
                let tags: &[&str] = if e.contains("not recognised") { &["C15", "C17"] } else { &["C15", "C28"] };
                self.report_e2e(viol(tags, "proof-refused", format!("{chain} refuses the proof of session {session}: {e}")))?;
                Ok(false)
            }
            Ok(out) => {
                for a in &out.approved {
                    self.stats.approvals += 1;
                    let abi = self.ext[chain].abi;
                    if !self.is_truth(chain, a, abi) && !self.is_excused(a) {
                        let d = format!(
                            "{chain} approved a message nobody sent: from {} {} to 0x{} hash {}",
                            a.chain,
                            a.src,
                            hex::encode(&a.dst),
                            hex::encode(a.hash)
                        );
                        self.report_e2e(viol(&["C01"], "forged-approval", d))?;
                    }
                    let same = |e: &ExtEvent| {
                        e.chain == a.chain
                            && e.src == a.src
                            && e.hash == hex::encode(a.hash)
                            && codec::keccak(format!("{}:{}:{}", e.chain, e.tx, e.index).as_bytes()) != a.id
                            && self.ext[chain]
                                .executed
                                .contains(&codec::keccak(format!("{}:{}:{}", e.chain, e.tx, e.index).as_bytes()))
                    };
                    let own = self.events.iter().any(|e| codec::keccak(format!("{}:{}:{}", e.chain, e.tx, e.index).as_bytes()) == a.id);
                    let twin = self.events.iter().any(same);
                    if twin && !own && !self.sent.iter().any(|m| codec::keccak(format!("{}:{}", m.chain, m.id).as_bytes()) == a.id) {
                        self.report_e2e(viol(&["C29", "C01"], "approved-twice", format!("{chain} approved one event of {} twice", a.chain)))?;
                    }
                }
                if let Some(r) = &out.rotated {
                    self.stats.rotations += 1;
                    if r.ops.ops.is_empty() {
                        self.report_e2e(viol(&["C17", "C18"], "empty-set", chain.to_string()))?;
                    }
                }
                if !out.refused.is_empty() {
                    let d = format!("{chain} refuses the hand-over of session {session}: {}", out.refused.join("; "));
                    self.report_e2e(viol(&["C18", "C17", "C28"], "handover-refused", d))?;
                }
                Ok(true)
            }
        }
    }

    // ---------------------------------------------------------------- recovery

    fn rtx(&mut self, from: &str, to: &str, msg: Value) -> Result<bool, Viol> {
        self.tx(from, to, &msg, &vec![], None)
    }

    fn pass(&mut self, dh: u64) -> Check {
        let (h, t) = (self.chain.height + dh, self.chain.nanos + dh * 5_000_000_000);
        self.chain.set_block(h, t);
        if let Some(m) = &mut self.model {
            m.height = h;
            m.nanos = t;
        }
        Ok(())
    }

    /// Faults stop. Governance puts the honest workers in charge and repairs the configuration,
    /// then permissionless steps alone must deliver every genuine message.
    pub fn recover(&mut self, seed: u64) -> Check {
        self.stats.recoveries += 1;
        let mut rng = Rng::new(seed);
        let a = self.a.clone();
        let cfg = self.cfg.clone();
        let honest: Vec<usize> = (0..cfg.workers).filter(|i| !cfg.byz.contains(i)).collect();
        let byz: Vec<String> = cfg.byz.iter().map(|i| worker(*i)).collect();
        for (si, s) in cfg.svcs.iter().enumerate() {
            let reg = self.chain.query(&a.registry, &json!({"get_service": {"service_name": s.name}})).is_ok();
            if !reg {
                self.rtx(GOV, &a.registry, register_service(s))?;
            }
            if !byz.is_empty() {
                self.rtx(GOV, &a.registry, json!({"unauthorize_workers": {"workers": byz, "service_name": s.name}}))?;
            }
            let hs: Vec<String> = honest.iter().map(|i| worker(*i)).collect();
            self.rtx(GOV, &a.registry, json!({"authorize_workers": {"workers": hs, "service_name": s.name}}))?;
            let chains: Vec<String> = cfg.chains.iter().filter(|c| c.svc == si).map(|c| c.name.clone()).collect();
            for w in &hs {
                let b = self.chain.balance(w, &s.denom).min((s.min_bond as u128).max(1));
                let funds = if b > 0 { vec![(s.denom.clone(), b)] } else { vec![] };
                self.tx(w, &a.registry, &json!({"bond_worker": {"service_name": s.name}}), &funds, None)?;
                self.rtx(w, &a.registry, json!({"declare_chain_support": {"service_name": s.name, "chains": chains}}))?;
            }
        }
        for i in &honest {
            let w = worker(*i);
            let k = self.chain.query(&a.multisig, &json!({"get_public_key": {"worker_address": w, "key_type": "ecdsa"}}));
            let mine = k.ok().and_then(|k| k["ecdsa"].as_str().map(|x| x.to_string()));
            let mine = mine.and_then(|k| self.keys.get(&k).cloned()).map_or(false, |nm| nm.starts_with(&format!("{w}#")));
            if !mine {
                let k = hex::encode(Key::from_name(&format!("{w}#0")).pubkey(true));
                self.rtx(&w, &a.multisig, json!({"register_public_key": {"public_key": {"ecdsa": k}}}))?;
            }
        }
        // a gateway that serves another chain is freed first
        let mut names: Vec<String> = cfg.chains.iter().map(|c| c.name.clone()).collect();
        names.extend([cfg.eoa_chain.clone(), "osmosis".into(), "kujira".into()]);
        for (i, c) in names.iter().enumerate() {
            let info = self.chain.query(&a.router, &json!({ "get_chain_info": c }));
            let g = info.ok().and_then(|i| i["gateway"]["address"].as_str().map(|x| x.to_string()));
            if a.gateway.iter().any(|(k, v)| k != c && Some(v) == g.as_ref()) {
                self.rtx(GOV, &a.router, json!({"upgrade_gateway": {"chain": c, "contract_address": format!("parked{i}")}}))?;
            }
        }
        for c in &cfg.chains {
            let info = self.chain.query(&a.router, &json!({ "get_chain_info": c.name }));
            match info.ok().and_then(|i| i["gateway"]["address"].as_str().map(|x| x.to_string())) {
                None => {
                    self.rtx(GOV, &a.router, json!({"register_chain": {"chain": c.name, "gateway_address": a.gateway[&c.name]}}))?;
                }
                Some(g) if g != a.gateway[&c.name] => {
                    self.rtx(GOV, &a.router, json!({"upgrade_gateway": {"chain": c.name, "contract_address": a.gateway[&c.name]}}))?;
                }
                _ => {}
            }
            self.rtx(ADMIN, &a.router, json!({"unfreeze_chain": {"chain": c.name, "direction": "Bidirectional"}}))?;
            self.rtx(GOV, &a.multisig, json!({"authorize_caller": {"contract_address": a.prover[&c.name]}}))?;
        }
        for c in &cfg.chains {
            // operators of a set whose members cannot sign any more are beyond recovery
            if let Err(v) = self.rotate(&c.name)? {
                self.report_e2e(viol(&["C28", "C17"], "wedged-handover", format!("{}: {v}", c.name)))?;
                self.tainted.insert(c.name.clone());
            }
        }
        // genuine messages: a sample of the pending ones and a new one between every two chains
        let mut todo: Vec<Msg> = self.events.iter().map(|e| e.msg()).filter(|m| self.deliverable(m)).collect();
        todo.extend(self.sent.iter().filter(|m| self.deliverable(m)).cloned());
        rng.shuffle(&mut todo);
        todo.truncate(5);
        for s in &cfg.chains {
            for d in &cfg.chains {
                if s.name != d.name {
                    let b = rng.bytes32();
                    let e = ExtEvent {
                        chain: s.name.clone(),
                        tx: format!("0x{}", hex::encode(rng.bytes32())),
                        index: rng.below(3),
                        src: "0xlate".into(),
                        dst_chain: d.name.clone(),
                        dst: if d.abi { format!("0x{}", hex::encode(&b[..20])) } else { hex::encode(b) },
                        hash: hex::encode(rng.bytes32()),
                    };
                    todo.push(e.msg());
                    self.events.push(e);
                }
            }
        }
        for m in todo {
            if self.tainted.contains(&m.dst_chain) {
                continue;
            }
            if let Err(e) = self.deliver(&m)? {
                self.report_e2e(viol(&["C28"], "wedged-message", format!("{}: {e}", m.show())))?;
            }
        }
        Ok(())
    }

    fn deliverable(&self, m: &Msg) -> bool {
        let Some(d) = self.chain_cfg(&m.dst_chain) else { return false };
        let known = self.chain_cfg(&m.chain).is_some() || self.sent.contains(m);
        known && split_id(&m.id).is_some() && dst_address(d.abi, &m.dst).is_some() && m.chain != m.dst_chain
    }

    pub fn sign_all(&mut self, session: u64) -> Check {
        let Some(s) = self.sessions.get(&session).cloned() else { return Ok(()) };
        for w in s.keys.keys() {
            if self.sessions.get(&session).map_or(false, |s| s.done) {
                break;
            }
            let Some(sig) = self.honest_sig(w, session) else { continue };
            let ms = self.a.multisig.clone();
            self.rtx(w, &ms, json!({"submit_signature": {"session_id": n(session), "signature": sig}}))?;
        }
        Ok(())
    }

    /// Completes a pending hand-over and starts one if the workers changed, until stable.
    pub fn rotate(&mut self, chain: &str) -> Result<Result<(), String>, Viol> {
        let (p, v) = (self.a.prover[chain].clone(), self.a.verifier[chain].clone());
        let abi = self.ext[chain].abi;
        for _ in 0..4 {
            if self.tainted.contains(chain) {
                return Ok(Ok(()));
            }
            let Some(cur) = self.prover_set(chain) else {
                if !self.rtx(RELAYER, &p, json!("update_worker_set"))? {
                    return Ok(Err("no first worker set can be formed".into()));
                }
                continue;
            };
            let Some(cur_ops) = cur.ops(abi) else { return Ok(Ok(())) };
            // the latest session handing over to a set that is not in charge yet
            let mut pending = None;
            let ids: Vec<u64> = self.sessions.values().filter(|s| s.chain == chain && s.prover).map(|s| s.id).rev().collect();
            for id in ids {
                let Ok(g) = self.chain.query(&p, &json!({"get_proof": {"multisig_session_id": n(id)}})) else { continue };
                let t = g["data"]["commands"].as_array().into_iter().flatten().find_map(|c| {
                    let b = c["params"].as_str().and_then(|x| hex::decode(x).ok())?;
                    match codec::decode_params(abi, c["ty"].as_str()?, &b) {
                        Ok(Params::Transfer(o)) => Some(o.sorted()),
                        _ => None,
                    }
                });
                if let Some(o) = t {
                    if o != cur_ops {
                        pending = Some((id, o));
                    }
                    break;
                }
            }
            let Some((id, ops)) = pending else {
                if !self.rtx(RELAYER, &p, json!("update_worker_set"))? {
                    return Ok(Ok(()));
                }
                continue;
            };
            let able: u128 = cur.signers.iter().filter(|(w, _)| self.honest_sig(w, id).is_some()).map(|(_, s)| s.weight).sum();
            if able < cur.threshold {
                self.tainted.insert(chain.into());
                return Ok(Ok(()));
            }
            self.sign_all(id)?;
            self.ext_exec(chain, id)?;
            let Some(rot) = self.ext[chain].rotations.iter().rev().find(|r| r.ops == ops).cloned() else {
                return Ok(Err(format!("hand-over to {} is not executed by the gateway", ops.show())));
            };
            let q = json!({"is_worker_set_verified": {"new_operators": ops_json(&ops)}});
            for _ in 0..3 {
                if self.chain.query(&v, &q).ok().and_then(|x| x.as_bool()) == Some(true) {
                    break;
                }
                let before = self.polls.len();
                self.rtx(
                    RELAYER,
                    &v,
                    json!({"verify_worker_set": {"message_id": format!("{}:{}", rot.tx_id, rot.index), "new_operators": ops_json(&ops)}}),
                )?;
                if self.polls.len() == before {
                    return Ok(Err("the hand-over cannot be put to a poll".into()));
                }
                let poll = self.polls.last().unwrap().clone();
                self.vote_all(&poll)?;
            }
            if !self.rtx(RELAYER, &p, json!("confirm_worker_set"))? {
                return Ok(Err("an executed and verified hand-over cannot be confirmed".into()));
            }
        }
        Ok(Ok(()))
    }

    fn vote_all(&mut self, p: &ObsPoll) -> Check {
        for w in &p.parts {
            if self.is_byz(w) {
                continue;
            }
            let votes = self.honest_votes(p, 0);
            self.rtx(w, &p.verifier, json!({"vote": {"poll_id": n(p.id), "votes": votes}}))?;
        }
        Ok(())
    }

    fn verified(&mut self, v: &str, m: &Msg) -> bool {
        self.chain
            .query(v, &json!({"is_verified": {"messages": [m.json()]}}))
            .ok()
            .and_then(|x| x[0][1].as_bool())
            .unwrap_or(false)
    }

    pub fn deliver(&mut self, m: &Msg) -> Result<Result<(), String>, Viol> {
        let cmd = codec::keccak(format!("{}:{}", m.chain, m.id).as_bytes());
        if self.ext[&m.dst_chain].executed.contains(&cmd) {
            return Ok(Ok(()));
        }
        let dgw = self.a.gateway[&m.dst_chain].clone();
        let q = json!({"get_messages": {"message_ids": [{"chain": m.chain, "id": m.id}]}});
        let here = |w: &mut World| w.chain.query(&dgw, &q).map_or(false, |v| parse_msgs(&v).map_or(false, |v| v == vec![m.clone()]));
        if !here(self) {
            if self.chain_cfg(&m.chain).is_none() || !self.events.iter().any(|e| e.msg() == *m) {
                return Ok(Ok(())); // the account or nexus would have to send it again
            }
            let (gw, v) = (self.a.gateway[&m.chain].clone(), self.a.verifier[&m.chain].clone());
            for _ in 0..4 {
                if self.verified(&v, m) {
                    break;
                }
                self.rtx(RELAYER, &gw, json!({"verify_messages": [m.json()]}))?;
                let (tx, idx) = split_id(&m.id).unwrap();
                let poll = self
                    .polls
                    .iter()
                    .rev()
                    .find(|p| {
                        p.verifier == v
                            && matches!(&p.items, ObsItems::Msgs(is) if is.iter().any(|i| i.tx == tx && i.index == idx && i.hash == m.hash && i.src == m.src && i.dst_chain == m.dst_chain && i.dst == m.dst))
                    })
                    .cloned();
                let Some(poll) = poll else { return Ok(Err("cannot be put to a poll".into())) };
                self.vote_all(&poll)?;
                if !self.verified(&v, m) {
                    if self.chain.height < poll.expires {
                        let dh = poll.expires - self.chain.height;
                        self.pass(dh)?;
                    }
                    self.rtx(RELAYER, &v, json!({"end_poll": {"poll_id": n(poll.id)}}))?;
                }
            }
            if !self.verified(&v, m) {
                return Ok(Err("honest workers cannot verify it".into()));
            }
            self.rtx(RELAYER, &gw, json!({"route_messages": [m.json()]}))?;
            if !here(self) {
                return Ok(Err("verified, but not routable to its destination".into()));
            }
        }
        let p = self.a.prover[&m.dst_chain].clone();
        for attempt in 0..2 {
            let before = self.sessions.len();
            let ok = self.rtx(RELAYER, &p, json!({"construct_proof": {"message_ids": [{"chain": m.chain, "id": m.id}]}}))?;
            if ok && self.sessions.len() > before {
                let id = *self.sessions.keys().last().unwrap();
                let Some(cur) = self.prover_set(&m.dst_chain) else { return Ok(Err("no worker set".into())) };
                let able: u128 =
                    cur.signers.iter().filter(|(w, _)| self.honest_sig(w, id).is_some()).map(|(_, s)| s.weight).sum();
                if able < cur.threshold {
                    return Ok(Ok(()));
                }
                self.sign_all(id)?;
                self.ext_exec(&m.dst_chain, id)?;
                if self.ext[&m.dst_chain].executed.contains(&cmd) || self.tainted.contains(&m.dst_chain) {
                    return Ok(Ok(()));
                }
                return Ok(Err("its proof is not executed by the destination".into()));
            }
            if attempt == 0 {
                if let Err(e) = self.rotate(&m.dst_chain)? {
                    return Ok(Err(e));
                }
            }
        }
        Ok(Err("no proof can be constructed".into()))
    }
}

pub fn register_service(s: &SvcCfg) -> Value {
    json!({"register_service": {"service_name": s.name, "service_contract": "somecontract", "min_num_workers": s.min_workers,
        "max_num_workers": s.max_workers, "min_worker_bond": n(s.min_bond), "bond_denom": s.denom, "unbonding_period_days": s.days,
        "description": "simulated"}})
}

pub fn days(d: u64) -> u64 {
    d * DAY
}
