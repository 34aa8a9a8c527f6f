//! The source chains: what their nodes show at a time, and what is true there.

use cosmwasm_std::{HexBinary, Uint256};
use ethabi::Token;
use serde_json::{json, Value};
use simnet::hash;

use crate::plan::*;
use crate::rng::Rng;

pub fn b32(parts: &[&[u8]]) -> [u8; 32] {
    Rng::new(hash(parts)).bytes32()
}

/// what an event of a source chain says
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub dest_chain: String,
    pub dest_addr: String,
    pub source: Vec<u8>,
    pub payload: Vec<u8>,
    pub payload_hash: [u8; 32],
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ops {
    pub ops: Vec<(Vec<u8>, u128)>,
    pub threshold: u128,
}

/// what a poll asks about
#[derive(Clone, Debug)]
pub struct Asked {
    pub tx: [u8; 32],
    pub index: u64,
    pub what: What,
}

#[derive(Clone, Debug)]
pub enum What {
    Call(Call),
    Ops(Ops),
}

pub struct Source<'a> {
    pub cfg: &'a Cfg,
}

impl<'a> Source<'a> {
    pub fn sui(&self) -> usize {
        self.cfg.evm.len()
    }
    pub fn gateway(&self, chain: usize) -> Vec<u8> {
        let g = b32(&[b"gateway", &[chain as u8], &self.cfg.seed.to_le_bytes()]);
        if chain == self.sui() { g.to_vec() } else { g[..20].to_vec() }
    }
    pub fn tx_id(&self, i: usize) -> [u8; 32] {
        b32(&[b"tx", &(i as u64).to_le_bytes(), &self.cfg.seed.to_le_bytes()])
    }
    pub fn call(&self, chain: usize, seed: u64) -> Call {
        let mut r = Rng::new(seed);
        let dest_chain = r.pick(&["avalanche", "ethereum", "Polygon-2", "osmosis-1", "sui"]).to_string();
        let n = r.range(1, 40) as usize;
        let raw: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
        let dest_addr = if r.pct(60) { format!("0x{}", hex::encode(&raw)) } else { format!("osmo1{}Q", hex::encode(&raw)) };
        let b = r.bytes32();
        let source = if chain == self.sui() { b.to_vec() } else { b[..20].to_vec() };
        let payload = (0..r.below(40)).map(|_| r.next() as u8).collect();
        Call { dest_chain, dest_addr, source, payload, payload_hash: r.bytes32() }
    }
    pub fn ops(&self, chain: usize, seed: u64) -> Ops {
        let mut r = Rng::new(seed);
        let n = r.range(1, 6);
        let mut ops: Vec<(Vec<u8>, u128)> = (0..n)
            .map(|_| {
                let b = r.bytes32();
                (if chain == self.sui() { [&[2u8], &b[..]].concat() } else { b[..20].to_vec() }, r.range(1, 1_000_000) as u128)
            })
            .collect();
        ops.sort();
        Ops { ops, threshold: r.range(1, 1_000_000) as u128 }
    }

    // ------------------------------------------------------------ EVM

    pub fn head(&self, chain: usize, ms: u64) -> u64 {
        let e = &self.cfg.evm[chain];
        e.head0 + ms / e.block_ms
    }
    pub fn finalized(&self, chain: usize, ms: u64) -> Option<u64> {
        let e = &self.cfg.evm[chain];
        let h = self.head(chain, ms);
        if e.name == "Ethereum" {
            Some(h.saturating_sub(e.depth))
        } else {
            (h + 1).checked_sub(e.conf)
        }
    }
    /// block and first log index of a transaction as seen at a time
    pub fn position(&self, i: usize, ms: u64) -> Option<(u64, u64)> {
        let t = &self.cfg.src[i];
        let e = &self.cfg.evm[t.chain];
        let at = |b: u64| (b - e.head0) * e.block_ms;
        let inc = self.head(t.chain, t.at_ms) + 1;
        if ms < at(inc) {
            return None;
        }
        let Some((when, back)) = &t.reorg else { return Some((inc, t.base)) };
        let tr = at(inc) + when;
        if ms < tr {
            return Some((inc, t.base));
        }
        let (later, base) = (*back)?;
        let nb = self.head(t.chain, tr) + 1 + later;
        if ms < at(nb) { None } else { Some((nb, base)) }
    }

    pub fn receipt(&self, i: usize, ms: u64) -> Option<Value> {
        let (block, base) = self.position(i, ms)?;
        let t = &self.cfg.src[i];
        let id = format!("0x{}", hex::encode(self.tx_id(i)));
        let bh = format!("0x{}", hex::encode(b32(&[b"block", &[t.chain as u8], &block.to_le_bytes()])));
        let logs: Vec<Value> = t
            .events
            .iter()
            .enumerate()
            .map(|(j, ev)| {
                let (topics, data) = self.log(t.chain, ev);
                let addr = if ev.gateway { self.gateway(t.chain) } else { b32(&[b"other", &ev.seed.to_le_bytes()])[..20].to_vec() };
                json!({"address": format!("0x{}", hex::encode(addr)), "topics": topics, "data": format!("0x{}", hex::encode(data)),
                    "blockHash": bh, "blockNumber": format!("0x{block:x}"), "transactionHash": id, "transactionIndex": "0x0",
                    "logIndex": format!("0x{:x}", base + j as u64), "removed": false})
            })
            .collect();
        Some(json!({"transactionHash": id, "transactionIndex": "0x0", "blockHash": bh, "blockNumber": format!("0x{block:x}"),
            "from": "0x0000000000000000000000000000000000000001", "to": format!("0x{}", hex::encode(self.gateway(t.chain))),
            "cumulativeGasUsed": "0x5208", "gasUsed": "0x5208", "contractAddress": null, "logs": logs, "status": "0x1",
            "logsBloom": format!("0x{}", "0".repeat(512)), "type": "0x2", "effectiveGasPrice": "0x1"}))
    }

    fn log(&self, chain: usize, ev: &SrcEv) -> (Vec<String>, Vec<u8>) {
        use sha3::{Digest, Keccak256};
        let sig = |s: &str| format!("0x{}", hex::encode(Keccak256::digest(s.as_bytes())));
        match ev.kind {
            EvKind::Call => {
                let c = self.call(chain, ev.seed);
                (
                    vec![
                        sig("ContractCall(address,string,string,bytes32,bytes)"),
                        format!("0x{}{}", "0".repeat(24), hex::encode(&c.source)),
                        format!("0x{}", hex::encode(c.payload_hash)),
                    ],
                    ethabi::encode(&[Token::String(c.dest_chain), Token::String(c.dest_addr), Token::Bytes(c.payload)]),
                )
            }
            EvKind::Rotation => {
                let o = self.ops(chain, ev.seed);
                let data = ethabi::encode(&[
                    Token::Array(o.ops.iter().map(|x| Token::Address(ethabi::Address::from_slice(&x.0))).collect()),
                    Token::Array(o.ops.iter().map(|x| Token::Uint(x.1.into())).collect()),
                    Token::Uint(o.threshold.into()),
                ]);
                (vec![sig("OperatorshipTransferred(bytes)")], ethabi::encode(&[Token::Bytes(data)]))
            }
            EvKind::Other => (vec![sig("Executed(bytes32)"), format!("0x{}", hex::encode(b32(&[&ev.seed.to_le_bytes()])))], vec![]),
        }
    }

    pub fn find_tx(&self, id: &[u8; 32]) -> Option<usize> {
        (0..self.cfg.src.len()).find(|i| self.tx_id(*i) == *id)
    }

    // ------------------------------------------------------------ Sui

    /// (executed, in a checkpoint)
    pub fn sui_times(&self, i: usize) -> (u64, u64) {
        let t = self.cfg.src[i].at_ms;
        (t, t + 800 + hash(&[b"checkpoint", &(i as u64).to_le_bytes()]) % 4000)
    }
    pub fn sui_block(&self, i: usize, ms: u64) -> Option<Value> {
        let t = &self.cfg.src[i];
        let (exec, cp) = self.sui_times(i);
        if ms < exec || t.chain != self.sui() {
            return None;
        }
        let digest = bs58::encode(self.tx_id(i)).into_string();
        let hexs = |b: &[u8]| format!("0x{}", hex::encode(b));
        let data: Vec<Value> = t
            .events
            .iter()
            .enumerate()
            .map(|(j, ev)| {
                let gw = if ev.gateway { self.gateway(t.chain) } else { b32(&[b"other", &ev.seed.to_le_bytes()]).to_vec() };
                let (ty, body) = match ev.kind {
                    EvKind::Call => {
                        let c = self.call(t.chain, ev.seed);
                        ("gateway::ContractCall", json!({"source_id": hexs(&c.source), "destination_chain": c.dest_chain,
                            "destination_address": c.dest_addr, "payload": c.payload, "payload_hash": hexs(&c.payload_hash)}))
                    }
                    EvKind::Rotation => {
                        let o = self.ops(t.chain, ev.seed);
                        let (a, w): (Vec<_>, Vec<_>) = o.ops.into_iter().unzip();
                        let payload = bcs::to_bytes(&(a, w, o.threshold)).unwrap();
                        ("validators::OperatorshipTransferred", json!({"epoch": 1, "payload": payload}))
                    }
                    EvKind::Other => ("gateway::MessageApproved", json!({"x": ev.seed})),
                };
                json!({"id": {"txDigest": digest, "eventSeq": t.base + j as u64}, "sender": hexs(&[7; 32]),
                    "type": format!("{}::{ty}", hexs(&gw)), "parsedJson": body})
            })
            .collect();
        Some(json!({"digest": digest, "events": {"data": data}, "checkpoint": if ms >= cp { json!(cp) } else { Value::Null }}))
    }

    // ------------------------------------------------------------ truth

    pub fn is_final(&self, chain: usize, tx: &[u8; 32], ms: u64) -> bool {
        let Some(i) = self.find_tx(tx) else { return false };
        if self.cfg.src[i].chain != chain {
            return false;
        }
        if chain == self.sui() {
            return ms >= self.sui_times(i).1;
        }
        matches!((self.position(i, ms), self.finalized(chain, ms)), (Some((b, _)), Some(f)) if b <= f)
    }

    /// the event is there, in a final block, exactly as asked
    pub fn holds(&self, chain: usize, a: &Asked, ms: u64) -> bool {
        let Some(i) = self.find_tx(&a.tx) else { return false };
        let t = &self.cfg.src[i];
        if t.chain != chain {
            return false;
        }
        let base = if chain == self.sui() {
            if ms < self.sui_times(i).1 {
                return false;
            }
            t.base
        } else {
            match (self.position(i, ms), self.finalized(chain, ms)) {
                (Some((b, base)), Some(f)) if b <= f => base,
                _ => return false,
            }
        };
        let Some(ev) = a.index.checked_sub(base).and_then(|k| t.events.get(k as usize)) else { return false };
        ev.gateway
            && match (&a.what, ev.kind) {
                (What::Call(c), EvKind::Call) => {
                    let e = self.call(chain, ev.seed);
                    c.dest_chain.to_lowercase() == e.dest_chain.to_lowercase()
                        && c.dest_addr == e.dest_addr
                        && c.source == e.source
                        && c.payload_hash == e.payload_hash
                }
                (What::Ops(o), EvKind::Rotation) => *o == self.ops(chain, ev.seed),
                _ => false,
            }
    }

    pub fn asked(&self, chain: usize, sets: bool, it: &Item) -> Asked {
        let (seed, mut index, mut tx) = match self.cfg.src.get(it.src).and_then(|t| t.events.get(it.ev).map(|e| (t, e))) {
            Some((t, e)) => {
                // the index it has in the end
                let base = match t.reorg {
                    Some((_, Some((_, b)))) => b,
                    _ => t.base,
                };
                (e.seed, base + it.ev as u64, self.tx_id(it.src))
            }
            None => (it.ev as u64, 0, b32(&[b"nothing", &(it.src as u64).to_le_bytes(), &self.cfg.seed.to_le_bytes()])),
        };
        match it.mutate {
            Mutate::Index => index += 1,
            Mutate::TxId => tx[31] ^= 1,
            _ => {}
        }
        let what = if sets {
            let mut o = self.ops(chain, seed);
            match it.mutate {
                Mutate::PayloadHash => o.threshold += 1,
                Mutate::DestinationChain => o.ops[0].1 += 1,
                Mutate::DestinationAddress => {
                    o.ops.pop();
                }
                Mutate::SourceAddress => o.ops[0].0[5] ^= 1,
                _ => {}
            }
            o.ops.sort();
            What::Ops(o)
        } else {
            let mut c = self.call(chain, seed);
            match it.mutate {
                Mutate::CaseOfDestination => c.dest_chain = c.dest_chain.to_uppercase(),
                Mutate::PayloadHash => c.payload_hash[seed as usize % 32] ^= 1,
                Mutate::DestinationChain => c.dest_chain = "fantom".into(),
                Mutate::DestinationAddress => {
                    // one letter of it in the other case, or one more
                    match c.dest_addr.pop() {
                        Some(l) if l.is_ascii_uppercase() => c.dest_addr.push(l.to_ascii_lowercase()),
                        Some(l) => c.dest_addr.push_str(&format!("{l}0")),
                        None => {}
                    }
                }
                Mutate::SourceAddress => c.source[3] ^= 1,
                _ => {}
            }
            What::Call(c)
        };
        Asked { tx, index, what }
    }

    pub fn tx_text(&self, chain: usize, tx: &[u8; 32]) -> String {
        if chain == self.sui() { bs58::encode(tx).into_string() } else { format!("0x{}", hex::encode(tx)) }
    }

    pub fn hexed(b: &[u8]) -> String {
        format!("0x{}", hex::encode(b))
    }

    pub fn operators(o: &Ops) -> axelar_wasm_std::operators::Operators {
        axelar_wasm_std::operators::Operators::new(
            o.ops.iter().map(|x| (HexBinary::from(x.0.clone()), Uint256::from(x.1))).collect(),
            Uint256::from(o.threshold),
        )
    }
}
