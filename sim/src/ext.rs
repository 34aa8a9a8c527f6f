//! Simulated external gateways: the smart contract a destination chain runs. It keeps a history
//! of operator sets, verifies proofs against them and executes each command once.

use std::collections::{BTreeMap, BTreeSet};

use crate::codec::*;

pub const RETENTION: usize = 16;

#[derive(Clone, Debug)]
pub struct Approval {
    pub id: [u8; 32],
    pub chain: String,
    pub src: String,
    pub dst: Vec<u8>,
    pub hash: [u8; 32],
}

#[derive(Clone, Debug)]
pub struct Rotation {
    pub tx_id: String,
    pub index: u64,
    pub ops: OpSet,
}

#[derive(Clone, Debug, Default)]
pub struct ExtGw {
    pub abi: bool,
    pub chain_id: u128,
    pub epochs: Vec<OpSet>,
    pub executed: BTreeSet<[u8; 32]>,
    pub approvals: Vec<Approval>,
    pub rotations: Vec<Rotation>,
    pub txs: u64,
}

#[derive(Clone, Debug, Default)]
pub struct ExecOut {
    pub approved: Vec<Approval>,
    pub rotated: Option<Rotation>,
    /// hand-over commands that were refused: reason
    pub refused: Vec<String>,
}

impl ExtGw {
    pub fn current(&self) -> Option<&OpSet> {
        self.epochs.last()
    }

    pub fn execute(&mut self, name: &str, input: &[u8]) -> R<ExecOut> {
        let e = decode_execute(self.abi, input)?;
        if e.chain_id != self.chain_id {
            return Err(format!("wrong chain id {}", e.chain_id));
        }
        let d = digest(self.abi, &e.data);
        if !e.proof.ops.strictly_sorted() {
            return Err("operators not strictly sorted".into());
        }
        let recent = self.epochs.len().saturating_sub(RETENTION);
        let Some(epoch) = self.epochs[recent..].iter().rposition(|o| *o == e.proof.ops).map(|i| i + recent) else {
            return Err(format!("operator set not recognised: {}", e.proof.ops.show()));
        };
        let is_current = epoch + 1 == self.epochs.len();
        let mut weight = 0u128;
        let mut i = 0;
        for s in &e.proof.sigs {
            let Some(k) = recover(self.abi, &d, s) else { return Err("malformed signature".into()) };
            while i < e.proof.ops.ops.len() && !operator_matches(self.abi, &k, &e.proof.ops.ops[i].0) {
                i += 1;
            }
            if i == e.proof.ops.ops.len() {
                return Err("signature of no operator, or out of order".into());
            }
            weight += e.proof.ops.ops[i].1;
            i += 1;
        }
        if weight < e.proof.ops.threshold {
            return Err(format!("low signature weight {} < {}", weight, e.proof.ops.threshold));
        }
        self.txs += 1;
        let mut out = ExecOut::default();
        let mut may_transfer = is_current;
        for (n, c) in e.cmds.into_iter().enumerate() {
            if self.executed.contains(&c.id) {
                continue;
            }
            match c.params {
                Params::Approve { chain, src, dst, hash } => {
                    self.executed.insert(c.id);
                    let a = Approval { id: c.id, chain, src, dst, hash };
                    self.approvals.push(a.clone());
                    out.approved.push(a);
                }
                Params::Transfer(o) => {
                    if !may_transfer {
                        continue;
                    }
                    may_transfer = false;
                    if !o.strictly_sorted() || o.ops.is_empty() {
                        out.refused.push(format!("new operators not strictly sorted: {}", o.show()));
                        continue;
                    }
                    if o.threshold == 0 || o.total() < o.threshold {
                        out.refused.push(format!("bad threshold: {}", o.show()));
                        continue;
                    }
                    self.executed.insert(c.id);
                    let r = Rotation {
                        tx_id: format!("0x{}", hex::encode(keccak(format!("{name} tx {}", self.txs).as_bytes()))),
                        index: n as u64,
                        ops: o.clone(),
                    };
                    self.epochs.push(o);
                    self.rotations.push(r.clone());
                    out.rotated = Some(r);
                }
            }
        }
        Ok(out)
    }
}

pub type Exts = BTreeMap<String, ExtGw>;
