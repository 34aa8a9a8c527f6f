//! What a run consists of: the deployment, what happens on the chains, and the faults. A plan is
//! generated from a seed; a replay file holds a plan.

use serde::{Deserialize, Serialize};

use crate::rng::Rng;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Evm {
    /// as the workers' configuration spells it; "Ethereum" has its own finality rule
    pub name: String,
    pub block_ms: u64,
    pub head0: u64,
    /// blocks from the head to the finalized block, for the chain that has one
    pub depth: u64,
    /// confirmations asked for by polls
    pub conf: u64,
    /// how far behind the workers' nodes can be
    pub lag_ms: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub seed: u64,
    pub workers: usize,
    /// handlers a worker runs: 2 bits per EVM chain, then 2 bits for Sui, then the signer
    pub handlers: Vec<u32>,
    pub block_ms: u64,
    pub h0: u64,
    pub chain_id: String,
    pub evm: Vec<Evm>,
    pub gas_adjustment: f64,
    pub gas_price: f64,
    pub base_gas: u64,
    pub batch_gas_limit: u64,
    pub queue_cap: usize,
    pub broadcast_ms: u64,
    pub fetch_ms: u64,
    pub retries: u32,
    /// workers also bond and declare their chains
    pub commands: bool,
    pub src: Vec<SrcTx>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum EvKind {
    Call,
    Rotation,
    Other,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SrcEv {
    pub kind: EvKind,
    /// emitted by the gateway
    pub gateway: bool,
    pub seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SrcTx {
    /// index of the EVM chain; Sui comes after them
    pub chain: usize,
    pub at_ms: u64,
    pub base: u64,
    pub events: Vec<SrcEv>,
    /// time after the inclusion, and the reappearance (blocks later, first log index), if any
    pub reorg: Option<(u64, Option<(u64, u64)>)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mutate {
    No,
    CaseOfDestination,
    PayloadHash,
    DestinationChain,
    DestinationAddress,
    SourceAddress,
    Index,
    TxId,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Item {
    pub src: usize,
    pub ev: usize,
    pub mutate: Mutate,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Work {
    Poll {
        at_ms: u64,
        /// EVM chain, Sui after them
        chain: usize,
        sets: bool,
        /// emitted by another contract than the chain's verifier
        foreign: bool,
        /// says it is about another chain
        other_chain: bool,
        ttl: u64,
        parts: u32,
        items: Vec<Item>,
    },
    Session { at_ms: u64, foreign: bool, parts: u32, seed: u64 },
    Junk { at_ms: u64, kind: u8 },
}

impl Work {
    pub fn at(&self) -> u64 {
        match self {
            Work::Poll { at_ms, .. } | Work::Session { at_ms, .. } | Work::Junk { at_ms, .. } => *at_ms,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Disk {
    Crash,
    Full,
    Error,
    Short,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum CallKind {
    LoseRequest,
    LoseReply,
    Error,
    Twice,
    CrashBefore,
    CrashAfter,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    Crash { w: usize, at_ms: u64 },
    /// asked to stop; `disk`: what happens to the writing of its state
    Term { w: usize, at_ms: u64, disk: Option<(u32, Disk)> },
    Stall { w: usize, at_ms: u64, ms: u64 },
    /// target: 0 its axelar node, 1 its signing service, 2.. its nodes of the source chains
    Down { w: usize, target: usize, at_ms: u64, ms: u64 },
    Slow { w: usize, target: usize, at_ms: u64, ms: u64, by_ms: u64 },
    Lag { w: usize, at_ms: u64, ms: u64, blocks: u64 },
    Call { w: usize, method: String, nth: u64, kind: CallKind },
    Unreadable { w: usize, at_ms: u64, ms: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub cfg: Cfg,
    pub work: Vec<Work>,
    pub faults: Vec<Fault>,
}

pub const CALM_MS: u64 = 45_000;

fn parts(r: &mut Rng, workers: usize) -> u32 {
    let mut m = 0;
    for w in 0..workers {
        if r.pct(80) {
            m |= 1 << w;
        }
    }
    // others, with no daemon here
    m | (r.below(8) as u32) << 8
}

pub fn generate(property: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed ^ 0xA3D0);
    let workers = r.range(1, 3) as usize;
    let ne = r.range(1, 3) as usize;
    let names = ["Ethereum", "Avalanche", "polygon", "fantom", "Base"];
    let mut ns: Vec<&str> = names[1..].to_vec();
    r.shuffle(&mut ns);
    let evm: Vec<Evm> = (0..ne)
        .map(|i| {
            let name = if i == 0 && r.pct(60) { "Ethereum" } else { ns[i] };
            let block_ms = *r.pick(&[1000, 2000, 3000, 6000, 12000]);
            // a chain that has just begun, shorter than the confirmations asked for
            let young = r.pct(if property == "C36" { 40 } else { 25 });
            Evm {
                name: name.into(),
                block_ms,
                head0: if young { r.range(0, 4) } else { r.range(100, 20_000_000) },
                depth: r.range(2, 12),
                conf: if young && r.pct(60) { r.range(10, 40) } else { *r.pick(&[1, 1, 2, 3, 5, 10, 20]) },
                lag_ms: if r.pct(50) { 0 } else { r.range(500, 8000) },
            }
        })
        .collect();
    let block_ms = *r.pick(&[1000, 2000, 5000, 5000, 6000]);
    let bits = 2 * (ne as u32 + 1) + 1;
    let full = (1u32 << bits) - 1;
    let handlers = (0..workers)
        .map(|_| if r.pct(60) { full } else { (r.next() as u32 & full) | 1 << r.below(bits as u64) })
        .collect();
    let mut base_gas = r.range(50_000, 300_000);
    let even = r.pct(if property == "C34" { 40 } else { 10 });
    if even {
        base_gas -= base_gas % 1000;
    }
    let gas_adjustment = *r.pick(&[1.0, 1.0, 1.2, 1.5, 1.35, 2.0]);
    let mut cfg = Cfg {
        seed,
        workers,
        handlers,
        block_ms,
        h0: r.range(5, 5000),
        chain_id: r.pick(&["axelar-dojo-1", "devnet-amplifier", "axelar-testnet-lisbon-3"]).to_string(),
        evm,
        gas_adjustment,
        gas_price: *r.pick(&[0.00005, 0.007, 0.1, 1.0]),
        base_gas,
        batch_gas_limit: (base_gas as f64 * gas_adjustment) as u64 * r.range(1, 12) + if even && r.pct(70) { 0 } else { r.below(base_gas) },
        queue_cap: *r.pick(&[1, 2, 5, 1000]),
        broadcast_ms: *r.pick(&[1000, 3000, 5000, 10_000]),
        fetch_ms: *r.pick(&[500, 1000]),
        retries: 0,
        commands: r.pct(40),
        src: vec![],
    };
    // enough to see a transaction confirmed in a healthy network
    cfg.retries = (4 * block_ms / cfg.fetch_ms) as u32 + 6;
    let end_ms = r.range(100, 240) * 1000;

    // ------------------------------------------------ transactions of the source chains
    let n = r.range(4, 30);
    for _ in 0..n {
        let chain = r.below(ne as u64 + 1) as usize;
        let at_ms = r.below(end_ms);
        let events = (0..r.range(1, 4))
            .map(|_| SrcEv {
                kind: match r.below(10) {
                    0..=5 => EvKind::Call,
                    6..=8 => EvKind::Rotation,
                    _ => EvKind::Other,
                },
                gateway: r.pct(90),
                seed: r.next(),
            })
            .collect();
        let mut reorg = None;
        if let Some(e) = cfg.evm.get(chain) {
            let confs = if e.name == "Ethereum" { e.depth + 1 } else { e.conf };
            // the transaction's block is final this long after its inclusion at the earliest
            let fin = confs.saturating_sub(1) * e.block_ms;
            let latest = fin.saturating_sub(e.lag_ms + e.block_ms);
            if latest > 500 && r.pct(25) {
                let back = if r.pct(70) { Some((r.range(0, 3), r.below(6))) } else { None };
                reorg = Some((r.below(latest), back));
            }
        }
        let base = r.below(5);
        cfg.src.push(SrcTx { chain, at_ms, base, events, reorg });
    }

    // ------------------------------------------------ polls and signing sessions
    let mut work = vec![];
    let busy = r.range(3, 30);
    for _ in 0..busy {
        let mut at_ms = r.range(3_000, end_ms);
        if r.pct(25) {
            at_ms = work.last().map_or(at_ms, |w: &Work| w.at()); // in the same block
        }
        match r.below(10) {
            0 => work.push(Work::Junk { at_ms, kind: r.below(6) as u8 }),
            1 | 2 => work.push(Work::Session { at_ms, foreign: r.pct(15), parts: parts(&mut r, workers), seed: r.next() }),
            _ => {
                let sets = r.pct(30);
                let mut chain = r.below(ne as u64 + 1) as usize;
                let mut at_ms = at_ms;
                if r.pct(if property == "C31" { 50 } else { 20 }) {
                    // about what has just been sent, or is about to be final
                    let t = r.pick(&cfg.src);
                    chain = t.chain;
                    at_ms = t.at_ms + 500 + r.below(6000);
                    if let (Some(e), true) = (cfg.evm.get(chain), r.pct(70)) {
                        let confs = if e.name == "Ethereum" { e.depth + 1 } else { e.conf };
                        at_ms += (confs.saturating_sub(2)) * e.block_ms + r.below(3) * e.block_ms;
                    }
                    at_ms = at_ms.clamp(3_000, end_ms);
                }
                let w = poll(&mut r, property, &cfg, at_ms, chain, sets);
                work.push(w);
            }
        }
    }
    if r.pct(35) {
        // many questions of one kind at once
        let at_ms = r.range(3_000, end_ms);
        let (kind, chain) = (r.below(2), r.below(ne as u64 + 1) as usize);
        for _ in 0..r.range(2, 6) {
            let w = match kind {
                0 => Work::Session { at_ms, foreign: false, parts: parts(&mut r, workers), seed: r.next() },
                _ => poll(&mut r, property, &cfg, at_ms, chain, false),
            };
            work.push(w);
        }
    }
    work.sort_by_key(|w| w.at());

    // ------------------------------------------------ faults
    let mut faults = vec![];
    let nf = match property {
        "C31" => r.below(6),
        "C32" | "C34" => r.below(4),
        _ => r.range(1, 6),
    };
    for _ in 0..nf {
        let w = r.below(workers as u64) as usize;
        let mut at_ms = r.range(CALM_MS, end_ms + 20_000);
        if r.pct(40) {
            // while something is being dealt with
            at_ms = work.get(r.below(work.len() as u64) as usize).map_or(at_ms, |w| w.at() + r.below(15_000)).max(CALM_MS);
        }
        let ms = r.range(500, 25_000);
        let target = r.below(3 + ne as u64) as usize;
        let f = match (property, r.below(20)) {
            ("C31", 0..=11) => Fault::Call {
                w,
                method: r
                    .pick(&[
                        "eth_blockNumber", "eth_getBlockByNumber", "eth_getTransactionReceipt", "eth_getTransactionReceipt",
                        "eth_getTransactionReceipt", "sui_getTransactionBlock", "sui_multiGetTransactionBlocks",
                    ])
                    .to_string(),
                nth: r.range(1, 30),
                kind: *r.pick(&[CallKind::LoseRequest, CallKind::LoseReply, CallKind::Error, CallKind::Twice]),
            },
            ("C35", 0..=11) | (_, 0..=3) => Fault::Term {
                w,
                at_ms,
                disk: if r.pct(if property == "C35" { 50 } else { 15 }) {
                    Some((r.below(4) as u32, *r.pick(&[Disk::Crash, Disk::Crash, Disk::Full, Disk::Error, Disk::Short])))
                } else {
                    None
                },
            },
            (_, 4..=6) => Fault::Crash { w, at_ms },
            (_, 7 | 8) => Fault::Stall { w, at_ms, ms: ms.min(15_000) },
            (_, 9 | 10) => Fault::Down { w, target, at_ms, ms },
            (_, 11 | 12) => Fault::Slow { w, target, at_ms, ms, by_ms: r.range(300, 8000) },
            (_, 13 | 14) => Fault::Lag { w, at_ms, ms: ms * 2, blocks: r.range(1, 6) },
            (_, 15) => Fault::Unreadable { w, at_ms, ms },
            _ => Fault::Call {
                w,
                method: r
                    .pick(&[
                        "block", "block_results", "simulate", "broadcast_tx", "broadcast_tx", "get_tx", "account", "connect", "keygen",
                        "sign", "eth_blockNumber", "eth_getBlockByNumber", "eth_getTransactionReceipt", "sui_getTransactionBlock",
                        "sui_multiGetTransactionBlocks",
                    ])
                    .to_string(),
                nth: r.range(2, 12),
                kind: *r.pick(&[
                    CallKind::LoseRequest,
                    CallKind::LoseReply,
                    CallKind::Error,
                    CallKind::Twice,
                    CallKind::CrashBefore,
                    CallKind::CrashAfter,
                ]),
            },
        };
        // the state is read when the daemon starts
        if let Fault::Unreadable { w, at_ms, .. } = f {
            faults.push(Fault::Term { w, at_ms: at_ms.saturating_sub(2000).max(CALM_MS), disk: None });
        }
        faults.push(f);
    }
    Plan { cfg, work, faults }
}

pub fn poll(r: &mut Rng, property: &str, cfg: &Cfg, at_ms: u64, chain: usize, sets: bool) -> Work {
    let want = if sets { EvKind::Rotation } else { EvKind::Call };
    let fresh = r.pct(40);
    let here: Vec<(usize, usize, bool)> = cfg
        .src
        .iter()
        .enumerate()
        .filter(|(_, t)| t.chain == chain && (t.at_ms < at_ms + 20_000 || r.pct(10)) && !(fresh && t.at_ms + 90_000 < at_ms))
        .flat_map(|(i, t)| t.events.iter().enumerate().map(move |(j, e)| (i, j, e.kind == want)))
        .collect();
    let good: Vec<(usize, usize, bool)> = here.iter().filter(|x| x.2).cloned().collect();
    let n = if sets { 1 } else { *r.pick(&[1, 1, 2, 3, 5, 8]) };
    let items = (0..n)
        .map(|_| {
            let c = if r.pct(85) { r.pick_opt(&good) } else { None }.or(r.pick_opt(&here)).cloned();
            // what nobody ever sent
            let (src, ev, _) = c.unwrap_or((usize::MAX >> 12, 0, false));
            let mutate = match r.below(20) {
                0..=11 => Mutate::No,
                12 => Mutate::CaseOfDestination,
                13 => Mutate::PayloadHash,
                14 => Mutate::DestinationChain,
                15 => Mutate::DestinationAddress,
                16 => Mutate::SourceAddress,
                17 | 18 => Mutate::Index,
                _ => Mutate::TxId,
            };
            Item { src, ev, mutate }
        })
        .collect();
    Work::Poll {
        at_ms,
        chain,
        sets,
        foreign: r.pct(8),
        other_chain: r.pct(6),
        ttl: if r.pct(if property == "C32" { 40 } else { 10 }) { r.range(1, 6) } else { r.range(150_000 / cfg.block_ms, 300_000 / cfg.block_ms) },
        parts: parts(r, cfg.workers),
        items,
    }
}
