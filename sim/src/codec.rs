//! Independent decoders and cryptography: what a destination chain's gateway does with a proof.

use k256::ecdsa::{signature::hazmat::PrehashVerifier, RecoveryId, Signature, SigningKey, VerifyingKey};
use sha3::{Digest, Keccak256};

pub fn keccak(b: &[u8]) -> [u8; 32] {
    Keccak256::digest(b).into()
}

pub type R<T> = Result<T, String>;

fn bad<T>(s: &str) -> R<T> {
    Err(s.to_string())
}

// ------------------------------------------------------------------ operators and commands

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct OpSet {
    /// in the order given
    pub ops: Vec<(Vec<u8>, u128)>,
    pub threshold: u128,
}

impl OpSet {
    pub fn sorted(mut self) -> Self {
        self.ops.sort();
        self
    }
    pub fn strictly_sorted(&self) -> bool {
        self.ops.windows(2).all(|w| w[0].0 < w[1].0)
    }
    pub fn total(&self) -> u128 {
        self.ops.iter().map(|o| o.1).sum()
    }
    pub fn show(&self) -> String {
        let v: Vec<String> = self.ops.iter().map(|(a, w)| format!("{}={}", hex::encode(a), w)).collect();
        format!("[{}]/{}", v.join(","), self.threshold)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Params {
    Approve { chain: String, src: String, dst: Vec<u8>, hash: [u8; 32] },
    Transfer(OpSet),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cmd {
    pub id: [u8; 32],
    pub params: Params,
}

#[derive(Clone, Debug)]
pub struct Proof {
    pub ops: OpSet,
    pub sigs: Vec<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct ExecuteData {
    pub data: Vec<u8>,
    pub chain_id: u128,
    pub cmds: Vec<Cmd>,
    pub proof: Proof,
}

// ------------------------------------------------------------------ abi

/// A tuple being decoded: offsets are relative to the start of the slice.
struct Abi<'a>(&'a [u8]);

impl<'a> Abi<'a> {
    fn word(&self, at: usize) -> R<&'a [u8]> {
        self.0.get(at..at + 32).ok_or_else(|| "abi: out of bounds".into())
    }
    fn num(&self, at: usize) -> R<u128> {
        let w = self.word(at)?;
        if w[..16].iter().any(|b| *b != 0) {
            return bad("abi: number too large");
        }
        Ok(u128::from_be_bytes(w[16..].try_into().unwrap()))
    }
    fn idx(&self, at: usize) -> R<usize> {
        let n = self.num(at)?;
        if n > self.0.len() as u128 {
            return bad("abi: offset out of bounds");
        }
        Ok(n as usize)
    }
    fn b32(&self, slot: usize) -> R<[u8; 32]> {
        Ok(self.word(slot * 32)?.try_into().unwrap())
    }
    fn addr(&self, slot: usize) -> R<Vec<u8>> {
        let w = self.word(slot * 32)?;
        if w[..12].iter().any(|b| *b != 0) {
            return bad("abi: not an address");
        }
        Ok(w[12..].to_vec())
    }
    fn bytes_at(&self, off: usize) -> R<&'a [u8]> {
        let n = self.idx(off)?;
        self.0.get(off + 32..off + 32 + n).ok_or_else(|| "abi: bytes out of bounds".into())
    }
    fn bytes(&self, slot: usize) -> R<&'a [u8]> {
        self.bytes_at(self.idx(slot * 32)?)
    }
    fn string(&self, slot: usize) -> R<String> {
        String::from_utf8(self.bytes(slot)?.to_vec()).map_err(|_| "abi: bad utf8".into())
    }
    /// (length, contents as a tuple)
    fn array(&self, slot: usize) -> R<(usize, Abi<'a>)> {
        let off = self.idx(slot * 32)?;
        let n = self.idx(off)?;
        Ok((n, Abi(self.0.get(off + 32..).ok_or("abi: array")?)))
    }
}

fn abi_opset(t: &Abi, s_addr: usize, s_w: usize, s_q: usize) -> R<OpSet> {
    let (n, a) = t.array(s_addr)?;
    let (m, w) = t.array(s_w)?;
    if n != m {
        return bad("abi: operators and weights differ in length");
    }
    let mut ops = vec![];
    for i in 0..n {
        ops.push((a.addr(i)?, w.num(i * 32)?));
    }
    Ok(OpSet { ops, threshold: t.num(s_q * 32)? })
}

fn abi_params(ty: &str, p: &[u8]) -> R<Params> {
    let t = Abi(p);
    match ty {
        "approveContractCall" => Ok(Params::Approve { chain: t.string(0)?, src: t.string(1)?, dst: t.addr(2)?, hash: t.b32(3)? }),
        "transferOperatorship" => Ok(Params::Transfer(abi_opset(&t, 0, 1, 2)?)),
        _ => bad("unknown command type"),
    }
}

fn abi_execute(input: &[u8]) -> R<ExecuteData> {
    if input.get(..4) != Some(&keccak(b"execute(bytes)")[..4]) {
        return bad("wrong selector");
    }
    let inner = Abi(&input[4..]).bytes(0)?;
    let t = Abi(inner);
    let (data, proof) = (t.bytes(0)?, t.bytes(1)?);
    let d = Abi(data);
    let chain_id = d.num(0)?;
    let (n, ids) = d.array(1)?;
    let (n2, tys) = d.array(2)?;
    let (n3, ps) = d.array(3)?;
    if n != n2 || n != n3 {
        return bad("command arrays differ in length");
    }
    let mut cmds = vec![];
    for i in 0..n {
        cmds.push(Cmd { id: ids.b32(i)?, params: abi_params(&tys.string(i)?, ps.bytes(i)?)? });
    }
    let p = Abi(proof);
    let ops = abi_opset(&p, 0, 1, 2)?;
    let (k, ss) = p.array(3)?;
    let mut sigs = vec![];
    for i in 0..k {
        sigs.push(ss.bytes(i)?.to_vec());
    }
    Ok(ExecuteData { data: data.to_vec(), chain_id, cmds, proof: Proof { ops, sigs } })
}

// ------------------------------------------------------------------ bcs

struct Bcs<'a>(&'a [u8]);

impl<'a> Bcs<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.0.len() < n {
            return bad("bcs: out of bounds");
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn len(&mut self) -> R<usize> {
        let mut n = 0usize;
        for s in 0..5 {
            let b = self.take(1)?[0];
            n |= ((b & 0x7f) as usize) << (7 * s);
            if b & 0x80 == 0 {
                return Ok(n);
            }
        }
        bad("bcs: length")
    }
    fn bytes(&mut self) -> R<&'a [u8]> {
        let n = self.len()?;
        self.take(n)
    }
    fn string(&mut self) -> R<String> {
        String::from_utf8(self.bytes()?.to_vec()).map_err(|_| "bcs: bad utf8".into())
    }
    fn u64(&mut self) -> R<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn u128(&mut self) -> R<u128> {
        Ok(u128::from_le_bytes(self.take(16)?.try_into().unwrap()))
    }
    fn b32(&mut self) -> R<[u8; 32]> {
        Ok(self.take(32)?.try_into().unwrap())
    }
    fn vec<T>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.len()?;
        (0..n).map(|_| f(self)).collect()
    }
    fn end(&self) -> R<()> {
        if self.0.is_empty() {
            Ok(())
        } else {
            bad("bcs: trailing bytes")
        }
    }
    fn opset(&mut self) -> R<OpSet> {
        let a = self.vec(|d| Ok(d.bytes()?.to_vec()))?;
        let w = self.vec(|d| d.u128())?;
        if a.len() != w.len() {
            return bad("bcs: operators and weights differ in length");
        }
        let threshold = self.u128()?;
        Ok(OpSet { ops: a.into_iter().zip(w).collect(), threshold })
    }
}

fn bcs_params(ty: &str, p: &[u8]) -> R<Params> {
    let mut d = Bcs(p);
    let r = match ty {
        "approveContractCall" => Params::Approve {
            chain: d.string()?,
            src: d.string()?,
            dst: d.b32()?.to_vec(),
            hash: d.bytes()?.try_into().map_err(|_| "bcs: payload hash".to_string())?,
        },
        "transferOperatorship" => Params::Transfer(d.opset()?),
        _ => return bad("unknown command type"),
    };
    d.end()?;
    Ok(r)
}

fn bcs_execute(input: &[u8]) -> R<ExecuteData> {
    let mut t = Bcs(input);
    let (data, proof) = (t.bytes()?, t.bytes()?);
    t.end()?;
    let mut d = Bcs(data);
    let chain_id = d.u64()? as u128;
    let ids = d.vec(|d| d.b32())?;
    let tys = d.vec(|d| d.string())?;
    let ps = d.vec(|d| Ok(d.bytes()?.to_vec()))?;
    d.end()?;
    if ids.len() != tys.len() || ids.len() != ps.len() {
        return bad("command arrays differ in length");
    }
    let mut cmds = vec![];
    for ((id, ty), p) in ids.into_iter().zip(tys).zip(ps) {
        cmds.push(Cmd { id, params: bcs_params(&ty, &p)? });
    }
    let mut p = Bcs(proof);
    let ops = p.opset()?;
    let sigs = p.vec(|d| Ok(d.bytes()?.to_vec()))?;
    p.end()?;
    Ok(ExecuteData { data: data.to_vec(), chain_id, cmds, proof: Proof { ops, sigs } })
}

pub fn decode_execute(abi: bool, input: &[u8]) -> R<ExecuteData> {
    if abi {
        abi_execute(input)
    } else {
        bcs_execute(input)
    }
}

/// `ty` as serialised in the prover's query ("approve_contract_call") or on the wire.
pub fn decode_params(abi: bool, ty: &str, p: &[u8]) -> R<Params> {
    let ty = match ty {
        "approve_contract_call" => "approveContractCall",
        "transfer_operatorship" => "transferOperatorship",
        t => t,
    };
    if abi {
        abi_params(ty, p)
    } else {
        bcs_params(ty, p)
    }
}

pub fn digest(abi: bool, data: &[u8]) -> [u8; 32] {
    if abi {
        keccak(&[b"\x19Ethereum Signed Message:\n32".as_slice(), &keccak(data)].concat())
    } else {
        keccak(&[b"\x19Sui Signed Message:\n".as_slice(), data].concat())
    }
}

// ------------------------------------------------------------------ keys

#[derive(Clone)]
pub struct Key(pub SigningKey);

impl Key {
    pub fn from_name(name: &str) -> Key {
        let mut h = keccak(format!("key of {name}").as_bytes());
        loop {
            if let Ok(k) = SigningKey::from_slice(&h) {
                return Key(k);
            }
            h = keccak(&h);
        }
    }
    pub fn pubkey(&self, compressed: bool) -> Vec<u8> {
        self.0.verifying_key().to_encoded_point(compressed).as_bytes().to_vec()
    }
    pub fn sign(&self, digest: &[u8; 32]) -> Vec<u8> {
        let (s, _) = self.0.sign_prehash_recoverable(digest).unwrap();
        s.to_vec()
    }
    /// the other valid signature of the pair (r, s), (r, -s)
    pub fn sign_high_s(&self, digest: &[u8; 32]) -> Vec<u8> {
        let (s, _) = self.0.sign_prehash_recoverable(digest).unwrap();
        let (r, s) = s.split_scalars();
        let neg = -(*s.as_ref());
        Signature::from_scalars(r.to_bytes(), neg.to_bytes()).map(|x| x.to_vec()).unwrap_or_default()
    }
}

pub fn valid_pubkey(b: &[u8]) -> bool {
    VerifyingKey::from_sec1_bytes(b).is_ok()
}

pub fn evm_address(pubkey: &[u8]) -> Option<Vec<u8>> {
    let k = VerifyingKey::from_sec1_bytes(pubkey).ok()?;
    Some(keccak(&k.to_encoded_point(false).as_bytes()[1..])[12..].to_vec())
}

/// 64-byte ECDSA verification; both S values of a signature are valid.
pub fn verify(pubkey: &[u8], digest: &[u8], sig: &[u8]) -> bool {
    let Ok(k) = VerifyingKey::from_sec1_bytes(pubkey) else { return false };
    let Ok(s) = Signature::from_slice(sig) else { return false };
    let s = s.normalize_s().unwrap_or(s);
    k.verify_prehash(digest, &s).is_ok()
}

/// Recovers the operator (EVM address or compressed key) of a 65-byte signature as the
/// destination would; None if it is malformed.
pub fn recover(abi: bool, digest: &[u8; 32], sig: &[u8]) -> Option<VerifyingKey> {
    if sig.len() != 65 {
        return None;
    }
    let v = if abi { sig[64].checked_sub(27)? } else { sig[64] };
    if v > 1 {
        return None;
    }
    let s = Signature::from_slice(&sig[..64]).ok()?;
    if s.normalize_s().is_some() {
        return None; // destination gateways reject the high-S form
    }
    // a pure function asked for again and again: remembered
    thread_local!(static SEEN: std::cell::RefCell<std::collections::HashMap<(u8, [u8; 32], [u8; 64]), Option<VerifyingKey>>> = Default::default());
    let key = (v, *digest, <[u8; 64]>::try_from(&sig[..64]).unwrap());
    SEEN.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 20_000 {
            m.clear();
        }
        *m.entry(key).or_insert_with(|| VerifyingKey::recover_from_prehash(digest, &s, RecoveryId::from_byte(v).unwrap()).ok())
    })
}

pub fn operator_matches(abi: bool, k: &VerifyingKey, op: &[u8]) -> bool {
    if abi {
        keccak(&k.to_encoded_point(false).as_bytes()[1..])[12..] == *op
    } else {
        // an operator is named by the key bytes the worker registered
        op == k.to_encoded_point(true).as_bytes() || op == k.to_encoded_point(false).as_bytes()
    }
}

pub fn ed25519_key(name: &str) -> ed25519_zebra::SigningKey {
    ed25519_zebra::SigningKey::from(keccak(format!("ed key of {name}").as_bytes()))
}

pub fn ed25519_pub(name: &str) -> Vec<u8> {
    let k: [u8; 32] = ed25519_zebra::VerificationKey::from(&ed25519_key(name)).into();
    k.to_vec()
}

pub fn ed25519_sign(name: &str, msg: &[u8]) -> Vec<u8> {
    let s: [u8; 64] = ed25519_key(name).sign(msg).into();
    s.to_vec()
}

pub fn verify_ed25519(key: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    let (Ok(k), Ok(s)) = (ed25519_zebra::VerificationKey::try_from(key), ed25519_zebra::Signature::try_from(sig)) else {
        return false;
    };
    k.verify(&s, msg).is_ok()
}
