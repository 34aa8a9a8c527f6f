//! The part of cosmrs the worker daemon uses; transactions are encoded as JSON.

use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::str::FromStr;

pub use cosmos_sdk_proto as proto;
pub use cosmos_sdk_proto::Any;
pub use eyre::Report as ErrorReport;
pub use tendermint;

pub type Result<T> = std::result::Result<T, ErrorReport>;
pub type Gas = u64;
pub type Amount = u128;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Denom(String);
impl AsRef<str> for Denom {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for Denom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl FromStr for Denom {
    type Err = ErrorReport;
    fn from_str(s: &str) -> Result<Self> {
        if s.chars().all(|c| c.is_ascii_alphanumeric() || "/:._-".contains(c)) {
            Ok(Denom(s.into()))
        } else {
            Err(eyre::eyre!("invalid denom {s}"))
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Coin {
    pub denom: Denom,
    pub amount: Amount,
}
impl Coin {
    pub fn new(amount: Amount, denom: &str) -> Result<Coin> {
        Ok(Coin { denom: denom.parse()?, amount })
    }
}

/// An account: bech32, or the name the simulated chain gives a contract.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct AccountId {
    text: String,
    prefix: usize,
}
impl AccountId {
    pub fn new(prefix: &str, bytes: &[u8]) -> Result<Self> {
        use bech32::ToBase32;
        let text = bech32::encode(prefix, bytes.to_base32(), bech32::Variant::Bech32).map_err(|e| eyre::eyre!("{e}"))?;
        text.parse()
    }
    pub fn prefix(&self) -> &str {
        &self.text[..self.prefix]
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        use bech32::FromBase32;
        match bech32::decode(&self.text) {
            Ok((_, d, _)) => Vec::<u8>::from_base32(&d).unwrap_or_default(),
            Err(_) => self.text.clone().into_bytes(),
        }
    }
}
impl AsRef<str> for AccountId {
    fn as_ref(&self) -> &str {
        &self.text
    }
}
impl fmt::Display for AccountId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.text)
    }
}
impl fmt::Debug for AccountId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "AccountId({:?})", self.text)
    }
}
impl FromStr for AccountId {
    type Err = ErrorReport;
    fn from_str(s: &str) -> Result<Self> {
        if let Some(d) = s.strip_prefix("contract") {
            if !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()) {
                return Ok(AccountId { text: s.into(), prefix: 0 });
            }
        }
        let (hrp, _, v) = bech32::decode(s).map_err(|e| eyre::eyre!("invalid account id {s}: {e}"))?;
        if v != bech32::Variant::Bech32 || s.to_lowercase() != s {
            return Err(eyre::eyre!("invalid account id {s}"));
        }
        Ok(AccountId { text: s.into(), prefix: hrp.len() })
    }
}
impl Serialize for AccountId {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        self.text.serialize(s)
    }
}
impl<'de> Deserialize<'de> for AccountId {
    fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}

pub mod crypto {
    use super::*;
    use base64::{engine::general_purpose::STANDARD, Engine};

    pub mod secp256k1 {
        pub use k256::ecdsa::{SigningKey, VerifyingKey};
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum PublicKey {
        Secp256k1([[u8; 11]; 3]),
        Ed25519([u8; 32]),
    }

    impl PublicKey {
        pub const ED25519_TYPE_URL: &'static str = "/cosmos.crypto.ed25519.PubKey";
        pub const SECP256K1_TYPE_URL: &'static str = "/cosmos.crypto.secp256k1.PubKey";

        fn secp(b: &[u8]) -> PublicKey {
            let mut a = [[0u8; 11]; 3];
            for (i, c) in b.chunks(11).enumerate() {
                a[i].copy_from_slice(c);
            }
            PublicKey::Secp256k1(a)
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            match self {
                PublicKey::Secp256k1(a) => a.concat(),
                PublicKey::Ed25519(b) => b.to_vec(),
            }
        }
        pub fn type_url(&self) -> &'static str {
            match self {
                PublicKey::Secp256k1(_) => Self::SECP256K1_TYPE_URL,
                PublicKey::Ed25519(_) => Self::ED25519_TYPE_URL,
            }
        }
        pub fn account_id(&self, prefix: &str) -> Result<AccountId> {
            use ripemd::Ripemd160;
            use sha2::{Digest, Sha256};
            match self {
                PublicKey::Secp256k1(_) => AccountId::new(prefix, &Ripemd160::digest(Sha256::digest(self.to_bytes()))),
                PublicKey::Ed25519(b) => AccountId::new(prefix, &Sha256::digest(b)[..20]),
            }
        }
    }
    impl From<k256::ecdsa::VerifyingKey> for PublicKey {
        fn from(k: k256::ecdsa::VerifyingKey) -> Self {
            PublicKey::from(&k)
        }
    }
    impl From<&k256::ecdsa::VerifyingKey> for PublicKey {
        fn from(k: &k256::ecdsa::VerifyingKey) -> Self {
            PublicKey::secp(k.to_encoded_point(true).as_bytes())
        }
    }
    impl From<tendermint::PublicKey> for PublicKey {
        fn from(k: tendermint::PublicKey) -> Self {
            let tendermint::PublicKey::Ed25519(k) = k;
            PublicKey::Ed25519(k.0)
        }
    }

    #[derive(Serialize, Deserialize)]
    struct Json {
        #[serde(rename = "@type")]
        ty: String,
        key: String,
    }
    impl Serialize for PublicKey {
        fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
            Json { ty: self.type_url().into(), key: STANDARD.encode(self.to_bytes()) }.serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for PublicKey {
        fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
            use serde::de::Error;
            let j = Json::deserialize(d)?;
            let b = STANDARD.decode(j.key).map_err(D::Error::custom)?;
            match j.ty.as_str() {
                Self::SECP256K1_TYPE_URL => {
                    let k = k256::ecdsa::VerifyingKey::from_sec1_bytes(&b).map_err(D::Error::custom)?;
                    Ok(k.into())
                }
                Self::ED25519_TYPE_URL => {
                    b.try_into().map(PublicKey::Ed25519).map_err(|_| D::Error::custom("bad ed25519 key"))
                }
                t => Err(D::Error::custom(format!("unknown key type {t}"))),
            }
        }
    }
}

pub mod tx {
    use super::*;
    use crate::crypto::PublicKey;
    use cosmos_sdk_proto::traits::MessageExt;

    pub trait Msg: Clone + Sized {
        fn into_any(self) -> Result<Any> {
            self.to_any()
        }
        fn to_any(&self) -> Result<Any>;
        fn from_any(any: &Any) -> Result<Self>;
    }

    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Fee {
        pub amount: Vec<Coin>,
        pub gas_limit: Gas,
        pub payer: Option<AccountId>,
        pub granter: Option<AccountId>,
    }
    impl Fee {
        pub fn from_amount_and_gas(amount: Coin, gas_limit: impl Into<Gas>) -> Fee {
            Fee { amount: vec![amount], gas_limit: gas_limit.into(), payer: None, granter: None }
        }
    }

    #[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Body {
        pub messages: Vec<Any>,
        pub memo: String,
        pub timeout_height: u64,
    }

    #[derive(Clone, Debug, Default)]
    pub struct BodyBuilder(Body);
    impl BodyBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn msg(&mut self, m: impl Into<Any>) -> &mut Self {
            self.0.messages.push(m.into());
            self
        }
        pub fn msgs(&mut self, m: impl IntoIterator<Item = Any>) -> &mut Self {
            self.0.messages.extend(m);
            self
        }
        pub fn memo(&mut self, m: impl Into<String>) -> &mut Self {
            self.0.memo = m.into();
            self
        }
        pub fn finish(&self) -> Body {
            self.0.clone()
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct SignerInfo {
        pub public_key: Option<PublicKey>,
        pub sequence: u64,
    }
    impl SignerInfo {
        pub fn single_direct(public_key: Option<PublicKey>, sequence: u64) -> SignerInfo {
            SignerInfo { public_key, sequence }
        }
        pub fn auth_info(self, fee: Fee) -> AuthInfo {
            AuthInfo { signer_infos: vec![self], fee }
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct AuthInfo {
        pub signer_infos: Vec<SignerInfo>,
        pub fee: Fee,
    }

    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct SignDoc {
        pub body_bytes: Vec<u8>,
        pub auth_info_bytes: Vec<u8>,
        pub chain_id: String,
        pub account_number: u64,
    }
    impl SignDoc {
        pub fn new(body: &Body, auth: &AuthInfo, chain_id: &tendermint::chain::Id, account_number: u64) -> Result<SignDoc> {
            Ok(SignDoc {
                body_bytes: serde_json::to_vec(body)?,
                auth_info_bytes: serde_json::to_vec(auth)?,
                chain_id: chain_id.to_string(),
                account_number,
            })
        }
        pub fn into_bytes(self) -> Result<Vec<u8>> {
            Ok(serde_json::to_vec(&self)?)
        }
    }

    pub use cosmos_sdk_proto::cosmos::tx::v1beta1::TxRaw as Raw;
    #[allow(dead_code)]
    fn _raw(r: &Raw) -> std::result::Result<Vec<u8>, cosmos_sdk_proto::traits::EncodeError> {
        r.to_bytes()
    }
}

macro_rules! sdk_msg {
    ($t:ty, $url:literal) => {
        impl crate::tx::Msg for $t {
            fn to_any(&self) -> Result<Any> {
                Ok(Any { type_url: $url.into(), value: serde_json::to_vec(self)? })
            }
            fn from_any(a: &Any) -> Result<Self> {
                if a.type_url != $url {
                    return Err(eyre::eyre!("unexpected type {}", a.type_url));
                }
                Ok(serde_json::from_slice(&a.value)?)
            }
        }
    };
}

pub mod cosmwasm {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct MsgExecuteContract {
        pub sender: AccountId,
        pub contract: AccountId,
        pub msg: Vec<u8>,
        pub funds: Vec<Coin>,
    }
    sdk_msg!(MsgExecuteContract, "/cosmwasm.wasm.v1.MsgExecuteContract");
}

pub mod bank {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct MsgSend {
        pub from_address: AccountId,
        pub to_address: AccountId,
        pub amount: Vec<Coin>,
    }
    sdk_msg!(MsgSend, "/cosmos.bank.v1beta1.MsgSend");
}
