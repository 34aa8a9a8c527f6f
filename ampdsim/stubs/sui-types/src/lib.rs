use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::str::FromStr;

#[derive(Debug)]
pub struct ParseError(String);
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ParseError {}

macro_rules! texty {
    ($t:ty) => {
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.collect_str(self)
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
            }
        }
    };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SuiAddress([u8; 32]);
impl SuiAddress {
    pub const ZERO: Self = SuiAddress([0; 32]);
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.to_vec()
    }
    pub fn to_inner(self) -> [u8; 32] {
        self.0
    }
    pub fn from_bytes<T: AsRef<[u8]>>(b: T) -> Result<Self, ParseError> {
        b.as_ref().try_into().map(SuiAddress).map_err(|_| ParseError("bad address length".into()))
    }
}
impl AsRef<[u8]> for SuiAddress {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl fmt::Display for SuiAddress {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.0))
    }
}
impl FromStr for SuiAddress {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        let b = hex::decode(s.strip_prefix("0x").unwrap_or(s)).map_err(|e| ParseError(e.to_string()))?;
        Self::from_bytes(b)
    }
}
texty!(SuiAddress);

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TransactionDigest([u8; 32]);
impl TransactionDigest {
    pub const fn new(b: [u8; 32]) -> Self {
        TransactionDigest(b)
    }
    pub fn base58_encode(&self) -> String {
        bs58::encode(self.0).into_string()
    }
    pub fn inner(&self) -> &[u8; 32] {
        &self.0
    }
}
impl fmt::Display for TransactionDigest {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.base58_encode())
    }
}
impl FromStr for TransactionDigest {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        let b = bs58::decode(s).into_vec().map_err(|e| ParseError(e.to_string()))?;
        b.try_into().map(TransactionDigest).map_err(|_| ParseError("invalid digest length".into()))
    }
}
texty!(TransactionDigest);

pub mod base_types {
    pub use super::{SuiAddress, TransactionDigest};
}
pub mod digests {
    pub use super::TransactionDigest;
}

impl fmt::LowerHex for TransactionDigest {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&hex::encode(self.inner()))
    }
}
