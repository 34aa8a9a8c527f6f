//! The tendermint types the worker daemon uses.

pub mod block {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    use std::fmt;
    use std::str::FromStr;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Height(u64);

    impl Height {
        pub fn value(&self) -> u64 {
            self.0
        }
        pub fn increment(self) -> Self {
            Height::try_from(self.0 + 1).expect("height overflow")
        }
    }
    impl Default for Height {
        fn default() -> Self {
            Height(1)
        }
    }
    impl fmt::Display for Height {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }

    #[derive(Debug)]
    pub struct OutOfRange;
    impl fmt::Display for OutOfRange {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("height out of range")
        }
    }
    impl std::error::Error for OutOfRange {}

    impl TryFrom<u64> for Height {
        type Error = OutOfRange;
        fn try_from(v: u64) -> Result<Self, OutOfRange> {
            i64::try_from(v).map(|_| Height(v)).map_err(|_| OutOfRange)
        }
    }
    impl TryFrom<i64> for Height {
        type Error = OutOfRange;
        fn try_from(v: i64) -> Result<Self, OutOfRange> {
            u64::try_from(v).map(Height).map_err(|_| OutOfRange)
        }
    }
    impl From<u32> for Height {
        fn from(v: u32) -> Self {
            Height(v as u64)
        }
    }
    impl From<u16> for Height {
        fn from(v: u16) -> Self {
            Height(v as u64)
        }
    }
    impl From<u8> for Height {
        fn from(v: u8) -> Self {
            Height(v as u64)
        }
    }
    impl From<Height> for u64 {
        fn from(h: Height) -> u64 {
            h.0
        }
    }
    impl From<Height> for i64 {
        fn from(h: Height) -> i64 {
            h.0 as i64
        }
    }
    impl FromStr for Height {
        type Err = OutOfRange;
        fn from_str(s: &str) -> Result<Self, OutOfRange> {
            s.parse::<u64>().map_err(|_| OutOfRange).and_then(Height::try_from)
        }
    }
    impl Serialize for Height {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.0.to_string().serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for Height {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Header {
        pub height: Height,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Block {
    pub header: block::Header,
}
impl Block {
    pub fn header(&self) -> &block::Header {
        &self.header
    }
}

pub mod abci {
    use serde::{Deserialize, Serialize};

    #[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct EventAttribute {
        pub key: String,
        pub value: String,
        #[serde(default)]
        pub index: bool,
    }

    #[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct Event {
        #[serde(rename = "type")]
        pub kind: String,
        pub attributes: Vec<EventAttribute>,
    }
    impl Event {
        pub fn new<K, I>(kind: K, attributes: I) -> Self
        where
            K: Into<String>,
            I: IntoIterator,
            I::Item: Into<EventAttribute>,
        {
            Event { kind: kind.into(), attributes: attributes.into_iter().map(Into::into).collect() }
        }
    }
    impl<K: Into<String>, V: Into<String>> From<(K, V)> for EventAttribute {
        fn from((k, v): (K, V)) -> Self {
            EventAttribute { key: k.into(), value: v.into(), index: false }
        }
    }
}

pub mod chain {
    use serde::{Deserialize, Serialize};
    use std::fmt;
    use std::str::FromStr;

    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
    pub struct Id(String);
    impl Id {
        pub fn as_str(&self) -> &str {
            &self.0
        }
    }
    impl fmt::Display for Id {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    #[derive(Debug)]
    pub struct BadId;
    impl fmt::Display for BadId {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("bad chain id")
        }
    }
    impl std::error::Error for BadId {}
    impl FromStr for Id {
        type Err = BadId;
        fn from_str(s: &str) -> Result<Self, BadId> {
            if s.is_empty() || s.len() > 50 { Err(BadId) } else { Ok(Id(s.into())) }
        }
    }
}

pub mod crypto {
    pub mod ed25519 {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct VerificationKey(pub [u8; 32]);
        #[derive(Debug)]
        pub struct Error;
        impl std::fmt::Display for Error {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("malformed public key")
            }
        }
        impl std::error::Error for Error {}
        impl TryFrom<&[u8]> for VerificationKey {
            type Error = Error;
            fn try_from(b: &[u8]) -> Result<Self, Error> {
                b.try_into().map(VerificationKey).map_err(|_| Error)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PublicKey {
    Ed25519(crypto::ed25519::VerificationKey),
}
impl From<crypto::ed25519::VerificationKey> for PublicKey {
    fn from(k: crypto::ed25519::VerificationKey) -> Self {
        PublicKey::Ed25519(k)
    }
}
