pub mod language_storage {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    use std::fmt;
    use std::str::FromStr;

    /// `<address>::<module>::<name>`
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct StructTag {
        pub address: [u8; 32],
        pub module: String,
        pub name: String,
    }
    #[derive(Debug)]
    pub struct ParseError(String);
    impl fmt::Display for ParseError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "invalid struct tag {}", self.0)
        }
    }
    impl std::error::Error for ParseError {}

    impl FromStr for StructTag {
        type Err = ParseError;
        fn from_str(s: &str) -> Result<Self, ParseError> {
            let bad = || ParseError(s.to_string());
            let v: Vec<&str> = s.split("::").collect();
            let [a, m, n] = v[..] else { return Err(bad()) };
            let h = a.strip_prefix("0x").unwrap_or(a);
            if h.is_empty() || h.len() > 64 || m.is_empty() || n.is_empty() {
                return Err(bad());
            }
            let b = hex::decode(format!("{h:0>64}")).map_err(|_| bad())?;
            Ok(StructTag { address: b.try_into().unwrap(), module: m.into(), name: n.into() })
        }
    }
    impl fmt::Display for StructTag {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "0x{}::{}::{}", hex::encode(self.address), self.module, self.name)
        }
    }
    impl Serialize for StructTag {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.collect_str(self)
        }
    }
    impl<'de> Deserialize<'de> for StructTag {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
        }
    }
}
