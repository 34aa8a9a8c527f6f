pub use serde_with_macros_sim::{DeserializeFromStr, SerializeDisplay};

#[doc(hidden)]
pub mod prefix {
    use serde::{de, ser, de::DeserializeOwned, Deserialize, Deserializer, Serialize, Serializer};
    use serde_json::{Map, Value};
    use std::collections::BTreeMap;

    pub fn serialize<T: Serialize, S: Serializer>(p: &str, v: &T, s: S) -> Result<S::Ok, S::Error> {
        match serde_json::to_value(v).map_err(ser::Error::custom)? {
            Value::Object(m) => m.into_iter().map(|(k, v)| (format!("{p}{k}"), v)).collect::<BTreeMap<_, _>>().serialize(s),
            _ => Err(ser::Error::custom("with_prefix only works on structs")),
        }
    }
    pub fn deserialize<'de, T: DeserializeOwned, D: Deserializer<'de>>(p: &str, d: D) -> Result<T, D::Error> {
        let all = BTreeMap::<String, Value>::deserialize(d)?;
        let m: Map<String, Value> =
            all.into_iter().filter_map(|(k, v)| k.strip_prefix(p).map(|k| (k.to_string(), v))).collect();
        serde_json::from_value(Value::Object(m)).map_err(de::Error::custom)
    }
}

#[macro_export]
macro_rules! with_prefix {
    ($vis:vis $module:ident $prefix:expr) => {
        $vis mod $module {
            pub fn serialize<T: ::serde::Serialize, S: ::serde::Serializer>(v: &T, s: S) -> ::core::result::Result<S::Ok, S::Error> {
                $crate::prefix::serialize($prefix, v, s)
            }
            pub fn deserialize<'de, T: ::serde::de::DeserializeOwned, D: ::serde::Deserializer<'de>>(d: D) -> ::core::result::Result<T, D::Error> {
                $crate::prefix::deserialize($prefix, d)
            }
        }
    };
}
