//! Durations as text such as `500ms`, `5s`, `2m`.
use serde::{de::Error, Deserialize, Deserializer, Serializer};
use std::time::Duration;

pub fn serialize<S: Serializer>(d: &Duration, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_str(&format!("{}ns", d.as_nanos()))
}

pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Duration, D::Error> {
    let t = String::deserialize(d)?;
    let i = t.find(|c: char| !c.is_ascii_digit()).ok_or_else(|| D::Error::custom("no unit"))?;
    let n: u64 = t[..i].parse().map_err(D::Error::custom)?;
    Ok(match t[i..].trim() {
        "ns" => Duration::from_nanos(n),
        "us" => Duration::from_micros(n),
        "ms" => Duration::from_millis(n),
        "s" | "sec" | "secs" => Duration::from_secs(n),
        "m" | "min" => Duration::from_secs(60 * n),
        u => return Err(D::Error::custom(format!("unknown unit {u}"))),
    })
}
