//! The simulator under the worker daemon: a single-threaded executor whose scheduling is decided by
//! a seeded generator, virtual time, a simulated network, signals, and an interposed disk. The
//! stand-ins for tokio, the RPC clients and the file system all end here.

pub mod net;
pub mod rt;
pub mod sys;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// FNV-1a, to derive decisions from names rather than from the order of calls
pub fn hash(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in p.iter().chain(&[0xff]) {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
    mix(h)
}
