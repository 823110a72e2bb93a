//! Reference models and case descriptors. Nothing in this crate uses code of the crate under
//! verification or of its dependencies: every hash is written from its specification.
pub mod cases;
pub mod hashes;
pub mod lyra;
pub mod forms;
pub mod spaces;

pub use cases::*;

/// What a call does, as far as a caller can see.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Outcome {
    Ok(Vec<u8>),
    Panic,
}

impl Outcome {
    pub fn show(&self) -> String {
        match self {
            Outcome::Ok(v) if v.len() <= 64 => format!("Ok({})", hex(v)),
            Outcome::Ok(v) => {
                let mut h = 0xcbf29ce484222325u64;
                for b in v {
                    h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
                }
                format!("Ok({}.. {} bytes, checksum {:016x})", hex(&v[..64]), v.len(), h)
            }
            Outcome::Panic => "panic".to_string(),
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

/// First 16 bytes of a digest; 0 for a panic or a shorter result.
pub fn d16(o: &Outcome) -> u128 {
    match o {
        Outcome::Ok(v) if v.len() >= 16 => u128::from_le_bytes(v[..16].try_into().unwrap()),
        _ => 0,
    }
}

/// 64-bit fingerprint of an outcome (FNV-1a over tag and bytes, then mixed).
pub fn fp(o: &Outcome) -> u128 {
    let mut h = 0xcbf29ce484222325u64;
    let mut eat = |b: u8| {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    };
    match o {
        Outcome::Panic => eat(1),
        Outcome::Ok(v) => {
            eat(2);
            for b in v {
                eat(*b);
            }
        }
    }
    h = (h ^ (h >> 32)).wrapping_mul(0x9e3779b97f4a7c15);
    (h ^ (h >> 29)) as u128
}
