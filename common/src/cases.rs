//! Case descriptors: a call with its arguments, printable and parsable, so that every explored
//! execution can be written to a replay file and run again on its own.
use crate::{hex, lyra, lyra::Stats, unhex, Outcome};

/// A byte string, described by a base pattern, a length and single-byte overrides.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Data {
    Pat { kind: char, len: u32, mods: Vec<(u32, u8)> },
    Bytes(Vec<u8>),
}

/// z zeros, f 0xff, r ramp, h high-bit ramp, t text (repeated ASCII), l pseudo-random looking,
/// a..: other letters are constant fill with that ASCII code.
pub fn pat_byte(kind: char, i: u32) -> u8 {
    match kind {
        'z' => 0,
        'f' => 0xff,
        'r' => i as u8,
        'h' => 0x80 | (i as u8),
        't' => b"The quick brown fox jumps over the lazy dog. "[i as usize % 45],
        'l' => {
            let mut x = (i as u64).wrapping_add(0x9e3779b97f4a7c15);
            x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
            (x ^ (x >> 31)) as u8
        }
        'L' => pat_byte('l', i.wrapping_add(100_000)),
        c => c as u32 as u8,
    }
}

pub fn pat(kind: char, len: u32) -> Data {
    Data::Pat { kind, len, mods: Vec::new() }
}
pub fn patm(kind: char, len: u32, mods: &[(u32, u8)]) -> Data {
    Data::Pat { kind, len, mods: mods.to_vec() }
}

impl Data {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Data::Bytes(b) => b.clone(),
            Data::Pat { kind, len, mods } => {
                let mut v: Vec<u8> = (0..*len).map(|i| pat_byte(*kind, i)).collect();
                for (p, x) in mods {
                    v[*p as usize] = *x;
                }
                v
            }
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Data::Bytes(b) => b.len(),
            Data::Pat { len, .. } => *len as usize,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Data::Bytes(b) => format!("x{}", hex(b)),
            Data::Pat { kind, len, mods } => {
                let mut s = format!("{}*{}", kind, len);
                for (p, x) in mods {
                    s.push_str(&format!("!{}={}", p, x));
                }
                s
            }
        }
    }
    pub fn parse(s: &str) -> Option<Data> {
        if let Some(h) = s.strip_prefix('x') {
            if !h.contains('*') {
                return Some(Data::Bytes(unhex(h)?));
            }
        }
        let kind = s.chars().next()?;
        let rest = s[kind.len_utf8()..].strip_prefix('*')?;
        let mut it = rest.split('!');
        let len = it.next()?.parse().ok()?;
        let mut mods = Vec::new();
        for m in it {
            let (p, x) = m.split_once('=')?;
            mods.push((p.parse().ok()?, x.parse().ok()?));
        }
        Some(Data::Pat { kind, len, mods })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Alg {
    Re,
    Rev2,
    Rev3,
    Z,
}
pub const ALGS: [Alg; 4] = [Alg::Re, Alg::Rev2, Alg::Rev3, Alg::Z];
impl Alg {
    pub fn name(self) -> &'static str {
        match self {
            Alg::Re => "lyra2re",
            Alg::Rev2 => "lyra2rev2",
            Alg::Rev3 => "lyra2rev3",
            Alg::Z => "lyra2z",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stage {
    Bmw,
    Cube,
    Lyra2Mod,
}
impl Stage {
    pub fn name(self) -> &'static str {
        match self {
            Stage::Bmw => "bmw256",
            Stage::Cube => "cubehash256",
            Stage::Lyra2Mod => "lyra2mod",
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Case {
    /// lyra2::lyra2::lyra2(k, pwd, salt, t, r, c)
    Kdf { k: u64, pwd: Data, salt: Data, t: u64, r: u64, c: u64 },
    /// lyra2::lyra2::sum(x)
    Sum(Data),
    /// lyra2re::sum and so on
    Hash(Alg, Data),
    /// a private 32-byte stage, through the hook
    Stage(Stage, Data),
}

impl Case {
    pub fn show(&self) -> String {
        match self {
            Case::Kdf { k, pwd, salt, t, r, c } => {
                format!("kdf k={} pwd={} salt={} t={} r={} c={}", k, pwd.show(), salt.show(), t, r, c)
            }
            Case::Sum(d) => format!("sum in={}", d.show()),
            Case::Hash(a, d) => format!("{} in={}", a.name(), d.show()),
            Case::Stage(s, d) => format!("stage-{} in={}", s.name(), d.show()),
        }
    }
    pub fn parse(s: &str) -> Option<Case> {
        let mut it = s.split_whitespace();
        let op = it.next()?;
        let kv: Vec<(&str, &str)> = it.map(|x| x.split_once('=')).collect::<Option<_>>()?;
        let get = |k: &str| kv.iter().find(|(a, _)| *a == k).map(|(_, v)| *v);
        let num = |k: &str| get(k)?.parse::<u64>().ok();
        if op == "kdf" {
            return Some(Case::Kdf {
                k: num("k")?,
                pwd: Data::parse(get("pwd")?)?,
                salt: Data::parse(get("salt")?)?,
                t: num("t")?,
                r: num("r")?,
                c: num("c")?,
            });
        }
        let d = Data::parse(get("in")?)?;
        match op {
            "sum" => return Some(Case::Sum(d)),
            "stage-bmw256" => return Some(Case::Stage(Stage::Bmw, d)),
            "stage-cubehash256" => return Some(Case::Stage(Stage::Cube, d)),
            "stage-lyra2mod" => return Some(Case::Stage(Stage::Lyra2Mod, d)),
            _ => {}
        }
        ALGS.iter().find(|a| a.name() == op).map(|a| Case::Hash(*a, d))
    }
    /// What the reference model says this call does.
    pub fn expected(&self, st: &mut Stats) -> Outcome {
        match self {
            Case::Kdf { k, pwd, salt, t, r, c } => {
                lyra::kdf(*k, &pwd.bytes(), &salt.bytes(), *t, *r, *c, st)
            }
            Case::Sum(d) => {
                let b = d.bytes();
                lyra::kdf(32, &b, &b, 1, 4, 4, st)
            }
            Case::Hash(a, d) => {
                let b = d.bytes();
                Outcome::Ok(
                    match a {
                        Alg::Re => lyra::lyra2re(&b, st),
                        Alg::Rev2 => lyra::lyra2rev2(&b, st),
                        Alg::Rev3 => lyra::lyra2rev3(&b, st),
                        Alg::Z => lyra::lyra2z(&b, st),
                    }
                    .to_vec(),
                )
            }
            Case::Stage(s, d) => {
                let mut x = [0u8; 32];
                x.copy_from_slice(&d.bytes());
                st.states += 1;
                st.transitions += 1;
                Outcome::Ok(
                    match s {
                        Stage::Bmw => crate::hashes::bmw256(&x),
                        Stage::Cube => crate::hashes::cubehash256(&x),
                        Stage::Lyra2Mod => lyra::lyra2mod_stage(&x, st),
                    }
                    .to_vec(),
                )
            }
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn roundtrip() {
        for s in ["kdf k=32 pwd=r*8 salt=z*9!3=255 t=1 r=4 c=4", "sum in=x00ff", "lyra2rev3 in=x", "stage-bmw256 in=f*32", "lyra2z in=x*3"] {
            assert_eq!(Case::parse(s).unwrap().show(), s);
        }
    }
    #[test]
    fn published_vectors() {
        use crate::hashes::*;
        assert_eq!(hex(&blake256(b"\0")), "0ce8d4ef4dd7cd8d62dfded9d4edb0a774ae6a41929a74da23109e8f11139c87");
        assert_eq!(hex(&blake256(&[0; 72])), "d419bad32d504fb7d44d460c42c5593fe544fa4c135dec31e21bd9abdcc22d41");
        assert_eq!(hex(&keccak256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
        assert_eq!(hex(&groestl256(b"")), "1a52d11d550039be16107f9c58db9ebcc417f16f736adb2502567119f0083467");
        assert_eq!(hex(&skein512_256(b"")), "39ccc4554a8b31853b9de7a1fe638a24cce6b35a55f2431009e18780335d2621");
        assert_eq!(hex(&cubehash256(b"")), "44c6de3ac6c73c391bf0906cb7482600ec06b216c7c54a2a8688a6a42676577d");
        let mut st = Stats::default();
        // the crate's published examples
        assert_eq!(hex(&lyra::lyra2re(b"abc", &mut st)), "07d3fe93103f6ad4284ad389d4b0a80334c94f5ffd0a537dfc935b3625552317");
        assert_eq!(hex(&lyra::lyra2rev2(b"abc", &mut st)), "80ec5344227c5d0bfd63038f00c3fe5aecddd1a1122043b0a90b5fd67b1e8f32");
        assert_eq!(hex(&lyra::lyra2rev3(b"abc", &mut st)), "4e445087e28d294b3074e98fee860fb73d248a63150ea2d42bfeddd21c0b89ef");
        assert_eq!(hex(&lyra::lyra2z(b"abc", &mut st)), "cf9d13829886efd875cb0d01e44a80288d478346dd721fac0e6e04fe5774879c");
        assert_eq!(lyra::kdf(32, b"abc", b"abc", 1, 4, 4, &mut st).show(), "Ok(8f63758bd178f014ea3fd4df09ff0a61646dc574a0b6bcf2890ec529a6a7360c)");
    }
}
