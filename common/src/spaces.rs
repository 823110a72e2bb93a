//! The finite case spaces each property is enumerated over. Deterministic: no random choice anywhere.
use crate::forms::{of_one, of_two};
use crate::{pat, pat_byte, patm, Alg, Case, Data, Stage};

pub struct Space {
    pub name: String,
    pub what: String,
    pub n: u64,
    pub case: Box<dyn Fn(u64) -> Case + Sync + Send>,
}

pub fn space(name: &str, what: &str, n: u64, case: impl Fn(u64) -> Case + Sync + Send + 'static) -> Space {
    Space { name: name.into(), what: what.into(), n, case: Box::new(case) }
}

/// Decodes an index into one coordinate per dimension (first dimension varies slowest).
pub fn coords(mut i: u64, dims: &[usize]) -> Vec<usize> {
    let mut v = vec![0; dims.len()];
    for d in (0..dims.len()).rev() {
        v[d] = (i % dims[d] as u64) as usize;
        i /= dims[d] as u64;
    }
    v
}
pub fn volume(dims: &[usize]) -> u64 {
    dims.iter().map(|d| *d as u64).product()
}


pub fn kdf(k: u64, pwd: Data, salt: Data, t: u64, r: u64, c: u64) -> Case {
    Case::Kdf { k, pwd, salt, t, r, c }
}

/// Product of value lists; `f` receives one value per dimension.
fn product(name: &str, what: &str, dims: Vec<Vec<u64>>, f: impl Fn(&[u64]) -> Case + Send + Sync + 'static) -> Space {
    let sizes: Vec<usize> = dims.iter().map(|d| d.len()).collect();
    let n = volume(&sizes);
    space(name, what, n, move |i| {
        let c = coords(i, &sizes);
        let v: Vec<u64> = c.iter().zip(&dims).map(|(x, d)| d[*x]).collect();
        f(&v)
    })
}
fn list(name: &str, what: &str, cases: Vec<Case>) -> Space {
    space(name, what, cases.len() as u64, move |i| cases[i as usize].clone())
}
fn r(lo: u64, hi: u64) -> Vec<u64> {
    (lo..=hi).collect()
}
fn cat(a: &[&[u64]]) -> Vec<u64> {
    a.concat()
}
/// 2^n - 1, 2^n, 2^n + 1 for n in lo..=hi
fn edges(lo: u32, hi: u32) -> Vec<u64> {
    (lo..=hi).flat_map(|n| [(1u64 << n) - 1, 1 << n, (1 << n) + 1]).collect()
}
/// index -> unordered pair (a < b) out of n
fn pair(mut i: u64, n: u64) -> (u64, u64) {
    let mut a = 0;
    while i >= n - 1 - a {
        i -= n - 1 - a;
        a += 1;
    }
    (a, a + 1 + i)
}
fn flip(base: char, len: u32, bits: &[u64]) -> Data {
    let mut v: Vec<u8> = (0..len).map(|i| pat_byte(base, i)).collect();
    for b in bits {
        v[(*b / 8) as usize] ^= 1 << (b % 8);
    }
    Data::Bytes(v)
}
fn counter(base: char, len: u32, at: usize, n: u64, width: usize) -> Data {
    let mut v: Vec<u8> = (0..len).map(|i| pat_byte(base, i)).collect();
    v[at..at + width].copy_from_slice(&n.to_le_bytes()[..width]);
    Data::Bytes(v)
}
const SPECIAL: [u64; 16] = [
    0, 1, 0x80, 0xff, 0x100, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x8080_8080_8080_8080, 0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000, 0xffff_ffff_0000_0000, 0xffff_ffff_ffff_fffe, 0xffff_ffff_ffff_ffff, 0x0102_0304_0506_0708,
];
fn specials() -> Vec<u64> {
    let mut v = SPECIAL.to_vec();
    v.extend((0..64).map(|i| 1u64 << i));
    v.extend((0..64).map(|i| !(1u64 << i)));
    v.extend((1..64).map(|i| (1u64 << i) - 1));
    v
}
fn words(w: &[u64]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_le_bytes()).collect()
}

/// All byte strings of length 0..=max
fn short_messages(max: u32, f: impl Fn(Data) -> Case + Send + Sync + 'static) -> Space {
    let n: u64 = (0..=max).map(|l| 256u64.pow(l)).sum();
    space("short", &format!("every byte string of length 0..={max}"), n, move |mut i| {
        let mut l = 0;
        while i >= 256u64.pow(l) {
            i -= 256u64.pow(l);
            l += 1;
        }
        f(Data::Bytes(i.to_le_bytes()[..l as usize].to_vec()))
    })
}

pub fn capacity_cases(rows: &[u64], cols: &[u64], ks: &[u64]) -> Vec<Case> {
    let mut v = Vec::new();
    for &r in rows {
        for &c in cols {
            // largest total the matrix holds: blocks*64 <= r*c*96, blocks = (total+48)/64+1
            let max_blocks = r * c * 96 / 64;
            let lim = (max_blocks * 64).saturating_sub(48); // first rejected total
            for total in lim.saturating_sub(70)..=lim + 70 {
                for pl in [0, 1, 7, 8, total / 2, total.saturating_sub(8), total.saturating_sub(1), total] {
                    if pl <= total {
                        for &k in ks {
                            v.push(kdf(k, pat('l', pl as u32), pat('L', (total - pl) as u32), 1, r, c));
                        }
                    }
                }
            }
        }
    }
    v
}

const W_K: [u64; 29] = [0, 1, 7, 8, 16, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 191, 192, 193, 255, 256, 257, 288, 384, 480, 512, 768, 1000, 1024, 4096];
const W_LEN: [u64; 41] = [
    0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 39, 40, 47, 48, 55, 56, 63, 64, 65, 71, 72, 79, 80, 96, 100, 127, 128, 136, 144, 192, 200, 255, 256, 257, 300, 500, 1000, 1024,
];
const W_T: [u64; 22] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 100, 128, 255, 256, 257];
const W_R: [u64; 35] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129, 255, 256, 257, 512];
const W_C: [u64; 35] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129, 255, 256];
/// Every combination of wide values of any `ways` of the six arguments, the others from each background.
pub fn combinations(name: &str, ways: u32, thin: usize, grounds: &'static [[u64; 6]], cost: u64) -> Space {
    let all: [&[u64]; 6] = [&W_K, &W_LEN, &W_LEN, &W_T, &W_R, &W_C];
    let mut v: Vec<[u32; 6]> = Vec::new();
    for mask in 0u32..64 {
        if mask.count_ones() != ways {
            continue;
        }
        for g in grounds {
            let dims: Vec<Vec<u64>> = (0..6).map(|d| if mask >> d & 1 == 1 { all[d].iter().copied().step_by(thin).collect() } else { vec![g[d]] }).collect();
            let sizes: Vec<usize> = dims.iter().map(|d| d.len()).collect();
            for i in 0..volume(&sizes) {
                let c = coords(i, &sizes);
                let mut x = [0u32; 6];
                for d in 0..6 {
                    x[d] = dims[d][c[d]] as u32;
                }
                // work is about (t + 1) * r * c blocks
                if (x[3] as u64 + 1) * x[4] as u64 * x[5] as u64 <= cost {
                    v.push(x);
                }
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    let what = format!("every combination of {ways} of the six arguments over lists of 22 to 41 values (every {thin}th), {} backgrounds, up to {cost} block steps", grounds.len());
    space(name, &what, v.len() as u64, move |i| {
        let x = v[i as usize];
        kdf(x[0] as u64, pat('l', x[1]), pat('L', x[2]), x[3] as u64, x[4] as u64, x[5] as u64)
    })
}
const GROUNDS: [[u64; 6]; 4] = [[32, 24, 16, 1, 4, 4], [97, 65, 9, 3, 7, 3], [64, 80, 80, 2, 8, 8], [200, 33, 128, 1, 12, 5]];

pub fn kdf_spaces(thorough: bool) -> Vec<Space> {
    let th = thorough;
    let mut v = Vec::new();
    let p = |l: u64| pat('l', l as u32);
    let s = |l: u64| pat('L', l as u32);
    v.push(product(
        "grid",
        "full product of small values of all six arguments",
        vec![
            vec![0, 1, 8, 16, 31, 32, 48, 64, 95, 96, 97, 128, 193],
            vec![0, 1, 7, 8, 9, 16, 31, 32, 33, 40],
            vec![0, 1, 7, 8, 9, 16, 31, 32, 33, 40],
            if th { r(1, 8) } else { r(1, 4) },
            if th { cat(&[&r(3, 17), &[31, 32, 33]]) } else { cat(&[&r(3, 9), &[16]]) },
            if th { r(1, 6) } else { r(1, 4) },
        ],
        move |x| kdf(x[0], p(x[1]), s(x[2]), x[3], x[4], x[5]),
    ));
    v.push(combinations("pairs", 2, 1, &GROUNDS, if th { 400_000 } else { 40_000 }));
    v.push(combinations("triples", 3, if th { 1 } else { 3 }, if th { &GROUNDS } else { &GROUNDS[..2] }, if th { 20_000 } else { 6_000 }));
    v.push(combinations("quadruples", 4, if th { 3 } else { 6 }, if th { &GROUNDS } else { &GROUNDS[1..2] }, if th { 6_000 } else { 2_000 }));
    let lm = if th { 700 } else { 200 };
    v.push(product("lengths", &format!("every pair of password and salt lengths 0..={lm}"), vec![r(0, lm), r(0, lm)], move |x| {
        kdf(32, p(x[0]), s(x[1]), 1, 4, 4)
    }));
    v.push(product(
        "output-lengths",
        "every output length up to a bound, then around powers of two",
        vec![cat(&[&r(0, if th { 4200 } else { 1100 }), &edges(12, if th { 22 } else { 17 })]), vec![1, 2], vec![3, 4, 8], vec![1, 4]],
        move |x| kdf(x[0], p(24), s(16), x[1], x[2], x[3]),
    ));
    v.push(product("output-lengths-large", "larger output lengths", vec![edges(18, if th { 27 } else { 24 }), vec![3]], move |x| kdf(x[0], p(24), s(16), 1, x[1], 1)));
    v.push(product(
        "rows",
        "every row count up to a bound, then around powers of two",
        vec![r(3, if th { 4100 } else { 1030 }), r(1, if th { 6 } else { 3 }), vec![1, 2]],
        move |x| kdf(32, p(32), s(8), x[1], x[0], x[2]),
    ));
    v.push(product(
        "rows-large",
        "row counts around larger powers of two",
        vec![edges(11, if th { 21 } else { 18 }), vec![1, 2], vec![1]],
        move |x| kdf(32, p(32), s(8), x[1], x[0], x[2]),
    ));
    v.push(product(
        "columns",
        "every column count up to a bound, then around powers of two",
        vec![cat(&[&r(1, if th { 2100 } else { 600 }), &edges(11, if th { 18 } else { 16 })]), vec![3, 4, 5, 8], vec![1, 2]],
        move |x| kdf(32, p(16), s(24), x[2], x[1], x[0]),
    ));
    v.push(product(
        "rows-columns",
        "every matrix shape",
        vec![r(3, if th { 130 } else { 66 }), r(1, if th { 130 } else { 66 }), vec![1, 2]],
        move |x| kdf(32, p(8), s(8), x[2], x[0], x[1]),
    ));
    v.push(product(
        "time-costs",
        "every time cost up to a bound, then around powers of two",
        vec![cat(&[&r(1, if th { 2100 } else { 520 }), &edges(12, if th { 18 } else { 16 })]), vec![3, 4, 5, 6, 7, 8, 16], vec![1, 2]],
        move |x| kdf(32, p(32), s(32), x[0], x[1], x[2]),
    ));
    v.push(product("time-costs-large", "larger time costs", vec![edges(17, 20), vec![3, 4]], move |x| kdf(32, p(32), s(32), x[0], x[1], 1)));
    v.push(product("time-costs-2^24", "time costs around 2^24", vec![edges(24, 24), vec![3]], move |x| kdf(32, p(32), s(32), x[0], x[1], 1)));
    if th {
        v.push(list("giant", "time cost and output length that exceed 32 bits", vec![kdf(32, p(8), s(8), (1 << 32) + 1, 3, 1), kdf((1 << 32) + 1, p(8), s(8), 1, 3, 1)]));
    }
    v.push(product(
        "bytes",
        "every value of every single byte of password and of salt",
        vec![r(0, 1), r(0, 47), r(0, 255), vec![3, 4], vec![2, 4]],
        move |x| {
            let m = [(x[1] as u32, x[2] as u8)];
            let (pw, sa) = if x[0] == 0 { (patm('l', 48, &m), s(40)) } else { (p(40), patm('L', 48, &m)) };
            kdf(32, pw, sa, 1, x[3], x[4])
        },
    ));
    let bits = 512u64;
    v.push(space("bit-pairs", "every pair of bits set in a 32-byte password and a 32-byte salt, otherwise zero", bits * (bits - 1) / 2, move |i| {
        let (a, b) = pair(i, bits);
        let all = match flip('z', 64, &[a, b]) {
            Data::Bytes(v) => v,
            _ => unreachable!(),
        };
        kdf(32, Data::Bytes(all[..32].to_vec()), Data::Bytes(all[32..].to_vec()), 1, 4, 4)
    }));
    let sp = specials();
    let n = sp.len();
    v.push(space("word-values", "special 64-bit values in every word of password and salt, alone and paired with every special value in every other word", (8 * n * 8 * SPECIAL.len()) as u64, move |i| {
        let c = coords(i, &[8, n, 8, SPECIAL.len()]);
        let mut w = [0x1111_1111_1111_1111u64; 8];
        w[c[2]] = SPECIAL[c[3]];
        w[c[0]] = sp[c[1]];
        kdf(32, Data::Bytes(words(&w[..4])), Data::Bytes(words(&w[4..])), 1, 4, 4)
    }));
    let pats = ['z', 'f', 'r', 'h', 't', 'l', 'L'];
    v.push(product("patterns", "every pair of content patterns at block-edge lengths, several shapes", vec![r(0, 6), r(0, 6), vec![8, 15, 16, 56, 63, 64, 65, 72, 80, 128, 136], vec![8, 16, 64, 72], vec![1, 2], vec![3, 4, 8], vec![4]], move |x| {
        kdf(64, pat(pats[x[0] as usize], x[2] as u32), pat(pats[x[1] as usize], x[3] as u32), x[4], x[5], x[6])
    }));
    v.push(list("capacity", "inputs around the capacity of the matrix, every split", capacity_cases(&r(3, if th { 12 } else { 7 }), &r(1, if th { 6 } else { 4 }), &[32])));
    v.push(product("long", "long passwords and salts", vec![cat(&[&r(0, if th { 4000 } else { 1300 }), &edges(12, if th { 20 } else { 16 })]), vec![0, 8, 33], vec![0, 1]], move |x| {
        let rows = (x[0] / 1536 + 8).next_power_of_two();
        let (a, b) = if x[2] == 0 { (x[0], x[1]) } else { (x[1], x[0]) };
        kdf(32, p(a), s(b), 1, rows, 16)
    }));
    v.push(product("equal", "password equal to salt, every length", vec![r(0, 743), r(0, 6)], move |x| {
        let d = pat(pats[x[1] as usize], x[0] as u32);
        kdf(32, d.clone(), d, 1, 4, 4)
    }));
    v.push(of_two(th, &[[32, 1, 4, 8], [100, 2, 5, 6], [32, 3, 16, 2]]));
    v.extend(of_one("password", th, |d| kdf(32, d, pat('L', 16), 1, 4, 8)));
    v.extend(of_one("salt", th, |d| kdf(32, pat('l', 16), d, 2, 7, 8)));
    v.push(space("counter-4x4", "counter in a 32-byte password = salt, 4 rows, 4 columns", if th { 40_000_000 } else { 1_500_000 }, |i| {
        let d = counter('l', 32, 0, i, 8);
        kdf(32, d.clone(), d, 1, 4, 4)
    }));
    v.push(space("counter-8x8", "counter in a 32-byte password = salt, 8 rows, 8 columns", if th { 8_000_000 } else { 400_000 }, |i| {
        let d = counter('L', 32, 24, i, 8);
        kdf(32, d.clone(), d, 1, 8, 8)
    }));
    v.push(space("counter-odd", "counter in password and salt, 3..=18 rows", if th { 6_000_000 } else { 400_000 }, |i| {
        kdf(32 + i % 70, counter('l', 32, 8, i, 8), counter('L', 40, 8, i.wrapping_mul(0x9e37_79b9_7f4a_7c15), 8), 1 + i % 3, 3 + i % 16, 1 + i % 5)
    }));
    v
}

pub fn chain_spaces(a: Alg, stages: &[Stage], thorough: bool, hooks: bool) -> Vec<Space> {
    let th = thorough;
    let mut v = Vec::new();
    v.push(short_messages(if th { 3 } else { 2 }, move |d| Case::Hash(a, d)));
    let pats = ['z', 'f', 'r', 'h', 't', 'l', 'L'];
    v.push(product("lengths", "every length up to a bound, several contents", vec![r(0, if th { 20_000 } else { 2_500 }), r(0, 6)], move |x| {
        Case::Hash(a, pat(pats[x[1] as usize], x[0] as u32))
    }));
    v.extend(of_one("", th, move |d| Case::Hash(a, d)));
    v.push(product("long", "lengths around powers of two", vec![edges(12, if th { 26 } else { 21 }), r(4, 5)], move |x| {
        Case::Hash(a, pat(pats[x[1] as usize], x[0] as u32))
    }));
    if th {
        let n = 1u64 << 29;
        v.push(product("giant", "messages whose length in bits reaches 2^32", vec![vec![n - 64, n - 56, n - 1, n, n + 1, n + 64]], move |x| Case::Hash(a, pat('l', x[0] as u32))));
    }
    v.push(product("header-bytes", "every value of every byte of an 80-byte header", vec![vec!['z' as u64, 'l' as u64], r(0, 79), r(0, 255)], move |x| {
        Case::Hash(a, patm(x[0] as u8 as char, 80, &[(x[1] as u32, x[2] as u8)]))
    }));
    let sp: Vec<u32> = specials().iter().map(|x| *x as u32).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let few = [0u32, 1, 0x8000_0000, 0xffff_ffff];
    let n = sp.len();
    v.push(space("header-words", "special 32-bit values in every word of an 80-byte header, alone and with 0, 1, 2^31 or 2^32-1 in every other word", (20 * n * 20 * 4) as u64, move |i| {
        let c = coords(i, &[20, n, 20, 4]);
        let mut b: Vec<u8> = (0..80).map(|i| pat_byte('l', i)).collect();
        b[c[2] * 4..c[2] * 4 + 4].copy_from_slice(&few[c[3]].to_le_bytes());
        b[c[0] * 4..c[0] * 4 + 4].copy_from_slice(&sp[c[1]].to_le_bytes());
        Case::Hash(a, Data::Bytes(b))
    }));
    v.push(product("block-edge-bytes", "every byte value at the first and last position around the 64-byte block edges", vec![cat(&[&r(1, 8), &r(52, 72), &r(116, 132)]), r(0, 1), r(0, 255)], move |x| {
        let pos = if x[1] == 0 { 0 } else { x[0] - 1 };
        Case::Hash(a, patm('l', x[0] as u32, &[(pos as u32, x[2] as u8)]))
    }));
    v.push(space("header-bit-pairs", "every pair of bits set in an 80-byte zero header", 640 * 639 / 2, move |i| {
        let (x, y) = pair(i, 640);
        Case::Hash(a, flip('z', 80, &[x, y]))
    }));
    v.push(space("nonces", "consecutive nonces of one 80-byte header", if th { 40_000_000 } else { 1_000_000 }, move |i| Case::Hash(a, counter('l', 80, 76, i, 4))));
    if hooks {
        for &s in stages {
            v.extend(stage_spaces(s, th));
        }
    }
    v
}

/// The private 32-byte stages: inputs an earlier stage may hand over but that cannot be chosen from outside.
fn stage_spaces(s: Stage, th: bool) -> Vec<Space> {
    let nm = |x: &str| format!("{}-{}", s.name(), x);
    let mut v = Vec::new();
    v.push(product(&nm("bytes"), "every value of every byte, four backgrounds", vec![vec!['z' as u64, 'f' as u64, 'l' as u64, 'r' as u64], r(0, 31), r(0, 255)], move |x| {
        Case::Stage(s, patm(x[0] as u8 as char, 32, &[(x[1] as u32, x[2] as u8)]))
    }));
    v.push(product(&nm("bit-pairs"), "every pair of bits flipped, two backgrounds", vec![vec!['z' as u64, 'f' as u64], r(0, 256 * 255 / 2 - 1)], move |x| {
        let (a, b) = pair(x[1], 256);
        Case::Stage(s, flip(x[0] as u8 as char, 32, &[a, b]))
    }));
    v.push(product(&nm("runs"), "every run start..end of zeros or ones over four backgrounds", vec![r(0, 31), r(0, 32), vec![0, 255], vec!['z' as u64, 'f' as u64, 'l' as u64, 'h' as u64]], move |x| {
        let mut b: Vec<u8> = (0..32).map(|i| pat_byte(x[3] as u8 as char, i)).collect();
        for i in x[0]..x[1] {
            b[i as usize] = x[2] as u8;
        }
        Case::Stage(s, Data::Bytes(b))
    }));
    let sp: Vec<u32> = specials().iter().map(|x| *x as u32).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let n = sp.len();
    v.push(space(&nm("word-pairs"), "special 32-bit values in every pair of words", (8 * n * 8 * n) as u64, move |i| {
        let c = coords(i, &[8, n, 8, n]);
        let mut w = [0x1111_1111u32; 8];
        w[c[2]] = sp[c[3]];
        w[c[0]] = sp[c[1]];
        Case::Stage(s, Data::Bytes(w.iter().flat_map(|x| x.to_le_bytes()).collect()))
    }));
    v.push(space(&nm("counter"), "counter spread over two words", if th { 30_000_000 } else { 600_000 }, move |i| {
        let mut b: Vec<u8> = (0..32).map(|i| pat_byte('l', i)).collect();
        b[0..8].copy_from_slice(&i.to_le_bytes());
        b[16..24].copy_from_slice(&i.wrapping_mul(0x9e37_79b9_7f4a_7c15).to_le_bytes());
        Case::Stage(s, Data::Bytes(b))
    }));
    v
}

/// C06: parameters inside, on and outside the boundary of the domain. Never a huge representable matrix.
pub fn domain_spaces(th: bool) -> Vec<Space> {
    let p = |l: u64| pat('l', l as u32);
    let s = |l: u64| pat('L', l as u32);
    let mut v = Vec::new();
    v.push(product(
        "grid",
        "full product of zero, boundary and ordinary values of all six arguments",
        vec![
            vec![0, 1, 8, 32, 95, 96, 97, 300],
            vec![0, 1, 8, 16, 33, 64, 100, 200, 400],
            vec![0, 1, 8, 16, 33, 64, 100, 200, 400],
            vec![0, 1, 2, 3],
            r(0, if th { 17 } else { 9 }),
            r(0, if th { 6 } else { 4 }),
        ],
        move |x| kdf(x[0], p(x[1]), s(x[2]), x[3], x[4], x[5]),
    ));
    v.push(combinations("pairs", 2, 1, &GROUNDS, if th { 100_000 } else { 20_000 }));
    v.push(list("capacity", "every total input length around the capacity of the matrix, several splits", capacity_cases(&r(3, if th { 20 } else { 12 }), &r(1, if th { 10 } else { 6 }), &[0, 32, 97])));
    let all: Vec<Case> = {
        let mut v = Vec::new();
        for rr in 3..=6u64 {
            for c in 1..=if th { 4 } else { 2 } {
                let lim = rr * c * 96 + 100;
                for pl in 0..lim {
                    for sl in 0..(lim - pl) {
                        if th || (pl + sl) % 8 < 2 || (pl + sl + 48) % 64 > 61 || pl % 16 == 0 {
                            v.push(kdf(32, p(pl), s(sl), 1, rr, c));
                        }
                    }
                }
            }
        }
        v
    };
    v.push(list("length-pairs", "pairs of password and salt lengths from empty to beyond capacity for the smallest matrices", all));
    // rejected for one reason whatever the others are
    let big = vec![0, 1, 2, 3, 4, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 4, u64::MAX - 1, u64::MAX];
    let b2 = big.clone();
    v.push(product("rejected-rows", "row count 0, 1, 2 with every time cost and column count", vec![r(0, 2), big.clone(), r(0, 5), vec![0, 32], vec![0, 8, 70]], move |x| {
        kdf(x[3], p(x[4]), s(x[4]), x[1], x[0], x[2])
    }));
    v.push(product("rejected-time", "time cost 0 with small matrices", vec![r(0, 40), r(0, 5), vec![0, 32, 100], vec![0, 8, 70]], move |x| kdf(x[2], p(x[3]), s(x[3]), 0, x[0], x[1])));
    v.push(product("rejected-empty", "column count 0: a matrix of no bytes, whatever rows and time cost", vec![b2.clone(), vec![0, 1, 2, 65536, u64::MAX], vec![0, 32], vec![0, 16]], move |x| kdf(x[2], p(x[3]), s(x[3]), x[1], x[0], 0)));
    // matrix sizes that are not addressable; every factorisation around the places where products wrap
    let mut wraps: Vec<Case> = Vec::new();
    let mut side: Vec<u64> = Vec::new();
    for n in 0..64u32 {
        for d in -5i64..=5 {
            side.push((1u64 << n).wrapping_add(d as u64));
        }
    }
    for m in [3u64, 12, 96, 8, 5, 7, 24, 48] {
        for d in 0..5u64 {
            side.push((u64::MAX / m).wrapping_add(d));
            side.push((i64::MAX as u64 / m).wrapping_add(d));
            side.push(u64::MAX / m - d);
            side.push(i64::MAX as u64 / m - d);
            side.push((u32::MAX as u64 / m).wrapping_add(d));
        }
    }
    side.sort_unstable();
    side.dedup();
    let step = if th { 1 } else { 3 };
    for (i, &a) in side.iter().enumerate() {
        for (j, &b) in side.iter().enumerate() {
            if a as u128 * b as u128 > i64::MAX as u128 / 96 && a >= 3 {
                let small = a < 200 || b < 200;
                if small || (i + j) % step == 0 {
                    wraps.push(kdf(32, p(8), s(8), 1, a, b));
                }
            }
        }
    }
    v.push(list("unaddressable", "matrix sizes beyond the address space, including all that wrap to a small size", wraps));
    v.push(list("unaddressable-output", "output lengths beyond the address space", unaddressable_outputs()));
    v.push(product("output-lengths", "every output length", vec![cat(&[&r(0, if th { 10_000 } else { 3_000 }), &edges(12, if th { 27 } else { 24 })]), vec![3, 4]], move |x| kdf(x[0], p(9), s(8), 1, x[1], 1)));
    v.push(product("rows", "every row count terminates", vec![r(3, if th { 9000 } else { 2100 }), vec![1, 2, 3]], move |x| kdf(16, p(0), s(0), x[1], x[0], 1)));
    v.push(product("rows-large", "row counts around larger powers of two", vec![edges(13, if th { 22 } else { 19 }), vec![1, 2]], move |x| kdf(16, p(0), s(0), x[1], x[0], 1)));
    v.push(product("time-costs", "every time cost terminates", vec![cat(&[&r(1, if th { 5000 } else { 1100 }), &edges(13, 17)]), vec![3, 4, 5, 7, 8]], move |x| kdf(16, p(3), s(8), x[0], x[1], 1)));
    v.push(product("columns", "every column count", vec![cat(&[&r(1, if th { 5000 } else { 1100 }), &edges(12, 17)]), vec![3, 4, 5]], move |x| kdf(16, p(3), s(8), 1, x[1], x[0])));
    v.push(product("contents", "ordinary and unusual contents", vec![r(0, 79), r(0, 255), vec![3, 4]], move |x| kdf(32, patm('l', 80, &[(x[0] as u32, x[1] as u8)]), s(8), 1, x[2], 4)));
    v
}

/// C14
pub fn sum_spaces(th: bool) -> Vec<Space> {
    let pats = ['z', 'f', 'r', 'h', 't', 'l', 'L'];
    let mut v = vec![short_messages(if th { 3 } else { 2 }, Case::Sum)];
    v.push(product("lengths", "every length from empty to far beyond what the matrix holds", vec![r(0, if th { 10_000 } else { 2_000 }), r(0, 6)], move |x| Case::Sum(pat(pats[x[1] as usize], x[0] as u32))));
    v.push(product("long", "lengths around powers of two", vec![edges(12, 22), r(5, 5)], move |x| Case::Sum(pat(pats[x[1] as usize], x[0] as u32))));
    v.push(product("bytes", "every value of every byte of an 80-byte input", vec![vec!['z' as u64, 'l' as u64], r(0, 79), r(0, 255)], move |x| Case::Sum(patm(x[0] as u8 as char, 80, &[(x[1] as u32, x[2] as u8)]))));
    v.push(product("tail-bytes", "every value of the last bytes for every length", vec![r(1, 760), r(0, 7), vec![0, 1, 0x7f, 0x80, 0xff]], move |x| {
        let at = x[0].saturating_sub(1 + x[1]);
        Case::Sum(patm('l', x[0] as u32, &[(at as u32, x[2] as u8)]))
    }));
    v.push(space("bit-pairs", "every pair of bits set in a 64-byte zero input", 512 * 511 / 2, |i| {
        let (a, b) = pair(i, 512);
        Case::Sum(flip('z', 64, &[a, b]))
    }));
    v.extend(of_one("", th, Case::Sum));
    v.push(space("counter", "counter in a 32-byte input", if th { 60_000_000 } else { 1_500_000 }, |i| Case::Sum(counter('l', 32, 0, i, 8))));
    v
}

/// Output lengths beyond the address space of any platform; the low 32 bits range from none to all.
pub fn unaddressable_outputs() -> Vec<Case> {
    let mut ks: Vec<u64> = Vec::new();
    for n in 0..64u32 {
        for d in [-97i64, -96, -1, 0, 1, 16, 32, 96] {
            ks.push((1u64 << 63).wrapping_add(1 << n).wrapping_add(d as u64));
            ks.push((1u64 << n).wrapping_neg().wrapping_add(d as u64));
            ks.push((1u64 << 63).wrapping_add(d as u64));
        }
    }
    ks.retain(|k| *k > i64::MAX as u64);
    ks.sort_unstable();
    ks.dedup();
    let k = |k, n, r, c| kdf(k, pat('l', n), pat('L', 8), 1, r, c);
    ks.into_iter().flat_map(|x| [k(x, 8, 3, 1), k(x, 32, 4, 4)]).collect()
}

/// Time costs that cannot be spent in the lifetime of a check. A call that comes back has not spent them.
pub fn endless() -> Vec<Case> {
    let mut ts: Vec<u64> = Vec::new();
    for n in [31u32, 32, 33, 40, 48, 52, 53, 62, 63] {
        for d in [-1i64, 0, 1, 2] {
            ts.push((1u64 << n).wrapping_add(d as u64));
        }
    }
    for d in [0, 1, 2, 255, 65535, u32::MAX as u64, 1 << 53] {
        ts.push(u64::MAX - d);
    }
    let k = |t, r, c| kdf(32, pat('l', 8), pat('L', 8), t, r, c);
    ts.into_iter().flat_map(|t| [k(t, 3, 1), k(t, 8, 2)]).collect()
}

/// Output lengths beyond 32 bits: nothing that comes back at once has that length.
pub fn long_outputs() -> Vec<Case> {
    let mut v = Vec::new();
    for n in 31..63u32 {
        for d in [0u64, 1, 32] {
            v.push(kdf((1 << n) + d, pat('l', 8), pat('L', 8), 1, 3, 1));
        }
    }
    v
}

/// Sizes that no 32-bit platform can address: whatever else happens, there must not be a key.
pub fn beyond_32_bits() -> Vec<Case> {
    let mut v = Vec::new();
    let p = || pat('l', 8);
    for n in 31..63u32 {
        for d in [0u64, 1, 16, 32, 96] {
            v.push(kdf((1 << n) + d, p(), p(), 1, 4, 4));
            v.push(kdf(3 * (1 << (n - 1)) + d, p(), p(), 1, 3, 1));
        }
        // words, blocks and bytes of the matrix pass 2^32 at different sizes
        for m in [1u64, 3, 12, 24, 96, 48] {
            for d in 0..3 {
                for c in [1u64, 2, 4, 16, 65536] {
                    let r = (1u64 << n) / m / c + d;
                    if r >= 3 && r as u128 * c as u128 * 96 > u32::MAX as u128 / 2 && (r as u128 * c as u128) < i64::MAX as u128 / 96 {
                        v.push(kdf(32, p(), p(), 1, r, c));
                        v.push(kdf(32, p(), p(), 1, c.max(3), r));
                    }
                }
            }
        }
    }
    v
}

/// C13: everything every build mode is compared on. `dev` is ~30 times slower, so smaller.
pub fn mode_spaces(th: bool, hooks: bool) -> Vec<Space> {
    let p = |l: u64| pat('l', l as u32);
    let s = |l: u64| pat('L', l as u32);
    let mut v = Vec::new();
    v.push(product(
        "kdf-grid",
        "full product of zero, boundary and ordinary values of all six arguments",
        vec![vec![0, 1, 32, 96, 97, 200], vec![0, 1, 8, 31, 64, 200, 400], vec![0, 1, 8, 31, 64, 200, 400], r(0, 3), r(0, if th { 17 } else { 9 }), r(0, if th { 5 } else { 4 })],
        move |x| kdf(x[0], p(x[1]), s(x[2]), x[3], x[4], x[5]),
    ));
    let mut wraps = Vec::new();
    for n in 0..64u32 {
        for d in 0..6u64 {
            let a = (1u64 << n).wrapping_add(d);
            for b in [1u64, 2, 3, 4, 5, 8, 16, 1 << 31, 1 << 32, 1 << 60, 1 << 61, 1 << 62, 1 << 63, u64::MAX / 12, u64::MAX / 96 + 1, u64::MAX] {
                if a as u128 * b as u128 > i64::MAX as u128 / 96 {
                    wraps.push(kdf(32, p(8), s(8), 1, a, b));
                    wraps.push(kdf(32, p(8), s(8), 1, b, a));
                }
            }
        }
    }
    v.push(list("unaddressable", "matrix sizes whose computation overflows", wraps));
    v.push(list("unaddressable-output", "output lengths beyond the address space", unaddressable_outputs()));
    v.push(product("rows", "every row count", vec![r(3, if th { 1030 } else { 300 }), r(1, 3), vec![1, 2]], move |x| kdf(32, p(32), s(8), x[1], x[0], x[2])));
    v.push(product("rows-large", "row counts around powers of two", vec![edges(10, if th { 16 } else { 13 }), vec![1, 2]], move |x| kdf(32, p(32), s(8), x[1], x[0], 1)));
    v.push(product("columns", "every column count", vec![cat(&[&r(1, if th { 1030 } else { 260 }), &edges(10, 13)]), vec![3, 4]], move |x| kdf(32, p(16), s(8), 1, x[1], x[0])));
    v.push(product("time-costs", "every time cost", vec![cat(&[&r(1, if th { 1030 } else { 300 }), &edges(10, 12)]), vec![3, 4, 5, 8]], move |x| kdf(32, p(16), s(8), x[0], x[1], 1)));
    v.push(product("output-lengths", "every output length", vec![cat(&[&r(0, if th { 2100 } else { 600 }), &edges(10, 14)]), vec![3, 4]], move |x| kdf(x[0], p(16), s(8), 1, x[1], 1)));
    v.push(list("capacity", "inputs around the capacity of the matrix", capacity_cases(&r(3, 6), &r(1, 3), &[32])));
    v.push(combinations("pairs", 2, if th { 1 } else { 2 }, if th { &GROUNDS } else { &GROUNDS[1..3] }, if th { 40_000 } else { 4_000 }));
    v.push(product("long", "long passwords and salts", vec![cat(&[&r(0, if th { 4000 } else { 1300 }), &edges(11, if th { 20 } else { 16 })]), vec![0, 8], vec![0, 1]], move |x| {
        let (a, b) = if x[2] == 0 { (x[0], x[1]) } else { (x[1], x[0]) };
        kdf(32, p(a), s(b), 1, (x[0] / 1536 + 8).next_power_of_two(), 16)
    }));
    v.push(product("kdf-bytes", "every value of every byte of password and salt", vec![r(0, 1), r(0, 39), r(0, 255)], move |x| {
        let m = [(x[1] as u32, x[2] as u8)];
        if x[0] == 0 { kdf(32, patm('z', 40, &m), pat('z', 40), 1, 4, 4) } else { kdf(32, pat('f', 40), patm('f', 40, &m), 1, 4, 4) }
    }));
    v.push(of_two(th, &[[32, 1, 4, 8]]));
    for a in crate::ALGS {
        v.extend(of_one(a.name(), false, move |d| Case::Hash(a, d)).into_iter().take(1));
    }
    v.push(product("sum-lengths", "lyra2::sum, every length", vec![r(0, 1100), vec!['l' as u64, 'f' as u64]], |x| Case::Sum(pat(x[1] as u8 as char, x[0] as u32))));
    for a in crate::ALGS {
        v.push(product(&format!("{}-lengths", a.name()), "every length, three contents", vec![r(0, if th { 4100 } else { 600 }), vec!['l' as u64, 'f' as u64, 'z' as u64]], move |x| Case::Hash(a, pat(x[1] as u8 as char, x[0] as u32))));
        v.push(product(&format!("{}-header-bytes", a.name()), "every value of every byte of an 80-byte header", vec![r(0, 79), r(0, 255)], move |x| Case::Hash(a, patm('l', 80, &[(x[0] as u32, x[1] as u8)]))));
        v.push(product(&format!("{}-long", a.name()), "lengths around powers of two", vec![edges(12, if th { 22 } else { 17 })], move |x| Case::Hash(a, pat('l', x[0] as u32))));
        v.push(space(&format!("{}-nonces", a.name()), "consecutive nonces", if th { 400_000 } else { 30_000 }, move |i| Case::Hash(a, counter('l', 80, 76, i, 4))));
    }
    if hooks {
        for st in [Stage::Bmw, Stage::Cube, Stage::Lyra2Mod] {
            v.push(product(&format!("{}-bytes", st.name()), "every value of every byte, three backgrounds", vec![vec!['z' as u64, 'f' as u64, 'l' as u64], r(0, 31), r(0, 255)], move |x| Case::Stage(st, patm(x[0] as u8 as char, 32, &[(x[1] as u32, x[2] as u8)]))));
            v.push(product(&format!("{}-bit-pairs", st.name()), "every pair of bits flipped, two backgrounds", vec![vec!['z' as u64, 'f' as u64], r(0, 256 * 255 / 2 - 1)], move |x| {
                let (a, b) = pair(x[1], 256);
                Case::Stage(st, flip(x[0] as u8 as char, 32, &[a, b]))
            }));
        }
    }
    v
}

/// C10: schedule-relevant parameters with fixed small inputs.
pub fn visit_spaces(th: bool) -> Vec<Space> {
    let p = |l: u64| pat('l', l as u32);
    let s = |l: u64| pat('L', l as u32);
    let mut v = Vec::new();
    v.push(product("rows-time", "every row count and time cost", vec![r(3, if th { 1030 } else { 300 }), r(1, if th { 12 } else { 8 }), vec![1, 2]], move |x| kdf(32, p(8), s(8), x[1], x[0], x[2])));
    v.push(product("rows", "every row count", vec![r(3, if th { 9000 } else { 2100 }), vec![1, 2]], move |x| kdf(32, p(8), s(8), x[1], x[0], 1)));
    v.push(product("powers", "powers of two and their neighbours", vec![edges(2, if th { 22 } else { 20 }), vec![1, 2], vec![1]], move |x| kdf(32, p(8), s(8), x[1], x[0].max(3), x[2])));
    v.push(product("shapes", "every matrix shape", vec![r(3, if th { 130 } else { 40 }), r(1, if th { 66 } else { 33 }), r(1, 3)], move |x| kdf(32, p(8), s(8), x[2], x[0], x[1])));
    v.push(product("time-costs", "every time cost", vec![cat(&[&r(1, if th { 3000 } else { 600 }), &edges(12, 15)]), vec![3, 4, 8, 16]], move |x| kdf(32, p(8), s(8), x[0], x[1], 1)));
    v.push(space("choices", "many different data-dependent row choices, 3..=18 rows", if th { 20_000_000 } else { 800_000 }, |i| {
        let d = counter('l', 16, 0, i, 8);
        kdf(32, d.clone(), d, 1 + i % 3, 3 + i % 16, 1 + i % 2)
    }));
    v
}

pub fn spaces_for(prop: &str, th: bool, hooks: bool) -> Vec<Space> {
    match prop {
        "C01" => kdf_spaces(th),
        "C02" => chain_spaces(Alg::Re, &[], th, hooks),
        "C03" => chain_spaces(Alg::Rev2, &[Stage::Cube, Stage::Bmw], th, hooks),
        "C04" => chain_spaces(Alg::Rev3, &[Stage::Lyra2Mod, Stage::Cube, Stage::Bmw], th, hooks),
        "C05" => chain_spaces(Alg::Z, &[], th, hooks),
        "C06" => domain_spaces(th),
        "C09" => bind_spaces(th),
        "C10" => visit_spaces(th),
        "C12" => mode_spaces(th, false),
        "C13" => mode_spaces(th, hooks),
        "C14" => sum_spaces(th),
        _ => Vec::new(),
    }
}

/// C09: families in which every two cases have different arguments (or are generated twice).
pub fn bind_spaces(th: bool) -> Vec<Space> {
    let p = |l: u64| pat('l', l as u32);
    let s = |l: u64| pat('L', l as u32);
    let mut v = Vec::new();
    v.push(product(
        "kdf-grid",
        "full product of small values of all six arguments",
        vec![vec![16, 17, 32, 48, 96, 97], cat(&[&r(0, 17), &[24, 32, 33, 40]]), cat(&[&r(0, 17), &[24, 32, 33, 40]]), r(1, 4), r(3, 9), r(2, 4)],
        move |x| kdf(x[0], p(x[1]), s(x[2]), x[3], x[4], x[5]),
    ));
    v.push(combinations("kdf-pairs", 2, 1, &GROUNDS, if th { 100_000 } else { 20_000 }));
    v.push(product("kdf-zeros", "all-zero passwords and salts of every length (only the lengths differ)", vec![r(0, if th { 600 } else { 130 }), r(0, if th { 600 } else { 130 })], |x| kdf(32, pat('z', x[0] as u32), pat('z', x[1] as u32), 1, 4, 8)));
    v.push(product("kdf-split", "one byte string split between password and salt at every place", vec![r(0, 260), r(0, 260)], |x| {
        let (n, cut) = (x[0], x[1].min(x[0]));
        let all = pat('r', n as u32).bytes();
        kdf(32, Data::Bytes(all[..cut as usize].to_vec()), Data::Bytes(all[cut as usize..].to_vec()), 1, 4, 8)
    }));
    v.push(product("kdf-bytes", "every value of every byte of password and salt (every length up to 40)", vec![r(0, 1), r(1, 40), r(0, 39), vec![0, 1, 2, 0x40, 0x7f, 0x80, 0xff]], |x| {
        let at = x[2].min(x[1] - 1);
        let m = patm('z', x[1] as u32, &[(at as u32, x[3] as u8)]);
        if x[0] == 0 { kdf(32, m, pat('z', 8), 1, 4, 4) } else { kdf(32, pat('z', 8), m, 1, 4, 4) }
    }));
    v.push(product("kdf-long-bytes", "one changed bit at every position of long passwords and salts", vec![r(0, 1), r(0, 1199), r(0, 7)], |x| {
        let d = flip('z', 1200, &[x[1] * 8 + x[2]]);
        if x[0] == 0 { kdf(32, d, pat('l', 64), 1, 8, 8) } else { kdf(32, pat('l', 64), d, 1, 8, 8) }
    }));
    v.push(space("kdf-bit-pairs", "every pair of bits of a 32-byte password and a 32-byte salt", 512 * 511 / 2, |i| {
        let (a, b) = pair(i, 512);
        let all = flip('z', 64, &[a, b]).bytes();
        kdf(32, Data::Bytes(all[..32].to_vec()), Data::Bytes(all[32..].to_vec()), 1, 4, 4)
    }));
    v.push(of_two(th, &[[32, 1, 4, 8], [48, 1, 5, 6]]));
    v.extend(of_one("password", th, |d| kdf(32, d, pat('L', 16), 1, 4, 8)));
    v.extend(of_one("salt", th, |d| kdf(32, pat('l', 16), d, 1, 4, 8)));
    v.push(product("kdf-k", "every output length (each of 16 bytes or more)", vec![cat(&[&r(16, if th { 9000 } else { 1100 }), &edges(14, 18)]), vec![3, 4, 8]], move |x| kdf(x[0], p(8), s(8), 1, x[1], 2)));
    v.push(product("kdf-t", "every time cost", vec![cat(&[&r(1, if th { 4000 } else { 1030 }), &edges(12, 17)]), vec![3, 4, 8]], move |x| kdf(32, p(8), s(8), x[0], x[1], 1)));
    v.push(product("kdf-r", "every row count", vec![cat(&[&r(3, if th { 5000 } else { 1500 }), &edges(13, 17)]), vec![1, 2]], move |x| kdf(32, p(8), s(8), x[1], x[0], 1)));
    v.push(product("kdf-c", "every column count", vec![cat(&[&r(1, if th { 5000 } else { 1030 }), &edges(12, 17)]), vec![3, 4]], move |x| kdf(32, p(8), s(8), 1, x[1], x[0])));
    v.push(product("kdf-rc", "every matrix shape", vec![r(3, 66), r(1, 66), vec![1, 2]], move |x| kdf(32, p(8), s(8), x[2], x[0], x[1])));
    v.push(product("sum-bytes", "lyra2::sum: every byte of inputs of every length", vec![r(1, 64), r(0, 63), vec![0, 1, 0x80, 0xff]], |x| Case::Sum(patm('z', x[0] as u32, &[(x[1].min(x[0] - 1) as u32, x[2] as u8)]))));
    v.push(product("sum-lengths", "lyra2::sum: every length, constant contents", vec![r(0, 743), vec!['z' as u64, 'f' as u64]], |x| Case::Sum(pat(x[1] as u8 as char, x[0] as u32))));
    v.push(product("sum-long-bytes", "lyra2::sum: one changed bit at every position of the longest input", vec![r(0, 735), r(0, 7)], |x| Case::Sum(flip('z', 736, &[x[0] * 8 + x[1]]))));
    for a in crate::ALGS {
        let sm = short_messages(2, move |d| Case::Hash(a, d));
        v.extend(of_one(a.name(), th, move |d| Case::Hash(a, d)));
        v.push(Space { name: format!("{}-short", a.name()), ..sm });
        v.push(product(&format!("{}-lengths", a.name()), "every length, constant contents", vec![r(0, if th { 9000 } else { 2000 }), vec!['z' as u64, 'f' as u64]], move |x| Case::Hash(a, pat(x[1] as u8 as char, x[0] as u32))));
        v.push(product(&format!("{}-bits", a.name()), "one changed bit at every position of messages of every length", vec![r(1, if th { 600 } else { 200 }), r(0, if th { 599 } else { 199 }), vec![0, 7]], move |x| Case::Hash(a, flip('z', x[0] as u32, &[x[1].min(x[0] - 1) * 8 + x[2]]))));
        v.push(product(&format!("{}-header-bytes", a.name()), "every value of every byte of an 80-byte header", vec![r(0, 79), r(0, 255)], move |x| Case::Hash(a, patm('l', 80, &[(x[0] as u32, x[1] as u8)]))));
        v.push(product(&format!("{}-long-bits", a.name()), "one changed bit at every position of a long message", vec![r(0, if th { 65535 } else { 8191 })], move |x| Case::Hash(a, patm('z', if th { 65536 } else { 8192 }, &[(x[0] as u32, 0x80)]))));
        // lengths near powers of two; positions from the end, from the start
        let lens: Vec<u64> = (9..=if th { 22u64 } else { 18 }).flat_map(|n| [0u64, 1, 7, 37, 63, 64, 65, 100, 127].map(|d| (1u64 << n) + d)).collect();
        v.push(product(&format!("{}-tails", a.name()), "one changed byte at each of the last 160 and the first 8 positions of long messages", vec![lens, r(0, 167)], move |x| {
            let at = if x[1] < 160 { x[0] - 1 - x[1] } else { x[1] - 160 };
            Case::Hash(a, patm('z', x[0] as u32, &[(at as u32, 0x55)]))
        }));
        v.push(product(&format!("{}-boundaries", a.name()), "one changed byte around every 64-byte boundary of a long message", vec![r(1, if th { 16384 } else { 1500 }), r(0, 1)], move |x| {
            Case::Hash(a, patm('z', if th { 64 * 16384 + 37 } else { 64 * 1500 + 37 }, &[((x[0] * 64 - x[1]) as u32, 0x55)]))
        }));
        v.push(space(&format!("{}-nonces", a.name()), "consecutive nonces", if th { 4_000_000 } else { 250_000 }, move |i| Case::Hash(a, counter('l', 80, 76, i, 4))));
    }
    v
}
