//! Pairs of different calls whose arguments have the same checksum, the same sums, the same low bits or
//! the same product. A call that remembers an earlier one by such a key takes one for the other.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use vcommon::spaces::kdf;
use vcommon::{pat, Case, Data, Stage, ALGS};

pub type Key = (&'static str, fn(&[u8]) -> u32);

fn crc(poly: u32) -> [u32; 256] {
    let mut t = [0; 256];
    for i in 0..256u32 {
        t[i as usize] = (0..8).fold(i, |c, _| if c & 1 == 1 { c >> 1 ^ poly } else { c >> 1 });
    }
    t
}
fn crc_of(t: &[u32; 256], m: &[u8]) -> u32 {
    !m.iter().fold(!0u32, |c, b| t[(c as u8 ^ b) as usize] ^ c >> 8)
}
fn crc_be(m: &[u8]) -> u32 {
    !m.iter().fold(!0u32, |c, b| (0..8).fold(c ^ (*b as u32) << 24, |c, _| if c >> 31 == 1 { c << 1 ^ 0x04c1_1db7 } else { c << 1 }))
}
fn poly(m: &[u8], start: u32, mul: u32) -> u32 {
    m.iter().fold(start, |h, b| h.wrapping_mul(mul).wrapping_add(*b as u32))
}
fn words(m: &[u8]) -> impl Iterator<Item = u32> + '_ {
    m.chunks(4).map(|c| c.iter().rev().fold(0, |w, b| w << 8 | *b as u32))
}
fn fnv64(m: &[u8]) -> u64 {
    m.iter().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3))
}
fn sip(m: &[u8]) -> u64 {
    let mut h = DefaultHasher::new();
    m.hash(&mut h);
    h.finish()
}
fn murmur3(m: &[u8]) -> u32 {
    let mut h = 0u32;
    for w in words(m) {
        h = (h ^ w.wrapping_mul(0xcc9e_2d51).rotate_left(15).wrapping_mul(0x1b87_3593)).rotate_left(13).wrapping_mul(5).wrapping_add(0xe654_6b64);
    }
    h ^= m.len() as u32;
    h = (h ^ h >> 16).wrapping_mul(0x85eb_ca6b);
    h = (h ^ h >> 13).wrapping_mul(0xc2b2_ae35);
    h ^ h >> 16
}
fn fx64(m: &[u8]) -> u64 {
    m.chunks(8).fold(0, |h: u64, c| (h.rotate_left(5) ^ c.iter().rev().fold(0, |w, b| w << 8 | *b as u64)).wrapping_mul(0x517c_c1b7_2722_0a95))
}

pub const KEYS: [Key; 27] = [
    ("crc32", |m| crc_of(&crc(0xedb8_8320), m)),
    ("crc32c", |m| crc_of(&crc(0x82f6_3b78), m)),
    ("crc32 msb first", crc_be),
    ("adler32", |m| {
        let (mut a, mut b) = (1u32, 0u32);
        for x in m {
            a = (a + *x as u32) % 65521;
            b = (b + a) % 65521;
        }
        b << 16 | a
    }),
    ("fletcher32", |m| {
        let (mut a, mut b) = (0u32, 0u32);
        for x in m.chunks(2) {
            a = (a + x[0] as u32 + ((*x.get(1).unwrap_or(&0) as u32) << 8)) % 65535;
            b = (b + a) % 65535;
        }
        b << 16 | a
    }),
    ("fletcher16", |m| {
        let (mut a, mut b) = (0u32, 0u32);
        for x in m {
            a = (a + *x as u32) % 255;
            b = (b + a) % 255;
        }
        b << 8 | a
    }),
    ("fnv1-32", |m| m.iter().fold(0x811c_9dc5, |h: u32, b| h.wrapping_mul(0x0100_0193) ^ *b as u32)),
    ("fnv1a-32", |m| m.iter().fold(0x811c_9dc5, |h: u32, b| (h ^ *b as u32).wrapping_mul(0x0100_0193))),
    ("fnv1a-64 low", |m| fnv64(m) as u32),
    ("fnv1a-64 high", |m| (fnv64(m) >> 32) as u32),
    ("fnv1a-64 folded", |m| (fnv64(m) >> 32 ^ fnv64(m)) as u32),
    ("djb2", |m| poly(m, 5381, 33)),
    ("djb2 xor", |m| m.iter().fold(5381, |h: u32, b| h.wrapping_mul(33) ^ *b as u32)),
    ("sdbm", |m| poly(m, 0, 65599)),
    ("java", |m| poly(m, 0, 31)),
    ("java from 17", |m| poly(m, 17, 31)),
    ("131", |m| poly(m, 0, 131)),
    ("one at a time", |m| {
        let mut h = m.iter().fold(0u32, |h, b| {
            let h = h.wrapping_add(*b as u32);
            let h = h.wrapping_add(h << 10);
            h ^ h >> 6
        });
        h = h.wrapping_add(h << 3);
        h ^= h >> 11;
        h.wrapping_add(h << 15)
    }),
    ("murmur3", murmur3),
    ("siphash low", |m| sip(m) as u32),
    ("siphash high", |m| (sip(m) >> 32) as u32),
    ("fx low", |m| fx64(m) as u32),
    ("fx high", |m| (fx64(m) >> 32) as u32),
    ("rotate 5 xor byte", |m| m.iter().fold(0, |h: u32, b| h.rotate_left(5) ^ *b as u32)),
    ("rotate 5 xor word", |m| words(m).fold(0, |h, w| h.rotate_left(5) ^ w)),
    ("rotate 1 add word", |m| words(m).fold(0, |h, w| h.rotate_left(1).wrapping_add(w))),
    ("31 over words", |m| words(m).fold(0, |h: u32, w| h.wrapping_mul(31).wrapping_add(w))),
];

fn mix(x: u64) -> u64 {
    let x = (x ^ x >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    let x = (x ^ x >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ x >> 31
}
/// A header-like message of n bytes: a fixed middle, counters spread over head and tail
fn message(n: usize, j: u64) -> Vec<u8> {
    let mut v = pat('l', n as u32).bytes();
    v[..8].copy_from_slice(&mix(2 * j + 1).to_le_bytes());
    v[n - 8..].copy_from_slice(&mix(2 * j + 2).to_le_bytes());
    v
}

/// The first `want` pairs of messages of n bytes with the same key, in the order of a fixed enumeration
pub fn pairs(key: Key, n: usize, want: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut seen: HashMap<u32, u64> = HashMap::new();
    let mut out = Vec::new();
    let table = [crc(0xedb8_8320), crc(0x82f6_3b78)];
    for j in 0..1_000_000 {
        let m = message(n, j);
        let h = match key.0 {
            "crc32" => crc_of(&table[0], &m),
            "crc32c" => crc_of(&table[1], &m),
            _ => key.1(&m),
        };
        if let Some(i) = seen.insert(h, j) {
            out.push((message(n, i), m));
            if out.len() == want {
                break;
            }
        }
    }
    out
}

/// Pairs of equal length whose sums and exclusive ors over bytes, words or blocks agree
fn swaps(n: usize) -> Vec<(&'static str, Vec<u8>, Vec<u8>)> {
    let a = message(n, 0);
    let swap = |w: usize| {
        let mut b = a.clone();
        for i in 0..w {
            b.swap(i, n - w - (n % w) + i);
        }
        b
    };
    let with = |f: &dyn Fn(&mut Vec<u8>)| {
        let mut b = a.clone();
        f(&mut b);
        b
    };
    let mut v = vec![
        ("two bytes swapped", a.clone(), swap(1)),
        ("two 16-bit words swapped", a.clone(), swap(2)),
        ("two 32-bit words swapped", a.clone(), swap(4)),
        ("two 64-bit words swapped", a.clone(), swap(8)),
        ("two 128-bit words swapped", a.clone(), swap(16)),
        ("reversed", a.clone(), a.iter().rev().copied().collect()),
        ("sorted", a.clone(), with(&|b| b.sort())),
        ("one bit in two 64-bit words", a.clone(), with(&|b| {
            b[0] ^= 1;
            b[8] ^= 1
        })),
        ("one bit in two 32-bit words", a.clone(), with(&|b| {
            b[3] ^= 0x80;
            b[7] ^= 0x80
        })),
        ("+1 in one byte, -1 in another", a.clone(), with(&|b| {
            b[5] = b[5].wrapping_add(1);
            b[13] = b[13].wrapping_sub(1)
        })),
        ("complemented", a.clone(), a.iter().map(|b| !b).collect()),
        ("rotated by 8", a.clone(), with(&|b| b.rotate_left(8))),
    ];
    // runs of zeros: the sums do not see where they stand
    let mut z = vec![0u8; n];
    z[0] = 1;
    let mut y = vec![0u8; n];
    y[n - 1] = 1;
    v.push(("one set byte, first or last", z, y));
    v
}

/// Two texts with the same value of every polynomial hash modulo 2^64 (Thue-Morse)
fn thue_morse(n: usize) -> (Vec<u8>, Vec<u8>) {
    let t = |x: u8| (0..n).map(|i: usize| b'a' + (i.count_ones() as u8 & 1 ^ x)).collect();
    (t(0), t(1))
}

/// Every pair, as two calls of the same function
pub fn calls(thorough: bool, hooks: bool) -> Vec<(String, Case, Case)> {
    let want = if thorough { 6 } else { 2 };
    let mut texts: Vec<(String, Vec<u8>, Vec<u8>)> = Vec::new();
    std::thread::scope(|s| {
        let hs: Vec<_> = KEYS.iter().flat_map(|k| [32, 80].map(|n| s.spawn(move || (k.0, n, pairs(*k, n, want))))).collect();
        for h in hs {
            let (name, n, ps) = h.join().unwrap();
            texts.extend(ps.into_iter().map(|(a, b)| (format!("{name} of {n} bytes"), a, b)));
        }
    });
    for n in [32, 80] {
        texts.extend(swaps(n).into_iter().map(|(w, a, b)| (format!("{w}, {n} bytes"), a, b)));
    }
    let long: Vec<_> = [1024, 4096].into_iter().map(|n| ("Thue-Morse".to_string(), thue_morse(n))).collect();
    let mut v = Vec::new();
    for (w, a, b) in texts.iter().map(|(w, a, b)| (w, a, b)).chain(long.iter().map(|(w, (a, b))| (w, a, b))) {
        let (a, b) = (Data::Bytes(a.clone()), Data::Bytes(b.clone()));
        for alg in ALGS {
            v.push((w.clone(), Case::Hash(alg, a.clone()), Case::Hash(alg, b.clone())));
        }
        let c = a.len() / 48 + 4;
        v.push((w.clone(), kdf(32, a.clone(), pat('L', 32), 1, 4, c as u64), kdf(32, b.clone(), pat('L', 32), 1, 4, c as u64)));
        v.push((w.clone(), kdf(32, pat('l', 32), a.clone(), 1, 4, c as u64), kdf(32, pat('l', 32), b.clone(), 1, 4, c as u64)));
        v.push((w.clone(), kdf(32, a.clone(), b.clone(), 1, 4, 2 * c as u64), kdf(32, b.clone(), a.clone(), 1, 4, 2 * c as u64)));
        if a.len() <= 300 {
            v.push((w.clone(), Case::Sum(a.clone()), Case::Sum(b.clone())));
        }
        if hooks && a.len() == 32 {
            for s in [Stage::Bmw, Stage::Cube, Stage::Lyra2Mod] {
                v.push((w.clone(), Case::Stage(s, a.clone()), Case::Stage(s, b.clone())));
            }
        }
    }
    // (k, T, R, C): equal low bits, equal sums, equal products, exchanged
    let k = |k, t, r, c| kdf(k, pat('l', 32), pat('L', 32), t, r, c);
    let base = k(32, 2, 4, 6);
    for (k2, t, r, c) in [
        (32 + 256, 2, 4, 6), (32 + 65536, 2, 4, 6), (32, 2 + 256, 4, 6), (32, 2 + 65536, 4, 6), (32, 2, 4 + 256, 6), (32, 2, 4 + 65536, 6),
        (32, 2, 4, 6 + 256), (32, 2, 4, 6 + 65536), (32, 2 + 16, 4, 6), (32, 2, 4 + 16, 6), (32, 2, 4, 6 + 16), (32 + 16, 2, 4, 6), (32 + 4096, 2, 4, 6),
        (32, 2, 6, 4), (32, 4, 2, 6), (32, 4, 4, 3), (32, 6, 4, 2), (32, 1, 8, 6), (32, 1, 4, 12), (32, 2, 3, 8), (32, 2, 8, 3), (32, 2, 12, 2), (32, 4, 6, 2),
        (32, 3, 4, 5), (32, 2, 5, 5), (32, 3, 3, 6), (31, 3, 4, 6), (33, 1, 4, 6), (31, 2, 5, 6), (31, 2, 4, 7), (4, 2, 32, 6), (6, 2, 4, 32), (2, 32, 4, 6), (24, 2, 4, 8),
    ] {
        v.push((format!("parameters {k2} {t} {r} {c}"), base.clone(), k(k2, t, r, c)));
    }
    // one parameter larger by 1, another one smaller by the base that packs or hashes them: x * base + y is the same
    for base in [7u64, 8, 10, 16, 31, 33, 64, 100, 128, 131, 256, 1000, 1024, 4096, 32768, 65536] {
        for x in 0..4 {
            for y in (0..4).filter(|y| *y != x) {
                let (mut a, mut b) = ([32, 2, 4, 6], [32, 2, 4, 6]);
                a[x] += 1;
                b[y] += base;
                v.push((format!("parameters packed by {base}"), k(a[0], a[1], a[2], a[3]), k(b[0], b[1], b[2], b[3])));
            }
        }
    }
    // lengths: equal low bits, equal sums
    for (p, s) in [(32 + 256, 32), (32, 32 + 256), (31, 33), (33, 31), (16, 48), (0, 64), (64, 0), (32 + 128, 32), (32, 32 + 128)] {
        let c = |p, s| kdf(32, pat('z', p), pat('z', s), 1, 4, 16);
        v.push((format!("lengths {p} and {s}"), c(32, 32), c(p, s)));
        v.push((format!("lengths {p} and {s}"), kdf(32, pat('l', 32), pat('L', 32), 1, 4, 16), kdf(32, pat('l', p), pat('L', s), 1, 4, 16)));
    }
    for alg in ALGS {
        for n in [80 + 128, 80 + 256, 80 + 512, 80 + 65536] {
            for d in ['z', 'l', 'f'] {
                v.push((format!("lengths 80 and {n}"), Case::Hash(alg, pat(d, 80)), Case::Hash(alg, pat(d, n))));
            }
        }
    }
    v
}
