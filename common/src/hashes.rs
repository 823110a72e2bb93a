//! Reference models of the fixed hash stages, written from their specifications.
use std::sync::OnceLock;

// ------------------------------------------------------------------ BLAKE-256 (14 rounds)
const PI: [u32; 16] = [
    0x243F6A88, 0x85A308D3, 0x13198A2E, 0x03707344, 0xA4093822, 0x299F31D0, 0x082EFA98, 0xEC4E6C89,
    0x452821E6, 0x38D01377, 0xBE5466CF, 0x34E90C6C, 0xC0AC29B7, 0xC97C50DD, 0x3F84D5B5, 0xB5470917,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

fn blake_compress(h: &mut [u32; 8], block: &[u8], t: u64) {
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_be_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&PI[..8]);
    v[12] ^= t as u32;
    v[13] ^= t as u32;
    v[14] ^= (t >> 32) as u32;
    v[15] ^= (t >> 32) as u32;
    const Q: [[usize; 4]; 8] = [
        [0, 4, 8, 12], [1, 5, 9, 13], [2, 6, 10, 14], [3, 7, 11, 15],
        [0, 5, 10, 15], [1, 6, 11, 12], [2, 7, 8, 13], [3, 4, 9, 14],
    ];
    for r in 0..14 {
        let s = &SIGMA[r % 10];
        for (i, &[a, b, c, d]) in Q.iter().enumerate() {
            let (x, y) = (s[2 * i], s[2 * i + 1]);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[x] ^ PI[y]);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(12);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[y] ^ PI[x]);
            v[d] = (v[d] ^ v[a]).rotate_right(8);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(7);
        }
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

pub fn blake256(msg: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [
        0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
    ];
    let full = msg.len() / 64;
    for i in 0..full {
        blake_compress(&mut h, &msg[64 * i..64 * i + 64], 512 * (i as u64 + 1));
    }
    let rest = &msg[64 * full..];
    let bits = 8 * msg.len() as u64;
    // 1 0* 1 || 64-bit length
    let mut tail = rest.to_vec();
    let total = if rest.len() <= 55 { 64 } else { 128 };
    tail.resize(total, 0);
    tail[rest.len()] ^= 0x80;
    tail[total - 9] ^= 0x01;
    tail[total - 8..].copy_from_slice(&bits.to_be_bytes());
    if total == 64 {
        blake_compress(&mut h, &tail, if rest.is_empty() { 0 } else { bits });
    } else {
        blake_compress(&mut h, &tail[..64], bits);
        blake_compress(&mut h, &tail[64..], 0);
    }
    let mut out = [0; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

// ------------------------------------------------------------------ Keccak-256 (pre-SHA3 padding)
fn keccak_consts() -> &'static ([u64; 24], [[u32; 5]; 5]) {
    static C: OnceLock<([u64; 24], [[u32; 5]; 5])> = OnceLock::new();
    C.get_or_init(|| {
        let mut rc = [0u64; 24];
        let mut lfsr = 1u8;
        for r in rc.iter_mut() {
            for j in 0..7 {
                if lfsr & 1 != 0 {
                    *r ^= 1u64 << ((1u32 << j) - 1);
                }
                lfsr = if lfsr & 0x80 != 0 { (lfsr << 1) ^ 0x71 } else { lfsr << 1 };
            }
        }
        let mut rho = [[0u32; 5]; 5];
        let (mut x, mut y) = (1usize, 0usize);
        for t in 0..24u32 {
            rho[x][y] = ((t + 1) * (t + 2) / 2) % 64;
            let ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
        }
        (rc, rho)
    })
}

fn keccak_f(a: &mut [[u64; 5]; 5]) {
    let (rcs, rho) = keccak_consts();
    for rc in rcs {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        let mut b = [[0u64; 5]; 5];
        for x in 0..5 {
            for y in 0..5 {
                b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(rho[x][y]);
            }
        }
        for x in 0..5 {
            for y in 0..5 {
                a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
            }
        }
        a[0][0] ^= rc;
    }
}

pub fn keccak256(msg: &[u8]) -> [u8; 32] {
    const RATE: usize = 136;
    let mut p = msg.to_vec();
    p.push(0x01);
    while p.len() % RATE != 0 {
        p.push(0);
    }
    *p.last_mut().unwrap() |= 0x80;
    let mut a = [[0u64; 5]; 5];
    for block in p.chunks(RATE) {
        for i in 0..RATE / 8 {
            let mut w = [0u8; 8];
            w.copy_from_slice(&block[8 * i..8 * i + 8]);
            a[i % 5][i / 5] ^= u64::from_le_bytes(w);
        }
        keccak_f(&mut a);
    }
    let mut out = [0; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&a[i % 5][i / 5].to_le_bytes());
    }
    out
}

// ------------------------------------------------------------------ Skein-512-256 (v1.3)
const TF_ROT: [[u32; 4]; 8] = [
    [46, 36, 19, 37], [33, 27, 14, 42], [17, 49, 36, 39], [44, 9, 54, 56],
    [39, 30, 34, 24], [13, 50, 10, 17], [25, 29, 39, 43], [8, 35, 56, 22],
];
const TF_PERM: [usize; 8] = [2, 1, 4, 7, 6, 5, 0, 3];

fn threefish512(key: &[u64; 8], tweak: [u64; 2], block: &[u64; 8]) -> [u64; 8] {
    let mut k = [0u64; 9];
    k[..8].copy_from_slice(key);
    k[8] = key.iter().fold(0x1BD11BDAA9FC1A22, |x, y| x ^ y);
    let t = [tweak[0], tweak[1], tweak[0] ^ tweak[1]];
    let subkey = |s: usize| {
        let mut sk = [0u64; 8];
        for i in 0..8 {
            sk[i] = k[(s + i) % 9];
        }
        sk[5] = sk[5].wrapping_add(t[s % 3]);
        sk[6] = sk[6].wrapping_add(t[(s + 1) % 3]);
        sk[7] = sk[7].wrapping_add(s as u64);
        sk
    };
    let mut v = *block;
    for d in 0..72 {
        if d % 4 == 0 {
            let sk = subkey(d / 4);
            for i in 0..8 {
                v[i] = v[i].wrapping_add(sk[i]);
            }
        }
        let mut f = [0u64; 8];
        for j in 0..4 {
            let y0 = v[2 * j].wrapping_add(v[2 * j + 1]);
            f[2 * j] = y0;
            f[2 * j + 1] = v[2 * j + 1].rotate_left(TF_ROT[d % 8][j]) ^ y0;
        }
        for i in 0..8 {
            v[i] = f[TF_PERM[i]];
        }
    }
    let sk = subkey(18);
    for i in 0..8 {
        v[i] = v[i].wrapping_add(sk[i]);
    }
    v
}

fn ubi(g: [u64; 8], msg: &[u8], ty: u64) -> [u64; 8] {
    let blocks = std::cmp::max(1, (msg.len() + 63) / 64);
    let mut h = g;
    for b in 0..blocks {
        let end = std::cmp::min(msg.len(), 64 * (b + 1));
        let mut buf = [0u8; 64];
        buf[..end - 64 * b].copy_from_slice(&msg[64 * b..end]);
        let mut m = [0u64; 8];
        for i in 0..8 {
            let mut w = [0u8; 8];
            w.copy_from_slice(&buf[8 * i..8 * i + 8]);
            m[i] = u64::from_le_bytes(w);
        }
        let mut t1 = ty << 56;
        if b == 0 {
            t1 |= 1 << 62;
        }
        if b + 1 == blocks {
            t1 |= 1 << 63;
        }
        let e = threefish512(&h, [end as u64, t1], &m);
        for i in 0..8 {
            h[i] = e[i] ^ m[i];
        }
    }
    h
}

pub fn skein512_256(msg: &[u8]) -> [u8; 32] {
    static IV: OnceLock<[u64; 8]> = OnceLock::new();
    let iv = IV.get_or_init(|| {
        let mut cfg = [0u8; 32];
        cfg[..4].copy_from_slice(b"SHA3");
        cfg[4] = 1;
        cfg[8..16].copy_from_slice(&256u64.to_le_bytes());
        ubi([0; 8], &cfg, 4)
    });
    let h = ubi(*iv, msg, 48);
    let o = ubi(h, &0u64.to_le_bytes(), 63);
    let mut out = [0; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&o[i].to_le_bytes());
    }
    out
}

// ------------------------------------------------------------------ Groestl-256
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut p = 0;
    while b != 0 {
        if b & 1 != 0 {
            p ^= a;
        }
        a = if a & 0x80 != 0 { (a << 1) ^ 0x1b } else { a << 1 };
        b >>= 1;
    }
    p
}

/// T[row][x]: the column contribution of S-box output S(x) found in `row` (byte r of the word is row r).
fn groestl_tables() -> &'static [[u64; 256]; 8] {
    static T: OnceLock<Box<[[u64; 256]; 8]>> = OnceLock::new();
    T.get_or_init(|| {
        let mut sbox = [0u8; 256];
        for x in 0..256usize {
            let inv = (1..256usize).find(|&y| gmul(x as u8, y as u8) == 1).unwrap_or(0) as u8;
            let mut s = 0x63u8;
            for r in 0..5 {
                s ^= inv.rotate_left(r);
            }
            sbox[x] = s;
        }
        const B: [u8; 8] = [2, 2, 3, 4, 5, 3, 5, 7]; // first row of the circulant matrix
        let mut t = Box::new([[0u64; 256]; 8]);
        for (row, tr) in t.iter_mut().enumerate() {
            for x in 0..256 {
                let mut w = [0u8; 8];
                for (r, o) in w.iter_mut().enumerate() {
                    *o = gmul(sbox[x], B[(row + 8 - r) % 8]);
                }
                tr[x] = u64::from_le_bytes(w);
            }
        }
        t
    })
}

fn groestl_perm(state: &[u8; 64], q: bool) -> [u8; 64] {
    let t = groestl_tables();
    const SHP: [usize; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
    const SHQ: [usize; 8] = [1, 3, 5, 7, 0, 2, 4, 6];
    let sh = if q { SHQ } else { SHP };
    let mut s = *state; // byte i: row i % 8, column i / 8
    for r in 0..10u8 {
        for j in 0..8 {
            let c = ((j as u8) << 4) ^ r;
            if q {
                for i in 0..8 {
                    s[8 * j + i] ^= 0xff;
                }
                s[8 * j + 7] ^= c;
            } else {
                s[8 * j] ^= c;
            }
        }
        let mut n = [0u8; 64];
        for j in 0..8 {
            let mut w = 0u64;
            for i in 0..8 {
                w ^= t[i][s[8 * ((j + sh[i]) % 8) + i] as usize];
            }
            n[8 * j..8 * j + 8].copy_from_slice(&w.to_le_bytes());
        }
        s = n;
    }
    s
}

pub fn groestl256(msg: &[u8]) -> [u8; 32] {
    let mut p = msg.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    let blocks = (p.len() as u64 + 8) / 64;
    p.extend_from_slice(&blocks.to_be_bytes());
    let mut h = [0u8; 64];
    h[62] = 1; // 256 as a 512-bit big-endian integer
    for m in p.chunks(64) {
        let mut x = [0u8; 64];
        let mut mm = [0u8; 64];
        mm.copy_from_slice(m);
        for i in 0..64 {
            x[i] = h[i] ^ m[i];
        }
        let a = groestl_perm(&x, false);
        let b = groestl_perm(&mm, true);
        for i in 0..64 {
            h[i] ^= a[i] ^ b[i];
        }
    }
    let a = groestl_perm(&h, false);
    let mut out = [0; 32];
    for i in 0..32 {
        out[i] = a[32 + i] ^ h[32 + i];
    }
    out
}

// ------------------------------------------------------------------ CubeHash16/32-256
fn cube_rounds(x: &mut [u32; 32], n: usize) {
    for _ in 0..n {
        for half in 0..2 {
            for i in 0..16 {
                x[i + 16] = x[i + 16].wrapping_add(x[i]);
            }
            for i in 0..16 {
                x[i] = x[i].rotate_left(if half == 0 { 7 } else { 11 });
            }
            let (sw, sx) = if half == 0 { (8, 2) } else { (4, 1) };
            for i in 0..16 {
                if i & sw == 0 {
                    x.swap(i, i | sw);
                }
            }
            for i in 0..16 {
                x[i] ^= x[i + 16];
            }
            for i in 16..32 {
                if i & sx == 0 {
                    x.swap(i, i | sx);
                }
            }
        }
    }
}

pub fn cubehash256(msg: &[u8]) -> [u8; 32] {
    static IV: OnceLock<[u32; 32]> = OnceLock::new();
    let mut x = *IV.get_or_init(|| {
        let mut x = [0u32; 32];
        x[0] = 256 / 8;
        x[1] = 32;
        x[2] = 16;
        cube_rounds(&mut x, 160);
        x
    });
    let mut p = msg.to_vec();
    p.push(0x80);
    while p.len() % 32 != 0 {
        p.push(0);
    }
    for b in p.chunks(32) {
        for i in 0..8 {
            x[i] ^= u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        cube_rounds(&mut x, 16);
    }
    x[31] ^= 1;
    cube_rounds(&mut x, 160);
    let mut out = [0; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&x[i].to_le_bytes());
    }
    out
}

// ------------------------------------------------------------------ BMW-256
fn bmw_s(k: usize, x: u32) -> u32 {
    match k {
        0 => (x >> 1) ^ (x << 3) ^ x.rotate_left(4) ^ x.rotate_left(19),
        1 => (x >> 1) ^ (x << 2) ^ x.rotate_left(8) ^ x.rotate_left(23),
        2 => (x >> 2) ^ (x << 1) ^ x.rotate_left(12) ^ x.rotate_left(25),
        3 => (x >> 2) ^ (x << 2) ^ x.rotate_left(15) ^ x.rotate_left(29),
        4 => (x >> 1) ^ x,
        _ => (x >> 2) ^ x,
    }
}

fn bmw_compress(m: &[u32; 16], h: &[u32; 16]) -> [u32; 16] {
    // W_i = sum of sign * (M ^ H)[index]; a negative entry is stored as -(index + 1)
    const W: [[i32; 5]; 16] = [
        [5, -8, 10, 13, 14], [6, -9, 11, 14, -16], [0, 7, 9, -13, 15], [0, -2, 8, -11, 13],
        [1, 2, 9, -12, -15], [3, -3, 10, -13, 15], [4, -1, -4, -12, 13], [1, -5, -6, -13, -15],
        [2, -6, -7, 13, -16], [0, -4, 6, -8, 14], [8, -2, -5, -8, 15], [8, -1, -3, -6, 9],
        [1, 3, -7, -10, 10], [2, 4, 7, 10, 11], [3, -6, 8, -12, -13], [12, -5, -7, -10, 13],
    ];
    let mut q = [0u32; 32];
    for i in 0..16 {
        let mut w = 0u32;
        for &e in &W[i] {
            let idx = if e >= 0 { e as usize } else { (-e - 1) as usize };
            let v = m[idx] ^ h[idx];
            w = if e >= 0 { w.wrapping_add(v) } else { w.wrapping_sub(v) };
        }
        q[i] = bmw_s(i % 5, w).wrapping_add(h[(i + 1) % 16]);
    }
    const R: [u32; 7] = [3, 7, 13, 16, 19, 23, 27];
    for i in 16..32 {
        let j = i - 16;
        let rot = |k: usize| m[k % 16].rotate_left((k % 16) as u32 + 1);
        let add = rot(j)
            .wrapping_add(rot(j + 3))
            .wrapping_sub(rot(j + 10))
            .wrapping_add((i as u32).wrapping_mul(0x0555_5555))
            ^ h[(j + 7) % 16];
        let mut x = add;
        if i < 18 {
            for k in 0..16 {
                x = x.wrapping_add(bmw_s((k + 1) % 4, q[j + k]));
            }
        } else {
            for k in 0..7 {
                x = x.wrapping_add(q[j + 2 * k]);
                x = x.wrapping_add(q[j + 2 * k + 1].rotate_left(R[k]));
            }
            x = x.wrapping_add(bmw_s(4, q[i - 2])).wrapping_add(bmw_s(5, q[i - 1]));
        }
        q[i] = x;
    }
    let xl = q[16..24].iter().fold(0, |a, b| a ^ b);
    let xh = q[24..32].iter().fold(xl, |a, b| a ^ b);
    let shl = |x: u32, s: i32| match s {
        0 => x,
        s if s > 0 => x << s,
        s => x >> -s,
    };
    const A: [(i32, i32); 8] = [(5, -5), (-7, 8), (-5, 5), (-1, 5), (-3, 0), (6, -6), (-4, 6), (-11, 2)];
    const B: [i32; 8] = [8, -6, 6, 4, -3, -4, -7, -2];
    let mut o = [0u32; 16];
    for i in 0..8 {
        o[i] = (shl(xh, A[i].0) ^ shl(q[16 + i], A[i].1) ^ m[i]).wrapping_add(xl ^ q[24 + i] ^ q[i]);
    }
    for i in 0..8 {
        o[8 + i] = o[(4 + i) % 8]
            .rotate_left(9 + i as u32)
            .wrapping_add(xh ^ q[24 + i] ^ m[8 + i])
            .wrapping_add(shl(xl, B[i]) ^ q[16 + (7 + i) % 8] ^ q[8 + i]);
    }
    o
}

pub fn bmw256(msg: &[u8]) -> [u8; 32] {
    let mut p = msg.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    p.extend_from_slice(&(8 * msg.len() as u64).to_le_bytes());
    let mut h = [0u32; 16];
    for i in 0..16u32 {
        h[i as usize] = 0x4041_4243 + 0x0404_0404 * i;
    }
    for b in p.chunks(64) {
        let mut m = [0u32; 16];
        for i in 0..16 {
            m[i] = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        h = bmw_compress(&m, &h);
    }
    let mut fin = [0u32; 16];
    for i in 0..16 {
        fin[i] = 0xaaaa_aaa0 + i as u32;
    }
    let f = bmw_compress(&h, &fin);
    let mut out = [0; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&f[8 + i].to_le_bytes());
    }
    out
}
