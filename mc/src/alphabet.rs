//! The calls histories and interleavings are made of. Chosen so that two calls differ in as little as
//! possible: same length with other content, same content with other parameters, shared prefix,
//! shared suffix, permuted bytes, larger and smaller matrices, rejected parameters.
use vcommon::spaces::kdf;
use vcommon::{pat, patm, Alg, Case, Data, Stage};

pub fn messages() -> Vec<Data> {
    let base = pat('l', 80).bytes();
    let with = |i: usize, x: u8| {
        let mut b = base.clone();
        b[i] ^= x;
        Data::Bytes(b)
    };
    let mut swapped = base.clone();
    swapped.swap(76, 79);
    vec![
        Data::Bytes(base.clone()),
        with(79, 1),  // nonce: same first 64 bytes
        with(0, 0x80), // same tail
        Data::Bytes(swapped), // same bytes, other order
        Data::Bytes(base[..64].to_vec()), // prefix
        Data::Bytes(vec![]),
        pat('t', 3),
        pat('z', 200),
    ]
}

fn pwd() -> Data {
    pat('l', 32)
}
fn salt() -> Data {
    pat('L', 32)
}

/// Calls of lyra2() and lyra2::sum
pub fn kdf_ops() -> Vec<Case> {
    let k = |k, t, r, c| kdf(k, pwd(), salt(), t, r, c);
    vec![
        k(32, 1, 4, 4),
        k(16, 1, 4, 4),
        k(200, 1, 4, 4),
        k(0, 1, 4, 4),
        k(32, 2, 4, 4),
        k(32, 1, 8, 4),
        k(32, 1, 3, 4),
        k(32, 1, 4, 8),
        k(32, 1, 4, 2),
        k(32, 1, 8, 2), // same number of cells as 4 x 4
        k(32, 3, 32, 16),
        kdf(32, salt(), pwd(), 1, 4, 4), // swapped
        kdf(32, patm('l', 32, &[(31, 0)]), salt(), 1, 4, 4),
        kdf(32, pwd(), patm('L', 32, &[(0, 0)]), 1, 4, 4),
        kdf(32, pat('l', 16), pat('L', 48), 1, 4, 4),
        kdf(32, pat('l', 300), pat('L', 40), 1, 4, 4), // several input blocks
        kdf(32, pat('z', 0), pat('z', 0), 1, 4, 4),
        Case::Sum(pwd()),
        Case::Sum(patm('l', 32, &[(8, 7)])),
        Case::Sum(pat('t', 3)),
        Case::Sum(pat('f', 700)),
    ]
}

/// Calls with large values of one argument each
pub fn large_ops() -> Vec<Case> {
    let mut v = vec![
        kdf(5000, pwd(), salt(), 1, 4, 4),
        kdf(32, pwd(), salt(), 300, 4, 1),
        kdf(32, pwd(), salt(), 1, 300, 1),
        kdf(32, pwd(), salt(), 1, 512, 1),
        kdf(32, pwd(), salt(), 1, 3, 300),
        kdf(32, pat('l', 5000), salt(), 1, 16, 8),
        kdf(32, pwd(), pat('L', 5000), 1, 16, 8),
    ];
    for a in vcommon::ALGS {
        v.push(Case::Hash(a, pat('l', 5000)));
        v.push(Case::Hash(a, pat('l', 70_000)));
    }
    v
}

/// Roughly how many times more a call costs than an ordinary one
pub fn weight(c: &Case) -> usize {
    match c {
        Case::Kdf { k, pwd, salt, t, r, c } => {
            let w = (*t as u128 * *r as u128 * *c as u128 / 64 + *k as u128 / 500 + (pwd.len() + salt.len()) as u128 / 64 * *r as u128 * *c as u128 / 600) as usize;
            if w > 1_000_000 { 1 } else { w.max(1) }
        }
        Case::Sum(d) | Case::Hash(_, d) | Case::Stage(_, d) => (d.len() as usize / 1000).max(1),
    }
}

/// Calls that panic, for each reason
pub fn panicking_ops() -> Vec<Case> {
    vec![
        kdf(32, pwd(), salt(), 0, 4, 4),
        kdf(32, pwd(), salt(), 1, 2, 4),
        kdf(32, pwd(), salt(), 1, 4, 0),
        kdf(32, pat('l', 3000), salt(), 1, 4, 4),
        kdf(32, pwd(), pat('L', 3000), 1, 4, 4),
        kdf(32, pwd(), salt(), 1, 1 << 62, 8),
        Case::Sum(pat('l', 900)),
        Case::Sum(pat('l', 744)),
    ]
}

pub fn full() -> Vec<Case> {
    let mut v = core();
    v.extend(large_ops());
    v
}

/// Without the large calls
pub fn core() -> Vec<Case> {
    let mut v = kdf_ops();
    v.extend(panicking_ops());
    for a in vcommon::ALGS {
        for m in messages() {
            v.push(Case::Hash(a, m));
        }
    }
    v
}

/// A smaller alphabet for deeper histories
pub fn small() -> Vec<Case> {
    let k = kdf_ops();
    let p = panicking_ops();
    let m = messages();
    let mut v = vec![k[0].clone(), k[2].clone(), k[4].clone(), k[6].clone(), k[10].clone(), k[11].clone(), k[15].clone(), k[17].clone(), k[18].clone()];
    v.extend([p[0].clone(), p[1].clone(), p[3].clone(), p[7].clone()]);
    for a in vcommon::ALGS {
        v.push(Case::Hash(a, m[0].clone()));
        v.push(Case::Hash(a, m[1].clone()));
    }
    v.push(Case::Hash(Alg::Rev2, m[5].clone()));
    v
}

pub fn stages() -> Vec<Case> {
    let mut v = Vec::new();
    for s in [Stage::Bmw, Stage::Cube, Stage::Lyra2Mod] {
        v.push(Case::Stage(s, pat('l', 32)));
        v.push(Case::Stage(s, patm('l', 32, &[(31, 1)])));
    }
    v
}

/// Order-n de Bruijn sequence over 0..k (every n-window once, cyclically).
pub fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    let mut a = vec![0usize; k * n];
    let mut seq = Vec::new();
    fn db(t: usize, p: usize, n: usize, k: usize, a: &mut Vec<usize>, seq: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                seq.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, n, k, a, seq);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, n, k, a, seq);
            }
        }
    }
    db(1, 1, n, k, &mut a, &mut seq);
    seq
}
