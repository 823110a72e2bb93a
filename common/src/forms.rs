//! Byte strings that code could take for something else than bytes: text and its encodings, numbers, padding, markers,
//! repetitions; and how two of them can be related.
use crate::spaces::{coords, kdf, space, Space};
use crate::{pat_byte, Case, Data};

const CONTENTS: usize = 46;
/// The i-th kind of contents, n bytes
fn contents(i: usize, n: usize) -> Vec<u8> {
    let cyc = |s: &[u8]| -> Vec<u8> { s.iter().copied().cycle().take(n).collect() };
    let rnd = || -> Vec<u8> { (0..n as u32).map(|i| pat_byte('l', i)).collect() };
    let first = |mark: &[u8], mut v: Vec<u8>| -> Vec<u8> {
        for (i, b) in mark.iter().enumerate().take(n) {
            v[i] = *b;
        }
        v
    };
    let last = |mark: &[u8], mut v: Vec<u8>| -> Vec<u8> {
        let m = mark.len().min(n);
        v[n - m..].copy_from_slice(&mark[mark.len() - m..]);
        v
    };
    let hex = |upper: bool| -> Vec<u8> {
        let s: String = (0..n as u32).map(|i| format!("{:x}", pat_byte('l', i) & 15)).collect();
        if upper { s.to_uppercase().into_bytes() } else { s.into_bytes() }
    };
    match i {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => vec![b'a'; n],
        3 => vec![b' '; n],
        4 => vec![b'0'; n],
        5 => vec![0x80; n],
        6 => rnd(),
        7 => hex(false),
        8 => hex(true),
        9 => cyc(b"0123456789"),
        10 => cyc(b"correct horse battery staple "),
        11 => cyc(b"Correct Horse Battery Staple "),
        12 => cyc("é漢😀ü".as_bytes()),
        13 => cyc(b"\xc3\x28\xff\xfe\xed\xa0\x80"), // not UTF-8
        14 => cyc(b"aGVsbG8gd29ybGQ+/"),
        15 => last(b"=", cyc(b"TWFueSBoYW5kcw")),
        16 => last(b"==", cyc(b"TWFueSBoYW5kcw")),
        17 => first(b"0x", hex(false)),
        18 => first(b"0X", hex(true)),
        19 => first(b"\xef\xbb\xbf", cyc(b"text with a mark ")),
        20 => first(b"\xff\xfe", cyc(b"t\0e\0x\0")),
        21 => first(b"\xfe\xff", cyc(b"\0t\0e\0x")),
        22 => last(b"\n", cyc(b"a line ")),
        23 => last(b"\r\n", cyc(b"a line ")),
        24 => last(b"\0", cyc(b"a C string ")),
        25 => last(b"\0\0\0\0\0\0\0\0", rnd()),
        26 => first(b"\0\0\0\0\0\0\0\0", rnd()),
        27 => first(b" \t", cyc(b"text")),
        28 => last(b"  ", cyc(b"text")),
        29 => first(b"{\"", last(b"\"}", cyc(b"a\":\"b"))),
        30 => first(b"\"", last(b"\"", cyc(b"quoted"))),
        31 => first(b"-----BEGIN ", cyc(b"KEY\n")),
        32 => first(b"\x1f\x8b\x08", rnd()),
        33 => cyc(b"%41%0a"),
        34 => cyc(b"\\x41\\n"),
        35 => cyc(b"\r\n"),
        36 => cyc(b"\x1b[0m"),
        37 => first(b"$lyra2$m=4,t=1$", cyc(b"abcdefghij")),
        38 => first(b"\x80", last(b"\x01", vec![0; n])),
        39 => last(b"\x80\0\0\0\0\0\0\x01", rnd()),
        40 => first(b"\x01\0\0\0", rnd()),
        41 => first(b"\0\0\0\x20", rnd()),
        42 => {
            // its own reverse
            let v = rnd();
            (0..n).map(|i| v[i.min(n - 1 - i)]).collect()
        }
        43 => {
            // two equal halves
            let v = rnd();
            (0..n).map(|i| v[i % n.div_ceil(2)]).collect()
        }
        44 => {
            let mut v = rnd();
            v.sort_unstable();
            v
        }
        _ => rnd().iter().map(|b| b & 0x7f).collect(),
    }
}

fn lens(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if th { 260 } else { 100 }).collect();
    v.extend([111, 112, 119, 120, 127, 128, 129, 144, 159, 160, 161, 192, 200, 255, 256, 257, 320, 500, 512, 640, 735]);
    v.sort_unstable();
    v.dedup();
    v
}

/// Spaces over one byte string
pub fn of_one(prefix: &str, th: bool, f: impl Fn(Data) -> Case + Send + Sync + Clone + 'static) -> Vec<Space> {
    let nm = |x: &str| if prefix.is_empty() { x.to_string() } else { format!("{prefix}-{x}") };
    let mut v = Vec::new();
    let l = lens(th);
    let (g, n) = (f.clone(), l.len());
    v.push(space(&nm("forms"), "46 kinds of contents that could be taken for something else (text, encodings, numbers, padding, markers) at many lengths", (CONTENTS * n) as u64, move |i| {
        let c = coords(i, &[CONTENTS, n]);
        g(Data::Bytes(contents(c[0], l[c[1]])))
    }));
    let g = f.clone();
    let m = if th { 260 } else { 100 };
    v.push(space(&nm("fills"), "every byte value repeated, every length up to a bound", 256 * m, move |i| g(Data::Bytes(vec![(i / m) as u8; (i % m) as usize + 1]))));
    let g = f.clone();
    v.push(space(&nm("runs"), "80 bytes with a run of equal bytes from any place to any other: zeros, ones, blanks, line ends, 0x80; random and text around it", 81 * 80 * 5 * 2, move |i| {
        let c = coords(i, &[2, 5, 80, 81]);
        let mut b = contents([6, 10][c[0]], 80);
        let (x, y) = (c[2].min(c[3]), c[2].max(c[3]));
        b[x..y].fill([0, 0xff, b' ', b'\n', 0x80][c[1]]);
        g(Data::Bytes(b))
    }));
    let g = f;
    let ls = [64usize, 65, 80, 96, 128, 160, 161, 255, 256];
    v.push(space(&nm("periods"), "contents with every period up to 130 bytes, several lengths", (130 * ls.len()) as u64, move |i| {
        let c = coords(i, &[130, ls.len()]);
        g(Data::Bytes((0..ls[c[1]] as u32).map(|i| pat_byte('L', i % (c[0] as u32 + 1))).collect()))
    }));
    v
}

/// Every ordered pair of strings from a pool: equal, swapped, prefixes and suffixes of each other, of different kinds
pub fn of_two(th: bool, shapes: &'static [[u64; 4]]) -> Space {
    let lens: &[usize] = if th { &[0, 1, 5, 8, 15, 16, 24, 32, 33, 40, 48, 64, 72, 80, 128] } else { &[0, 8, 16, 21, 32, 64, 80] };
    let kinds: &[usize] = if th { &[0, 1, 2, 3, 4, 6, 7, 8, 10, 11, 12, 13, 17, 19, 22, 24, 25, 26, 37, 39, 42, 43, 45] } else { &[0, 1, 2, 3, 6, 7, 8, 10, 11, 12, 17, 24, 25, 26, 37, 39, 42, 43] };
    let mut pool: Vec<Vec<u8>> = Vec::new();
    for &n in lens {
        for &k in kinds {
            pool.push(contents(k, n));
        }
        // complement and reverse of one of the others
        pool.push(contents(6, n).iter().map(|b| !b).collect());
        pool.push(contents(6, n).into_iter().rev().collect());
        // suffix of one of the others
        pool.push(contents(6, 80.max(n))[80.max(n) - n..].to_vec());
    }
    pool.sort();
    pool.dedup();
    let n = pool.len();
    space("related", &format!("every ordered pair of {n} byte strings as password and salt: equal, swapped, one inside the other, complementary, of all kinds"), (n * n * shapes.len()) as u64, move |i| {
        let c = coords(i, &[shapes.len(), n, n]);
        let s = shapes[c[0]];
        kdf(s[0], Data::Bytes(pool[c[1]].clone()), Data::Bytes(pool[c[2]].clone()), s[1], s[2], s[3])
    })
}
