//! Reference model of Lyra2: an explicit state machine (cursor schedule + data path), written from
//! the Lyra2 specification. One transition = one absorbed block, one processed column or one
//! squeezed block. The schedule part is shared with the abstract (data-nondeterministic) search.
use crate::Outcome;

/// Number of model states / transitions walked through, for the evidence files.
#[derive(Default, Clone, Copy, Debug)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
}

/// How a row index is reduced into 0..rows.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Reduce {
    /// index & (rows - 1): what this crate is defined to do (identical to Mod for powers of two)
    Mask,
    /// index mod rows: the "generic case" of the Lyra2 paper
    Mod,
}

/// How the pseudorandom row is picked while wandering.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pick {
    /// state[0]
    Plain,
    /// state[instance & 15] with instance := state[instance & 15] (Lyra2REv3)
    Chained,
}

/// The visitation cursors. `Copy` and comparable so that a search can store them.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Sched {
    pub rows: u64,
    pub row: u64,
    pub prev: u64,
    pub rowa: u64,
    pub step: u64,
    pub window: u64,
    pub gap_up: bool,
    pub reduce_mod: bool,
}

impl Sched {
    /// After rows 0 and 1 were initialised.
    pub fn new(rows: u64, reduce: Reduce) -> Sched {
        Sched { rows, row: 2, prev: 1, rowa: 0, step: 1, window: 2, gap_up: true, reduce_mod: reduce == Reduce::Mod }
    }
    pub fn setup_done(&self) -> bool {
        self.row >= self.rows
    }
    pub fn setup_advance(&mut self) {
        self.rowa = (self.rowa + self.step) % self.window;
        self.prev = self.row;
        self.row += 1;
        if self.rowa == 0 {
            self.step = if self.gap_up { self.window + 1 } else { self.window - 1 };
            self.window *= 2;
            self.gap_up = !self.gap_up;
        }
    }
    pub fn reduce(&self, x: u64) -> u64 {
        if self.reduce_mod {
            x % self.rows
        } else {
            x & (self.rows - 1)
        }
    }
    pub fn wander_start(&mut self) {
        self.row = 0;
    }
    /// Moves to the next row of pass `tau`; true when the pass is over.
    pub fn wander_advance(&mut self, tau: u64) -> bool {
        self.prev = self.row;
        self.row = if tau % 2 == 0 {
            // step -1
            if self.reduce_mod {
                (self.row + self.rows - 1) % self.rows
            } else {
                self.row.wrapping_sub(1) & (self.rows - 1)
            }
        } else {
            self.reduce(self.row + (self.rows / 2 - 1))
        };
        self.row == 0
    }
}

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];

pub fn blake2b_rounds(v: &mut [u64; 16], n: usize) {
    const Q: [[usize; 4]; 8] = [
        [0, 4, 8, 12], [1, 5, 9, 13], [2, 6, 10, 14], [3, 7, 11, 15],
        [0, 5, 10, 15], [1, 6, 11, 12], [2, 7, 8, 13], [3, 4, 9, 14],
    ];
    for _ in 0..n {
        for &[a, b, c, d] in Q.iter() {
            v[a] = v[a].wrapping_add(v[b]);
            v[d] = (v[d] ^ v[a]).rotate_right(32);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(24);
            v[a] = v[a].wrapping_add(v[b]);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(63);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rejected {
    TimeCost,
    Rows,
    Capacity,
    Size,
    Output,
}

/// The documented domain. None = accepted.
pub fn domain(k: u64, pwd_len: u64, salt_len: u64, t: u64, rows: u64, cols: u64) -> Option<Rejected> {
    if t < 1 {
        return Some(Rejected::TimeCost);
    }
    if rows < 3 {
        return Some(Rejected::Rows);
    }
    let cells = rows as u128 * cols as u128;
    if cells > (i64::MAX as u128) / 96 {
        return Some(Rejected::Size);
    }
    let blocks = (pwd_len as u128 + salt_len as u128 + 48) / 64 + 1;
    if blocks * 64 > cells * 96 {
        return Some(Rejected::Capacity);
    }
    if k > i64::MAX as u64 {
        return Some(Rejected::Output);
    }
    None
}

/// Which row each wandering/setup step touched, when a trace is wanted.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Visit {
    pub row: u64,
    pub prev: u64,
    pub rowa: u64,
}

pub struct Params<'a> {
    pub k: u64,
    pub pwd: &'a [u8],
    pub salt: &'a [u8],
    pub t: u64,
    pub rows: u64,
    pub cols: u64,
    pub reduce: Reduce,
    pub pick: Pick,
}

pub fn lyra2_traced(p: &Params, st: &mut Stats, mut trace: Option<&mut Vec<Visit>>) -> Outcome {
    if domain(p.k, p.pwd.len() as u64, p.salt.len() as u64, p.t, p.rows, p.cols).is_some() {
        return Outcome::Panic;
    }
    let mut tick = 0u64;
    // ---- input: complete words of password and salt, the parameters, 10*1 padding
    let mut words: Vec<u64> = Vec::new();
    for part in [p.pwd, p.salt] {
        for w in part.chunks_exact(8) {
            let mut b = [0u8; 8];
            b.copy_from_slice(w);
            words.push(u64::from_le_bytes(b));
        }
    }
    words.extend_from_slice(&[p.k, p.pwd.len() as u64, p.salt.len() as u64, p.t, p.rows, p.cols]);
    words.push(0x80);
    let blocks = (p.pwd.len() + p.salt.len() + 48) / 64 + 1;
    words.resize(blocks * 8, 0);
    *words.last_mut().unwrap() ^= 0x01 << 56;

    let mut s = [0u64; 16];
    s[8..].copy_from_slice(&IV);
    for b in words.chunks(8) {
        for i in 0..8 {
            s[i] ^= b[i];
        }
        blake2b_rounds(&mut s, 12);
        tick += 1;
    }

    // ---- setup
    let (rows, cols) = (p.rows as usize, p.cols as usize);
    let mut m: Vec<[u64; 12]> = vec![[0; 12]; rows * cols];
    let at = |row: u64, col: usize| row as usize * cols + col;
    for col in 0..cols {
        m[at(0, cols - 1 - col)].copy_from_slice(&s[..12]);
        blake2b_rounds(&mut s, 1);
        tick += 1;
    }
    for col in 0..cols {
        let a = m[at(0, col)];
        for i in 0..12 {
            s[i] ^= a[i];
        }
        blake2b_rounds(&mut s, 1);
        let o = &mut m[at(1, cols - 1 - col)];
        for i in 0..12 {
            o[i] = a[i] ^ s[i];
        }
        tick += 1;
    }
    let mut sc = Sched::new(p.rows, p.reduce);
    while !sc.setup_done() {
        if let Some(t) = trace.as_deref_mut() {
            t.push(Visit { row: sc.row, prev: sc.prev, rowa: sc.rowa });
        }
        for col in 0..cols {
            let a = m[at(sc.prev, col)];
            let b = m[at(sc.rowa, col)];
            for i in 0..12 {
                s[i] ^= a[i].wrapping_add(b[i]);
            }
            blake2b_rounds(&mut s, 1);
            let o = &mut m[at(sc.row, cols - 1 - col)];
            for i in 0..12 {
                o[i] = a[i] ^ s[i];
            }
            let o = &mut m[at(sc.rowa, col)];
            for i in 0..12 {
                o[i] ^= s[(i + 11) % 12];
            }
            tick += 1;
        }
        sc.setup_advance();
    }

    // ---- wandering
    let mut instance = 0u64;
    sc.wander_start();
    for tau in 1..=p.t {
        loop {
            let r = match p.pick {
                Pick::Plain => s[0],
                Pick::Chained => {
                    instance = s[(instance & 15) as usize];
                    s[(instance & 15) as usize]
                }
            };
            sc.rowa = sc.reduce(r);
            if let Some(t) = trace.as_deref_mut() {
                t.push(Visit { row: sc.row, prev: sc.prev, rowa: sc.rowa });
            }
            for col in 0..cols {
                let a = m[at(sc.prev, col)];
                let b = m[at(sc.rowa, col)];
                for i in 0..12 {
                    s[i] ^= a[i].wrapping_add(b[i]);
                }
                blake2b_rounds(&mut s, 1);
                let o = &mut m[at(sc.row, col)];
                for i in 0..12 {
                    o[i] ^= s[i];
                }
                let o = &mut m[at(sc.rowa, col)];
                for i in 0..12 {
                    o[i] ^= s[(i + 11) % 12];
                }
                tick += 1;
            }
            if sc.wander_advance(tau) {
                break;
            }
        }
    }

    // ---- wrap-up
    let b = m[at(sc.rowa, 0)];
    for i in 0..12 {
        s[i] ^= b[i];
    }
    blake2b_rounds(&mut s, 12);
    tick += 1;
    let k = p.k as usize;
    let mut out = Vec::with_capacity(k);
    while out.len() < k {
        for w in &s[..12] {
            for x in w.to_le_bytes() {
                if out.len() < k {
                    out.push(x);
                }
            }
        }
        if out.len() < k {
            blake2b_rounds(&mut s, 12);
        }
        tick += 1;
    }
    st.transitions += tick;
    st.states += tick + 1;
    Outcome::Ok(out)
}

pub fn lyra2(p: &Params, st: &mut Stats) -> Outcome {
    lyra2_traced(p, st, None)
}

pub fn kdf(k: u64, pwd: &[u8], salt: &[u8], t: u64, rows: u64, cols: u64, st: &mut Stats) -> Outcome {
    lyra2(&Params { k, pwd, salt, t, rows, cols, reduce: Reduce::Mask, pick: Pick::Plain }, st)
}

fn fixed(x: &[u8; 32], t: u64, rows: u64, cols: u64, pick: Pick, st: &mut Stats) -> [u8; 32] {
    match lyra2(&Params { k: 32, pwd: x, salt: x, t, rows, cols, reduce: Reduce::Mask, pick }, st) {
        Outcome::Ok(v) => {
            let mut o = [0; 32];
            o.copy_from_slice(&v);
            o
        }
        Outcome::Panic => unreachable!(),
    }
}

pub fn lyra2mod_stage(x: &[u8; 32], st: &mut Stats) -> [u8; 32] {
    fixed(x, 1, 4, 4, Pick::Chained, st)
}

pub fn lyra2re(msg: &[u8], st: &mut Stats) -> [u8; 32] {
    use crate::hashes::*;
    st.transitions += 4;
    st.states += 4;
    let a = keccak256(&blake256(msg));
    let l = fixed(&a, 1, 8, 8, Pick::Plain, st);
    groestl256(&skein512_256(&l))
}

pub fn lyra2rev2(msg: &[u8], st: &mut Stats) -> [u8; 32] {
    use crate::hashes::*;
    st.transitions += 6;
    st.states += 6;
    let a = cubehash256(&keccak256(&blake256(msg)));
    let l = fixed(&a, 1, 4, 4, Pick::Plain, st);
    bmw256(&cubehash256(&skein512_256(&l)))
}

pub fn lyra2rev3(msg: &[u8], st: &mut Stats) -> [u8; 32] {
    use crate::hashes::*;
    st.transitions += 3;
    st.states += 3;
    let a = lyra2mod_stage(&blake256(msg), st);
    let b = lyra2mod_stage(&cubehash256(&a), st);
    bmw256(&b)
}

pub fn lyra2z(msg: &[u8], st: &mut Stats) -> [u8; 32] {
    st.transitions += 1;
    st.states += 1;
    fixed(&crate::hashes::blake256(msg), 8, 8, 8, Pick::Plain, st)
}
