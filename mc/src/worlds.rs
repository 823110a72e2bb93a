//! What C15 and C16 enumerate; shared by the driver and the confined program.
use vcommon::spaces::{kdf, Space};
use vcommon::{pat, Case};

pub const EFFECTS: usize = 64;
pub const HEADER: usize = 256;
pub const FAKE_FD: i64 = 1000;
/// Words that count what was looked at
pub const LOOK: usize = 220;
pub const ENV: usize = 0;
pub const CLOCK: usize = 1;
pub const RANDOM: usize = 2;
pub const CPUS: usize = 3;
pub const FILE: usize = 4;
/// Effects without a system call
pub const SETENV: u64 = 10_001;
pub const HOOK: u64 = 10_002;
pub const FPU: u64 = 10_003;

pub fn effect_name(kind: u64, arg: u64) -> String {
    match kind {
        SETENV => "changes the environment variables".into(),
        HOOK => "replaces the panic hook of the program, or panics past it".into(),
        FPU => "changes the floating-point control word".into(),
        0 => format!("reads file descriptor {arg}"),
        1 => format!("writes to file descriptor {arg}"),
        n => format!("system call {n} (first argument {arg})"),
    }
}

/// One choice of all answers to what a call could read besides its arguments
#[derive(Clone, Copy)]
#[allow(dead_code)]
pub struct World {
    /// value of every environment variable asked for, nul terminated
    pub env: Option<&'static [u8]>,
    /// variables when all are listed
    pub vars: bool,
    pub clock: u8,
    /// every random byte, or 256: a counter
    pub random: u16,
    pub cpus: u32,
    /// contents of every file, or no file exists
    pub file: Option<&'static [u8]>,
    /// contents of fresh memory; 0x100: as it comes
    pub fill: usize,
    /// placement of blocks relative to 16-byte boundaries, as far as their alignment allows
    pub shift: usize,
    /// room that the argument vectors have beyond their length
    pub spare: usize,
    /// 0 the main thread, 1 a new thread per call, 2 a named one, 3 one with a 1 MiB stack
    pub thread: u8,
    pub tsc: u64,
    /// what the processor says of itself: 0 the truth, 1 SSE2 only, 2 up to SSSE3, 3 up to SSE4.2, 4 AVX, 5 AVX2, 6 AVX2 without AES and BMI
    pub cpu: u8,
    /// runs all cases rather than a part
    pub wide: bool,
    pub name: &'static str,
}
pub const BASE: World = World { env: None, vars: false, clock: 0, random: 0, cpus: 1, file: None, fill: 0x100, shift: 0, spare: 0, thread: 0, tsc: 1, cpu: 0, wide: false, name: "base" };

pub fn all_worlds() -> Vec<World> {
    let mut v = vec![
        World { wide: true, name: "nothing set, time stands still, memory as it comes", ..BASE },
        World { env: Some(b"1\0"), vars: true, clock: 3, random: 256, cpus: 64, file: Some(b"1\n"), fill: 0xa5, shift: 9, spare: 64, tsc: 0x0123_4567_89ab, wide: true, name: "everything set, time flies, memory full of 0xa5 and unaligned, room after the arguments", ..BASE },
        World { cpu: 1, shift: 1, fill: 0, spare: 1, wide: true, name: "a processor without extensions, memory zero, a byte of room after the arguments", ..BASE },
        BASE,
    ];
    v[3].name = "nothing set, part of the cases";
    for e in [&b"\0"[..], b"0\0", b"1\0", b"2\0", b"8\0", b"-1\0", b"true\0", b"false\0", b"on\0", b"full\0", b"debug\0", b"4294967296\0", b"/dev/null\0", b"\xff\xfe\0"] {
        v.push(World { env: Some(e), vars: true, name: "environment variables have some value", ..BASE });
    }
    for clock in 1..=5 {
        v.push(World { clock, tsc: 1 << (clock * 11), name: "time is zero, advances by a nanosecond or an hour, runs backwards, is beyond 2038", ..BASE });
    }
    for random in [1, 0xff, 256] {
        v.push(World { random, name: "random bytes", ..BASE });
    }
    for cpus in [2, 3, 64] {
        v.push(World { cpus, name: "number of processors", ..BASE });
    }
    for file in [&b""[..], b"0\n", b"1\n", b"max 100000\n"] {
        v.push(World { file: Some(file), name: "every file can be opened", ..BASE });
    }
    for fill in [0, 0xff, 0xa5, 0x01] {
        v.push(World { fill, name: "contents of fresh memory", ..BASE });
    }
    for shift in 1..16 {
        v.push(World { shift, fill: 0x5a, name: "placement of memory blocks", ..BASE });
    }
    for spare in [3, 7, 8, 56, 128, 4096] {
        v.push(World { spare, fill: 0xff, name: "room after the arguments", ..BASE });
    }
    for cpu in 2..=6 {
        v.push(World { cpu, name: "processor extensions", ..BASE });
        v.push(World { cpu, fill: 0xff, shift: 7, thread: 1, name: "processor extensions", ..BASE });
    }
    for thread in 1..=3 {
        v.push(World { thread, name: "thread the call is made on", ..BASE });
    }
    v
}

/// Further answers about something that calls were seen to look at. Numbered after those of `all_worlds`.
pub fn more_worlds(what: usize) -> Vec<World> {
    let mut v = Vec::new();
    match what {
        ENV => {
            for e in ENV_VALUES {
                v.push(World { env: Some(e), vars: true, name: "environment variables have some value", ..BASE });
            }
        }
        CLOCK => {
            for clock in 6..=229 {
                v.push(World { clock, tsc: 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(clock as u64), name: "dates from 2024 to 2040, time in steps from 2^-4 to 2^24 s", ..BASE });
            }
        }
        RANDOM => {
            for random in 0..=255 {
                v.push(World { random, name: "random bytes", ..BASE });
            }
        }
        CPUS => {
            for cpus in 1..=64 {
                v.push(World { cpus, name: "number of processors", ..BASE });
            }
        }
        FILE => {
            for e in ENV_VALUES {
                v.push(World { file: Some(&e[..e.len() - 1]), name: "every file can be opened", ..BASE });
            }
        }
        _ => {}
    }
    v
}
pub fn world(i: usize) -> World {
    let mut v = all_worlds();
    for w in 0..5 {
        v.extend(more_worlds(w));
    }
    v[i]
}
const ENV_VALUES: [&[u8]; 96] = [
    b"3\0", b"4\0", b"5\0", b"6\0", b"7\0", b"9\0", b"10\0", b"12\0", b"15\0", b"16\0", b"20\0", b"24\0", b"31\0", b"32\0", b"33\0", b"48\0", b"50\0", b"64\0", b"80\0", b"96\0", b"100\0", b"127\0", b"128\0",
    b"200\0", b"255\0", b"256\0", b"500\0", b"512\0", b"1000\0", b"1024\0", b"2048\0", b"4096\0", b"8192\0", b"10000\0", b"65535\0", b"65536\0", b"100000\0", b"1000000\0", b"1048576\0", b"2147483647\0", b"2147483648\0",
    b"4294967295\0", b"9223372036854775807\0", b"18446744073709551615\0", b"-2\0", b"0x10\0", b"1.5\0", b"0.5\0", b"1k\0", b"1K\0", b"1M\0", b"1G\0", b"64M\0", b"yes\0", b"no\0", b"y\0", b"n\0", b"off\0", b"ON\0", b"OFF\0", b"True\0",
    b"TRUE\0", b"False\0", b"FALSE\0", b"none\0", b"all\0", b"auto\0", b"default\0", b"fast\0", b"slow\0", b"safe\0", b"strict\0", b"test\0", b"trace\0", b"info\0", b"warn\0", b"error\0", b"quiet\0", b"verbose\0", b"json\0", b"avx2\0",
    b"sse2\0", b"scalar\0", b"generic\0", b"portable\0", b"native\0", b"v1\0", b"v2\0", b"v3\0", b"re\0", b"lyra2re\0", b"lyra2z\0", b"legacy\0", b"compat\0", b"en_US.UTF-8\0", b"C\0",
];

pub struct Set {
    pub few: Vec<Case>,
    pub spaces: Vec<Space>,
    ends: Vec<u64>,
}
/// Of the spaces, worlds that are not wide take every PART-th case.
pub const PART: u64 = 64;
impl Set {
    pub fn total(&self) -> u64 {
        *self.ends.last().unwrap_or(&0)
    }
    pub fn count(&self, wide: bool) -> u64 {
        self.few.len() as u64 + if wide { self.total() } else { self.total() / PART }
    }
    /// narrow index -> wide index
    pub fn widen(&self, i: u64) -> u64 {
        let n = self.few.len() as u64;
        if i < n {
            i
        } else {
            // not always the same residue
            let b = i - n;
            n + b * PART + (b / 7) % PART
        }
    }
    pub fn at(&self, i: u64, wide: bool) -> Case {
        let i = if wide { i } else { self.widen(i) };
        let n = self.few.len() as u64;
        if i < n {
            return self.few[i as usize].clone();
        }
        let i = i - n;
        let k = self.ends.partition_point(|e| *e <= i);
        (self.spaces[k].case)(i - if k == 0 { 0 } else { self.ends[k - 1] })
    }
}

pub fn cases(th: bool, hooks: bool) -> Set {
    use vcommon::spaces::*;
    let mut few = crate::alphabet::full();
    if hooks {
        few.extend(crate::alphabet::stages());
    }
    // once more: what a second call sees
    let again = few.clone();
    few.extend(again);
    let p = |l: u64| pat('l', l as u32);
    let mut large = Vec::new();
    for n in 0..=21u32 {
        for d in [0u64, 1] {
            let l = (1u64 << n) + d;
            let few = if n <= 14 { &mut few } else { &mut large };
            for a in vcommon::ALGS {
                few.push(Case::Hash(a, p(l)));
            }
            few.push(Case::Sum(p(l)));
            few.push(kdf(l, p(8), p(16), 1, 3, 1));
            few.push(kdf(32, p(l), p(16), 1, (l / 1536 + 8).next_power_of_two(), 16));
            few.push(kdf(32, p(16), p(l), 1, (l / 1536 + 8).next_power_of_two(), 16));
            if n <= 17 {
                few.push(kdf(32, p(16), p(8), l, 3, 1));
                few.push(kdf(32, p(16), p(8), 1, l + 2, 1));
                few.push(kdf(32, p(16), p(8), 1, 3, l));
            }
        }
    }
    let mut spaces = mode_spaces(th, hooks);
    spaces.push(Space { name: "large".into(), what: "large".into(), n: large.len() as u64, case: Box::new(move |i| large[i as usize].clone()) });
    spaces.extend(domain_spaces(false));
    let ends = spaces.iter().scan(0, |a, s| { *a += s.n; Some(*a) }).collect();
    Set { few, spaces, ends }
}

// ------------------------------------------------------------------ C16
/// Which requests for memory are refused: the one-th, the two-th, all from one on, all larger ones
#[derive(Clone, Debug)]
pub struct Plan {
    pub one: i64,
    pub two: i64,
    pub from: i64,
    pub larger: usize,
}
#[allow(dead_code)]
impl Plan {
    pub fn none() -> Plan {
        Plan { one: -1, two: -1, from: i64::MAX, larger: usize::MAX }
    }
    pub fn show(&self) -> String {
        format!("{} {} {} {}", self.one, self.two, self.from, self.larger)
    }
    pub fn parse(s: &str) -> Option<Plan> {
        let f: Vec<&str> = s.split(' ').collect();
        Some(Plan { one: f.first()?.parse().ok()?, two: f.get(1)?.parse().ok()?, from: f.get(2)?.parse().ok()?, larger: f.get(3)?.parse().ok()? })
    }
}
#[allow(dead_code)]
pub fn plans(n: i64, th: bool) -> Vec<Plan> {
    let mut v = Vec::new();
    for i in 0..n.min(if th { 4000 } else { 600 }) {
        v.push(Plan { one: i, ..Plan::none() });
        v.push(Plan { from: i, ..Plan::none() });
    }
    for s in [0usize, 31, 63, 95, 127, 255, 511, 1023, 1535, 2047, 4095, 8191, 16383, 65535, 1 << 18, 1 << 20] {
        v.push(Plan { larger: s, ..Plan::none() });
    }
    // a way around the first refusal may meet a second one
    let m = n.min(if th { 60 } else { 14 });
    for i in 0..m {
        for j in i + 1..m + 6 {
            v.push(Plan { one: i, two: j, ..Plan::none() });
        }
    }
    v
}
#[allow(dead_code)]
pub fn oom_cases(th: bool) -> Vec<Case> {
    let mut v = crate::alphabet::full();
    let p = |l: u64| pat('l', l as u32);
    for l in 0..=(if th { 2000u64 } else { 300 }) {
        v.push(kdf(l, p(8), p(16), 1, 4, 4));
        v.push(kdf(32, p(l), p(16), 1, 8, 8));
        v.push(kdf(32, p(16), p(l), 2, 8, 8));
        if l >= 3 {
            v.push(kdf(32, p(16), p(16), 1, l, 2));
            v.push(kdf(32, p(16), p(16), 1, 3, l));
        }
        for a in vcommon::ALGS {
            v.push(Case::Hash(a, p(l)));
        }
        v.push(Case::Sum(p(l)));
    }
    for r in [3u64, 4, 8, 33] {
        for c in [1u64, 2, 16] {
            for k in [0u64, 32, 97, 1000] {
                for (pl, sl) in [(0, 0), (8, 8), (100, 8), (8, 100)] {
                    v.push(kdf(k, p(pl), p(sl), 1 + r % 2, r, c));
                }
            }
        }
    }
    for k in [10_000, 100_000] {
        v.push(kdf(k, p(8), p(8), 1, 4, 4));
    }
    v.push(kdf(32, p(3000), p(8), 1, 16, 8));
    v.push(kdf(32, p(8), p(3000), 1, 16, 8));
    v.push(kdf(32, p(8), p(8), 1, 512, 16));
    for a in vcommon::ALGS {
        for l in [0u32, 1, 63, 64, 65, 200, 5000, 100_000] {
            v.push(Case::Hash(a, pat('l', l)));
        }
    }
    if th {
        v.extend(crate::alphabet::large_ops());
    }
    v
}
/// With this bound on one block, four times as much may be had altogether.
#[allow(dead_code)]
pub const NARROW: usize = 64 << 20;
/// Matrix or key beyond that and still addressable
#[allow(dead_code)]
pub fn huge_cases(th: bool) -> Vec<Case> {
    let p = || pat('l', 8);
    let mut v = Vec::new();
    let mut side: Vec<u64> = Vec::new();
    for n in 0..60u32 {
        for d in [-1i64, 0, 1] {
            side.push((1u64 << n).wrapping_add(d as u64));
        }
    }
    for m in [3u64, 12, 24, 48, 96] {
        for b in [u32::MAX as u64, i32::MAX as u64, 1 << 32, 1 << 40, 1 << 48] {
            side.extend([b / m, b / m + 1]);
        }
    }
    side.sort_unstable();
    side.dedup();
    for (i, &a) in side.iter().enumerate() {
        for (j, &b) in side.iter().enumerate() {
            let bytes = a as u128 * b as u128 * 96;
            if a >= 3 && b >= 1 && bytes > (5 * NARROW) as u128 && bytes <= i64::MAX as u128 && (th || (i + j) % 2 == 0 || a < 5 || b < 5) {
                v.push(kdf(32, p(), p(), 1, a, b));
            }
        }
    }
    for n in 29..64u32 {
        for d in [-1i64, 0, 1] {
            v.push(kdf((1u64 << n).wrapping_add(d as u64), p(), p(), 1, 4, 4));
        }
    }
    v.push(kdf(u64::MAX, p(), p(), 1, 4, 4));
    v
}
