//! C17: the work of a call is proportional to what its arguments ask for. Two measures: bytes asked from the allocator
//! in total (exact), and processor time against that of the reference model, which takes one step per state.
use crate::engine::{nthreads, scratch};
use crate::exec;
use crate::history::{shards, Shared};
use crate::mem;
use crate::report::Report;
use std::io::Write;
use std::sync::atomic::Ordering::*;
use vcommon::lyra::Stats;
use vcommon::spaces::kdf;
use vcommon::{pat, Case, Outcome, ALGS};

/// (bytes of matrix, passes over it, bytes in and out)
fn asked(c: &Case) -> (u64, u64, u64) {
    match c {
        Case::Kdf { k, pwd, salt, t, r, c } => (r.saturating_mul(*c).saturating_mul(96), *t, k + (pwd.len() + salt.len()) as u64),
        Case::Sum(d) => (16 * 96, 1, 32 + 2 * d.len() as u64),
        Case::Hash(_, d) => (64 * 96, 8, 32 + d.len() as u64),
        Case::Stage(_, d) => (64 * 96, 8, 32 + d.len() as u64),
    }
}
/// How much a call may ask from the allocator, everything together
pub fn traffic_bound(c: &Case) -> i64 {
    let (matrix, t, io) = asked(c);
    (matrix.saturating_mul(t.max(1)).saturating_add(io).min(1 << 50) as i64) * 64 + 256 * 1024
}
pub fn traffic(c: &Case) -> i64 {
    mem::total_of(|| mem::measure(c, false))
}

fn cpu_ns() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
const FACTOR: u64 = 40;
const FLOOR: u64 = 20_000_000;
/// Processor time of the call and how much it may take
pub fn time(c: &Case) -> (u64, u64, Outcome) {
    let (matrix, _, io) = asked(c);
    let p = exec::prepare(c);
    let a = cpu_ns();
    let got = exec::actual_prepared(p);
    let b = cpu_ns();
    let exp = c.expected(&mut Stats::default());
    let m = cpu_ns();
    drop(exp);
    // a refused call may have looked at its arguments and made room for them
    let touch = if got == Outcome::Panic { 0 } else { matrix.min(1 << 36) * 4 } + io.min(1 << 36) * 4;
    (b - a, FACTOR * (m - b) + FLOOR + touch, got)
}
fn too_long(c: &Case) -> Option<(u64, u64)> {
    let mut worst = (0, 0);
    // a busy machine is no violation: it has to take too long every time
    for i in 0..4 {
        let (a, b, _) = time(c);
        if a <= b {
            return None;
        }
        if i == 0 || a < worst.0 {
            worst = (a, b);
        }
        if a > 20_000_000_000 {
            break;
        }
    }
    Some(worst)
}

fn timed(th: bool) -> Vec<Case> {
    let p = |l: u64| pat('l', l as u32);
    let s = |l: u64| pat('L', l as u32);
    let fit = |io: u64, c: u64| (io + 112) / (96 * c) + 4;
    let mut v = Vec::new();
    let top = if th { 24 } else { 22 };
    // one argument at a time
    for n in 10..=top {
        for l in [1u64 << n, (1 << n) + 1, 3 << (n - 1)] {
            for c in [1, 4, 64] {
                v.push(kdf(32, p(l), s(8), 1, fit(l + 8, c), c));
                v.push(kdf(32, p(8), s(l), 1, fit(l + 8, c), c));
            }
            v.push(kdf(32, p(l / 2), s(l - l / 2), 1, fit(l, 16), 16));
            v.push(kdf(l, p(8), s(8), 1, 3, 2));
            v.push(kdf(32, p(l), s(8), 1, 4, 4)); // too long
            v.push(Case::Sum(p(l)));
            for a in ALGS {
                v.push(Case::Hash(a, p(l)));
            }
            if n <= top - 4 {
                v.push(kdf(32, p(8), s(8), 1, l, 1));
                v.push(kdf(32, p(8), s(8), 2, 3, l));
                v.push(kdf(32, p(8), s(8), l, 3, 1));
                v.push(kdf(32, p(8), s(8), l, 8, 1));
            }
        }
    }
    // several
    for k in [32u64, 5_000, 300_000] {
        for pl in [8u64, 3_000, 200_000] {
            for sl in [8u64, 3_000, 200_000] {
                for t in [1u64, 40, 2_000] {
                    for r in [4u64, 200, 10_000, 1 << 14] {
                        for c in [2u64, 50, 2_000] {
                            let cells = (r * c).saturating_mul(t);
                            if cells <= if th { 4_000_000 } else { 500_000 } {
                                v.push(kdf(k, p(pl), s(sl), t, r, c));
                            }
                        }
                    }
                }
            }
        }
    }
    // smallest first: what grows too fast is noticed while it is still quick
    v.sort_by_key(|c| {
        let (m, t, io) = asked(c);
        m.saturating_mul(t.max(1)).saturating_add(io)
    });
    v
}

const LIMIT: u32 = 90;

pub fn check(rep: &mut Report) -> Result<(), String> {
    let th = rep.thorough;
    let n = nthreads();
    let sh = Shared::new();
    let path = scratch().join("work");
    let path = path.to_str().unwrap().to_string();
    let log = |c: &Case, e: String, g: String| {
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(&path) {
            let _ = f.write_all(format!("{}\t{e}\t{g}\n", c.show()).as_bytes());
        }
        sh.at(9).store(1, Relaxed);
    };
    let mut spaces = vcommon::spaces::mode_spaces(th, exec::HOOKS);
    spaces.extend(vcommon::spaces::domain_spaces(false));
    let ends: Vec<u64> = spaces.iter().scan(0, |a, s| { *a += s.n; Some(*a) }).collect();
    let total = *ends.last().unwrap_or(&0);
    let cases = timed(th);
    let bad = shards(n, |shard| {
        exec::silence_panics();
        mem::count(true);
        // processor time first, while every shard does the same
        loop {
            let i = sh.at(0).fetch_add(1, Relaxed) as usize;
            if i >= cases.len() || sh.at(9).load(Relaxed) != 0 {
                break;
            }
            sh.at(16 + shard).store(1 + i as u64, SeqCst);
            unsafe { libc::alarm(LIMIT) };
            let c = &cases[i];
            let (a, b, _) = time(c);
            sh.at(5).fetch_add(1, Relaxed);
            sh.at(6).fetch_max(a * 1000 / b, Relaxed);
            if a > b {
                unsafe { libc::alarm(4 * LIMIT) };
                if let Some((a, b)) = too_long(c) {
                    return log(c, format!("at most {} ms of processor time ({FACTOR} times what one step per state takes)", b / 1_000_000), format!("{} ms", a / 1_000_000));
                }
            }
            let (u, m) = (traffic(c), traffic_bound(c));
            sh.at(7).fetch_max((u * 1000 / m) as u64, Relaxed);
            if u > m {
                return log(c, format!("at most {m} bytes of memory asked for in total"), format!("{u} bytes"));
            }
            sh.at(16 + shard).store(0, SeqCst);
        }
        // memory asked for: every case of the spaces
        loop {
            let i = sh.at(1).fetch_add(64, Relaxed);
            if i >= total || sh.at(9).load(Relaxed) != 0 {
                break;
            }
            for i in i..(i + 64).min(total) {
                let k = ends.partition_point(|e| *e <= i);
                let c = (spaces[k].case)(i - if k == 0 { 0 } else { ends[k - 1] });
                unsafe { libc::alarm(LIMIT) };
                let (u, m) = (traffic(&c), traffic_bound(&c));
                sh.at(8).fetch_add(1, Relaxed);
                sh.at(7).fetch_max((u * 1000 / m) as u64, Relaxed);
                if u > m {
                    return log(&c, format!("at most {m} bytes of memory asked for in total"), format!("{u} bytes"));
                }
            }
        }
    });
    for l in std::fs::read_to_string(&path).unwrap_or_default().lines().take(3) {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() == 3 {
            rep.violate("work", &[("case", f[0].into()), ("expected", f[1].into()), ("got", f[2].into())]);
        }
    }
    if rep.violations.is_empty() && !bad.is_empty() {
        // a call that does not end, or ends the process
        for shard in 0..n {
            let i = sh.at(16 + shard).load(SeqCst);
            if i == 0 {
                continue;
            }
            let c = &cases[i as usize - 1];
            if let Some(how) = ends_badly(c) {
                rep.violate("work", &[("case", c.show()), ("expected", format!("the call ends within {LIMIT} s")), ("got", how)]);
                break;
            }
        }
        if rep.violations.is_empty() {
            return Err(bad.join(", "));
        }
    }
    let done = sh.at(5).load(SeqCst) + sh.at(8).load(SeqCst);
    rep.states += done;
    rep.transitions += done;
    rep.traces += done;
    rep.num("calls_timed", sh.at(5).load(SeqCst));
    rep.num("calls_with_memory_traffic_counted", done);
    rep.num("most_time_in_thousandths_of_the_bound", sh.at(6).load(SeqCst));
    rep.num("most_memory_traffic_in_thousandths_of_the_bound", sh.at(7).load(SeqCst));
    for c in cases.iter().step_by(cases.len() / 12 + 1) {
        rep.sample(c.show());
    }
    rep.assume("processor time is compared with the reference model's in the same process, with a factor of 40 and 20 ms to spare");
    Ok(())
}

fn ends_badly(c: &Case) -> Option<String> {
    match crate::engine::run_one(&std::env::var("MC_REL").unwrap_or_default(), &c.show(), std::time::Duration::from_secs(LIMIT as u64)) {
        crate::engine::One::Outcome(_) => None,
        crate::engine::One::Died(how) => Some(how),
    }
}

pub fn replay(case: &str) -> bool {
    let Some(c) = Case::parse(case) else { return false };
    if let Some(how) = ends_badly(&c) {
        println!("{how}");
        return true;
    }
    mem::count(true);
    let (u, m) = (traffic(&c), traffic_bound(&c));
    println!("memory asked for: {u} bytes, bound {m}");
    let t = too_long(&c);
    println!("processor time: {}", t.map_or("within the bound".into(), |(a, b)| format!("{} ms, bound {} ms", a / 1_000_000, b / 1_000_000)));
    u > m || t.is_some()
}
