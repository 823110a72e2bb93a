//! C07: every call history up to a depth, on the real code. A node of the search is a process that has
//! executed the history so far; branching is fork(). Each call's outcome is compared with the outcome of
//! the same call as the first one of a freshly started process.
use crate::alphabet;
use crate::engine::{run_one, One};
use crate::exec;
use crate::report::Report;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::Duration;
use vcommon::Case;

/// Shared (across fork) counters and flags.
pub struct Shared(*mut AtomicU64);
impl Shared {
    pub fn new() -> Shared {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        Shared(p as *mut AtomicU64)
    }
    pub fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(i) }
    }
}
const STATES: usize = 0;
const CALLS: usize = 1;
const STOP: usize = 2;

#[derive(Clone, Copy, PartialEq)]
pub struct Step {
    pub op: usize,
    pub mode: u8,
}
/// How a call is made: on the main thread, on a thread of its own, or in a destructor while a panic of the program unwinds
pub const MODES: [&str; 3] = ["main", "thread", "unwinding"];

struct Ctx<'a> {
    ops: &'a [Case],
    solo: &'a [String],
    modes: &'a [u8],
    sh: &'a Shared,
    log: &'a str,
}

pub fn do_call(c: &Case, mode: u8) -> String {
    let p = exec::prepare(c);
    if mode == 2 {
        struct Late(Option<exec::Prepared>, *mut String);
        impl Drop for Late {
            fn drop(&mut self) {
                if let Some(p) = self.0.take() {
                    let s = exec::actual_prepared(p).show();
                    unsafe { *self.1 = s };
                }
            }
        }
        let mut out = String::new();
        let late = Late(Some(p), &mut out);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _late = late;
            panic!("the program's own");
        }));
        return out;
    }
    if mode == 1 {
        std::thread::Builder::new().stack_size(1 << 20).spawn(move || exec::actual_prepared(p).show()).expect("thread").join().unwrap_or_else(|_| "thread died".into())
    } else {
        exec::actual_prepared(p).show()
    }
}

fn log_line(path: &str, s: &str) {
    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(path) {
        let _ = f.write_all(format!("{s}\n").as_bytes());
    }
}

fn show(seq: &[Step], ops: &[Case]) -> String {
    seq.iter().map(|s| format!("{}:{}", MODES[s.mode as usize], ops[s.op].show())).collect::<Vec<_>>().join(" | ")
}

fn explore(cx: &Ctx, seq: &mut Vec<Step>, depth: usize, shard: (usize, usize)) {
    let mut n = 0;
    for op in 0..cx.ops.len() {
        for &mode in cx.modes {
            n += 1;
            if seq.is_empty() && n % shard.1 != shard.0 {
                continue;
            }
            if cx.sh.at(STOP).load(Relaxed) != 0 {
                return;
            }
            seq.push(Step { op, mode });
            let pid = unsafe { libc::fork() };
            if pid < 0 {
                log_line(cx.log, "E\tfork failed");
                cx.sh.at(STOP).store(2, Relaxed);
                return;
            }
            if pid == 0 {
                unsafe { libc::alarm(60) };
                let got = do_call(&cx.ops[op], mode);
                unsafe { libc::alarm(0) };
                cx.sh.at(STATES).fetch_add(1, Relaxed);
                cx.sh.at(CALLS).fetch_add(1, Relaxed);
                if got != cx.solo[op] {
                    log_line(cx.log, &format!("V\t{}\t{}\t{}", show(seq, cx.ops), cx.solo[op], got));
                    cx.sh.at(STOP).store(1, Relaxed);
                } else if depth > 1 {
                    explore(cx, seq, depth - 1, shard);
                }
                unsafe { libc::_exit(0) };
            }
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                let how = if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM { "no result after 60 s".to_string() } else { format!("process died, wait status {st:#x}") };
                log_line(cx.log, &format!("V\t{}\t{}\t{}", show(seq, cx.ops), cx.solo[op], how));
                cx.sh.at(STOP).store(1, Relaxed);
            }
            seq.pop();
        }
    }
}

/// One long history in one process; `seq` yields operation indices.
fn long_run(cx: &Ctx, name: &str, seq: &mut dyn Iterator<Item = usize>, mode: u8) {
    let mut tail: Vec<Step> = Vec::new();
    let mut n = 0u64;
    for op in seq {
        if cx.sh.at(STOP).load(Relaxed) != 0 {
            return;
        }
        tail.push(Step { op, mode });
        if tail.len() > 6 {
            tail.remove(0);
        }
        if n % 256 == 0 {
            unsafe { libc::alarm(120) };
        }
        let got = do_call(&cx.ops[op], mode);
        n += 1;
        if got != cx.solo[op] {
            log_line(cx.log, &format!("L\t{name}\t{n}\t{}\t{}\t{}", show(&tail, cx.ops), cx.solo[op], got));
            cx.sh.at(STOP).store(1, Relaxed);
            return;
        }
    }
    unsafe { libc::alarm(0) };
    cx.sh.at(STATES).fetch_add(n, Relaxed);
    cx.sh.at(CALLS).fetch_add(n, Relaxed);
}

/// Runs `f` for each shard in a forked process, waits for all. False if one died.
pub fn shards(n: usize, f: impl Fn(usize)) -> Vec<String> {
    let mut pids = Vec::new();
    for i in 0..n {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            f(i);
            unsafe { libc::_exit(0) };
        }
        pids.push((i, pid));
    }
    let mut bad = Vec::new();
    for (i, p) in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
            bad.push(format!("shard {i} ended with wait status {st:#x}"));
        }
    }
    bad
}

pub fn solo_table(bin: &str, ops: &[Case]) -> Result<Vec<String>, String> {
    let n = crate::engine::nthreads();
    let mut out = vec![String::new(); ops.len()];
    let mut err = None;
    for (cs, os) in ops.chunks(n).zip(out.chunks_mut(n)) {
        std::thread::scope(|s| {
            let hs: Vec<_> = cs.iter().map(|c| s.spawn(move || run_one(bin, &c.show(), Duration::from_secs(60)))).collect();
            for ((h, o), c) in hs.into_iter().zip(os.iter_mut()).zip(cs) {
                match h.join().unwrap() {
                    One::Outcome(x) => *o = x,
                    One::Died(how) => err = Some(format!("{} as the first call of a process: {how}", c.show())),
                }
            }
        });
    }
    match err {
        Some(e) => Err(e),
        None => Ok(out),
    }
}

fn run_space(rep: &mut Report, name: &str, what: &str, ops: &[Case], solo: &[String], modes: &[u8], depth: usize) -> Result<(), String> {
    let sh = Shared::new();
    let log = crate::engine::scratch().join(format!("hist-{name}"));
    let log = log.to_str().unwrap();
    let cx = Ctx { ops, solo, modes, sh: &sh, log };
    let n = crate::engine::nthreads();
    let bad = shards(n, |i| {
        exec::silence_panics();
        explore(&cx, &mut Vec::new(), depth, (i, n))
    });
    finish(rep, name, what, &sh, log, bad, Some((ops.len() * modes.len(), depth)))
}

fn finish(rep: &mut Report, name: &str, what: &str, sh: &Shared, log: &str, bad: Vec<String>, tree: Option<(usize, usize)>) -> Result<(), String> {
    for l in std::fs::read_to_string(log).unwrap_or_default().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "V" => rep.violate("history", &[("build", "release".into()), ("history", f[1].into()), ("expected", f[2].into()), ("got", f[3].into())]),
            "L" => rep.violate("long-history", &[("build", "release".into()), ("sequence", f[1].into()), ("call number", f[2].into()), ("history", f[3].into()), ("expected", f[4].into()), ("got", f[5].into())]),
            _ => return Err(l.to_string()),
        }
    }
    if !bad.is_empty() && rep.violations.is_empty() {
        return Err(bad.join("; "));
    }
    let (st, calls) = (sh.at(STATES).load(Relaxed), sh.at(CALLS).load(Relaxed));
    if let (Some((a, d)), true) = (tree, rep.violations.is_empty()) {
        let want: u64 = (1..=d as u32).map(|i| (a as u64).pow(i)).sum();
        if want != st {
            return Err(format!("{name}: {st} of {want} histories executed"));
        }
    }
    rep.states += st;
    rep.transitions += calls;
    rep.traces += st;
    rep.extra.push((format!("space_{name}"), format!("{{\"what\": {}, \"histories_or_calls\": {st}}}", crate::report::jstr(what))));
    Ok(())
}

pub fn check(rep: &mut Report) -> Result<(), String> {
    let bin = crate::checks::bin("release")?;
    let mut full = alphabet::full();
    if exec::HOOKS {
        full.extend(alphabet::stages());
    }
    full.push(vcommon::spaces::kdf(32, vcommon::pat('l', 8), vcommon::pat('L', 8), 1, 3, 1));
    let solo = solo_table(&bin, &full)?;
    let core = alphabet::core();
    let solo_core = solo_table(&bin, &core)?;
    let small = alphabet::small();
    let solo_small = solo_table(&bin, &small)?;
    for c in full.iter().take(12) {
        rep.sample(c.show());
    }
    rep.num("alphabet_calls", full.len() as u64);
    rep.num("alphabet_of_which_panicking", solo.iter().filter(|s| *s == "panic").count() as u64);
    let th = rep.thorough;
    let step = |rep: &Report| rep.violations.is_empty();
    run_space(rep, "pairs", "every history of 1 or 2 calls, each on the main thread, on a thread of its own or while a panic unwinds", &full, &solo, &[0, 1, 2], 2)?;
    if step(rep) {
        run_space(rep, "triples", "every history of up to 3 calls (without the large ones) on the main thread", &core, &solo_core, &[0], 3)?;
    }
    if step(rep) && th {
        run_space(rep, "triples_threads", "every history of up to 3 calls (without the large ones), both thread modes", &core, &solo_core, &[0, 1], 3)?;
    }
    if step(rep) {
        run_space(rep, "deep", if th { "every history of up to 4 calls over the small alphabet, both thread modes" } else { "every history of up to 3 calls over the small alphabet, both thread modes" }, &small, &solo_small, &[0, 1], if th { 4 } else { 3 })?;
    }
    let n = crate::engine::nthreads();
    if step(rep) {
        let sh = Shared::new();
        let log = crate::engine::scratch().join("hist-windows");
        let log = log.to_str().unwrap().to_string();
        let cx = Ctx { ops: &core, solo: &solo_core, modes: &[0], sh: &sh, log: &log };
        let seq = alphabet::de_bruijn(core.len(), 3);
        // one process walks all windows in one history; the others walk rotations of the small alphabet's order-4 sequence
        let cs = Ctx { ops: &small, solo: &solo_small, modes: &[0], sh: &sh, log: &log };
        let seq4 = alphabet::de_bruijn(small.len(), if th { 5 } else { 4 });
        let bad = shards(2, |i| {
            exec::silence_panics();
            if i == 0 {
                long_run(&cx, "de Bruijn order 3", &mut seq.iter().copied(), 0)
            } else {
                long_run(&cs, "de Bruijn small alphabet", &mut seq4.iter().copied(), 0)
            }
        });
        finish(rep, "windows", "one process, one history containing every window of 3 calls (and of 4/5 over the small alphabet)", &sh, &log, bad, None)?;
    }
    if step(rep) {
        let sh = Shared::new();
        let log = crate::engine::scratch().join("hist-pump");
        let log = log.to_str().unwrap().to_string();
        let cx = Ctx { ops: &full, solo: &solo, modes: &[0], sh: &sh, log: &log };
        let reps = if th { 1_200_000 } else { 66_000 };
        // one short call of each function more often than that
        let find = |want: &Case| full.iter().position(|c| c.show() == want.show());
        let k = alphabet::kdf_ops();
        let mut queue: Vec<(usize, usize)> = Vec::new();
        if !th {
            let m = alphabet::messages();
            let mut often = vec![(vcommon::spaces::kdf(32, vcommon::pat('l', 8), vcommon::pat('L', 8), 1, 3, 1), 2_200_000), (k[17].clone(), 1_100_000), (alphabet::panicking_ops()[0].clone(), 1_100_000)];
            often.extend(vcommon::ALGS.iter().map(|a| (Case::Hash(*a, m[0].clone()), if *a == vcommon::Alg::Z { 300_000 } else { 530_000 })));
            queue.extend(often.iter().filter_map(|(c, n)| Some((find(c)?, *n))));
        }
        queue.extend((0..full.len()).map(|op| (op, reps / alphabet::weight(&full[op]))));
        let next = Shared::new();
        let bad = shards(n, |_| {
            exec::silence_panics();
            loop {
                let i = next.at(0).fetch_add(1, Relaxed) as usize;
                if i >= queue.len() {
                    break;
                }
                let (op, reps) = queue[i];
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    long_run(&cx, &format!("repeat {}", full[op].show()), &mut std::iter::repeat(op).take(reps), 0);
                    unsafe { libc::_exit(0) };
                }
                let mut st = 0;
                unsafe { libc::waitpid(pid, &mut st, 0) };
                if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                    log_line(&log, &format!("L\trepeat\t0\tmain:{}\t{}\tprocess died, wait status {st:#x}", full[op].show(), solo[op]));
                    sh.at(STOP).store(1, Relaxed);
                }
            }
        });
        finish(rep, "repeats", &format!("each call repeated {reps} times in one process (crosses 8- and 16-bit counters), one short call of each function up to 2,200,000 times (21-bit counters)"), &sh, &log, bad, None)?;
    }
    if step(rep) {
        let sh = Shared::new();
        let log = crate::engine::scratch().join("hist-alt");
        let log = log.to_str().unwrap().to_string();
        let cx = Ctx { ops: &small, solo: &solo_small, modes: &[0], sh: &sh, log: &log };
        let pairs: Vec<(usize, usize)> = (0..small.len()).flat_map(|a| (0..small.len()).map(move |b| (a, b))).filter(|(a, b)| a != b).collect();
        let reps = if th { 20_000 } else { 600 };
        let next = Shared::new();
        let bad = shards(n, |_| {
            exec::silence_panics();
            loop {
                let i = next.at(0).fetch_add(1, Relaxed) as usize;
                if i >= pairs.len() {
                    break;
                }
                let (a, b) = pairs[i];
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    long_run(&cx, &format!("alternate {} and {}", small[a].show(), small[b].show()), &mut (0..reps).map(|j| if j % 2 == 0 { a } else { b }), 0);
                    // a long run of one call, then the other
                    long_run(&cx, &format!("{reps} times {} then {}", small[a].show(), small[b].show()), &mut (0..reps + 2).map(|j| if j < reps { a } else { b }), 0);
                    unsafe { libc::_exit(0) };
                }
                let mut st = 0;
                unsafe { libc::waitpid(pid, &mut st, 0) };
                if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                    log_line(&log, &format!("L\talternate\t0\tmain:{} | main:{}\t{}\tprocess died, wait status {st:#x}", small[a].show(), small[b].show(), solo_small[a]));
                    sh.at(STOP).store(1, Relaxed);
                }
            }
        });
        finish(rep, "alternations", &format!("every ordered pair of the small alphabet, alternated and run in blocks, {reps} calls each"), &sh, &log, bad, None)?;
    }
    if step(rep) {
        collisions(rep, &bin)?;
    }
    if step(rep) {
        distinct(rep, &bin)?;
    }
    rep.assume("a process that has executed a history is the state; fork() copies it exactly");
    Ok(())
}

/// Pairs of different calls that agree in a checksum of their arguments, in both orders, and all of them in one process.
fn collisions(rep: &mut Report, bin: &str) -> Result<(), String> {
    let pairs = crate::collide::calls(rep.thorough, exec::HOOKS);
    if pairs.len() < 500 {
        return Err(format!("only {} pairs of calls with equal checksums", pairs.len()));
    }
    let mut at = std::collections::HashMap::new();
    let mut ops: Vec<Case> = Vec::new();
    let mut id = |c: &Case| {
        *at.entry(c.show()).or_insert_with(|| {
            ops.push(c.clone());
            ops.len() - 1
        })
    };
    let ids: Vec<(usize, usize)> = pairs.iter().map(|(_, a, b)| (id(a), id(b))).collect();
    let solo = solo_table(bin, &ops)?;
    let sh = Shared::new();
    let log = crate::engine::scratch().join("hist-collisions");
    let log = log.to_str().unwrap().to_string();
    let cx = Ctx { ops: &ops, solo: &solo, modes: &[0], sh: &sh, log: &log };
    let n = crate::engine::nthreads();
    let next = Shared::new();
    let walk: Vec<usize> = ids.iter().map(|p| p.0).chain(ids.iter().map(|p| p.1)).chain(ids.iter().rev().map(|p| p.0)).collect();
    let bad = shards(n, |_| {
        exec::silence_panics();
        loop {
            let i = next.at(0).fetch_add(1, Relaxed) as usize;
            if i > ids.len() || sh.at(STOP).load(Relaxed) != 0 {
                break;
            }
            // the walk over all pairs in one process first, it takes longest
            let runs: Vec<(String, Vec<usize>)> = match i.checked_sub(1) {
                None => vec![("all pairs: the first calls, the second ones, the first ones".into(), walk.clone())],
                Some(i) => {
                    let ((a, b), what) = (ids[i], &pairs[i].0);
                    vec![(what.clone(), vec![a, b, a]), (what.clone(), vec![b, a, b])]
                }
            };
            for (what, seq) in runs {
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    long_run(&cx, &what, &mut seq.iter().copied(), 0);
                    unsafe { libc::_exit(0) };
                }
                let mut st = 0;
                unsafe { libc::waitpid(pid, &mut st, 0) };
                if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                    let h: Vec<Step> = seq.iter().take(6).map(|op| Step { op: *op, mode: 0 }).collect();
                    log_line(&log, &format!("L\t{what}\t0\t{}\ta result\tprocess died, wait status {st:#x}", show(&h, &ops)));
                    sh.at(STOP).store(1, Relaxed);
                }
            }
        }
    });
    let what = format!("{} pairs of different calls with equal checksums, sums, products or low bits of their arguments, in both orders, and all in one process", pairs.len());
    finish(rep, "collisions", &what, &sh, &log, bad, None)
}

/// The j-th call of a family of calls with pairwise different arguments. The arguments of one family
/// differ in one region only, or are permutations of each other, so that a key derived from part of them,
/// from their length or from a sum does not tell them apart.
pub fn family(f: usize, j: u64) -> Case {
    use vcommon::{pat, Data};
    let k = vcommon::spaces::kdf;
    let at = |n: u32, at: usize, w: usize| {
        let mut v = pat('l', n).bytes();
        v[at..at + w].copy_from_slice(&j.to_le_bytes()[..w]);
        Data::Bytes(v)
    };
    let perm = |n: u32| {
        let mut v = pat('l', n).bytes();
        let mut x = j;
        for i in (1..8usize.min(n as usize)).rev() {
            v.swap(i, (x % (i as u64 + 1)) as usize);
            x /= i as u64 + 1;
        }
        if x > 0 {
            let at = v.len() - 8;
            v[at..].copy_from_slice(&(x as u64).to_le_bytes());
        }
        Data::Bytes(v)
    };
    let (alg, kind) = (f / 4, f % 4);
    if alg < 4 {
        let a = vcommon::ALGS[alg];
        return match kind {
            0 => Case::Hash(a, at(80, 76, 4)),
            1 => Case::Hash(a, at(80, 0, 4)),
            2 => Case::Hash(a, perm(80)),
            _ => Case::Hash(a, pat(if j % 2 == 0 { 'z' } else { 'f' }, (j / 2 % 6000) as u32)),
        };
    }
    match f - 16 {
        0 => Case::Sum(at(32, 0, 8)),
        1 => Case::Sum(perm(32)),
        2 => k(32, at(32, 24, 8), pat('L', 32), 1, 4, 4),
        3 => k(32, pat('L', 32), at(32, 0, 8), 1, 4, 4),
        4 => k(16 + j % 100, pat('l', 8), pat('L', 8), 1 + j / 100 % 5, 3 + j / 500 % 10, 1 + j / 5000),
        _ => k(32, pat('z', (j % 300) as u32), pat('z', (j / 300 % 300) as u32), 1, 4, 8),
    }
}
const FAMILIES: usize = 22;

/// Histories of many calls that were never made before, then the same calls again in reverse order.
/// The expected outcomes come from the model of C01-C05; where they differ, a fresh process decides.
fn distinct(rep: &mut Report, bin: &str) -> Result<(), String> {
    let sh = Shared::new();
    let log = crate::engine::scratch().join("hist-distinct");
    let log = log.to_str().unwrap().to_string();
    let n: u64 = if rep.thorough { 200_000 } else { 12_000 };
    let next = Shared::new();
    let bad = shards(crate::engine::nthreads(), |_| {
        exec::silence_panics();
        loop {
            let f = next.at(0).fetch_add(1, Relaxed) as usize;
            if f >= FAMILIES || sh.at(STOP).load(Relaxed) != 0 {
                break;
            }
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                let exp: Vec<u128> = (0..n).map(|j| exec::fp(&family(f, j).expected(&mut Default::default()))).collect();
                let mut differs = 0;
                for (count, j) in (0..n).chain((0..n).rev()).enumerate() {
                    if count % 256 == 0 {
                        unsafe { libc::alarm(300) };
                    }
                    let c = family(f, j);
                    let got = exec::actual(&c);
                    sh.at(CALLS).fetch_add(1, Relaxed);
                    if exec::fp(&got) != exp[j as usize] {
                        let got = got.show();
                        let solo = match run_one(bin, &c.show(), Duration::from_secs(60)) {
                            One::Outcome(o) => o,
                            One::Died(h) => h,
                        };
                        if solo != got {
                            log_line(&log, &format!("L\tfamily {f}, {n} different calls, then in reverse\t{}\tmain:{}\t{solo}\t{got}", count + 1, c.show()));
                            sh.at(STOP).store(1, Relaxed);
                            break;
                        }
                        // the function itself is wrong here (C01-C05), whatever the history
                        differs += 1;
                        if differs > 200 {
                            break;
                        }
                    }
                }
                unsafe { libc::_exit(0) };
            }
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                log_line(&log, &format!("L\tfamily {f}\t0\tmain:{}\ta result\tprocess died, wait status {st:#x}", family(f, 0).show()));
                sh.at(STOP).store(1, Relaxed);
            }
        }
    });
    sh.at(STATES).store(sh.at(CALLS).load(Relaxed), Relaxed);
    finish(rep, "distinct", &format!("{FAMILIES} families of {n} different calls in one process, then the same calls in reverse order"), &sh, &log, bad, None)
}

/// Replays a history of the "distinct" space up to the call number recorded.
pub fn replay_family(seq: &str, upto: usize) -> Option<bool> {
    let w: Vec<u64> = seq.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    if !seq.starts_with("family ") || w.len() < 2 {
        return None;
    }
    exec::silence_panics();
    let bin = crate::checks::bin("release").unwrap_or_default();
    let mut last = None;
    for j in (0..w[1]).chain((0..w[1]).rev()).take(upto.max(1)) {
        let c = family(w[0] as usize, j);
        last = Some((exec::actual(&c).show(), c.show()));
    }
    let (got, c) = last?;
    let solo = match run_one(&bin, &c, Duration::from_secs(60)) {
        One::Outcome(o) => o,
        One::Died(d) => d,
    };
    println!("call {upto} {c}: {got}; in a fresh process: {solo}");
    Some(got != solo)
}

/// Replays "main:case | thread:case" in this process; prints each outcome against a fresh process.
pub fn replay(h: &str) -> bool {
    exec::silence_panics();
    let bin = crate::checks::bin("release").unwrap_or_default();
    let mut bad = false;
    for s in h.split(" | ") {
        let Some((m, c)) = s.split_once(':') else { continue };
        let Some(case) = Case::parse(c) else { continue };
        let got = do_call(&case, MODES.iter().position(|x| *x == m).unwrap_or(0) as u8);
        let solo = match run_one(&bin, c, Duration::from_secs(60)) {
            One::Outcome(o) => o,
            One::Died(d) => d,
        };
        println!("{s}: {got}{}", if got == solo { "".into() } else { format!("   DIFFERS from a fresh process: {solo}") });
        bad |= got != solo;
    }
    bad
}
