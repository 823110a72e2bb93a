//! C11: heap accounting of every call, with an allocator that counts.
use crate::alphabet;
use crate::exec;
use crate::history::{shards, Shared};
use crate::report::Report;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering::*};
use vcommon::{pat, Case};

/// Bytes live and peak, process wide. Only ever read while one thread is running calls. On a page of its own:
/// `chess` takes access to all other static storage away.
pub struct Counting;
#[repr(C, align(4096))]
pub struct Own {
    live: AtomicI64,
    peak: AtomicI64,
    /// everything ever asked for
    total: AtomicI64,
    on: std::sync::atomic::AtomicBool,
    rec: std::sync::atomic::AtomicPtr<Blocks>,
    /// next free byte of the arena; 0: no arena
    bump: std::sync::atomic::AtomicUsize,
    /// the same for the threads whose interleavings are explored
    threads: [std::sync::atomic::AtomicUsize; 3],
}
pub static OWN: Own = Own { live: AtomicI64::new(0), peak: AtomicI64::new(0), total: AtomicI64::new(0), on: std::sync::atomic::AtomicBool::new(false), rec: std::sync::atomic::AtomicPtr::new(std::ptr::null_mut()), bump: std::sync::atomic::AtomicUsize::new(0), threads: [const { std::sync::atomic::AtomicUsize::new(0) }; 3] };
use OWN as O;

fn add(n: i64) {
    if O.on.load(Relaxed) {
        let l = O.live.fetch_add(n, Relaxed) + n;
        if n > 0 {
            O.total.fetch_add(n, Relaxed);
            O.peak.fetch_max(l, Relaxed);
        }
    }
}
/// While recording: the blocks allocated since then and still live. One thread only.
pub struct Blocks {
    pub n: usize,
    pub at: [(usize, usize); 4095],
}
pub fn record_blocks(t: *mut Blocks) {
    O.rec.store(t, SeqCst);
}
/// Blocks allocated while recording come from here, so that they share no page with later ones.
pub const ARENA: usize = 0x6300_0000_0000;
pub const ARENA_LEN: usize = 1 << 30;
pub fn use_arena() -> bool {
    let p = unsafe { libc::mmap(ARENA as *mut _, ARENA_LEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0) };
    if p as usize != ARENA {
        return false;
    }
    O.bump.store(ARENA, SeqCst);
    true
}
/// Arena of the i-th explored thread
pub fn thread_arena(i: usize) -> (usize, usize) {
    let lo = ARENA + ARENA_LEN / 4 * (i + 1);
    (lo, lo + (16 << 20))
}
pub fn use_thread_arenas() {
    for (i, t) in O.threads.iter().enumerate() {
        t.store(thread_arena(i).0, SeqCst);
    }
}
fn in_arena(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(ARENA) < ARENA_LEN
}
unsafe fn take(l: Layout, zero: bool) -> *mut u8 {
    if O.threads[0].load(Relaxed) != 0 {
        let me = crate::chess::me();
        if me < 3 {
            let a = l.align().max(16);
            let at = (O.threads[me].load(Relaxed) + a - 1) & !(a - 1);
            if at + l.size() <= thread_arena(me).1 {
                O.threads[me].store(at + l.size(), Relaxed);
                return at as *mut u8;
            }
        }
    }
    if !O.rec.load(Relaxed).is_null() && O.bump.load(Relaxed) != 0 {
        let a = l.align().max(16);
        let at = (O.bump.load(Relaxed) + a - 1) & !(a - 1);
        if at + l.size() <= ARENA + ARENA_LEN / 4 {
            O.bump.store(at + l.size(), Relaxed);
            return at as *mut u8; // never used before, so zero
        }
    }
    if zero {
        System.alloc_zeroed(l)
    } else {
        System.alloc(l)
    }
}
fn note(p: *mut u8, size: usize, take: bool) {
    let t = O.rec.load(Relaxed);
    if t.is_null() {
        return;
    }
    let t = unsafe { &mut *t };
    if take && t.n < t.at.len() {
        t.at[t.n] = (p as usize, size);
        t.n += 1;
    } else if !take {
        if let Some(i) = (0..t.n).rev().find(|i| t.at[*i].0 == p as usize) {
            t.at[i] = t.at[t.n - 1];
            t.n -= 1;
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = take(l, false);
        if !p.is_null() {
            add(l.size() as i64);
            note(p, l.size(), true);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = take(l, true);
        if !p.is_null() {
            add(l.size() as i64);
            note(p, l.size(), true);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(p, 0, false);
        if !in_arena(p) {
            System.dealloc(p, l);
        }
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p) || O.bump.load(Relaxed) != 0 {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                self.dealloc(p, l);
            }
            return q;
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // old and new block may coexist while data is moved
            add(n as i64);
            add(-(l.size() as i64));
            note(p, 0, false);
            note(q, n, true);
        }
        q
    }
}

pub fn count(on: bool) {
    O.on.store(on, SeqCst);
}
/// Bytes asked for while `f` runs
pub fn total_of<T>(f: impl FnOnce() -> T) -> i64 {
    let before = O.total.load(SeqCst);
    f();
    O.total.load(SeqCst) - before
}

pub struct Usage {
    /// heap bytes the call left behind, besides its result
    pub left: i64,
    /// additional heap in use at the worst moment of the call, arguments excluded
    pub peak: i64,
    pub panicked: bool,
}

/// Runs the call (arguments prepared beforehand) and accounts for its heap use.
pub fn measure(c: &Case, thread: bool) -> Usage {
    let p = exec::prepare(c);
    let args: i64 = match &p {
        exec::Prepared::Kdf(_, a, b, ..) => (a.capacity() + b.capacity()) as i64,
        exec::Prepared::Sum(a) | exec::Prepared::Hash(_, a) | exec::Prepared::Stage(_, a) => a.capacity() as i64,
    };
    let run = move || {
        let before = O.live.load(SeqCst);
        O.peak.store(before, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| exec::call(p)));
        let peak = O.peak.load(SeqCst) - before;
        let (mut left, panicked) = match r {
            Ok(v) => (O.live.load(SeqCst) - v.capacity() as i64, false),
            Err(e) => {
                drop(e);
                (O.live.load(SeqCst), true)
            }
        };
        left -= before - args; // the arguments were consumed
        Usage { left, peak, panicked }
    };
    if thread {
        // what the thread leaves behind when it ends counts too
        let before = O.live.load(SeqCst) - args;
        let mut u = std::thread::Builder::new().stack_size(1 << 20).spawn(run).expect("thread").join().expect("thread");
        u.left = O.live.load(SeqCst) - before;
        u
    } else {
        run()
    }
}

/// The bound of the statement: a small multiple of matrix + input + output, plus a constant.
pub fn bound(c: &Case) -> i64 {
    let (matrix, io) = match c {
        Case::Kdf { k, pwd, salt, r, c, .. } => (r.saturating_mul(*c).saturating_mul(96), *k + pwd.len() as u64 + salt.len() as u64),
        Case::Sum(d) => (16 * 96, 32 + 2 * d.len() as u64),
        Case::Hash(_, d) => (64 * 96, 32 + d.len() as u64),
        Case::Stage(_, d) => (64 * 96, 32 + d.len() as u64),
    };
    (matrix.saturating_add(io).min(1 << 40) as i64) * 8 + 64 * 1024
}

fn log(path: &str, kind: &str, seq: &str, exp: String, got: String) {
    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(path) {
        let _ = f.write_all(format!("{kind}\t{seq}\t{exp}\t{got}\n").as_bytes());
    }
}

fn judge(u: &Usage, c: &Case, thread: bool) -> Option<(String, String)> {
    if u.left > 0 {
        return grows(c, u.left, u.panicked, thread);
    }
    if u.peak > bound(c) {
        return Some((format!("at most {} bytes of additional heap", bound(c)), format!("{} bytes", u.peak)));
    }
    None
}
/// The call left something behind although it had just been made before. A leak, or a cache within its bound?
/// Repeats it until nothing more is left or the bound is passed.
fn grows(c: &Case, first: i64, panicked: bool, thread: bool) -> Option<(String, String)> {
    let (start, t0) = (O.live.load(SeqCst), std::time::Instant::now());
    let mut calls = 0u64;
    loop {
        let before = O.live.load(SeqCst);
        for _ in 0..64 {
            measure(c, thread);
        }
        calls += 64;
        let held = O.live.load(SeqCst) - start + first;
        if O.live.load(SeqCst) <= before {
            return if held > HELD { Some((format!("at most {HELD} bytes held between calls"), format!("{held} bytes"))) } else { None };
        }
        if held > HELD || t0.elapsed().as_secs() > 60 {
            return Some(("heap held between calls does not grow".into(), format!("{held} bytes more after {calls} repetitions{}", if panicked { " (each panics)" } else { "" })));
        }
    }
}

/// Heap that may be held between calls at all, and growth allowed between two rounds of the same calls.
const HELD: i64 = 1 << 20;
const SLACK: i64 = 4096;

fn families() -> Vec<&'static str> {
    vec!["lyra2re", "lyra2rev2", "lyra2rev3", "lyra2z", "sum", "pwd", "salt", "panic", "rows", "columns", "times", "outputs", "lengths", "message-lengths", "shapes-panic"]
}
/// The j-th of many calls with pairwise different arguments
fn distinct(fam: &str, j: u32) -> Case {
    let d = |n: u32| {
        let mut v = pat('l', n).bytes();
        let at = v.len() - 4;
        v[at..].copy_from_slice(&j.to_le_bytes());
        vcommon::Data::Bytes(v)
    };
    let k = vcommon::spaces::kdf;
    match fam {
        "sum" => Case::Sum(d(32)),
        "pwd" => k(16, d(16), pat('L', 8), 1, 3 + j as u64 % 3, 1),
        "salt" => k(16 + j as u64 % 100, pat('L', 8), d(24), 1, 4, 1),
        // ever new shapes; a few sizes in between so that every size is met more than once
        "rows" => k(32, pat('l', 8), pat('L', 8), 1, 3 + (j / 2) as u64 % 1500, 1 + j as u64 % 2),
        "columns" => k(32, pat('l', 8), pat('L', 8), 1, 3 + j as u64 % 2, 1 + (j / 2) as u64 % 1500),
        "times" => k(32, pat('l', 8), pat('L', 8), 1 + j as u64 % 2000, 3, 1),
        "outputs" => k(j as u64 % 20_000, pat('l', 8), pat('L', 8), 1, 3, 1),
        "lengths" => k(32, pat('l', j % 700), pat('L', j / 700 % 700), 1, 4, 4),
        "message-lengths" => Case::Hash(vcommon::ALGS[j as usize % 4], pat('l', j / 4 % 10_000)),
        "shapes-panic" => k(32, pat('l', 8 + j % 4000), pat('L', 8), (j % 3) as u64, (3 + j % 50) as u64, (j / 50 % 8) as u64),
        "panic" => k(32, d(8 + 4 * (j % 9)), pat('L', 8), (j % 2) as u64, 3, 0),
        a => Case::Hash(*vcommon::ALGS.iter().find(|x| x.name() == a).unwrap(), d(80)),
    }
}

/// Cases whose peak is compared with the bound, every one called three times.
fn grid(th: bool) -> Vec<Case> {
    let mut v = Vec::new();
    let k = vcommon::spaces::kdf;
    for kk in [0, 1, 32, 96, 97, 1000, 100_000] {
        for pl in [0u32, 1, 8, 31, 64, 1000, 20_000] {
            for sl in [0u32, 8, 33, 1000, 20_000] {
                for t in [0u64, 1, 2, 3] {
                    for r in [0u64, 2, 3, 4, 5, 8, 16, 33, 64] {
                        for c in [0u64, 1, 2, 4, 16] {
                            if th || (kk as u64 + pl as u64 + sl as u64 + t + r + c) % 2 == 0 || kk == 32 {
                                v.push(k(kk, pat('l', pl), pat('L', sl), t, r, c));
                            }
                        }
                    }
                }
            }
        }
    }
    for r in 3..if th { 2000 } else { 600 } {
        v.push(k(32, pat('l', 32), pat('L', 32), 1 + r % 3, r, 1 + r % 4));
    }
    for t in 1..if th { 3000 } else { 700 } {
        v.push(k(32, pat('l', 32), pat('L', 32), t, 4 + t % 5, 2));
    }
    for c in 1..if th { 2000 } else { 500 } {
        v.push(k(32, pat('l', 32), pat('L', 32), 1, 3 + c % 6, c));
    }
    for n in 0..if th { 3000 } else { 900 } {
        v.push(Case::Sum(pat('l', n)));
        for a in vcommon::ALGS {
            v.push(Case::Hash(a, pat('l', n)));
        }
    }
    for n in 10..22 {
        for a in vcommon::ALGS {
            v.push(Case::Hash(a, pat('l', 1 << n)));
        }
        v.push(k(1 << n, pat('l', 32), pat('L', 32), 1, 4, 4));
        v.push(k(32, pat('l', 32), pat('L', 32), 1, 1 << (n - 4), 4));
    }
    v
}

pub fn check(rep: &mut Report) -> Result<(), String> {
    // self test of the accounting: a leak of 48 bytes and a peak of a megabyte must be seen
    O.on.store(true, SeqCst);
    let b = O.live.load(SeqCst);
    O.peak.store(b, SeqCst);
    let leak = std::hint::black_box(Box::leak(std::hint::black_box(Box::new([0u8; 48]))));
    drop(std::hint::black_box(vec![1u8; 1 << 20]));
    let ok = O.live.load(SeqCst) - b == 48 && O.peak.load(SeqCst) - b >= 1 << 20;
    unsafe { drop(Box::from_raw(leak)) };
    O.on.store(false, SeqCst);
    if !ok {
        return Err("the counting allocator does not count".into());
    }
    let th = rep.thorough;
    let n = crate::engine::nthreads();
    let sh = Shared::new();
    let path = crate::engine::scratch().join("mem");
    let path = path.to_str().unwrap().to_string();
    let cases = grid(th);
    // and the spaces of C13
    let spaces = vcommon::spaces::mode_spaces(th, false);
    let ends: Vec<u64> = spaces.iter().scan(0, |a, s| { *a += s.n; Some(*a) }).collect();
    let total = *ends.last().unwrap_or(&0);
    let full = alphabet::full();
    let small = alphabet::small();
    let tri = alphabet::de_bruijn(small.len(), if th { 4 } else { 3 });
    let bi = alphabet::de_bruijn(full.len(), 2);
    let next = |i: usize| sh.at(i).fetch_add(1, Relaxed) as usize;
    let bad = shards(n, |shard| {
        exec::silence_panics();
        O.on.store(true, SeqCst);
        unsafe { libc::alarm(600) };
        // 1. every case of the grid: warm up, then main thread, another thread, main thread
        loop {
            let i = next(0);
            if i >= cases.len() || sh.at(9).load(Relaxed) != 0 {
                break;
            }
            let c = &cases[i];
            measure(c, false);
            for thread in [false, true, false] {
                let u = measure(c, thread);
                sh.at(5).fetch_add(1, Relaxed);
                if u.panicked {
                    sh.at(6).fetch_add(1, Relaxed);
                }
                sh.at(7).fetch_max((u.peak * 1000 / bound(c)) as u64, Relaxed);
                if let Some((e, g)) = judge(&u, c, thread) {
                    log(&path, "V", &format!("main:{0} | {1}:{0}", c.show(), if thread { "thread" } else { "main" }), e, g);
                    sh.at(9).store(1, Relaxed);
                    return;
                }
            }
        }
        loop {
            let i = sh.at(3).fetch_add(64, Relaxed);
            if i >= total || sh.at(9).load(Relaxed) != 0 {
                break;
            }
            for i in i..(i + 64).min(total) {
                let k = ends.partition_point(|e| *e <= i);
                let c = (spaces[k].case)(i - if k == 0 { 0 } else { ends[k - 1] });
                unsafe { libc::alarm(600) };
                measure(&c, false);
                let u = measure(&c, false);
                sh.at(5).fetch_add(1, Relaxed);
                sh.at(7).fetch_max((u.peak * 1000 / bound(&c)) as u64, Relaxed);
                if let Some((e, g)) = judge(&u, &c, false) {
                    log(&path, "V", &format!("main:{0} | main:{0}", c.show()), e, g);
                    sh.at(9).store(1, Relaxed);
                    return;
                }
            }
        }
        // 2. one history with every window of two (whole alphabet) or of three or four (small alphabet), walked
        // three times: whatever is held between calls is the same at the end of the second and third round
        let (ops, seq): (&[Case], &[usize]) = match shard {
            0 => (&full, &bi),
            1 => (&small, &tri),
            _ => (&[], &[]),
        };
        let mut held = [0i64; 3];
        for round in &mut held {
            let start = O.live.load(SeqCst);
            for (w, o) in seq.iter().enumerate() {
                let c = &ops[*o];
                let u = measure(c, false);
                sh.at(5).fetch_add(1, Relaxed);
                if u.peak > bound(c) {
                    let h: Vec<String> = seq[w.saturating_sub(4)..=w].iter().map(|o| format!("main:{}", ops[*o].show())).collect();
                    log(&path, "V", &h.join(" | "), format!("at most {} bytes of additional heap", bound(c)), format!("{} bytes", u.peak));
                    sh.at(9).store(1, Relaxed);
                    return;
                }
                if sh.at(9).load(Relaxed) != 0 {
                    return;
                }
            }
            *round = O.live.load(SeqCst) - start;
        }
        if held[1] > SLACK || held[2] > SLACK || held[0] > HELD {
            let what = if shard == 0 { "windows of two calls" } else { "windows of three or four calls" };
            log(&path, "V", &format!("round:{what}"), "no growth from one round of the same calls to the next".into(), format!("{} then {} then {} bytes more after each round of {} calls", held[0], held[1], held[2], seq.len()));
            sh.at(9).store(1, Relaxed);
            return;
        }
        // 2b. many calls with arguments never used before
        loop {
            let i = next(2);
            let fam = families();
            if i >= fam.len() || sh.at(9).load(Relaxed) != 0 {
                break;
            }
            let start = O.live.load(SeqCst);
            for j in 0..if th { 400_000 } else { 40_000 } {
                measure(&distinct(fam[i], j), j % 64 == 63);
                sh.at(5).fetch_add(1, Relaxed);
                let held = O.live.load(SeqCst) - start;
                if held > HELD {
                    log(&path, "V", &format!("distinct:{} {}", fam[i], j + 1), format!("at most {HELD} bytes held between calls"), format!("{held} bytes after {} calls with different arguments", j + 1));
                    sh.at(9).store(1, Relaxed);
                    return;
                }
            }
        }
        // 3. each call many times
        let reps = if th { 300_000 } else { 20_000 };
        loop {
            let i = next(1);
            if i >= full.len() || sh.at(9).load(Relaxed) != 0 {
                break;
            }
            measure(&full[i], false);
            // something that is left behind only now and then shows up as growth in every round
            for round in 0..6 {
                let start = O.live.load(SeqCst);
                for j in 0..reps / alphabet::weight(&full[i]) {
                    unsafe { libc::alarm(600) };
                    let thread = j % 64 == 63;
                    let u = measure(&full[i], thread);
                    sh.at(5).fetch_add(1, Relaxed);
                    if let Some((e, g)) = judge(&u, &full[i], thread) {
                        log(&path, "V", &format!("{} times {}:{}", j + 1, if thread { "thread" } else { "main" }, full[i].show()), e, g);
                        sh.at(9).store(1, Relaxed);
                        return;
                    }
                }
                let more = O.live.load(SeqCst) - start;
                if more <= 0 {
                    break;
                }
                if round == 5 {
                    log(&path, "V", &format!("{} times main:{}", 6 * reps / alphabet::weight(&full[i]), full[i].show()), "heap held between calls does not grow".into(), format!("{more} bytes more in each of 6 rounds"));
                    sh.at(9).store(1, Relaxed);
                    return;
                }
            }
        }
    });
    for l in std::fs::read_to_string(&path).unwrap_or_default().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        rep.violate("memory", &[("build", "release".into()), ("history", f[1].into()), ("expected", f[2].into()), ("got", f[3].into())]);
    }
    if !bad.is_empty() && rep.violations.is_empty() {
        return Err(bad.join("; "));
    }
    let calls = sh.at(5).load(Relaxed);
    rep.states += calls + 1;
    rep.transitions += calls;
    rep.traces += calls;
    rep.num("argument_tuples", cases.len() as u64);
    rep.num("argument_tuples_of_the_build_mode_spaces", total);
    rep.num("alphabet_calls", full.len() as u64);
    rep.num("window_sequence_length_2", bi.len() as u64);
    rep.num("window_sequence_length_deep", tri.len() as u64);
    rep.num("panicking_calls_in_grid", sh.at(6).load(Relaxed));
    rep.num("largest_peak_in_permille_of_the_bound", sh.at(7).load(Relaxed));
    rep.num("functions_called_with_ever_new_arguments", families().len() as u64);
    rep.num("bound_on_heap_held_between_calls", HELD as u64);
    rep.text("peak_bound", "8 * (rows*columns*96 + password + salt + output bytes) + 64 KiB");
    for c in cases.iter().step_by(cases.len() / 10 + 1) {
        rep.sample(c.show());
    }
    rep.assume("heap use is what goes through the Rust global allocator");
    Ok(())
}

pub fn replay(h: &str) -> bool {
    exec::silence_panics();
    O.on.store(true, SeqCst);
    let (reps, h) = match h.split_once(" times ") {
        Some((n, r)) => (n.parse().unwrap_or(1), r),
        None => (1, h),
    };
    if let Some((fam, n)) = h.strip_prefix("distinct:").and_then(|x| x.split_once(' ')) {
        let start = O.live.load(SeqCst);
        for j in 0..n.parse().unwrap_or(40_000) {
            measure(&distinct(fam, j), j % 64 == 63);
        }
        let held = O.live.load(SeqCst) - start;
        println!("{held} bytes held");
        return held > HELD;
    }
    if h.starts_with("round:") {
        let (ops, order) = if h.contains("two") { (alphabet::full(), 2) } else { (alphabet::small(), 3) };
        let seq = alphabet::de_bruijn(ops.len(), order);
        let mut held = Vec::new();
        for _ in 0..3 {
            let start = O.live.load(SeqCst);
            for o in &seq {
                measure(&ops[*o], false);
            }
            held.push(O.live.load(SeqCst) - start);
        }
        println!("{held:?} bytes more after each round");
        return held[1] > SLACK || held[2] > SLACK || held[0] > HELD;
    }
    let steps: Vec<(bool, Case)> = h.split(" | ").filter_map(|s| s.split_once(':')).filter_map(|(m, c)| Case::parse(c).map(|c| (m == "thread", c))).collect();
    for (t, c) in &steps {
        measure(c, *t);
    }
    let mut bad = false;
    let start = O.live.load(SeqCst);
    for i in 0..reps {
        for (t, c) in &steps {
            let u = measure(c, *t);
            if let Some((e, g)) = judge(&u, c, *t) {
                println!("repetition {} {}: expected {e}, got {g}", i + 1, c.show());
                bad = true;
            }
        }
        if bad {
            break;
        }
    }
    let held = O.live.load(SeqCst) - start;
    println!("{held} bytes more");
    bad || (reps > 1 && held > 0)
}
