//! C08: hundreds of calls under way at once. A schedule is: threads 1..n each start a call and stop at one and the
//! same of its requests to the heap (taking or giving back a block); then each goes on to its end, in the
//! order they came or in the reverse one; or only thread 1 stops, the other calls are made one after the other, and it goes on. Every request of the call is tried. Rings and pools of slots are used up.
#![allow(static_mut_refs)]
#[path = "../exec.rs"]
#[allow(dead_code)]
mod exec;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};
use vcommon::Case;

struct Heap;
#[global_allocator]
static HEAP: Heap = Heap;
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        request();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        request();
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        request();
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        request();
        System.realloc(p, l, n)
    }
}

const MAX: usize = 1100;
const NONE: i64 = i64::MIN;
static STATE: [AtomicU32; MAX] = [const { AtomicU32::new(RUNNING) }; MAX];
const RUNNING: u32 = 0;
const STOPPED: u32 = 1;
const GO: u32 = 2;
const DONE: u32 = 3;
thread_local! {
    /// requests left before this thread stops
    static LEFT: Cell<i64> = const { Cell::new(NONE) };
    static ME: Cell<usize> = const { Cell::new(0) };
}

fn futex(a: &AtomicU32, op: i32, v: u32, ms: u64) {
    let t = libc::timespec { tv_sec: (ms / 1000) as i64, tv_nsec: (ms % 1000 * 1_000_000) as i64 };
    unsafe { libc::syscall(libc::SYS_futex, a as *const AtomicU32, op | libc::FUTEX_PRIVATE_FLAG, v, &t as *const _, 0, 0) };
}

fn request() {
    let n = LEFT.get();
    if n == NONE {
        return;
    }
    LEFT.set(n - 1);
    if n == 0 {
        LEFT.set(NONE);
        let s = &STATE[ME.get()];
        if s.compare_exchange(RUNNING, STOPPED, SeqCst, SeqCst).is_ok() {
            futex(s, libc::FUTEX_WAKE, 9, 0);
            while s.load(SeqCst) == STOPPED {
                futex(s, libc::FUTEX_WAIT, STOPPED, 1000);
            }
        }
    }
}
/// Waits until the thread has left the state; false if it does not
fn leaves(i: usize, state: u32, ms: u64) -> bool {
    let t0 = Instant::now();
    while STATE[i].load(SeqCst) == state {
        if t0.elapsed() > Duration::from_millis(ms) {
            return false;
        }
        futex(&STATE[i], libc::FUTEX_WAIT, state, 20);
    }
    true
}
fn go(i: usize) -> u32 {
    let was = STATE[i].compare_exchange(STOPPED, GO, SeqCst, SeqCst);
    let was = was.or_else(|_| STATE[i].compare_exchange(RUNNING, GO, SeqCst, SeqCst));
    futex(&STATE[i], libc::FUTEX_WAKE, 9, 0);
    was.unwrap_or(DONE)
}

// self tests
static TICKET: AtomicU64 = AtomicU64::new(0);
static RING: [AtomicU64; 128] = [const { AtomicU64::new(0) }; 128];
static LOCK: std::sync::Mutex<u64> = std::sync::Mutex::new(0);
fn do_op(op: &str) -> String {
    let x = op.rsplit(' ').next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    if op.starts_with("selftest-ring") {
        let t = TICKET.fetch_add(1, SeqCst) as usize % RING.len();
        RING[t].store(x, SeqCst);
        let b = std::hint::black_box(vec![1u8; 40]);
        return format!("{} {}", RING[t].load(SeqCst), b.len());
    }
    if op.starts_with("selftest-locked") {
        let mut g = LOCK.lock().unwrap_or_else(|e| e.into_inner());
        *g = x;
        let b = std::hint::black_box(vec![1u8; 40]);
        return format!("{} {}", *g, b.len());
    }
    match Case::parse(op) {
        Some(c) => exec::actual(&c).show(),
        None => "?".into(),
    }
}
/// The call itself is watched only; preparing and printing are not.
fn watched(op: &str, stop_at: i64) -> (String, i64) {
    if op.starts_with("selftest") {
        LEFT.set(stop_at);
        let r = do_op(op);
        let n = LEFT.replace(NONE);
        return (r, n);
    }
    let Some(c) = Case::parse(op) else { return ("?".into(), NONE) };
    let p = exec::prepare(&c);
    LEFT.set(stop_at);
    let r = exec::actual_prepared(p);
    let n = LEFT.replace(NONE);
    (r.show(), n)
}

/// Which of the two calls a thread makes: neighbours at every power of two differ
fn which(i: usize) -> usize {
    i.count_ones() as usize & 1
}

/// One schedule. Ok(number of threads that were under way together)
fn schedule(ops: &[&str; 2], wants: &[&str; 2], n: usize, point: i64, order: &str) -> Result<usize, String> {
    let mut hs = Vec::new();
    let mut together = 0;
    for i in 0..n {
        let op = ops[which(i)].to_string();
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            ME.set(i);
            let (r, _) = watched(&op, point);
            STATE[i].store(DONE, SeqCst);
            futex(&STATE[i], libc::FUTEX_WAKE, 9, 0);
            r
        });
        let Ok(h) = h else { break };
        hs.push(h);
        if !leaves(i, RUNNING, 200) {
            // it waits for one that has stopped
            break;
        }
        together += (STATE[i].load(SeqCst) == STOPPED) as usize;
    }
    let m = hs.len();
    let next: Vec<usize> = if order == "first in, first out" { (0..m).collect() } else { (0..m).rev().collect() };
    let mut orderly = true;
    for i in next {
        go(i);
        orderly = orderly && leaves(i, GO, 200);
    }
    for i in 0..m {
        let s = STATE[i].load(SeqCst);
        if s != DONE && !(leaves(i, s, 60_000) && (STATE[i].load(SeqCst) == DONE || leaves(i, GO, 60_000))) {
            return Err(format!("{}\tthread {i} of {m}\ta result\tno result after 60 s", ops[which(i)]));
        }
    }
    let mut first = None;
    for (i, h) in hs.into_iter().enumerate() {
        let got = h.join().unwrap_or_else(|_| "thread died".into());
        if got != wants[which(i)] && first.is_none() {
            first = Some(format!("{}\tthread {i} of {m}\t{}\t{got}", ops[which(i)], wants[which(i)]));
        }
    }
    for i in 0..2 {
        let got = do_op(ops[i]);
        if got != wants[i] && first.is_none() {
            first = Some(format!("{}\tafterwards\t{}\t{got}", ops[i], wants[i]));
        }
    }
    match first {
        Some(f) => Err(f),
        None => Ok(together),
    }
}

/// Thread 0 stops at the point; the others' calls are all made one after the other; then it goes on.
fn outlast(ops: &[&str; 2], wants: &[&str; 2], n: usize, point: i64) -> Result<usize, String> {
    static COUNT: AtomicU64 = AtomicU64::new(0);
    let a = ops[0].to_string();
    let spawn = |i: usize, f: Box<dyn FnOnce() -> String + Send>| {
        std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            ME.set(i);
            let r = f();
            STATE[i].store(DONE, SeqCst);
            futex(&STATE[i], libc::FUTEX_WAKE, 9, 0);
            r
        })
    };
    let Ok(h) = spawn(0, Box::new(move || watched(&a, point).0)) else { return Ok(0) };
    leaves(0, RUNNING, 200);
    let (os, ws) = (ops.map(|s| s.to_string()), wants.map(|s| s.to_string()));
    let rest = move || {
        for i in 1..n {
            let got = do_op(&os[which(i)]);
            if got != ws[which(i)] {
                return format!("{}\tcall {i} of {n}\t{}\t{got}", os[which(i)], ws[which(i)]);
            }
            COUNT.fetch_add(1, SeqCst);
        }
        String::new()
    };
    let Ok(g) = spawn(1, Box::new(rest)) else { return Ok(0) };
    let mut seen = 0;
    // until they are through, or wait for the first one
    while !leaves(1, RUNNING, 500) && COUNT.load(SeqCst) != seen {
        seen = COUNT.load(SeqCst);
    }
    let together = COUNT.load(SeqCst) as usize;
    go(0);
    let mut t0 = Instant::now();
    while STATE[0].load(SeqCst) != DONE || STATE[1].load(SeqCst) != DONE {
        if COUNT.load(SeqCst) != seen {
            (seen, t0) = (COUNT.load(SeqCst), Instant::now());
        }
        if t0.elapsed() > Duration::from_secs(60) {
            return Err(format!("{}\tone outlasts {n}\ta result\tno result after 60 s", ops[0]));
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    let got = h.join().unwrap_or_else(|_| "thread died".into());
    if got != wants[0] {
        return Err(format!("{}\tthe one that outlasts {n}\t{}\t{got}", ops[0], wants[0]));
    }
    let rest = g.join().unwrap_or_else(|_| format!("{}\tone of {n}\ta result\tthread died", ops[1]));
    if rest.is_empty() { Ok(together) } else { Err(rest) }
}

/// crowd A WANT B WANT THREADS MAX-POINTS LONG [POINT ORDER]
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.len() < 7 {
        std::process::exit(2);
    }
    exec::silence_panics();
    let (ops, wants) = ([args[0].as_str(), args[2].as_str()], [args[1].as_str(), args[3].as_str()]);
    let n: usize = args[4].parse::<usize>().unwrap_or(2).min(MAX);
    let max: i64 = args[5].parse().unwrap_or(10);
    // warm-up, and the number of requests
    do_op(ops[1]);
    let points = i64::MAX - watched(ops[0], i64::MAX).1;
    let tries: Vec<i64> = if points <= max { (0..points).collect() } else { (0..max).map(|i| i * (points - 1) / (max - 1)).collect() };
    let mut todo: Vec<(i64, &str)> = tries.iter().flat_map(|p| ["first in, first out", "last in, first out"].map(|o| (*p, o))).collect();
    todo.extend(tries.iter().map(|p| (*p, "one outlasts the others")));
    let long: usize = args[6].parse().unwrap_or(0);
    if long > 0 && points > 0 {
        todo.extend([0, points / 2, points - 1].map(|p| (p, "one outlasts very many")));
    }
    let names = ["first in, first out", "last in, first out", "one outlasts the others", "one outlasts very many"];
    if args.len() == 9 {
        todo = vec![(args[7].parse().unwrap_or(0), names.iter().copied().find(|x| *x == args[8]).unwrap_or(names[0]))];
    }
    let (mut done, mut most) = (0, 0);
    for (point, order) in todo {
        let mut fds = [0; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let r = match order {
                "one outlasts the others" => outlast(&ops, &wants, n, point),
                "one outlasts very many" => outlast(&ops, &wants, long, point),
                _ => schedule(&ops, &wants, n, point, order),
            };
            let s = match r {
                Ok(t) => format!("OK\t{t}"),
                Err(e) => format!("BAD\t{point}\t{order}\t{e}"),
            };
            unsafe {
                libc::write(fds[1], s.as_ptr() as *const _, s.len());
                libc::_exit(0);
            }
        }
        unsafe { libc::close(fds[1]) };
        let mut out = Vec::new();
        let mut b = [0u8; 4096];
        loop {
            let k = unsafe { libc::read(fds[0], b.as_mut_ptr() as *mut _, b.len()) };
            if k <= 0 {
                break;
            }
            out.extend_from_slice(&b[..k as usize]);
        }
        unsafe { libc::close(fds[0]) };
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let out = String::from_utf8_lossy(&out).into_owned();
        match out.strip_prefix("OK\t") {
            Some(t) => {
                done += 1;
                most = most.max(t.parse::<usize>().unwrap_or(0));
            }
            None if out.starts_with("BAD") => {
                println!("{out}");
                break;
            }
            None => {
                println!("BAD\t{point}\t{order}\t{}\tof {n} threads\ta result\tprocess died, wait status {st:#x}", ops[0]);
                break;
            }
        }
    }
    println!("DONE\t{done}\t{most}\t{points}");
}
