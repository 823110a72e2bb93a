//! C08: systematic exploration of the interleavings of two or three calls at their accesses to shared memory.
//! Shared is: static storage of the executable, and heap blocks that earlier calls left behind. Its pages are
//! taken away (PROT_NONE), so that every access traps; accesses to cache lines that one call writes and another
//! one accesses are the scheduling points. A schedule is a list of (point, thread to go on with); every schedule
//! with at most a given number of preemptions is run, each in a process of its own, from the same state. The code
//! between two points runs natively, so large calls are no problem. A lock that is taken shows up as a thread that
//! polls (the kernel refuses to wait on memory that is not accessible): it is recognised and another one goes on.
use crate::mem::{self, Blocks};
use crate::sched::{all_asleep, others, parse_op, run_op, Op};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, Ordering::*};
use vcommon::Outcome;

const AT: usize = 0x6200_0000_0000;
const MAX_THREADS: usize = 20;
const ARENAS: usize = 3;
const MAX_POINTS: usize = 1 << 15;
const MAX_SWITCHES: usize = 6;
const MAX_RANGES: usize = 4100;
/// several calls of one thread, one after the other
pub const THEN: &str = " ;; ";
const PAGE: usize = 4096;
const LINE: usize = 64;
/// points a thread may spend in a loop over at most 4 places before it counts as polling
const SPIN: u32 = 48;

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
enum Kind {
    Access,
    Polling,
    Forced,
    Finish,
}
#[derive(Clone, Copy)]
#[repr(C)]
struct Pt {
    thread: u8,
    kind: Kind,
    write: bool,
    live: u32,
    line: u32,
}
#[derive(Clone, Copy)]
#[repr(C)]
struct Range {
    lo: usize,
    hi: usize,
    base: usize,
}
#[repr(C)]
struct Ch {
    ranges: [Range; MAX_RANGES],
    nranges: usize,
    lines: usize,
    touched: *mut u32, // per line, bit t: thread t accessed it
    written: *mut u32,
    conflict: *mut u8,
    sched: [(u32, u32); MAX_SWITCHES],
    nsched: usize,
    /// instead of a schedule: every thread but the last is stopped at its own point with this number (from 1) and
    /// the next one goes on; then they finish in the same order, or the last one stopped first
    stack: u32,
    lifo: bool,
    own: [u32; MAX_THREADS],
    // one execution
    at: usize,
    points: u32,
    overflow: bool,
    trace: [Pt; MAX_POINTS],
    baton: AtomicI32,
    live: AtomicU32,
    free: AtomicBool,
    polls: u32,
    spin: [([(usize, usize); 4], usize, u32); MAX_THREADS],
    open: [usize; 4],
    nopen: usize,
    finished: AtomicU32,
    status: AtomicU32, // 1: all results as wanted, 2: not, 3: stuck, 4: died, 5: harness
    got: [[u8; 120]; MAX_THREADS],
    wrong: [bool; MAX_THREADS],
    stray: usize,
    accesses: u64,
    /// ranges from here on are arenas of the explored threads, of which
    arenas: usize,
    /// only the pages with conflicting lines are taken away
    narrow: bool,
    /// what the standard library accesses in every panic
    panic_addrs: [usize; 64],
    npanic: usize,
    learn: bool,
    /// the wrong result is that of a call made after the concurrent ones
    later: bool,
}
fn ch() -> &'static mut Ch {
    unsafe { &mut *(AT as *mut Ch) }
}

pub fn me() -> usize {
    ME.get()
}
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

impl Ch {
    fn line(&self, a: usize) -> Option<usize> {
        for r in &self.ranges[..self.nranges] {
            if a >= r.lo && a < r.hi {
                return Some(r.base + (a - r.lo) / LINE);
            }
        }
        None
    }
}
unsafe fn protect(on: bool) {
    let c = ch();
    for (i, r) in c.ranges[..c.nranges].iter().enumerate() {
        if on && i >= c.arenas && c.narrow {
            for p in (r.lo..r.hi).step_by(PAGE) {
                let l = r.base + (p - r.lo) / LINE;
                if (l..l + PAGE / LINE).any(|l| *c.conflict.add(l) != 0) {
                    libc::mprotect(p as *mut _, PAGE, libc::PROT_NONE);
                }
            }
            continue;
        }
        libc::mprotect(r.lo as *mut _, r.hi - r.lo, if on { libc::PROT_NONE } else { libc::PROT_READ | libc::PROT_WRITE });
    }
}
fn wait_baton(me: usize) {
    let c = ch();
    loop {
        let b = c.baton.load(SeqCst);
        if b == me as i32 || c.free.load(SeqCst) {
            return;
        }
        unsafe { libc::syscall(libc::SYS_futex, c.baton.as_ptr(), libc::FUTEX_WAIT, b, 0, 0, 0) };
    }
}
fn pass(to: usize) {
    let c = ch();
    c.baton.store(to as i32, SeqCst);
    unsafe { libc::syscall(libc::SYS_futex, c.baton.as_ptr(), libc::FUTEX_WAKE, 64, 0, 0, 0) };
}
/// Ends the exploration of this execution: everything accessible, everybody runs.
fn set_free() {
    let c = ch();
    unsafe { protect(false) };
    c.free.store(true, SeqCst);
    c.baton.store(99, SeqCst);
    unsafe { libc::syscall(libc::SYS_futex, c.baton.as_ptr(), libc::FUTEX_WAKE, 64, 0, 0, 0) };
}
/// The next live thread after `me`
fn next_after(me: usize) -> Option<usize> {
    let live = ch().live.load(SeqCst);
    (1..=MAX_THREADS).map(|d| (me + d) % MAX_THREADS).find(|t| *t != me && live >> t & 1 == 1)
}

/// A scheduling point of the running thread; returns when the thread may go on.
fn point(me: usize, mut kind: Kind, line: usize, write: bool, place: (usize, usize)) {
    let c = ch();
    let n = c.points;
    if n as usize >= MAX_POINTS {
        c.overflow = true;
        set_free();
        return;
    }
    if kind == Kind::Access {
        let (seen, len, count) = &mut c.spin[me];
        if seen[..*len].contains(&place) {
            *count += 1;
        } else {
            if *len == 4 {
                *len = 0;
                *count = 0;
            }
            seen[*len] = place;
            *len += 1;
            *count += 1;
            c.polls = 0;
        }
        if *count > 8 {
            kind = Kind::Polling;
        }
        if *count > SPIN {
            *count = 9;
            kind = Kind::Forced;
            c.polls += 1;
        }
    }
    c.trace[n as usize] = Pt { thread: me as u8, kind, write, live: c.live.load(SeqCst), line: line as u32 };
    c.points = n + 1;
    let mut to = me;
    if kind == Kind::Access || kind == Kind::Polling {
        c.own[me] += 1;
    }
    if c.stack > 0 {
        if (kind == Kind::Access || kind == Kind::Polling) && c.own[me] == c.stack && me + 1 < MAX_THREADS && c.live.load(SeqCst) >> (me + 1) & 1 == 1 {
            to = me + 1;
        } else if kind == Kind::Forced {
            to = next_after(me).unwrap_or(me);
        } else if kind == Kind::Finish {
            let live = c.live.load(SeqCst);
            // threads that have not begun yet come first
            let fresh = (0..MAX_THREADS).find(|t| live >> t & 1 == 1 && c.own[*t] == 0);
            to = match fresh {
                Some(t) => t,
                None if c.lifo => (0..MAX_THREADS).rev().find(|t| live >> t & 1 == 1).unwrap_or(me),
                None => (0..MAX_THREADS).find(|t| live >> t & 1 == 1).unwrap_or(me),
            };
        }
    } else if c.at < c.nsched && c.sched[c.at].0 == n {
        to = c.sched[c.at].1 as usize;
        c.at += 1;
    } else if kind == Kind::Forced || kind == Kind::Finish {
        to = next_after(me).unwrap_or(me);
    }
    if kind == Kind::Forced && c.polls > 40 + 4 * c.live.load(SeqCst).count_ones() {
        // nobody gets anywhere: let them really wait
        set_free();
        return;
    }
    if to != me {
        pass(to);
        if kind != Kind::Finish {
            wait_baton(me);
        }
    }
}

extern "C" fn on_segv(_: libc::c_int, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let c = ch();
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let addr = (*info).si_addr() as usize;
        let Some(line) = c.line(addr) else {
            libc::signal(libc::SIGSEGV, libc::SIG_DFL);
            return;
        };
        if c.free.load(SeqCst) {
            return;
        }
        let me = ME.get();
        let regs = &mut uc.uc_mcontext.gregs;
        if me >= MAX_THREADS {
            c.stray = regs[libc::REG_RIP as usize] as usize;
            set_free();
            return;
        }
        wait_baton(me); // if it really slept and was woken by another thread
        c.accesses += 1;
        let write = regs[libc::REG_ERR as usize] & 2 != 0;
        if c.learn {
            if c.npanic < 64 && !c.panic_addrs[..c.npanic].contains(&addr) {
                c.panic_addrs[c.npanic] = addr;
                c.npanic += 1;
            }
        }
        // (wide accesses reach the next line)
        for l in [Some(line), c.line(addr + 31)].into_iter().flatten() {
            *c.touched.add(l) |= 1 << me;
            *c.written.add(l) |= (write as u32) << me;
        }
        if regs[libc::REG_EFL as usize] & 0x100 == 0 && *c.conflict.add(line) != 0 && !c.panic_addrs[..c.npanic].contains(&addr) {
            point(me, Kind::Access, line, write, (regs[libc::REG_RIP as usize] as usize, addr));
        }
        if c.free.load(SeqCst) {
            return;
        }
        let page = addr & !(PAGE - 1);
        libc::mprotect(page as *mut _, PAGE, libc::PROT_READ | libc::PROT_WRITE);
        if c.nopen < 4 {
            c.open[c.nopen] = page;
            c.nopen += 1;
        }
        regs[libc::REG_EFL as usize] |= 0x100;
    }
}
extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let c = ch();
        let uc = &mut *(uc as *mut libc::ucontext_t);
        uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        for p in &c.open[..c.nopen] {
            if !c.free.load(SeqCst) {
                libc::mprotect(*p as *mut _, PAGE, libc::PROT_NONE);
            }
        }
        c.nopen = 0;
    }
}

struct Job {
    me: usize,
    ops: Vec<Op>,
    results: Vec<Outcome>,
}
extern "C" fn thread_main(p: *mut libc::c_void) -> *mut libc::c_void {
    let j = unsafe { &mut *(p as *mut Job) };
    let c = ch();
    ME.set(j.me);
    let ops = std::mem::take(&mut j.ops);
    wait_baton(j.me);
    for o in ops {
        j.results.push(run_op(o));
    }
    ME.set(usize::MAX);
    if !c.free.load(SeqCst) {
        wait_baton(j.me);
    }
    c.live.fetch_and(!(1 << j.me), SeqCst);
    if !c.free.load(SeqCst) {
        point(j.me, Kind::Finish, 0, false, (0, 0));
    }
    c.finished.fetch_add(1, SeqCst);
    unsafe { libc::syscall(libc::SYS_futex, c.finished.as_ptr(), libc::FUTEX_WAKE, 64, 0, 0, 0) };
    std::ptr::null_mut()
}

/// The rest of the executed child: never returns.
unsafe fn execute(ops: &[String], wants: &[String]) -> ! {
    let c = ch();
    let mut jobs: Vec<Box<Job>> = ops.iter().enumerate().map(|(me, o)| Box::new(Job { me, ops: o.split(THEN).filter_map(parse_op).collect(), results: Vec::with_capacity(64) })).collect();
    let n = jobs.len();
    let mut attr: libc::pthread_attr_t = std::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    libc::pthread_attr_setstacksize(&mut attr, 1 << 20);
    c.baton.store(99, SeqCst);
    for j in jobs.iter_mut() {
        let mut t: libc::pthread_t = 0;
        if libc::pthread_create(&mut t, &attr, thread_main, &mut **j as *mut Job as *mut _) != 0 {
            c.status.store(5, SeqCst);
            libc::_exit(0);
        }
    }
    protect(true);
    pass(0);
    let (mut last, mut still, mut asleep, mut rounds) = ((u32::MAX, 0), 0, 0, 0u64);
    loop {
        let f = c.finished.load(SeqCst);
        if f == n as u32 {
            break;
        }
        let ts = libc::timespec { tv_sec: 0, tv_nsec: 10_000_000 };
        libc::syscall(libc::SYS_futex, c.finished.as_ptr(), libc::FUTEX_WAIT, f, &ts, 0, 0);
        if c.finished.load(SeqCst) != f {
            continue;
        }
        rounds += 1;
        // (the controller itself is awake)
        let quiet = all_asleep(libc::getpid(), libc::syscall(libc::SYS_gettid) as i32);
        if c.free.load(SeqCst) {
            asleep = if quiet { asleep + 1 } else { 0 };
            if asleep >= 200 {
                c.status.store(3, SeqCst);
                libc::_exit(0);
            }
        } else {
            let now = (c.points, c.accesses);
            still = if quiet && now == last { still + 1 } else { 0 };
            last = now;
            if still >= 8 {
                set_free();
            }
        }
        if rounds > 4000 {
            c.status.store(6, SeqCst);
            libc::_exit(0);
        }
    }
    protect(false);
    let mut ok = true;
    for (i, j) in jobs.iter().enumerate() {
        let got = j.results.iter().map(|r| r.show()).collect::<Vec<_>>().join(THEN);
        if got != wants[i] {
            ok = false;
            c.wrong[i] = true;
            let b = got.as_bytes();
            let l = b.len().min(119);
            c.got[i][..l].copy_from_slice(&b[..l]);
        }
    }
    // and what do calls return afterwards?
    for (i, o) in ops.iter().enumerate() {
        if !ok || c.learn {
            break;
        }
        let got = o.split(THEN).filter_map(parse_op).map(|o| run_op(o).show()).collect::<Vec<_>>().join(THEN);
        if got != wants[i] {
            ok = false;
            c.wrong[i] = true;
            c.later = true;
            let b = got.as_bytes();
            let l = b.len().min(119);
            c.got[i][..l].copy_from_slice(&b[..l]);
        }
    }
    c.status.store(if ok { 1 } else { 2 }, SeqCst);
    libc::_exit(0);
}

unsafe extern "C" fn phdr(info: *mut libc::dl_phdr_info, _: usize, _: *mut libc::c_void) -> libc::c_int {
    let i = &*info;
    let base = i.dlpi_addr as usize;
    let hs: Vec<_> = (0..i.dlpi_phnum as usize).map(|k| *i.dlpi_phdr.add(k)).collect();
    let relro = hs.iter().find(|p| p.p_type == libc::PT_GNU_RELRO).map(|p| (base + p.p_vaddr as usize, base + (p.p_vaddr + p.p_memsz) as usize)).unwrap_or((0, 0));
    let own = (&mem::OWN as *const _ as usize, &mem::OWN as *const _ as usize + std::mem::size_of::<mem::Own>());
    for p in hs.iter().filter(|p| p.p_type == libc::PT_LOAD && p.p_flags & libc::PF_W != 0) {
        let lo = base + p.p_vaddr as usize & !(PAGE - 1);
        let hi = base + (p.p_vaddr + p.p_memsz) as usize;
        let mut at = lo;
        let mut open: Option<usize> = None;
        while at < hi {
            let keep = at + PAGE <= own.0 || at >= own.1;
            let keep = keep && (at + PAGE <= relro.0 || at >= relro.1);
            match (keep, open) {
                (true, None) => open = Some(at),
                (false, Some(s)) => {
                    add_range(s, at);
                    open = None;
                }
                _ => {}
            }
            at += PAGE;
        }
        if let Some(s) = open {
            add_range(s, at);
        }
    }
    1
}
fn add_range(lo: usize, hi: usize) {
    let c = ch();
    if c.nranges < MAX_RANGES {
        c.ranges[c.nranges] = Range { lo, hi, base: c.lines };
        c.nranges += 1;
        c.lines += (hi - lo) / LINE + 1;
    }
}
unsafe fn shared(at: usize, len: usize) -> *mut u8 {
    let fixed = if at != 0 { libc::MAP_FIXED_NOREPLACE } else { 0 };
    libc::mmap(at as *mut _, len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | fixed, -1, 0) as *mut u8
}

unsafe fn set_up(warm: &[String], deep: bool) -> Result<(), String> {
    if shared(AT, std::mem::size_of::<Ch>()) as usize != AT || !mem::use_arena() {
        return Err("fixed addresses are taken".into());
    }
    let c = ch();
    libc::dl_iterate_phdr(Some(phdr), std::ptr::null_mut());
    if c.nranges == 0 {
        return Err("no static storage found".into());
    }
    let t = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Blocks>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut Blocks;
    for s in warm {
        for s in s.split(THEN) {
            let op = parse_op(s).ok_or("bad operation")?;
            mem::record_blocks(t);
            drop(run_op(op));
            mem::record_blocks(std::ptr::null_mut());
        }
    }
    let mut pages: Vec<(usize, usize)> = (&(*t).at)[..(*t).n].iter().filter(|b| b.0 >= mem::ARENA && b.0 < mem::ARENA + mem::ARENA_LEN).map(|b| (b.0 & !(PAGE - 1), (b.0 + b.1.max(1) + PAGE - 1) & !(PAGE - 1))).collect();
    pages.sort_unstable();
    let mut cur: Option<(usize, usize)> = None;
    for (lo, hi) in pages {
        match &mut cur {
            Some(x) if lo <= x.1 => x.1 = x.1.max(hi),
            _ => {
                if let Some(x) = cur {
                    add_range(x.0, x.1);
                }
                cur = Some((lo, hi));
            }
        }
    }
    if let Some(x) = cur {
        add_range(x.0, x.1);
    }
    c.arenas = c.nranges;
    if deep {
        for i in 0..ARENAS {
            let (lo, hi) = mem::thread_arena(i);
            add_range(lo, hi);
        }
    }
    c.touched = shared(0, 4 * (c.lines + 64)) as *mut u32;
    c.written = shared(0, 4 * (c.lines + 64)) as *mut u32;
    c.conflict = shared(0, c.lines + 64);
    for (sig, h) in [(libc::SIGSEGV, on_segv as *const () as usize), (libc::SIGTRAP, on_trap as *const () as usize)] {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = h;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(sig, &sa, std::ptr::null_mut());
    }
    // the standard library counts panics and looks up the hook: not of interest
    c.learn = true;
    let p = "selftest-panic".to_string();
    let r = run_schedule(&[], &[p.clone(), p.clone()], &["panic".into(), "panic".into()]);
    c.learn = false;
    std::ptr::write_bytes(c.touched, 0, c.lines);
    std::ptr::write_bytes(c.written, 0, c.lines);
    if r != End::Fine {
        return Err("cannot explore a panic".into());
    }
    if deep {
        mem::use_thread_arenas();
    }
    Ok(())
}

#[derive(PartialEq)]
enum End {
    Fine,
    Bad(String, String),
    Trouble(String),
}

unsafe fn run_schedule(sched: &[(u32, u32)], ops: &[String], wants: &[String]) -> End {
    let c = ch();
    c.sched[..sched.len()].copy_from_slice(sched);
    c.nsched = sched.len();
    c.at = 0;
    c.own = [0; MAX_THREADS];
    c.points = 0;
    c.overflow = false;
    c.live.store((1u32 << ops.len()) - 1, SeqCst);
    c.free.store(false, SeqCst);
    c.polls = 0;
    c.spin = [([(0, 0); 4], 0, 0); MAX_THREADS];
    c.nopen = 0;
    c.finished.store(0, SeqCst);
    c.status.store(4, SeqCst);
    c.wrong = [false; MAX_THREADS];
    c.got = [[0; 120]; MAX_THREADS];
    c.stray = 0;
    c.later = false;
    c.accesses = 0;
    let pid = libc::fork();
    if pid < 0 {
        return End::Trouble("fork".into());
    }
    if pid == 0 {
        libc::alarm(60);
        execute(ops, wants);
    }
    let mut st = 0;
    libc::waitpid(pid, &mut st, 0);
    match c.status.load(SeqCst) {
        1 => End::Fine,
        2 => {
            let i = (0..ops.len()).find(|i| c.wrong[*i]).unwrap_or(0);
            let end = c.got[i].iter().position(|b| *b == 0).unwrap_or(0);
            End::Bad(format!("call {} ({}){} gives {:.110}", i + 1, ops[i], if c.later { ", made once more afterwards," } else { "" }, wants[i]), String::from_utf8_lossy(&c.got[i][..end]).to_string())
        }
        3 => End::Bad("all calls return".into(), "all calls wait for each other forever".into()),
        4 => End::Bad("all calls return".into(), format!("the process died (wait status {st})")),
        6 => End::Bad("all calls return".into(), "calls do not finish within 40 s".into()),
        x => End::Trouble(format!("status {x}")),
    }
}

/// Lines that one thread wrote and another one accessed.
unsafe fn grow() -> bool {
    let c = ch();
    let mut new = false;
    for l in 0..c.lines {
        if *c.written.add(l) != 0 && (*c.touched.add(l)).count_ones() > 1 && *c.conflict.add(l) == 0 {
            *c.conflict.add(l) = 1;
            new = true;
        }
    }
    new
}

pub struct Stats {
    pub schedules: u64,
    pub points: u64,
    pub lines: u64,
    pub deepest: u64,
    pub cut: u64,
    pub accesses: u64,
    pub bad: Option<(Vec<(u32, u32)>, String, String)>,
}

/// Many threads, stopped at the same point of the call each.
unsafe fn stacked(ops: &[String], wants: &[String], max: u64, deadline: i64) -> Result<Stats, String> {
    let c = ch();
    let mut s = Stats { schedules: 0, points: 0, lines: 0, deepest: 0, cut: 0, accesses: 0, bad: None };
    'again: for round in 0.. {
        c.stack = u32::MAX;
        c.lifo = false;
        let mut longest = 0;
        loop {
            if s.schedules >= max || libc::time(std::ptr::null_mut()) > deadline {
                s.cut += 1;
                break 'again;
            }
            s.schedules += 1;
            match run_schedule(&[], ops, wants) {
                End::Fine => {}
                End::Bad(e, g) => {
                    s.bad = Some((vec![(c.stack, c.lifo as u32)], e, g));
                    return Ok(s);
                }
                End::Trouble(e) => return Err(e),
            }
            s.cut += (c.overflow || c.stray != 0) as u64;
            s.points += c.points as u64;
            s.accesses = s.accesses.max(c.accesses);
            if grow() && round < 12 {
                continue 'again;
            }
            if c.stack == u32::MAX {
                // points of one call when nothing is in the way
                longest = c.own.iter().copied().max().unwrap_or(0);
                c.stack = 0;
                c.lifo = true;
            }
            if c.lifo {
                c.stack += 1;
                c.lifo = false;
            } else {
                c.lifo = true;
            }
            if c.stack > longest {
                break 'again;
            }
        }
    }
    c.stack = 0;
    s.deepest = ops.len() as u64 - 1;
    s.lines = (0..c.lines).filter(|l| *c.conflict.add(*l) != 0).count() as u64;
    Ok(s)
}

/// All schedules with at most `bound` preemptions, fewest first, of the calls (in the state after `warm`).
unsafe fn search(ops: &[String], wants: &[String], bound: usize, max: u64, deadline: i64) -> Result<Stats, String> {
    let c = ch();
    let mut s = Stats { schedules: 0, points: 0, lines: 0, deepest: 0, cut: 0, accesses: 0, bad: None };
    'again: for round in 0.. {
        let first = s.schedules;
        s.points = 0;
        s.cut = 0;
        // by number of preemptions
        let mut level: Vec<(usize, Vec<(u32, u32)>)> = vec![(0, vec![])];
        let mut next: Vec<Vec<(usize, Vec<(u32, u32)>)>> = vec![vec![]; bound + 2];
        let mut depth = 0;
        loop {
            let Some((p, sched)) = level.pop() else {
                depth += 1;
                if depth > bound {
                    break 'again;
                }
                level = std::mem::take(&mut next[depth]);
                level.reverse();
                continue;
            };
            if s.schedules >= max || libc::time(std::ptr::null_mut()) > deadline {
                s.cut += 1 + level.len() as u64;
                break 'again;
            }
            s.schedules += 1;
            c.narrow = s.schedules - first > 8;
            match run_schedule(&sched, ops, wants) {
                End::Fine => {}
                End::Bad(e, g) => {
                    s.bad = Some((sched, e, g));
                    return Ok(s);
                }
                End::Trouble(e) => return Err(e),
            }
            if c.stray != 0 {
                // a thread that the call itself started: it ran freely, nothing is known about other schedules
                s.cut += 1;
            }
            s.accesses = s.accesses.max(c.accesses);
            if grow() && round < 12 {
                continue 'again;
            }
            if c.overflow {
                s.cut += 1;
            }
            s.points += c.points as u64;
            s.deepest = s.deepest.max(p as u64);
            let from = sched.last().map(|x| x.0 + 1).unwrap_or(0);
            if sched.len() + 1 > MAX_SWITCHES {
                continue;
            }
            for n in (from..c.points).rev() {
                let pt = c.trace[n as usize];
                let default = if pt.kind == Kind::Finish { next_of(pt.thread as usize, pt.live) } else { pt.thread as usize };
                let cost = match pt.kind {
                    Kind::Access => 1,
                    Kind::Finish => 0,
                    // a polling thread gains nothing from being interrupted again
                    Kind::Polling | Kind::Forced => continue,
                };
                if p + cost > bound {
                    continue;
                }
                for t in 0..ops.len() {
                    if t == default || t == pt.thread as usize || pt.live >> t & 1 == 0 {
                        continue;
                    }
                    let mut v = sched.clone();
                    v.push((n, t as u32));
                    if cost == 0 {
                        level.push((p, v));
                    } else {
                        next[p + 1].push((p + 1, v));
                    }
                }
            }
        }
    }
    s.lines = (0..c.lines).filter(|l| *c.conflict.add(*l) != 0).count() as u64;
    Ok(s)
}
fn next_of(me: usize, live: u32) -> usize {
    (1..=MAX_THREADS).map(|d| (me + d) % MAX_THREADS).find(|t| *t != me && live >> t & 1 == 1).unwrap_or(me)
}

#[derive(Clone, Debug)]
pub struct Task {
    /// the calls were made before; 0: the last one was another call, 1, 2: call A, call B
    pub warm: bool,
    pub last: usize,
    /// heap memory that the calls themselves allocate is watched, too
    pub deep: bool,
    pub ops: Vec<String>,
    pub bound: usize,
    pub max: u64,
}

impl Task {
    pub fn start(&self) -> String {
        format!("{}{}{}", if self.warm { "warm" } else { "cold" }, if self.deep { " deep " } else { " " }, self.last)
    }
}

fn warm_up(t: &Task) -> Vec<String> {
    let mut w = vec![];
    if t.warm {
        w.extend(t.ops.iter().cloned());
        w.extend(t.ops.iter().cloned());
        w.extend(others(t.ops[0].split(THEN).next().unwrap_or("")));
        if t.last > 0 {
            w.push(t.ops[t.last - 1].clone());
        }
    }
    w
}

/// Runs the tasks whose number is congruent to the shard, each in a process of its own; writes a line per task.
/// `mc chess TASKS SHARD SHARDS DEADLINE LOG`
pub fn worker(file: &str, shard: usize, shards: usize, deadline: i64, log: &str) -> i32 {
    crate::exec::silence_panics();
    let body = std::fs::read_to_string(file).unwrap_or_default();
    // one processor per worker: the threads of an execution take turns anyway
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
            let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
            if cpus.len() >= shards {
                let mut one: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cpus[shard % cpus.len()], &mut one);
                libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
            }
        }
    }
    let stop = format!("{log}-stop");
    let mut wants = std::collections::HashMap::new();
    let mut n = 0;
    for l in body.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "want" => {
                wants.insert(f[1].to_string(), f[2].to_string());
            }
            "task" => {
                n += 1;
                if n % shards != shard || std::path::Path::new(&stop).exists() {
                    continue;
                }
                let t = Task { warm: f[1].starts_with("warm"), deep: f[1].contains("deep"), last: f[1].chars().last().and_then(|c| c.to_digit(10)).unwrap_or(0) as usize, bound: f[2].parse().unwrap(), max: f[3].parse().unwrap(), ops: f[4..].iter().map(|s| s.to_string()).collect() };
                unsafe {
                    let pid = libc::fork();
                    if pid == 0 {
                        libc::_exit(one_task(&t, &wants, n, deadline, log));
                    }
                    let mut st = 0;
                    libc::waitpid(pid, &mut st, 0);
                    if st != 0 {
                        append(log, &format!("E\t{n}\tended with {st}\n"));
                    }
                }
            }
            _ => {}
        }
    }
    0
}
fn append(log: &str, s: &str) {
    use std::io::Write;
    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(log) {
        let _ = f.write_all(s.as_bytes());
    }
}
fn one_task(t: &Task, wants: &std::collections::HashMap<String, String>, n: usize, deadline: i64, log: &str) -> i32 {
    let w: Vec<String> = t.ops.iter().map(|o| o.split(THEN).map(|o| wants.get(o).cloned().unwrap_or_default()).collect::<Vec<_>>().join(THEN)).collect();
    let r = unsafe { set_up(&warm_up(t), t.deep).and_then(|_| if t.ops.len() > 3 { stacked(&t.ops, &w, t.max, deadline) } else { search(&t.ops, &w, t.bound, t.max, deadline) }) };
    match r {
        Ok(s) => {
            if let Some((sched, e, g)) = &s.bad {
                append(log, &format!("V\t{n}\t{}\t{e}\t{g}\n", show(sched)));
                if !t.ops[0].starts_with("selftest") {
                    append(&format!("{log}-stop"), "");
                }
            }
            append(log, &format!("R\t{n}\t{}\t{}\t{}\t{}\t{}\t{}\n", s.schedules, s.points, s.lines, s.deepest, s.cut, s.accesses));
        }
        Err(e) => append(log, &format!("E\t{n}\t{e}\n")),
    }
    0
}
fn show(s: &[(u32, u32)]) -> String {
    s.iter().map(|(p, t)| format!("{p}>{t}")).collect::<Vec<_>>().join(",")
}

pub struct Result1 {
    pub task: usize,
    pub schedules: u64,
    pub points: u64,
    pub lines: u64,
    pub deepest: u64,
    pub cut: u64,
    pub accesses: u64,
}
pub struct Bad {
    pub task: usize,
    pub schedule: String,
    pub expected: String,
    pub got: String,
}

/// Runs all tasks in worker processes.
pub fn run(bin: &str, tasks: &[Task], wants: &std::collections::BTreeMap<String, String>, deadline: i64) -> Result<(Vec<Result1>, Vec<Bad>), String> {
    static N: AtomicU32 = AtomicU32::new(0);
    let id = N.fetch_add(1, Relaxed);
    let dir = crate::engine::scratch();
    let (file, log) = (dir.join(format!("chess-{id}")), dir.join(format!("chess-log-{id}")));
    let mut body = String::new();
    for (o, w) in wants {
        body += &format!("want\t{o}\t{w}\n");
    }
    for t in tasks {
        body += &format!("task\t{}\t{}\t{}\t{}\n", t.start(), t.bound, t.max, t.ops.join("\t"));
    }
    std::fs::write(&file, body).map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(&log);
    let n = crate::engine::nthreads();
    let mut kids = Vec::new();
    for s in 0..n {
        kids.push(std::process::Command::new(bin).args(["chess", file.to_str().unwrap(), &s.to_string(), &n.to_string(), &deadline.to_string(), log.to_str().unwrap()]).spawn().map_err(|e| e.to_string())?);
    }
    for mut k in kids {
        k.wait().map_err(|e| e.to_string())?;
    }
    let (mut res, mut bad) = (vec![], vec![]);
    for l in std::fs::read_to_string(&log).unwrap_or_default().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        let task = num(1) as usize - 1;
        match f[0] {
            "R" => res.push(Result1 { task, schedules: num(2), points: num(3), lines: num(4), deepest: num(5), cut: num(6), accesses: num(7) }),
            "V" => bad.push(Bad { task, schedule: f[2].into(), expected: f[3].into(), got: f[4].into() }),
            _ => return Err(format!("interleavings of {:?}: {}", tasks[task].ops, f[2])),
        }
    }
    if bad.is_empty() && res.len() != tasks.len() {
        return Err(format!("{} of {} tasks reported", res.len(), tasks.len()));
    }
    bad.sort_by_key(|b| b.task);
    Ok((res, bad))
}

/// One schedule again.
pub fn replay(ops: &[String], wants: &[String], start: &str, sched: &str) -> Option<bool> {
    crate::exec::silence_panics();
    let s: Vec<(u32, u32)> = sched.split(',').filter(|x| !x.is_empty()).filter_map(|x| x.split_once('>')).filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))).collect();
    let t = Task { warm: start.starts_with("warm"), deep: start.contains("deep"), last: start.chars().last().and_then(|c| c.to_digit(10)).unwrap_or(0) as usize, ops: ops.to_vec(), bound: s.len(), max: 1_000_000 };
    unsafe {
        set_up(&warm_up(&t), t.deep).ok()?;
        let r = if ops.len() > 3 { stacked(ops, wants, t.max, libc::time(std::ptr::null_mut()) + 600) } else { search(ops, wants, t.bound.max(1), t.max, libc::time(std::ptr::null_mut()) + 600) }
        .ok()?;
        if let Some((s, e, g)) = &r.bad {
            println!("schedule {}: expected {e}, got {g}", show(s));
        }
        Some(r.bad.is_some())
    }
}
