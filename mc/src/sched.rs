//! C08: interleavings of two calls of the real, unmodified machine code. Call A is single-stepped with the
//! CPU's trap flag; at every instruction of the executable a child process is forked in which call B runs
//! to completion on another thread before A goes on. Level 2 adds a second preemption: B is stopped
//! at each of its own writes to static storage, A finishes, then B goes on.
use crate::engine::{run_one, One};
use crate::exec::{self, Prepared};
use crate::report::Report;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::*};
use std::time::Duration;
use vcommon::{Case, Outcome};

pub enum Op {
    Call(Prepared),
    Racy(u64),
    Locked(u64),
    Heap(u64),
    Order(bool),
    Twice(u64),
    Three(u64),
    Spin(u64),
    Fresh(u64),
    Slots(u64),
    Full(u64),
    Panics,
}

// ---- self tests: one function with a race, one that is correctly locked
static RACY: AtomicU64 = AtomicU64::new(0);
#[inline(never)]
fn racy(x: u64) -> u64 {
    RACY.store(x, Relaxed);
    let mut a = 1u64;
    for i in 0..20 {
        a = std::hint::black_box(a.wrapping_mul(31).wrapping_add(i));
    }
    a ^ RACY.load(Relaxed)
}
/// the same race in memory that an earlier call left in the heap
static HEAP: std::sync::OnceLock<Box<[AtomicU64; 8]>> = std::sync::OnceLock::new();
#[inline(never)]
fn racy_heap(x: u64) -> u64 {
    let h = HEAP.get_or_init(|| Box::new(Default::default()));
    h[5].store(x, Relaxed);
    let mut a = 1u64;
    for i in 0..20 {
        a = std::hint::black_box(a.wrapping_mul(31).wrapping_add(i));
    }
    a ^ h[5].load(Relaxed)
}
static LOCKED: std::sync::Mutex<u64> = std::sync::Mutex::new(0);
#[inline(never)]
fn locked(x: u64) -> u64 {
    let mut g = LOCKED.lock().unwrap();
    *g = x;
    let mut a = 1u64;
    for i in 0..20 {
        a = std::hint::black_box(a.wrapping_mul(31).wrapping_add(i));
    }
    a ^ *g
}

static FIRST: std::sync::Mutex<u64> = std::sync::Mutex::new(0);
static SECOND: std::sync::Mutex<u64> = std::sync::Mutex::new(0);
#[inline(never)]
fn lock_order(up: bool) {
    let (a, b) = if up { (&FIRST, &SECOND) } else { (&SECOND, &FIRST) };
    let mut a = a.lock().unwrap();
    let mut b = b.lock().unwrap();
    *a += 1;
    *b += 1;
}

/// Needs two preemptions to go wrong: between check and claim, and again before the use
static TWICE: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
#[inline(never)]
fn twice(x: u64) -> u64 {
    if TWICE[1].load(SeqCst) != 0 {
        // another call is in progress: do without the shared cell
        return x;
    }
    TWICE[1].store(1, SeqCst);
    TWICE[0].store(x, SeqCst);
    let r = std::hint::black_box(&TWICE)[0].load(SeqCst);
    TWICE[1].store(0, SeqCst);
    r
}
/// Goes wrong only when three calls are in progress
static INSIDE: AtomicU64 = AtomicU64::new(0);
#[inline(never)]
fn three(x: u64) -> u64 {
    let n = INSIDE.fetch_add(1, SeqCst);
    INSIDE.fetch_sub(1, SeqCst);
    x + (n >= 2) as u64
}
static SPIN: AtomicBool = AtomicBool::new(false);
static SPUN: AtomicU64 = AtomicU64::new(0);
#[inline(never)]
fn spin(x: u64) -> u64 {
    while SPIN.swap(true, SeqCst) {
        std::thread::yield_now();
    }
    SPUN.store(x, SeqCst);
    let r = SPUN.load(SeqCst);
    SPIN.store(false, SeqCst);
    r
}

/// goes wrong only when the other thread makes four calls in the meantime
static SLOTS: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];
static SLOT: AtomicU64 = AtomicU64::new(0);
#[inline(never)]
fn slots(x: u64) -> u64 {
    let i = SLOT.fetch_add(1, SeqCst) as usize % 4;
    SLOTS[i].store(x, SeqCst);
    std::hint::black_box(&SLOTS)[i].load(SeqCst)
}
/// goes wrong only when nine calls are in progress
static IN_USE: AtomicU64 = AtomicU64::new(0);
#[inline(never)]
fn full(x: u64) -> u64 {
    let n = IN_USE.fetch_add(1, SeqCst);
    IN_USE.fetch_sub(1, SeqCst);
    x + (n >= 8) as u64
}
/// a race in a heap block that only becomes shared during the call
static FRESH: std::sync::atomic::AtomicPtr<AtomicU64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
#[inline(never)]
fn fresh(x: u64) -> u64 {
    let b: &AtomicU64 = Box::leak(Box::new(AtomicU64::new(0)));
    let old = FRESH.swap(b as *const _ as *mut _, SeqCst);
    if let Some(o) = unsafe { old.as_ref() } {
        o.store(x ^ 1, SeqCst);
    }
    b.store(x, SeqCst);
    std::hint::black_box(b).load(SeqCst)
}

pub fn parse_op(s: &str) -> Option<Op> {
    if s == "selftest-panic" {
        return Some(Op::Panics);
    }
    if let Some(x) = s.strip_prefix("selftest-order ") {
        return Some(Op::Order(x == "up"));
    }
    if let Some(x) = s.strip_prefix("selftest-racy ") {
        return Some(Op::Racy(x.parse().ok()?));
    }
    if let Some(x) = s.strip_prefix("selftest-twice ") {
        return Some(Op::Twice(x.parse().ok()?));
    }
    if let Some(x) = s.strip_prefix("selftest-three ") {
        return Some(Op::Three(x.parse().ok()?));
    }
    if let Some(x) = s.strip_prefix("selftest-spin ") {
        return Some(Op::Spin(x.parse().ok()?));
    }
    if let Some(x) = s.strip_prefix("selftest-slots ") {
        return Some(Op::Slots(x.parse().ok()?));
    }
    if let Some(x) = s.strip_prefix("selftest-full ") {
        return Some(Op::Full(x.parse().ok()?));
    }
    if let Some(x) = s.strip_prefix("selftest-fresh ") {
        return Some(Op::Fresh(x.parse().ok()?));
    }
    if let Some(x) = s.strip_prefix("selftest-heap ") {
        return Some(Op::Heap(x.parse().ok()?));
    }
    if let Some(x) = s.strip_prefix("selftest-locked ") {
        return Some(Op::Locked(x.parse().ok()?));
    }
    Case::parse(s).map(|c| Op::Call(exec::prepare(&c)))
}
pub fn run_op(o: Op) -> Outcome {
    match o {
        Op::Call(p) => exec::actual_prepared(p),
        Op::Racy(x) => Outcome::Ok(racy(x).to_le_bytes().to_vec()),
        Op::Twice(x) => Outcome::Ok(twice(x).to_le_bytes().to_vec()),
        Op::Three(x) => Outcome::Ok(three(x).to_le_bytes().to_vec()),
        Op::Spin(x) => Outcome::Ok(spin(x).to_le_bytes().to_vec()),
        Op::Slots(x) => Outcome::Ok(slots(x).to_le_bytes().to_vec()),
        Op::Full(x) => Outcome::Ok(full(x).to_le_bytes().to_vec()),
        Op::Fresh(x) => Outcome::Ok(fresh(x).to_le_bytes().to_vec()),
        Op::Heap(x) => Outcome::Ok(racy_heap(x).to_le_bytes().to_vec()),
        Op::Panics => match std::panic::catch_unwind(|| panic!()) {
            Ok(()) => Outcome::Ok(vec![]),
            Err(_) => Outcome::Panic,
        },
        Op::Order(up) => {
            lock_order(up);
            Outcome::Ok(vec![1])
        }
        Op::Locked(x) => Outcome::Ok(locked(x).to_le_bytes().to_vec()),
    }
}

struct G<T>(UnsafeCell<T>);
unsafe impl<T> Sync for G<T> {}
impl<T> G<T> {
    const fn new(t: T) -> G<T> {
        G(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

// ---- explorer state. Everything the handlers touch lives here, in static storage of our own; the
// page range of these statics is excluded from the "static storage changed" test below by being
// kept in one mmapped block instead.
#[repr(C)]
struct Ex {
    text: (usize, usize),
    /// watched ranges: static storage of the executable, then heap blocks that earlier calls left behind
    data: [(usize, usize); RANGES],
    shadow: [*mut u8; RANGES],
    ranges: usize,
    shard: u64,
    shards: u64,
    n: u64,          // instructions of A inside the executable so far
    points: u64,     // of those, explored by this shard
    changed: u64,    // steps of A that changed static storage
    in_child: bool,
    counting: bool,  // only count the static writes of the stepped call
    b: usize,        // which B
    at_write: bool,  // A's previous instruction wrote static storage (or A has not started)
    level2: bool,
    sparse: bool,    // preempt A only where it starts and right after its writes to static storage
    deadline: i64,
    cut: u64,        // preemption points left out because the time was up
    fail: bool,
    log: libc::c_int,
    // B side
    b_step: bool,
    b_stop_at: u64,
    b_changes: AtomicU64,
    b_done: AtomicBool,
    b_tid: AtomicI32,
    b_paused: AtomicBool,
    a_done: AtomicBool,
    bell: AtomicI32,
    schedules: u64,
    blocked: AtomicU64,
}
const RANGES: usize = 68;
const WATCHED_HEAP: usize = 128 << 10;
static EX: AtomicUsize = AtomicUsize::new(0);
fn ex() -> &'static mut Ex {
    unsafe { &mut *(EX.load(Relaxed) as *mut Ex) }
}
static OP_A: G<Option<Op>> = G::new(None);
static OPS_B: G<Vec<Option<Op>>> = G::new(Vec::new());
/// static writes of each B when it runs alone
static TOTALS: G<Vec<u64>> = G::new(Vec::new());
static RES_B: G<Option<Outcome>> = G::new(None);
static WANT: G<(String, Vec<String>)> = G::new((String::new(), Vec::new()));

fn set_tf(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

unsafe extern "C" fn phdr(info: *mut libc::dl_phdr_info, _: usize, _: *mut libc::c_void) -> libc::c_int {
    let i = &*info;
    let e = ex();
    let mut nd = 0;
    for k in 0..i.dlpi_phnum as usize {
        let p = &*i.dlpi_phdr.add(k);
        if p.p_type != libc::PT_LOAD {
            continue;
        }
        let lo = i.dlpi_addr as usize + p.p_vaddr as usize;
        let hi = lo + p.p_memsz as usize;
        // read-only after relocation
        let relro = (0..i.dlpi_phnum as usize).map(|k| &*i.dlpi_phdr.add(k)).any(|q| q.p_type == libc::PT_GNU_RELRO && q.p_vaddr <= p.p_vaddr && p.p_vaddr + p.p_memsz <= q.p_vaddr + q.p_memsz);
        if relro {
            continue;
        }
        if p.p_flags & libc::PF_X != 0 {
            e.text = (lo, hi);
        }
        if p.p_flags & libc::PF_W != 0 && nd < 4 {
            e.data[nd] = (lo, hi);
            nd += 1;
        }
    }
    e.ranges = nd;
    1 // the executable comes first; stop
}

/// Did static storage of the executable change since the last look?
unsafe fn static_changed() -> bool {
    let e = ex();
    let mut ch = false;
    for k in 0..e.ranges {
        let (lo, hi) = e.data[k];
        if hi > lo && libc::memcmp(lo as *const _, e.shadow[k] as *const _, hi - lo) != 0 {
            libc::memcpy(e.shadow[k] as *mut _, lo as *const _, hi - lo);
            ch = true;
        }
    }
    ch
}

extern "C" fn b_main(_: *mut libc::c_void) -> *mut libc::c_void {
    let e = ex();
    e.b_tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
    let op = OPS_B.get()[e.b].take().unwrap();
    if e.b_step {
        // created inside A's SIGTRAP handler: the mask came along
        unsafe {
            let mut m: libc::sigset_t = std::mem::zeroed();
            libc::sigemptyset(&mut m);
            libc::sigaddset(&mut m, libc::SIGTRAP);
            libc::pthread_sigmask(libc::SIG_UNBLOCK, &m, std::ptr::null_mut());
        }
        unsafe { static_changed() };
        set_tf(true);
    }
    let r = run_op(op);
    set_tf(false);
    *RES_B.get() = Some(r);
    e.b_done.store(true, SeqCst);
    wake();
    std::ptr::null_mut()
}

/// Tells A's thread that B is done or paused.
fn wake() {
    let e = ex();
    e.bell.store(1, SeqCst);
    unsafe { libc::syscall(libc::SYS_futex, e.bell.as_ptr(), libc::FUTEX_WAKE, 1, 0, 0, 0) };
}

fn nap(us: u64) {
    unsafe {
        let ts = libc::timespec { tv_sec: 0, tv_nsec: (us * 1000) as i64 };
        libc::nanosleep(&ts, std::ptr::null_mut());
    }
}

unsafe fn task_state(tid: i32) -> u8 {
    let mut path = [0u8; 64];
    libc::snprintf(path.as_mut_ptr() as *mut _, 64, c"/proc/self/task/%d/stat".as_ptr(), tid);
    stat_state(path.as_ptr() as *const _)
}
unsafe fn stat_state(path: *const libc::c_char) -> u8 {
    let fd = libc::open(path, libc::O_RDONLY);
    if fd < 0 {
        return b'?';
    }
    let mut b = [0u8; 128];
    let n = libc::read(fd, b.as_mut_ptr() as *mut _, 128);
    libc::close(fd);
    let s = &b[..n.max(0) as usize];
    s.iter().rposition(|c| *c == b')').and_then(|p| s.get(p + 2)).copied().unwrap_or(b'?')
}

/// Are all threads of the process (but one) asleep?
pub unsafe fn all_asleep(pid: i32, but: i32) -> bool {
    let mut path = [0u8; 64];
    libc::snprintf(path.as_mut_ptr() as *mut _, 64, c"/proc/%d/task".as_ptr(), pid);
    let fd = libc::open(path.as_ptr() as *const _, libc::O_RDONLY | libc::O_DIRECTORY);
    if fd < 0 {
        return false;
    }
    let mut buf = [0u8; 1024];
    let mut all = true;
    loop {
        let n = libc::syscall(libc::SYS_getdents64, fd, buf.as_mut_ptr(), 1024);
        if n <= 0 {
            break;
        }
        let mut at = 0usize;
        while at < n as usize {
            let len = u16::from_ne_bytes([buf[at + 16], buf[at + 17]]) as usize;
            let mut tid = 0i32;
            let mut i = at + 19;
            while buf[i].is_ascii_digit() {
                tid = tid * 10 + (buf[i] - b'0') as i32;
                i += 1;
            }
            if tid != 0 && tid != but {
                libc::snprintf(path.as_mut_ptr() as *mut _, 64, c"/proc/%d/task/%d/stat".as_ptr(), pid, tid);
                all &= stat_state(path.as_ptr() as *const _) == b'S';
            }
            at += len;
        }
    }
    libc::close(fd);
    all
}

/// Waits for the child; a child whose threads all sleep for two seconds on end is stuck.
unsafe fn wait_child(pid: i32) -> (libc::c_int, bool) {
    let mut st = 0;
    let fd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as libc::c_int;
    let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
    let mut asleep = 0;
    let mut stuck = false;
    let mut limit = 1000;
    while fd >= 0 && libc::poll(&mut p, 1, limit) == 0 {
        limit = 20;
        asleep = if all_asleep(pid, 0) { asleep + 1 } else { 0 };
        if asleep >= 100 {
            stuck = true;
            libc::kill(pid, libc::SIGKILL);
            break;
        }
    }
    if fd >= 0 {
        libc::close(fd);
    }
    libc::waitpid(pid, &mut st, 0);
    (st, stuck)
}

static B_THREAD: G<libc::pthread_t> = G::new(0);

/// In the child, on A's stack: start B and wait until it is done, paused, or cannot go on without A.
unsafe fn start_b() {
    let e = ex();
    let mut attr: libc::pthread_attr_t = std::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    libc::pthread_attr_setstacksize(&mut attr, 1 << 20);
    if libc::pthread_create(B_THREAD.get(), &attr, b_main, std::ptr::null_mut()) != 0 {
        libc::_exit(9);
    }
    let mut waited = 0u64;
    let mut asleep = 0;
    loop {
        if e.b_done.load(SeqCst) || e.b_paused.load(SeqCst) {
            return;
        }
        if waited < 2000 {
            let ts = libc::timespec { tv_sec: 0, tv_nsec: 2_000_000 };
            libc::syscall(libc::SYS_futex, e.bell.as_ptr(), libc::FUTEX_WAIT, 0, &ts, 0, 0);
            waited += if e.bell.load(SeqCst) == 0 { 2000 } else { 1 };
        } else {
            let tid = e.b_tid.load(SeqCst);
            let st = if tid != 0 { task_state(tid) } else { b'R' };
            asleep = if st == b'S' { asleep + 1 } else { 0 };
            // asleep: waits for a lock A holds. Running for very long: spins on one.
            if asleep >= 4 || waited > 3_000_000 {
                e.blocked.fetch_add(1, Relaxed);
                return;
            }
            nap(1000);
            waited += 1000;
        }
    }
}

extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let e = ex();
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let rip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        if e.in_child {
            // thread B, second-level stepping
            if static_changed() {
                let k = e.b_changes.fetch_add(1, SeqCst) + 1;
                if k == e.b_stop_at {
                    e.b_paused.store(true, SeqCst);
                    wake();
                    // let A finish; if A cannot finish without B (lock), go on after a while
                    let mut waited = 0;
                    while !e.a_done.load(SeqCst) && waited < 40 {
                        nap(1000);
                        waited += 1;
                    }
                    uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
                }
            }
            return;
        }
        if static_changed() {
            e.changed += 1;
            e.at_write = true;
        }
        if e.counting {
            return;
        }
        if rip < e.text.0 || rip >= e.text.1 {
            return;
        }
        e.n += 1;
        let at_write = std::mem::replace(&mut e.at_write, false);
        if e.n % e.shards != e.shard || (e.sparse && !at_write) {
            return;
        }
        if libc::time(std::ptr::null_mut()) > e.deadline {
            e.cut += 1;
            return;
        }
        e.points += 1;
        let (nb, mut b) = (OPS_B.get().len(), 0);
        let mut stop_at = 0u64;
        loop {
            let pid = libc::fork();
            if pid < 0 {
                libc::_exit(8);
            }
            if pid == 0 {
                libc::alarm(40);
                e.in_child = true;
                e.b = b;
                e.b_stop_at = stop_at;
                e.b_step = stop_at > 0;
                uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
                start_b();
                return; // A goes on, not stepped
            }
            let (st, stuck) = wait_child(pid);
            e.schedules += 1;
            let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -1 };
            if code == 9 || code == 8 {
                libc::_exit(8);
            }
            if code != 0 {
                if code < 0 {
                    let mut line = [0u8; 200];
                    let why: *const libc::c_char = if stuck {
                        c"both calls wait for each other forever".as_ptr()
                    } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
                        c"calls do not finish within 40 s".as_ptr()
                    } else { c"process died".as_ptr() };
                    let n = libc::snprintf(line.as_mut_ptr() as *mut _, 200, c"V\t%lu\t%lu\tboth calls return\t%s (wait status %d)\t%lu\n".as_ptr(), e.n, stop_at, why, st, b as u64);
                    libc::write(e.log, line.as_ptr() as *const _, n as usize);
                }
                e.fail = true;
                libc::_exit(1);
            }
            // second preemption: after each static write of B, at A's own static writes
            if e.level2 && at_write && stop_at < TOTALS.get()[b] {
                stop_at += 1;
                continue;
            }
            if b + 1 < nb {
                b += 1;
                stop_at = 0;
                continue;
            }
            break;
        }
    }
}

pub struct B {
    pub op: String,
    pub want: String,
    pub total: u64,
}

/// One more call of the same function with other arguments, if it is one of ours.
pub fn others(op: &str) -> Vec<String> {
    if let Some((name @ ("selftest-racy" | "selftest-locked" | "selftest-heap" | "selftest-twice" | "selftest-three" | "selftest-spin"), _)) = op.split_once(' ') {
        return vec![format!("{name} 1234")];
    }
    let near = |d: &vcommon::Data| {
        let mut b = d.bytes();
        match b.first_mut() {
            Some(x) => *x ^= 0x55,
            None => b = vec![0x55; 8],
        }
        vcommon::Data::Bytes(b)
    };
    match Case::parse(op) {
        Some(Case::Kdf { k, pwd, salt, t, r, c }) => vec![Case::Kdf { k, pwd: near(&pwd), salt, t, r, c }.show()],
        Some(Case::Sum(d)) => vec![Case::Sum(near(&d)).show()],
        Some(Case::Hash(a, d)) => vec![Case::Hash(a, near(&d)).show()],
        _ => vec![],
    }
}

fn prepare(warm: &[String]) {
    exec::silence_panics();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 16384, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        EX.store(p as usize, SeqCst);
        libc::dl_iterate_phdr(Some(phdr), std::ptr::null_mut());
        let e = ex();
        let t = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<crate::mem::Blocks>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut crate::mem::Blocks;
        for s in warm {
            let op = parse_op(s).unwrap();
            crate::mem::record_blocks(t);
            drop(run_op(op));
            crate::mem::record_blocks(std::ptr::null_mut());
        }
        // what calls leave in the heap is shared like static storage
        let blocks = &mut (&mut (*t).at)[..(*t).n];
        blocks.sort_unstable_by_key(|b| b.1);
        let mut sum = 0;
        for (at, len) in blocks.iter() {
            sum += len;
            if sum > WATCHED_HEAP || e.ranges == RANGES {
                break;
            }
            e.data[e.ranges] = (*at, at + len);
            e.ranges += 1;
        }
        for k in 0..e.ranges {
            let (lo, hi) = e.data[k];
            if hi > lo {
                e.shadow[k] = libc::mmap(std::ptr::null_mut(), hi - lo, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            }
        }
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}

/// How often does the call write static storage when it is stepped alone?
pub fn count(op: &str, warm: bool) -> i32 {
    let mut w = vec![op.to_string(), op.to_string()];
    w.extend(others(op));
    prepare(if warm { &w } else { &[] });
    let Some(o) = parse_op(op) else { return 2 };
    let e = ex();
    e.counting = true;
    unsafe {
        static_changed();
        set_tf(true);
        let r = run_op(o);
        set_tf(false);
        println!("COUNT {} {} ranges {}", e.changed, r.show(), e.ranges);
    }
    0
}

/// `mc sched A cold|warm level deadline shard shards log wantA [B wantB totalB]...`
pub fn explore(a: &str, bs: Vec<B>, warm: bool, level: u32, deadline: i64, shard: u64, shards: u64, log: &str, want: String) -> i32 {
    // the last call before A must be another one, or else A's writes of the same values are not seen
    let mut w: Vec<String> = vec![];
    if warm {
        w.extend([a.to_string(), a.to_string()]);
        w.extend(bs.iter().map(|b| b.op.clone()).filter(|b| b != a));
        w.extend(others(a));
    }
    prepare(&w);
    unsafe {
        let e = ex();
        let path = std::ffi::CString::new(log).unwrap();
        e.log = libc::open(path.as_ptr(), libc::O_WRONLY | libc::O_APPEND | libc::O_CREAT, 0o644);
        e.shard = shard;
        e.shards = shards;
        e.level2 = level >= 2;
        e.sparse = level == 3;
        e.deadline = deadline;
        *WANT.get() = (want, bs.iter().map(|b| b.want.clone()).collect());
        *TOTALS.get() = bs.iter().map(|b| b.total).collect();
        *OPS_B.get() = bs.iter().map(|b| parse_op(&b.op)).collect();
        *OP_A.get() = parse_op(a);
        let Some(op_a) = OP_A.get().take() else { return 2 };
        e.at_write = true;
        static_changed();
        set_tf(true);
        let ra = run_op(op_a);
        set_tf(false);
        let e = ex();
        e.a_done.store(true, SeqCst);
        if e.in_child {
            libc::pthread_join(*B_THREAD.get(), std::ptr::null_mut());
            let rb = RES_B.get().take().unwrap();
            let (wa, wb) = WANT.get();
            let (ga, gb) = (ra.show(), rb.show());
            let mut code = 0;
            for (w, g, who) in [(wa, &ga, "A"), (&mut wb[e.b], &gb, "B")] {
                if w != g {
                    let s = format!("V\t{}\t{}\t{who} {w}\t{who} {g}\t{}\n", e.n, e.b_stop_at, e.b);
                    libc::write(e.log, s.as_ptr() as *const _, s.len());
                    code = 1;
                }
            }
            libc::_exit(code);
        }
        let s = format!("R\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n", e.n, e.points, e.schedules, e.changed, e.blocked.load(Relaxed), (ra.show() == WANT.get().0) as u32, e.cut);
        libc::write(e.log, s.as_ptr() as *const _, s.len());
        0
    }
}

/// Second preemptions of one B
const MAX_STOPS: u64 = 40;

struct PairResult {
    instructions: u64,
    points: u64,
    schedules: u64,
    changed: u64,
    cut: u64,
    violations: Vec<(u64, u64, String, String, usize)>,
    solo_ok: bool,
}

type Memo<T> = std::sync::Mutex<std::collections::HashMap<(String, bool), T>>;

fn want_of(bin: &str, s: &str) -> Result<String, String> {
    static MEMO: std::sync::LazyLock<Memo<String>> = std::sync::LazyLock::new(Default::default);
    if let Some(x) = MEMO.lock().unwrap().get(&(s.to_string(), false)) {
        return Ok(x.clone());
    }
    let r = match parse_op(s) {
        Some(Op::Call(_)) => match run_one(bin, s, Duration::from_secs(60)) {
            One::Outcome(o) => o,
            One::Died(h) => return Err(format!("{s} alone: {h}")),
        },
        Some(o) => run_op(o).show(),
        None => return Err(format!("bad operation {s}")),
    };
    MEMO.lock().unwrap().insert((s.to_string(), false), r.clone());
    Ok(r)
}

fn total_of(bin: &str, s: &str, warm: bool) -> Result<u64, String> {
    static MEMO: std::sync::LazyLock<Memo<u64>> = std::sync::LazyLock::new(Default::default);
    if let Some(x) = MEMO.lock().unwrap().get(&(s.to_string(), warm)) {
        return Ok(*x);
    }
    let o = std::process::Command::new(bin).args(["sched-count", s, if warm { "warm" } else { "cold" }]).output().map_err(|e| e.to_string())?;
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let n = out.lines().find_map(|l| l.strip_prefix("COUNT ")).and_then(|l| l.split(' ').next()?.parse().ok()).ok_or(format!("cannot step '{s}': {out}"))?;
    MEMO.lock().unwrap().insert((s.to_string(), warm), n);
    Ok(n)
}

fn now() -> i64 {
    unsafe { libc::time(std::ptr::null_mut()) }
}

/// level 1: one preemption, at every instruction; 2: and B preempted at its static writes; 3: like 2, but A
/// preempted only at its start and after each of its own static writes (one process instead of one per core)
fn run_pair(bin: &str, a: &str, bs: &[&str], warm: bool, level: u32, deadline: i64) -> Result<PairResult, String> {
    static N: AtomicU64 = AtomicU64::new(0);
    let log = crate::engine::scratch().join(format!("sched-{}", N.fetch_add(1, Relaxed)));
    let mut tail = vec![log.to_str().unwrap().to_string(), want_of(bin, a)?];
    for b in bs {
        tail.extend([b.to_string(), want_of(bin, b)?, total_of(bin, b, warm)?.min(MAX_STOPS).to_string()]);
    }
    let shards = if level == 3 { 1 } else { crate::engine::nthreads() };
    let mut kids = Vec::new();
    for s in 0..shards {
        kids.push(
            std::process::Command::new(bin)
                .args(["sched", a, if warm { "warm" } else { "cold" }, &level.to_string(), &deadline.to_string(), &s.to_string(), &shards.to_string()])
                .args(&tail)
                .stdin(std::process::Stdio::null())
                .spawn()
                .map_err(|e| e.to_string())?,
        );
    }
    let t0 = std::time::Instant::now();
    let mut codes = Vec::new();
    for mut k in kids {
        loop {
            match k.try_wait().map_err(|e| e.to_string())? {
                Some(s) => {
                    codes.push(s.code().unwrap_or(-1));
                    break;
                }
                None if now() > deadline + 120 || t0.elapsed() > Duration::from_secs(6000) => {
                    let _ = k.kill();
                }
                None => std::thread::sleep(Duration::from_millis(3)),
            }
        }
    }
    let mut r = PairResult { instructions: 0, points: 0, schedules: 0, changed: 0, cut: 0, violations: vec![], solo_ok: true };
    let mut ns = Vec::new();
    for l in std::fs::read_to_string(&log).unwrap_or_default().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        if f[0] == "V" && f.len() >= 5 {
            r.violations.push((num(1), num(2), f[3].into(), f[4].into(), num(5) as usize));
        } else if f[0] == "R" {
            ns.push(num(1));
            r.points += num(2);
            r.schedules += num(3);
            r.changed = r.changed.max(num(4));
            r.solo_ok &= num(6) == 1;
            r.cut += num(7);
        }
    }
    r.violations.sort();
    if r.violations.is_empty() {
        if codes.iter().any(|c| *c != 0) {
            return Err(format!("explorer for '{a}' / {bs:?} ended with {codes:?}"));
        }
        r.instructions = *ns.iter().max().unwrap_or(&0);
        if !r.solo_ok {
            return Err(format!("'{a}' single-stepped alone gives another result than in a fresh process"));
        }
        let (lo, hi) = (ns.iter().min().unwrap_or(&0), ns.iter().max().unwrap_or(&0));
        if ns.len() != shards || (r.points == 0 && r.cut == 0) || hi - lo > 2000 {
            return Err(format!("explorer for '{a}' / {bs:?}: inconsistent shards {ns:?}"));
        }
    }
    Ok(r)
}

/// One or two calls of every function and of every way to reject, for the exploration of all ordered pairs
fn representatives(th: bool) -> Vec<String> {
    let m = crate::alphabet::messages();
    let k = crate::alphabet::kdf_ops();
    let p = crate::alphabet::panicking_ops();
    let mut v = vec![tiny(1), tiny(2), k[0].show(), k[2].show(), k[4].show(), k[15].show(), k[17].show(), k[18].show(), p[0].show(), p[3].show(), p[7].show()];
    for a in vcommon::ALGS {
        v.push(Case::Hash(a, m[0].clone()).show());
        v.push(Case::Hash(a, m[1].clone()).show());
    }
    if th {
        v.extend(crate::alphabet::small().iter().chain(&crate::alphabet::large_ops()).map(|c| c.show()));
        v.dedup();
    }
    v
}
fn tiny(x: u8) -> String {
    vcommon::spaces::kdf(32, vcommon::patm('z', 8, &[(0, x)]), vcommon::pat('l', 8), 1, 3, 1).show()
}

/// Pairs explored with preemption at every instruction of A
pub fn pairs(th: bool) -> Vec<(String, String, bool)> {
    let m = |i: usize| crate::alphabet::messages()[i].clone();
    let hash = |a: vcommon::Alg, i: usize| Case::Hash(a, m(i)).show();
    use vcommon::Alg::*;
    let k = crate::alphabet::kdf_ops();
    let p = crate::alphabet::panicking_ops();
    let mut v: Vec<(String, String, bool)> = Vec::new();
    // the same function twice, other arguments: first calls of the process, then later ones; two preemptions
    for (a, b) in [
        (tiny(1), tiny(2)),
        (k[0].show(), k[4].show()),
        (k[2].show(), k[0].show()),
        (k[15].show(), k[12].show()),
        (k[17].show(), k[18].show()),
        (hash(Re, 0), hash(Re, 1)),
        (hash(Rev2, 0), hash(Rev2, 1)),
        (hash(Rev3, 0), hash(Rev3, 1)),
        (hash(Z, 0), hash(Z, 2)),
        // different functions
        (hash(Re, 0), hash(Rev2, 0)),
        (hash(Rev2, 0), hash(Rev3, 0)),
        (k[0].show(), hash(Z, 0)),
        (hash(Rev3, 2), k[0].show()),
        // rejected calls
        (k[0].show(), p[3].show()),
        (p[3].show(), k[17].show()),
    ] {
        v.push((a, b, false));
    }
    for (a, b) in [(tiny(1), tiny(2)), (k[0].show(), k[12].show()), (hash(Rev2, 0), hash(Rev2, 1)), (hash(Rev3, 0), hash(Rev3, 1)), (p[0].show(), p[3].show())] {
        v.push((a, b, true));
    }
    if th {
        let ops: Vec<String> = crate::alphabet::small().iter().map(|c| c.show()).filter(|s| !s.contains("r=32")).collect();
        for a in &ops {
            for b in &ops {
                v.push((a.clone(), b.clone(), false));
                v.push((a.clone(), b.clone(), true));
            }
        }
    }
    v
}

fn self_tests(bin: &str) -> Result<(), String> {
    for level in [2, 3] {
        // the explorer must find a race and a deadlock that are there, and not report a correctly locked function
        if run_pair(bin, "selftest-racy 5", &["selftest-racy 77"], false, level, now() + 100)?.violations.is_empty() {
            return Err(format!("self test: the explorer (level {level}) does not find a planted race"));
        }
        if run_pair(bin, "selftest-heap 5", &["selftest-heap 77"], true, level, now() + 100)?.violations.is_empty() {
            return Err(format!("self test: the explorer (level {level}) does not find a planted race in the heap"));
        }
        let r = run_pair(bin, "selftest-order up", &["selftest-order down"], false, level, now() + 100)?;
        if !r.violations.iter().any(|v| v.3.contains("forever")) {
            return Err(format!("self test: the explorer (level {level}) does not find a planted deadlock: {:?}", r.violations));
        }
        for (a, b) in [("selftest-locked 5", "selftest-locked 77"), ("selftest-order up", "selftest-order up")] {
            let r = run_pair(bin, a, &[b], false, level, now() + 100)?;
            if let Some(v) = r.violations.first() {
                return Err(format!("self test: false alarm on a correctly locked function: {v:?}"));
            }
            if r.changed == 0 {
                return Err("self test: writes to static storage are not seen".into());
            }
        }
    }
    Ok(())
}

fn record(rep: &mut Report, a: &str, bs: &[&str], warm: bool, r: &PairResult) {
    rep.states += r.points;
    rep.transitions += r.schedules * 2;
    rep.traces += r.schedules;
    if r.cut > 0 {
        rep.exhaustive = false;
    }
    if let (Some((n, j, e, g, b)), true) = (r.violations.first(), rep.violations.is_empty()) {
        rep.violate(
            "schedule",
            &[("build", "release".into()), ("A", a.into()), ("B", bs[*b].into()), ("start", if warm { "warm" } else { "cold" }.into()), ("A is preempted at its instruction", n.to_string()), ("B is preempted after its static write number (0: never)", j.to_string()), ("expected", e.clone()), ("got", g.clone())],
        );
    }
}

/// All interleavings of two or three calls at their accesses to shared memory, within a number of preemptions.
fn shared_accesses(rep: &mut Report, bin: &str, verbose: bool) -> Result<(), String> {
    use crate::chess::{self, Task};
    let th = rep.thorough;
    let deadline = now() + if th { 6_000 } else { 120 };
    let st = |x: &str| format!("selftest-{x}");
    // self tests: must be found / must not be reported
    let find = [("racy 5", "racy 77", false), ("racy 5", "racy 77", true), ("heap 5", "heap 77", true), ("order up", "order down", false), ("twice 5", "twice 77", false), ("twice 5", "twice 77", true)];
    let quiet = [("locked 5", "locked 77"), ("order up", "order up"), ("spin 5", "spin 77")];
    let task = |ops: Vec<String>, warm, bound, max| Task { warm, last: 0, deep: false, ops, bound, max };
    let deep = |t: Task| Task { deep: true, ..t };
    let mut tasks: Vec<Task> = find.iter().map(|(a, b, w)| task(vec![st(a), st(b)], *w, 2, 5000)).collect();
    tasks.push(task(vec![st("three 5"), st("three 77"), st("three 99")], true, 2, 5000));
    for w in [false, true] {
        tasks.push(deep(task(vec![st("fresh 5"), st("fresh 77")], w, 2, 5000)));
    }
    tasks.push(task(vec![st("slots 5"), vec![st("slots 77"); 4].join(chess::THEN)], true, 1, 5000));
    tasks.push(task(vec![st("full 5"); 12], true, 1, 5000));
    let found = tasks.len();
    for (a, b) in quiet {
        tasks.push(task((0..20).map(|i| st(if i % 2 == 0 { a } else { b })).collect(), true, 1, 5000));
        tasks.push(deep(task(vec![st(a), st(b)], false, 2, 5000)));
        tasks.push(task(vec![st(a), st(b)], false, 2, 5000));
        tasks.push(task(vec![st(a), st(b)], true, 2, 5000));
    }
    let mut ops: Vec<String> = crate::alphabet::full().iter().map(|c| c.show()).collect();
    ops.insert(0, tiny(1));
    ops.insert(1, tiny(2));
    let mut wants = std::collections::BTreeMap::new();
    for o in tasks.iter().flat_map(|t| t.ops.iter().flat_map(|o| o.split(chess::THEN))).chain(ops.iter().map(|o| o.as_str())) {
        if !wants.contains_key(o) {
            wants.insert(o.to_string(), want_of(bin, o)?);
        }
    }
    let (_, bad) = chess::run(bin, &tasks, &wants, deadline)?;
    for (i, t) in tasks.iter().enumerate() {
        match bad.iter().find(|b| b.task == i) {
            None if i < found => return Err(format!("self test: interleavings at shared accesses: nothing found for {:?}", t.ops)),
            Some(b) if i >= found => return Err(format!("self test: false alarm for {:?}: {} {} {}", t.ops, b.schedule, b.expected, b.got)),
            _ => {}
        }
    }
    let mut tasks = Vec::new();
    let (bound, max) = if th { (3, 60_000) } else { (2, 4_000) };
    // short calls of the same function first
    let reps = representatives(false);
    let weight = |a: &String| Case::parse(a).map(|c| crate::alphabet::weight(&c)).unwrap_or(1);
    let rank = |a: &String| (!reps.contains(a)) as usize;
    for a in &ops {
        for b in &ops {
            let both = reps.contains(a) && reps.contains(b);
            let ab = vec![a.clone(), b.clone()];
            tasks.push(task(ab.clone(), true, bound, max));
            tasks.push(Task { last: 1, ..task(ab.clone(), true, bound, max) });
            if both || th {
                tasks.push(Task { last: 2, ..task(ab.clone(), true, bound, max) });
            }
            // as the first calls of the process
            if both || th {
                tasks.push(task(ab.clone(), false, bound, max));
            } else if reps.contains(a) || reps.contains(b) {
                tasks.push(task(ab.clone(), false, 1, max));
            }
            if both || (th && weight(a) * weight(b) < 100) {
                tasks.push(deep(task(ab, true, bound, max)));
            }
        }
    }
    let kind = |a: &str| a.split(' ').next().unwrap_or("").to_string();
    let head = |a: &str| a.split(' ').take(2).collect::<Vec<_>>().join(" ");
    tasks.sort_by_key(|t| (t.deep, rank(&t.ops[0]) + rank(&t.ops[1]), (kind(&t.ops[0]) != kind(&t.ops[1]) || head(&t.ops[0]) != head(&t.ops[1])) as usize, t.ops[0] == t.ops[1]));
    let three: Vec<&String> = reps.iter().enumerate().filter(|(i, _)| th || [0, 2, 3, 5, 8, 9, 11, 13, 15, 17].contains(i)).map(|x| x.1).take(20).collect();
    for a in &three {
        for b in &three {
            for c in &three {
                tasks.push(task(vec![a.to_string(), b.to_string(), c.to_string()], true, 2, if th { 8_000 } else { 400 }));
            }
        }
    }
    // one call in progress while the other thread makes several
    let again = |o: &str, n: usize| vec![o; n].join(chess::THEN);
    let mut several = Vec::new();
    for a in &reps {
        for b in &reps {
            let near = others(b).pop().filter(|o| Case::parse(o).is_some()).unwrap_or(b.clone());
            if !wants.contains_key(&near) {
                wants.insert(near.clone(), want_of(bin, &near)?);
            }
            for n in if th { vec![2usize, 3, 5, 9, 17, 33] } else if head(a) == head(b) { vec![3, 9] } else { vec![4] } {
                several.push(task(vec![a.clone(), [again(&near, n / 2), again(b, n - n / 2)].join(chess::THEN)], true, if n < 6 { 2 } else { 1 }, max));
            }
        }
    }
    // many threads in the same call
    for a in &reps {
        let near = others(a).pop().filter(|o| Case::parse(o).is_some()).unwrap_or(a.clone());
        for warm in [true, false] {
            several.push(task((0..20).map(|i| if i % 2 == 0 { a.clone() } else { near.clone() }).collect(), warm, 1, 2 * max));
        }
    }
    let at = tasks.iter().position(|t| t.deep).unwrap_or(tasks.len());
    rep.num("shared_access_tasks_several_calls_or_20_threads", several.len() as u64);
    tasks.splice(at..at, several);
    let (res, bad) = chess::run(bin, &tasks, &wants, deadline)?;
    let sum = |f: fn(&chess::Result1) -> u64| res.iter().map(f).sum::<u64>();
    rep.num("shared_access_tasks_pairs", tasks.iter().filter(|t| t.ops.len() == 2).count() as u64);
    rep.num("shared_access_tasks_triples", tasks.iter().filter(|t| t.ops.len() == 3).count() as u64);
    rep.num("shared_access_tasks_with_heap_of_the_calls_watched", tasks.iter().filter(|t| t.deep).count() as u64);
    rep.num("shared_access_schedules", sum(|r| r.schedules));
    rep.num("shared_access_points", sum(|r| r.points));
    rep.num("shared_access_tasks_with_conflicting_lines", res.iter().filter(|r| r.lines > 0).count() as u64);
    rep.num("shared_access_tasks_cut_short", res.iter().filter(|r| r.cut > 0).count() as u64);
    rep.num("shared_access_preemption_bound", bound as u64);
    rep.num("shared_access_most_accesses_of_one_execution", res.iter().map(|r| r.accesses).max().unwrap_or(0));
    rep.num("shared_access_deepest_preemptions", res.iter().map(|r| r.deepest).max().unwrap_or(0));
    rep.states += sum(|r| r.points);
    rep.transitions += sum(|r| r.schedules) * 2;
    rep.traces += sum(|r| r.schedules);
    rep.exhaustive &= res.iter().all(|r| r.cut == 0);
    if verbose {
        for r in res.iter().filter(|r| r.lines > 0).take(4) {
            eprintln!("{:?} {}: {} schedules {} points {} lines {} accesses cut {}", tasks[r.task].ops, tasks[r.task].warm, r.schedules, r.points, r.lines, r.accesses, r.cut);
        }
        eprintln!("{} tasks, {} with conflicts, {} cut", res.len(), res.iter().filter(|r| r.lines > 0).count(), res.iter().filter(|r| r.cut > 0).count());
    }
    if let Some(b) = bad.first() {
        let t = &tasks[b.task];
        let mut f = vec![("build", "release".to_string()), ("start", t.start())];
        for (n, o) in NAMES.iter().zip(&t.ops) {
            f.push((n, o.clone()));
        }
        f.extend([("schedule (shared access > call that goes on)", b.schedule.clone()), ("expected", b.expected.clone()), ("got", b.got.clone())]);
        rep.violate("interleaving", &f);
    }
    Ok(())
}

pub const NAMES: [&str; 20] = ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T"];
pub fn replay_interleaving(ops: &[String], start: &str, sched: &str) -> bool {
    let bin = crate::checks::bin("release").unwrap_or_default();
    let wants: Vec<String> = ops.iter().map(|o| o.split(crate::chess::THEN).map(|o| want_of(&bin, o).unwrap_or_default()).collect::<Vec<_>>().join(crate::chess::THEN)).collect();
    crate::chess::replay(ops, &wants, start, sched).unwrap_or(false)
}

type Crowd = (Option<Vec<String>>, u64, u64, u64);
/// Runs the crowd program: (the schedule that went wrong, schedules, threads under way together, requests of a call)
fn crowd(bin: &str, a: (&str, &str), b: (&str, &str), n: u64, points: u64, long: u64, only: &[&str]) -> Result<Crowd, String> {
    let prog = std::path::Path::new(bin).with_file_name("crowd");
    let (n, points, long) = (n.to_string(), points.to_string(), long.to_string());
    let o = std::process::Command::new(prog).args([a.0, a.1, b.0, b.1, &n, &points, &long]).args(only).stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null()).output().map_err(|e| format!("crowd: {e}"))?;
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let (mut bad, mut done) = (None, None);
    for l in out.lines() {
        let f: Vec<String> = l.split('\t').map(|x| x.to_string()).collect();
        match f[0].as_str() {
            "BAD" if f.len() == 7 => bad = Some(f),
            "DONE" if f.len() == 4 => done = Some((f[1].parse().unwrap_or(0), f[2].parse().unwrap_or(0), f[3].parse().unwrap_or(0))),
            _ => {}
        }
    }
    let (d, m, p) = done.ok_or_else(|| format!("crowd {} {}: {out}", a.0, b.0))?;
    Ok((bad, d, m, p))
}

/// Hundreds of calls under way at once
fn crowds(rep: &mut Report, bin: &str) -> Result<(), String> {
    let st = ("selftest-ring 5", "5 40");
    let (bad, ..) = crowd(bin, st, ("selftest-ring 77", "77 40"), 300, 10, 0, &[])?;
    if bad.is_none() {
        return Err("self test: crowds: a planted ring of 128 slots is not found".into());
    }
    let (bad, ..) = crowd(bin, ("selftest-locked 5", "5 40"), ("selftest-locked 77", "77 40"), 4, 10, 0, &[])?;
    if let Some(b) = bad {
        return Err(format!("self test: crowds: false alarm for a correctly locked function: {b:?}"));
    }
    let k = vcommon::spaces::kdf;
    let p = vcommon::pat;
    let kdf = |n, x, t, r, c| k(n, p(x, 32), p('L', 32), t, r, c);
    let mut pairs: Vec<(Case, Case)> = vec![
        (kdf(32, 'l', 1, 4, 4), kdf(48, 'r', 2, 8, 2)),
        (kdf(32, 'l', 1, 4, 4), kdf(32, 'r', 1, 4, 4)),
        (kdf(32, 'l', 1, 3, 4), Case::Sum(p('l', 32))),
        (Case::Sum(p('l', 32)), Case::Sum(p('r', 32))),
        (kdf(200, 'l', 1, 4, 4), kdf(32, 'l', 0, 4, 4)),
    ];
    for a in vcommon::ALGS {
        pairs.push((Case::Hash(a, p('l', 80)), Case::Hash(a, p('r', 80))));
        pairs.push((Case::Hash(a, p('l', 80)), kdf(32, 'l', 1, 4, 4)));
    }
    let (n, points) = if rep.thorough { (1050, 400) } else { (300, 32) };
    let rep_th = rep.thorough;
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res = std::sync::Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..crate::engine::nthreads() {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                let Some((a, b)) = pairs.get(i) else { break };
                let (a, b) = (a.show(), b.show());
                let r = want_of(bin, &a).and_then(|wa| want_of(bin, &b).and_then(|wb| crowd(bin, (&a, &wa), (&b, &wb), n, points, if i > 3 && !rep_th { 0 } else { 66_000 }, &[])));
                res.lock().unwrap().push((i, r));
            });
        }
    });
    let mut res = res.into_inner().unwrap();
    res.sort_by_key(|x| x.0);
    let (mut schedules, mut most) = (0, 0);
    for (i, r) in res {
        let (bad, d, m, _) = r?;
        schedules += d;
        most = most.max(m);
        if let (Some(b), true) = (bad, rep.violations.len() < 3) {
            let (x, y) = &pairs[i];
            rep.violate(
                "crowd",
                &[("build", "release".into()), ("A", x.show()), ("B", y.show()), ("threads", n.to_string()), ("all stop at request", b[1].clone()), ("and go on", b[2].clone()), ("call", format!("{}, {}", b[3], b[4])), ("expected", b[5].clone()), ("got", b[6].clone())],
            );
        }
    }
    rep.num("crowd_schedules", schedules);
    rep.num("crowd_most_calls_under_way_together", most);
    rep.states += schedules * n;
    rep.transitions += schedules * n;
    rep.traces += schedules;
    Ok(())
}
pub fn replay_crowd(a: &str, b: &str, n: &str, point: &str, order: &str) -> bool {
    let Ok(bin) = crate::checks::bin("release") else { return false };
    let (Ok(wa), Ok(wb)) = (want_of(&bin, a), want_of(&bin, b)) else { return false };
    match crowd(&bin, (a, &wa), (b, &wb), n.parse().unwrap_or(300), 10, 66_000, &[point, order]) {
        Ok((Some(b), ..)) => {
            println!("now: {}", b.join(" | "));
            true
        }
        r => {
            println!("now: {r:?}");
            false
        }
    }
}

pub fn check(rep: &mut Report) -> Result<(), String> {
    let bin = crate::checks::bin("release")?;
    self_tests(&bin)?;
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    if verbose {
        eprintln!("self tests done at {:.1}s", rep.t0.elapsed().as_secs_f64());
    }
    shared_accesses(rep, &bin, verbose)?;
    if verbose {
        eprintln!("interleavings at shared accesses done at {:.1}s", rep.t0.elapsed().as_secs_f64());
    }
    if !rep.violations.is_empty() {
        return Ok(());
    }
    crowds(rep, &bin)?;
    if verbose {
        eprintln!("crowds done at {:.1}s", rep.t0.elapsed().as_secs_f64());
    }
    if !rep.violations.is_empty() || std::env::var("MC_ONLY_SHARED").is_ok() {
        return Ok(());
    }
    let deadline = now() + if rep.thorough { 20_000 } else { 300 };
    let deadline1 = now() + if rep.thorough { 8_000 } else { 300 };
    // 1. all ordered pairs, preempted at static writes
    let ops = representatives(rep.thorough);
    let bs: Vec<&str> = ops.iter().map(|s| s.as_str()).collect();
    let panics_write = total_of(&bin, "selftest-panic", true)?;
    // first calls of the process (tables, processor detection): against one call of each function
    let cold_bs: Vec<&str> = if rep.thorough { bs.clone() } else { bs.iter().enumerate().filter(|(i, _)| [0, 2, 8].contains(i) || (*i >= 11 && i % 2 == 0)).map(|x| *x.1).collect() };
    let of = |warm: bool| -> &[&str] {
        if warm {
            &bs
        } else {
            &cold_bs
        }
    };
    // (the quick tier leaves this to the interleavings at shared accesses)
    let todo: Vec<(&str, bool)> = bs.iter().filter(|_| rep.thorough).flat_map(|a| [(*a, true), (*a, false)]).collect();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let results = std::sync::Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..crate::engine::nthreads() {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= todo.len() || stop.load(Relaxed) {
                    break;
                }
                let (a, warm) = todo[i];
                let t = std::time::Instant::now();
                let r = run_pair(&bin, a, of(warm), warm, 3, deadline1);
                if verbose {
                    eprintln!("{:.1}s {warm} {a} {:?}", t.elapsed().as_secs_f64(), r.as_ref().map(|r| (r.points, r.schedules)));
                }
                if !matches!(&r, Ok(x) if x.violations.is_empty()) {
                    stop.store(true, Relaxed);
                }
                results.lock().unwrap().push((i, r));
            });
        }
    });
    if verbose {
        eprintln!("static writes done at {:.1}s", rep.t0.elapsed().as_secs_f64());
    }
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|x| x.0);
    let mut writers: std::collections::BTreeSet<String> = Default::default();
    let (mut done, mut cold) = (0u64, 0u64);
    let mut err = None;
    for (i, r) in results {
        let (a, warm) = todo[i];
        match r {
            Ok(r) => {
                done += of(warm).len() as u64;
                // a panic itself counts panics in static storage of the standard library
                let base = if want_of(&bin, a)? == "panic" { panics_write } else { 0 };
                if warm && r.changed > base {
                    writers.insert(a.to_string());
                }
                cold += (!warm && r.changed > 0) as u64;
                record(rep, a, of(warm), warm, &r);
            }
            Err(e) => err = Some(e),
        }
    }
    if rep.thorough {
        rep.num("ordered_pairs_preempted_at_static_writes", done);
        rep.num("calls_that_write_static_storage_when_the_first_of_the_process", cold);
        rep.num("calls_that_write_static_storage_when_not_the_first", writers.len() as u64);
    }
    if !rep.violations.is_empty() {
        return Ok(());
    }
    if let Some(e) = err {
        return Err(e);
    }
    // 2. pairs preempted at every instruction; first those in which a call has state of its own
    let mut list: Vec<(String, String, bool)> = Vec::new();
    for w in &writers {
        for o in &ops {
            for (a, b) in [(w, o), (o, w)] {
                let x = (a.clone(), b.clone(), true);
                if !list.contains(&x) && a != b {
                    list.push(x);
                }
            }
        }
    }
    // cheap ones first
    list.sort_by_key(|(a, _, _)| !a.starts_with("kdf") as u8);
    let fixed = pairs(rep.thorough);
    if rep.thorough || list.len() < 40 {
        list.extend(fixed);
    } else {
        list.splice(0..0, fixed);
    }
    let mut rows = Vec::new();
    for (a, b, warm) in list {
        if now() > deadline {
            rep.exhaustive = false;
            break;
        }
        let t = std::time::Instant::now();
        let r = run_pair(&bin, &a, &[&b], warm, 2, deadline)?;
        if verbose {
            eprintln!("{:.1}s {} / {}: {} instr {} sched {} changed", t.elapsed().as_secs_f64(), a, b, r.instructions, r.schedules, r.changed);
        }
        rows.push(format!(
            "{{\"A\": {}, \"B\": {}, \"start\": \"{}\", \"instructions_of_A\": {}, \"preemption_points\": {}, \"schedules\": {}, \"writes_of_A_to_static_storage\": {}}}",
            crate::report::jstr(&a),
            crate::report::jstr(&b),
            if warm { "warm" } else { "cold" },
            r.instructions,
            r.points,
            r.schedules,
            r.changed
        ));
        rep.sample(format!("A: {a}; B: {b}; B inserted at each of {} instructions of A", r.points));
        record(rep, &a, &[&b], warm, &r);
        if !rep.violations.is_empty() {
            break;
        }
    }
    rep.num("pairs_preempted_at_every_instruction", rows.len() as u64);
    rep.extra.push(("pairs".into(), format!("[\n   {}\n  ]", rows.join(",\n   "))));
    rep.text("reduction", "static storage of the executable, and the heap blocks that earlier calls left behind (none on the current tree), are compared after every single instruction of A; where it never changes, the steps of A are invisible to B and all interleavings are equivalent to the explored ones");
    rep.text("self_tests", "planted race and planted deadlock found; correctly locked functions not reported; their static writes seen");
    rep.assume("sequentially consistent interleavings of two calls; preemption between instructions of the executable, not inside libc");
    rep.assume("x86-64 release build of this toolchain");
    Ok(())
}

pub fn cli(a: &[&str]) -> i32 {
    if a.len() < 11 {
        return 2;
    }
    let n = |i: usize| a[i].parse::<u64>().unwrap_or(0);
    let bs = a[8..].chunks_exact(3).map(|c| B { op: c[0].into(), want: c[1].into(), total: c[2].parse().unwrap_or(0) }).collect();
    explore(a[0], bs, a[1] == "warm", n(2) as u32, n(3) as i64, n(4), n(5), a[6], a[7].into())
}

pub fn replay(a: &str, b: &str, warm: bool) -> bool {
    let bin = crate::checks::bin("release").unwrap_or_default();
    match run_pair(&bin, a, &[b], warm, 2, now() + 3000) {
        Ok(r) => {
            for (n, j, e, g, _) in r.violations.iter().take(5) {
                println!("preempted at instruction {n} (B after write {j}): expected {e}, got {g}");
            }
            !r.violations.is_empty()
        }
        Err(e) => {
            println!("{e}");
            false
        }
    }
}
