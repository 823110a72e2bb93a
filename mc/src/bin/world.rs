//! C15: runs calls while everything they could read besides their arguments, and everything they could touch
//! besides their result, goes through stand-ins. A `World` is one choice of all the answers the stand-ins give.
//! C16: runs calls while chosen allocations fail.
#![allow(non_upper_case_globals)]
#[path = "../alphabet.rs"]
#[allow(dead_code)]
mod alphabet;
#[path = "../exec.rs"]
#[allow(dead_code)]
mod exec;
#[path = "../worlds.rs"]
#[allow(dead_code)]
mod worlds;

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use vcommon::{Case, Outcome};
use worlds::*;

// ------------------------------------------------------------------ heap
struct Heap;
#[global_allocator]
static HEAP: Heap = Heap;
static FILL: AtomicUsize = AtomicUsize::new(0x100); // 0x100: leave alone
static SHIFT: AtomicUsize = AtomicUsize::new(0);
/// C16: allocation requests seen, which of them fails (-1: none), from there on all, and larger ones than this
static SEEN: AtomicI64 = AtomicI64::new(0);
static FAIL: AtomicI64 = AtomicI64::new(-1);
static FAIL_ALSO: AtomicI64 = AtomicI64::new(-1);
static FAIL_FROM: AtomicI64 = AtomicI64::new(i64::MAX);
static LARGEST: AtomicUsize = AtomicUsize::new(usize::MAX);
static ARMED: AtomicUsize = AtomicUsize::new(0);
/// bytes held since arming, and how many may be held
static HELD: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicI64 = AtomicI64::new(i64::MAX);
const HEAD: usize = 16;

fn refuses(size: usize) -> bool {
    if ARMED.load(Relaxed) == 0 {
        return false;
    }
    let n = SEEN.fetch_add(1, Relaxed);
    if HELD.load(Relaxed).saturating_add(size.min(1 << 62) as i64) > TOTAL.load(Relaxed) {
        return true;
    }
    n == FAIL.load(Relaxed) || n == FAIL_ALSO.load(Relaxed) || n >= FAIL_FROM.load(Relaxed) || size > LARGEST.load(Relaxed)
}
unsafe fn take(l: Layout, zero: bool) -> *mut u8 {
    if refuses(l.size()) {
        return std::ptr::null_mut();
    }
    HELD.fetch_add(l.size() as i64, Relaxed);
    if l.align() > 16 {
        return if zero { System.alloc_zeroed(l) } else { System.alloc(l) };
    }
    let Some(size) = l.size().checked_add(HEAD + 16) else { return std::ptr::null_mut() };
    let Ok(outer) = Layout::from_size_align(size, 16) else { return std::ptr::null_mut() };
    let base = if zero { System.alloc_zeroed(outer) } else { System.alloc(outer) };
    if base.is_null() {
        return base;
    }
    let off = HEAD + (SHIFT.load(Relaxed) & !(l.align() - 1));
    let p = base.add(off);
    *p.sub(1) = off as u8;
    let f = FILL.load(Relaxed);
    if !zero && f < 0x100 {
        std::ptr::write_bytes(p, f as u8, l.size());
    }
    p
}
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        take(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        take(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HELD.fetch_sub(l.size() as i64, Relaxed);
        if l.align() > 16 {
            return System.dealloc(p, l);
        }
        let off = *p.sub(1) as usize;
        let f = FILL.load(Relaxed);
        if f < 0x100 {
            std::ptr::write_bytes(p, !(f as u8), l.size());
        }
        System.dealloc(p.sub(off), Layout::from_size_align_unchecked(l.size() + HEAD + 16, 16));
    }
}

// ------------------------------------------------------------------ shared with the parent
/// Words of the shared file: 0 cases done, 1 index of the current case + 1, 2 number of effects, 3 finished,
/// 8.. effects (call number, argument, case index), then one fingerprint per case
static SHM: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());
static LOCAL: [AtomicU64; HEADER] = [const { AtomicU64::new(0) }; HEADER];
fn word(i: usize) -> &'static AtomicU64 {
    let p = SHM.load(Relaxed);
    if p.is_null() {
        return &LOCAL[i];
    }
    unsafe { &*p.add(i) }
}
fn open_shm(path: &str, words: usize) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("shared file");
    f.set_len(words as u64 * 8).expect("shared file");
    let p = unsafe { libc::mmap(std::ptr::null_mut(), words * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED);
    SHM.store(p as *mut AtomicU64, SeqCst);
}
fn effect(kind: u64, arg: u64) {
    let n = word(2).fetch_add(1, SeqCst) as usize;
    if n < EFFECTS {
        word(8 + 3 * n).store(kind, SeqCst);
        word(9 + 3 * n).store(arg, SeqCst);
        word(10 + 3 * n).store(word(1).load(SeqCst), SeqCst);
    }
}
/// What was read besides the arguments; no effect, only counted
fn looked() {
    word(4).fetch_add(1, SeqCst);
}
/// What is looked at is varied further (`more_worlds`)
fn looked_at(what: usize) {
    if ON.load(Relaxed) != 0 {
        word(LOOK + what).fetch_add(1, SeqCst);
    }
}

// ------------------------------------------------------------------ the world
static mut WORLD: World = BASE;
static ON: AtomicUsize = AtomicUsize::new(0);
static TICKS: AtomicU64 = AtomicU64::new(0);
fn world() -> &'static World {
    unsafe { &*std::ptr::addr_of!(WORLD) }
}
fn time_now() -> (i64, i64) {
    looked_at(CLOCK);
    let n = TICKS.fetch_add(1, SeqCst) as i64;
    match world().clock {
        0 => (1_700_000_000, 0),
        1 => (0, 0),
        2 => (1_700_000_000, n % 1_000_000_000),
        3 => (1_700_000_000 + 3600 * n, 999_999_999),
        4 => (1_700_000_000 - 3600 * (n % 400_000), 1),
        5 => (i32::MAX as i64 + 1 + n, 500_000_000),
        // a day of each month from 2024 on, another hour each
        c @ 6..=200 => ((c as i64 - 6) * 2_630_016 + 1_704_067_200 + (c as i64 - 6) * 3600 + (c as i64 % 29) * 86_400, 123_456_789),
        // steps of 2^-4 to 2^24 seconds
        c => {
            let e = c as i32 - 205;
            (1_700_000_000 + if e >= 0 { n << e } else { n >> -e }, if e >= 0 { 0 } else { ((n << (30 + e)) & ((1 << 30) - 1)) * 1_000_000_000 >> 30 })
        }
    }
}
extern "C" {
    fn __errno_location() -> *mut i32;
    static mut environ: *mut *mut libc::c_char;
}

/// Symbols of libc that no system call stands behind
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    if ON.load(Relaxed) == 0 {
        return std::ptr::null_mut();
    }
    looked();
    // the standard library's own
    if !std::ffi::CStr::from_ptr(name).to_bytes().starts_with(b"RUST_") {
        looked_at(ENV);
    }
    world().env.map_or(std::ptr::null_mut(), |s| s.as_ptr() as *mut libc::c_char)
}
#[no_mangle]
pub unsafe extern "C" fn setenv(_n: *const libc::c_char, _v: *const libc::c_char, _o: i32) -> i32 {
    effect(SETENV, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(_n: *const libc::c_char) -> i32 {
    effect(SETENV, 1);
    0
}
#[no_mangle]
pub unsafe extern "C" fn putenv(_n: *mut libc::c_char) -> i32 {
    effect(SETENV, 2);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if ON.load(Relaxed) == 0 {
        return libc::syscall(libc::SYS_clock_gettime, clk, ts) as i32;
    }
    looked();
    let (s, n) = time_now();
    (*ts).tv_sec = s;
    (*ts).tv_nsec = n;
    0
}

fn writes(nr: i64, a: &[i64; 6]) -> bool {
    use libc::*;
    match nr {
        SYS_open => a[1] as i32 & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC) != 0,
        SYS_openat => a[2] as i32 & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC) != 0,
        SYS_prlimit64 => a[2] != 0,
        // 32 and 33 belong to libc, which installs them with the first thread
        SYS_rt_sigaction => a[1] != 0 && a[0] != 32 && a[0] != 33,
        SYS_prctl => a[0] as i32 != PR_SET_NAME && a[0] as i32 != PR_GET_NAME,
        SYS_read | SYS_pread64 | SYS_readv => a[0] != FAKE_FD,
        SYS_close => a[0] != FAKE_FD,
        SYS_write | SYS_pwrite64 | SYS_writev | SYS_pwritev | SYS_pwritev2 | SYS_sendto | SYS_sendmsg | SYS_sendmmsg | SYS_sendfile | SYS_splice | SYS_socket | SYS_socketpair | SYS_connect | SYS_bind
        | SYS_listen | SYS_creat | SYS_rename | SYS_renameat | SYS_renameat2 | SYS_mkdir | SYS_mkdirat | SYS_rmdir | SYS_link | SYS_linkat | SYS_unlink | SYS_unlinkat | SYS_symlink | SYS_symlinkat
        | SYS_mknod | SYS_mknodat | SYS_chmod | SYS_fchmod | SYS_fchmodat | SYS_chown | SYS_fchown | SYS_lchown | SYS_fchownat | SYS_truncate | SYS_ftruncate | SYS_fallocate | SYS_utimensat | SYS_setxattr
        | SYS_fork | SYS_vfork | SYS_clone | SYS_execve | SYS_execveat | SYS_kill | SYS_tkill | SYS_tgkill | SYS_ptrace | SYS_umask | SYS_chdir | SYS_fchdir | SYS_chroot | SYS_setrlimit | SYS_setpriority
        | SYS_setuid | SYS_setgid | SYS_setreuid | SYS_setresuid | SYS_sched_setaffinity | SYS_sched_setscheduler | SYS_sched_setparam | SYS_mount | SYS_umount2 | SYS_sethostname | SYS_settimeofday
        | SYS_clock_settime | SYS_personality | SYS_setitimer | SYS_alarm | SYS_timer_create | SYS_shmget | SYS_shmat | SYS_memfd_create | SYS_mlock | SYS_mlockall | SYS_dup | SYS_dup2 | SYS_dup3 | SYS_pipe
        | SYS_pipe2 | SYS_inotify_init1 | SYS_fcntl | SYS_ioctl | SYS_setsid | SYS_setpgid => true,
        _ => false,
    }
}

unsafe fn answer(nr: i64, a: &[i64; 6]) -> i64 {
    use libc::*;
    looked();
    if writes(nr, a) {
        effect(nr as u64, a[0] as u64);
        return match nr {
            SYS_write | SYS_pwrite64 => a[2],
            SYS_read | SYS_pread64 | SYS_readv => 0,
            SYS_rt_sigaction | SYS_prctl | SYS_close | SYS_chdir | SYS_umask | SYS_setrlimit | SYS_prlimit64 => 0,
            _ => -(EPERM as i64),
        };
    }
    match nr {
        SYS_getrandom => {
            looked_at(RANDOM);
            let w = world().random;
            for i in 0..a[1] {
                *((a[0] + i) as *mut u8) = if w < 256 { w as u8 } else { TICKS.fetch_add(1, SeqCst) as u8 };
            }
            a[1]
        }
        SYS_clock_gettime => {
            let (s, n) = time_now();
            *(a[1] as *mut timespec) = timespec { tv_sec: s, tv_nsec: n };
            0
        }
        SYS_gettimeofday => {
            let (s, n) = time_now();
            if a[0] != 0 {
                *(a[0] as *mut timeval) = timeval { tv_sec: s, tv_usec: n / 1000 };
            }
            0
        }
        SYS_time => time_now().0,
        SYS_sched_getaffinity => {
            looked_at(CPUS);
            let n = a[1].min(8);
            let mask: u64 = if world().cpus >= 64 { u64::MAX } else { (1 << world().cpus) - 1 };
            std::ptr::copy_nonoverlapping(mask.to_le_bytes().as_ptr(), a[2] as *mut u8, n as usize);
            n
        }
        SYS_open | SYS_openat if world().file.is_some() => {
            looked_at(FILE);
            TICKS.store(0, SeqCst);
            FAKE_FD
        }
        SYS_read | SYS_pread64 => {
            let c = world().file.unwrap_or(b"");
            let n = if TICKS.fetch_add(1, SeqCst) == 0 { (c.len() as i64).min(a[2]) } else { 0 };
            std::ptr::copy_nonoverlapping(c.as_ptr(), a[1] as *mut u8, n as usize);
            n
        }
        SYS_close | SYS_prctl | SYS_rt_sigaction => 0,
        SYS_open | SYS_openat | SYS_access | SYS_faccessat | SYS_stat | SYS_lstat | SYS_readlink | SYS_newfstatat | SYS_statx => -(ENOENT as i64),
        _ => -(ENOSYS as i64),
    }
}

unsafe extern "C" fn on_sigsys(_sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    let g = &mut uc.uc_mcontext.gregs;
    // si_syscall lies behind si_call_addr
    let nr = *((info as *const u8).add(24) as *const i32) as i64;
    let a = [g[libc::REG_RDI as usize], g[libc::REG_RSI as usize], g[libc::REG_RDX as usize], g[libc::REG_R10 as usize], g[libc::REG_R8 as usize], g[libc::REG_R9 as usize]];
    let e = *__errno_location();
    g[libc::REG_RAX as usize] = answer(nr, &a);
    *__errno_location() = e;
}
/// Answers of cpuid, read before it is taken away: (leaf, subleaf, registers)
static mut LEAVES: [(u32, u32, [u32; 4]); 256] = [(0, 0, [0; 4]); 256];
fn read_leaves() {
    use std::arch::x86_64::__cpuid_count;
    let mut n = 0;
    unsafe {
        for base in [0u32, 0x4000_0000, 0x8000_0000] {
            let top = __cpuid_count(base, 0).eax;
            for leaf in base..=top.min(base + 0x20).max(base) {
                for sub in 0..4 {
                    if n < 256 {
                        let r = __cpuid_count(leaf, sub);
                        LEAVES[n] = (leaf, sub, [r.eax, r.ebx, r.ecx, r.edx]);
                        n += 1;
                    }
                }
            }
        }
    }
}
fn cpuid(leaf: u32, sub: u32) -> [u32; 4] {
    let mut r = [0; 4];
    for l in unsafe { &*std::ptr::addr_of!(LEAVES) } {
        if l.0 == leaf && l.1 == sub {
            r = l.2;
        }
    }
    let bits = |b: &[u32]| b.iter().fold(0u32, |a, x| a | 1 << x);
    let sse3 = bits(&[0, 9]);
    let sse4 = bits(&[1, 19, 20, 22, 23, 25]);
    let avx = bits(&[12, 26, 27, 28, 29]);
    let rnd = bits(&[30]);
    let cpu = world().cpu;
    match (leaf, cpu) {
        (_, 0) => {}
        (1, 1) => r[2] &= !(sse3 | sse4 | avx | rnd),
        (1, 2) => r[2] &= !(sse4 | avx | rnd),
        (1, 3) => r[2] &= !(avx | rnd),
        (1, 4) => r[2] &= !rnd,
        (1, 6) => r[2] &= !bits(&[1, 25, 12, 30]),
        (7, 1..=4) => r = [0; 4],
        // AVX2 stays, without AVX-512 and what came with it
        (7, 5) if sub == 0 => r = [0, r[1] & bits(&[3, 5, 8]), 0, 0],
        (7, 6) if sub == 0 => r = [0, r[1] & bits(&[5]), 0, 0],
        (7, _) => r = [0; 4],
        (0xd, 1..=3) => r = [0; 4],
        (0x8000_0001, _) => {
            r[2] &= bits(&[0]);
        }
        _ => {}
    }
    r
}
/// rdtsc, rdtscp and cpuid
unsafe extern "C" fn on_sigsegv(sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = &mut *(ctx as *mut libc::ucontext_t);
    let g = &mut uc.uc_mcontext.gregs;
    let ip = g[libc::REG_RIP as usize] as *const u8;
    let len = if ip as usize >= 4096 && *ip == 0x0f && *ip.add(1) == 0xa2 {
        looked();
        let r = cpuid(g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32);
        for (x, v) in [libc::REG_RAX, libc::REG_RBX, libc::REG_RCX, libc::REG_RDX].into_iter().zip(r) {
            g[x as usize] = v as i64;
        }
        g[libc::REG_RIP as usize] += 2;
        return;
    } else if ip as usize >= 4096 && *ip == 0x0f && *ip.add(1) == 0x31 {
        2
    } else if ip as usize >= 4096 && *ip == 0x0f && *ip.add(1) == 0x01 && *ip.add(2) == 0xf9 {
        g[libc::REG_RCX as usize] = 0;
        3
    } else {
        libc::signal(sig, libc::SIG_DFL);
        return;
    };
    looked();
    looked_at(CLOCK);
    let t = world().tsc.wrapping_mul(TICKS.fetch_add(1, SeqCst) + 1);
    g[libc::REG_RAX as usize] = (t & 0xffff_ffff) as i64;
    g[libc::REG_RDX as usize] = (t >> 32) as i64;
    g[libc::REG_RIP as usize] += len;
}

/// From here on only memory, threads and waiting reach the kernel.
fn confine() -> bool {
    use libc::*;
    let native = [
        SYS_mmap, SYS_munmap, SYS_mremap, SYS_mprotect, SYS_brk, SYS_madvise, SYS_futex, SYS_set_robust_list, SYS_rseq, SYS_rt_sigprocmask, SYS_sigaltstack, SYS_exit, SYS_exit_group,
        SYS_sched_yield, SYS_gettid, SYS_getpid, SYS_nanosleep, SYS_clock_nanosleep, SYS_rt_sigreturn, SYS_membarrier, SYS_set_tid_address, SYS_mincore, SYS_getuid,
    ];
    let st = |k: u32| sock_filter { code: (BPF_LD | BPF_W | BPF_ABS) as u16, jt: 0, jf: 0, k };
    let ret = |k: u32| sock_filter { code: (BPF_RET | BPF_K) as u16, jt: 0, jf: 0, k };
    let mut f = vec![st(0)];
    for n in native {
        f.push(sock_filter { code: (BPF_JMP | BPF_JEQ | BPF_K) as u16, jt: 0, jf: 1, k: n as u32 });
        f.push(ret(SECCOMP_RET_ALLOW));
    }
    f.push(sock_filter { code: (BPF_JMP | BPF_JEQ | BPF_K) as u16, jt: 0, jf: 1, k: SYS_clone3 as u32 });
    f.push(ret(SECCOMP_RET_ERRNO | ENOSYS as u32));
    // threads, not processes; clone3 is answered ENOSYS, after which libc uses clone
    f.push(sock_filter { code: (BPF_JMP | BPF_JEQ | BPF_K) as u16, jt: 0, jf: 3, k: SYS_clone as u32 });
    f.push(st(16));
    f.push(sock_filter { code: (BPF_JMP | BPF_JSET | BPF_K) as u16, jt: 0, jf: 1, k: CLONE_THREAD as u32 });
    f.push(ret(SECCOMP_RET_ALLOW));
    f.push(ret(SECCOMP_RET_TRAP));
    let prog = sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
    unsafe {
        let mut sa: sigaction = std::mem::zeroed();
        sa.sa_flags = SA_SIGINFO | SA_NODEFER;
        sa.sa_sigaction = on_sigsys as *const () as usize;
        sigaction(SIGSYS, &sa, std::ptr::null_mut());
        sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
        sa.sa_sigaction = on_sigsegv as *const () as usize;
        let mut old: sigaction = std::mem::zeroed();
        sigaction(SIGSEGV, std::ptr::null(), &mut old);
        sigaction(SIGSEGV, &sa, std::ptr::null_mut());
        read_leaves();
        let tsc = prctl(26 /* PR_SET_TSC */, 2, 0, 0, 0) == 0;
        let cpu = libc::syscall(SYS_arch_prctl, 0x1012 /* ARCH_SET_CPUID */, 0) == 0;
        if !tsc && !cpu {
            sigaction(SIGSEGV, &old, std::ptr::null_mut());
        }
        word(5).store(tsc as u64 | (cpu as u64) << 1, SeqCst);
        if prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 {
            return false;
        }
        prctl(PR_SET_SECCOMP, 2, &prog as *const sock_fprog, 0, 0) == 0
    }
}

// ------------------------------------------------------------------ C15
static HOOKED: AtomicU64 = AtomicU64::new(0);

/// The same bytes in a block with the room this world says, which holds what memory holds there
fn roomy(v: Vec<u8>) -> Vec<u8> {
    if world().spare == 0 {
        return v;
    }
    let mut w = Vec::with_capacity(v.len() + world().spare);
    w.extend_from_slice(&v);
    w
}
/// The call in this world, with what can be told about the process afterwards
fn guarded(c: &Case) -> Outcome {
    let before = HOOKED.load(SeqCst);
    let p = match exec::prepare(c) {
        exec::Prepared::Kdf(k, a, b, t, r, c) => exec::Prepared::Kdf(k, roomy(a), roomy(b), t, r, c),
        exec::Prepared::Sum(a) => exec::Prepared::Sum(roomy(a)),
        exec::Prepared::Hash(h, a) => exec::Prepared::Hash(h, roomy(a)),
        exec::Prepared::Stage(s, a) => exec::Prepared::Stage(s, roomy(a)),
    };
    ON.store(1, SeqCst);
    let o = match world().thread {
        0 => exec::actual_prepared(p),
        t => {
            let mut b = std::thread::Builder::new();
            if t == 2 {
                b = b.name("worker-7".into());
            }
            if t == 3 {
                b = b.stack_size(1 << 20);
            }
            b.spawn(move || exec::actual_prepared(p)).expect("thread").join().expect("thread")
        }
    };
    ON.store(0, SeqCst);
    if o == Outcome::Panic && HOOKED.load(SeqCst) == before {
        effect(HOOK, 0);
    }
    o
}
fn enter(w: &World) -> bool {
    unsafe { WORLD = *w };
    SHIFT.store(w.shift, SeqCst);
    FILL.store(w.fill, SeqCst);
    std::panic::set_hook(Box::new(|_| {
        HOOKED.fetch_add(1, SeqCst);
    }));
    if w.vars {
        // what std::env::vars sees
        unsafe {
            static mut VARS: [*mut libc::c_char; 3] = [c"LYRA2=1".as_ptr() as *mut _, c"DEBUG=1".as_ptr() as *mut _, std::ptr::null_mut()];
            environ = std::ptr::addr_of_mut!(VARS) as *mut *mut libc::c_char;
        }
    } else {
        unsafe {
            static mut NONE: [*mut libc::c_char; 1] = [std::ptr::null_mut()];
            environ = std::ptr::addr_of_mut!(NONE) as *mut *mut libc::c_char;
        }
    }
    confine()
}
fn mxcsr() -> u32 {
    let mut x = 0u32;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut x) };
    x & !0x3f // without the sticky exception flags
}
fn run_world(w: usize, tier: &str, shard: usize, shards: usize, out: &str) -> i32 {
    let set = cases(tier == "thorough", exec::HOOKS);
    let me = worlds::world(w);
    let wide = me.wide;
    let n = set.count(wide);
    open_shm(out, HEADER + n as usize);
    if !enter(&me) {
        return 3;
    }
    let (fp0, env1) = (mxcsr(), unsafe { environ });
    let mut i = shard as u64;
    while i < n {
        let c = set.at(i, wide);
        word(1).store(i + 1, SeqCst);
        let o = guarded(&c);
        word(HEADER + i as usize).store(exec::fp(&o) as u64 | 1, SeqCst);
        word(0).fetch_add(1, SeqCst);
        if unsafe { environ } != env1 {
            effect(SETENV, 3);
        }
        if mxcsr() != fp0 {
            effect(FPU, mxcsr() as u64);
        }
        if word(2).load(SeqCst) != 0 {
            break;
        }
        i += shards as u64;
    }
    // is it still our panic hook?
    let before = HOOKED.load(SeqCst);
    let _ = std::panic::catch_unwind(|| panic!("own"));
    if HOOKED.load(SeqCst) == before {
        effect(HOOK, 1);
    }
    word(3).store(1, SeqCst);
    0
}

fn one_world(w: usize, case: &str) -> i32 {
    let Some(c) = Case::parse(case) else { return 2 };
    // stdout is needed after the confinement: hand the result over through memory
    let path = std::env::args().nth(4).unwrap_or_default();
    open_shm(&path, HEADER + 1);
    if !enter(&worlds::world(w)) {
        return 3;
    }
    word(1).store(1, SeqCst);
    let o = guarded(&c);
    word(HEADER).store(exec::fp(&o) as u64 | 1, SeqCst);
    word(3).store(1, SeqCst);
    0
}

/// What the stand-ins must notice, tried out: exit 0 if they do
fn self_test(what: &str, out: &str) -> i32 {
    open_shm(out, HEADER + 1);
    let mut w = BASE;
    w.env = Some(c"42".to_bytes_with_nul());
    w.clock = 2;
    w.random = 7;
    w.cpus = 3;
    w.file = Some(b"77");
    w.cpu = 1;
    if !enter(&w) {
        return 3;
    }
    ON.store(1, SeqCst);
    let effects = || word(2).load(SeqCst);
    let ok = match what {
        "print" => {
            use std::io::Write;
            let _ = std::io::stdout().write_all(b"x\n");
            let _ = std::io::stdout().flush();
            effects() == 1
        }
        "file" => {
            let _ = std::fs::write("/tmp/mc-self-test-never-written", b"x");
            effects() == 1
        }
        "remove" => {
            let _ = std::fs::remove_file("/tmp/mc-self-test-never-written");
            effects() == 1
        }
        "spawn" => {
            let _ = std::process::Command::new("/bin/true").status();
            effects() >= 1
        }
        "socket" => {
            let _ = std::net::TcpStream::connect("127.0.0.1:9");
            effects() >= 1
        }
        "setenv" => {
            unsafe { std::env::set_var("A", "B") };
            effects() == 1
        }
        "getenv" => std::env::var("ANY").as_deref() == Ok("42") && effects() == 0,
        "clock" => {
            let a = std::time::SystemTime::now();
            let b = std::time::SystemTime::now();
            b.duration_since(a).ok().map(|d| d.as_nanos()) == Some(1) && effects() == 0
        }
        "random" => {
            let mut b = [0u8; 16];
            unsafe { libc::syscall(libc::SYS_getrandom, b.as_mut_ptr(), 16, 0) };
            b == [7; 16] && effects() == 0
        }
        "cpus" => std::thread::available_parallelism().map(|n| n.get()).ok() == Some(3) && effects() == 0,
        "readfile" => std::fs::read("/etc/hostname").ok().as_deref() == Some(b"77") && effects() == 0,
        "thread" => std::thread::spawn(|| 5).join().ok() == Some(5) && effects() == 0,
        "tsc" => {
            let t = unsafe { std::arch::x86_64::_rdtsc() };
            (t == w.tsc || word(5).load(SeqCst) & 1 == 0) && effects() == 0
        }
        "cpu" => {
            let no = |yes: bool| !yes || word(5).load(SeqCst) & 2 == 0;
            no(std::is_x86_feature_detected!("ssse3")) && no(std::is_x86_feature_detected!("avx2")) && no(std::is_x86_feature_detected!("aes")) && effects() == 0
        }
        "hook" => {
            std::panic::set_hook(Box::new(|_| {}));
            let before = HOOKED.load(SeqCst);
            let _ = std::panic::catch_unwind(|| panic!("own"));
            HOOKED.load(SeqCst) == before
        }
        _ => false,
    };
    word(3).store(ok as u64, SeqCst);
    !ok as i32
}

// ------------------------------------------------------------------ C16
/// Runs the call in a child in which the plan refuses memory. Child result: (kind, fingerprint, follow-up fingerprint).
/// kind: 0 ended without a result (abort), 1 panicked, 2 returned, 3 ended in another way (status in the second field)
fn starved(c: &Case, follow: &Case, plan: &Plan, cell: &'static [AtomicU64]) -> (u64, u64, u64, u64) {
    for x in &cell[..5] {
        x.store(0, SeqCst);
    }
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe { libc::alarm(30) };
        let p = exec::prepare(c);
        SEEN.store(0, SeqCst);
        FAIL.store(plan.one, SeqCst);
        FAIL_ALSO.store(plan.two, SeqCst);
        FAIL_FROM.store(plan.from, SeqCst);
        LARGEST.store(plan.larger, SeqCst);
        HELD.store(0, SeqCst);
        TOTAL.store(if plan.larger == NARROW { 4 * NARROW as i64 } else { i64::MAX }, SeqCst);
        ARMED.store(1, SeqCst);
        let o = exec::actual_prepared(p);
        ARMED.store(0, SeqCst);
        cell[3].store(SEEN.load(SeqCst) as u64, SeqCst);
        cell[1].store(exec::fp(&o) as u64, SeqCst);
        cell[0].store(if o == Outcome::Panic { 1 } else { 2 }, SeqCst);
        // with memory again
        cell[2].store(exec::fp(&exec::actual(follow)) as u64, SeqCst);
        cell[4].store(1, SeqCst);
        unsafe { libc::_exit(0) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let (kind, fp, fol, seen) = (cell[0].load(SeqCst), cell[1].load(SeqCst), cell[2].load(SeqCst), cell[3].load(SeqCst));
    if cell[4].load(SeqCst) == 1 {
        return (kind, fp, fol, seen);
    }
    if kind == 0 && libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGABRT {
        return (0, 0, 0, 0);
    }
    (3, st as u64, kind, seen)
}

fn oom(tier: &str, shard: usize, shards: usize, out: &str) -> i32 {
    exec::silence_panics();
    open_shm(out, HEADER + 16);
    let cell: &'static [AtomicU64] = unsafe { std::slice::from_raw_parts(SHM.load(SeqCst).add(HEADER), 16) };
    unsafe {
        // what the runtime says when memory runs out
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 2);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    let th = tier == "thorough";
    let follow = alphabet::kdf_ops()[0].clone();
    let follow2 = Case::Hash(vcommon::Alg::Rev3, vcommon::pat('l', 80));
    let list = oom_cases(th);
    let report = |c: &Case, plan: &Plan, f: &Case, exp: String, got: String| {
        println!("V\t{}\t{}\t{}\t{exp}\t{got}", c.show(), plan.show(), f.show());
    };
    let (mut runs, mut aborted, mut panicked, mut right, mut points) = (0u64, 0u64, 0u64, 0u64, 0u64);
    'all: for (i, c) in list.iter().enumerate() {
        if i % shards != shard {
            continue;
        }
        let f = if i % 2 == 0 { &follow } else { &follow2 };
        let none = Plan::none();
        let (k0, want, fol, seen) = starved(c, f, &none, cell);
        if k0 == 0 || k0 == 3 {
            report(c, &none, f, "the call returns or panics".into(), format!("process ended (status {want:#x})"));
            break;
        }
        let want_follow = fol;
        points += seen;
        for plan in plans(seen as i64, th) {
            runs += 1;
            let (k, fp, fol, _) = starved(c, f, &plan, cell);
            match k {
                0 => aborted += 1,
                1 => panicked += 1,
                2 => right += 1,
                _ => {
                    report(c, &plan, f, "the result, a panic or an abort".into(), format!("process ended with wait status {fp:#x}"));
                    break 'all;
                }
            }
            if k == 2 && (k0 != 2 || fp != want) {
                report(c, &plan, f, "the right result or none".into(), "another result".into());
                break 'all;
            }
            if (k == 1 || k == 2) && fol != want_follow {
                report(c, &plan, f, "the next call, with memory again, gives its result".into(), "another outcome".into());
                break 'all;
            }
        }
    }
    // matrices and keys that do not fit: nothing may come back
    let huge = huge_cases(th);
    let mut beyond = 0u64;
    for (i, c) in huge.iter().enumerate() {
        if i % shards != shard {
            continue;
        }
        let plan = Plan { larger: NARROW, ..Plan::none() };
        let (k, fp, ..) = starved(c, &follow, &plan, cell);
        beyond += 1;
        match k {
            0 => aborted += 1,
            1 => panicked += 1,
            2 => {
                report(c, &plan, &follow, "no result: memory for it cannot be had".into(), "a result".into());
                break;
            }
            _ => {
                report(c, &plan, &follow, "a panic or an abort".into(), format!("process ended with wait status {fp:#x}"));
                break;
            }
        }
    }
    println!("S\t{runs}\t{aborted}\t{panicked}\t{right}\t{points}\t{beyond}");
    0
}
fn oom_one(case: &str, plan: &str, follow: &str, out: &str) -> i32 {
    exec::silence_panics();
    open_shm(out, HEADER + 16);
    let cell: &'static [AtomicU64] = unsafe { std::slice::from_raw_parts(SHM.load(SeqCst).add(HEADER), 16) };
    let (Some(c), Some(p), Some(f)) = (Case::parse(case), Plan::parse(plan), Case::parse(follow)) else { return 2 };
    let show = |k: u64| ["ends without a result", "panics", "returns", "ends abnormally"][k as usize & 3];
    let a = starved(&c, &f, &p, cell);
    println!("with memory refused: {} ({:#x}), next call {:#x}", show(a.0), a.1, a.2);
    if p.larger == NARROW {
        return (a.0 >= 2) as i32;
    }
    let b = starved(&c, &f, &Plan::none(), cell);
    println!("with memory: {} ({:#x}), next call {:#x}", show(b.0), b.1, b.2);
    (a.0 == 3 || (a.0 == 2 && (b.0 != 2 || a.1 != b.1)) || (a.0 != 0 && a.2 != b.2)) as i32
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["run", w, tier, shard, shards, out] => run_world(w.parse().unwrap(), tier, shard.parse().unwrap(), shards.parse().unwrap(), out),
        ["one", w, case, _] => one_world(w.parse().unwrap(), case),
        ["self", what, out] => self_test(what, out),
        ["oom", tier, shard, shards, out] => oom(tier, shard.parse().unwrap(), shards.parse().unwrap(), out),
        ["oom-one", case, plan, follow, out] => oom_one(case, plan, follow, out),
        _ => 2,
    };
    // no buffers to flush in a confined process
    if a.first().is_some_and(|x| x.starts_with("oom")) {
        std::process::exit(code);
    }
    unsafe { libc::_exit(code) };
}
