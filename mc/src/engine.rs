//! Exhaustive enumeration of finite case spaces on the real code, in worker processes that the
//! parent watches: a mismatch, a crash and a call that does not return are all attributed to a case.
use crate::exec;
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vcommon::lyra::Stats;
use vcommon::{Case, Outcome};

pub use vcommon::spaces::Space;

#[derive(Clone, Debug)]
pub struct Violation {
    pub space: usize,
    pub index: u64,
    pub case: String,
    pub expected: String,
    pub got: String,
}

#[derive(Clone, Debug, Default)]
pub struct SpaceStat {
    pub name: String,
    pub done: u64,
    pub distinct: u64,
    pub panics: u64,
    pub states: u64,
    pub transitions: u64,
}

/// What a judge says about one executed case.
pub struct Judged {
    pub outcome: Outcome,
    pub bad: Option<(String, String)>,
}
pub type Judge = fn(&Case, &mut Stats) -> Judged;

pub fn judge_model(c: &Case, st: &mut Stats) -> Judged {
    let exp = c.expected(st);
    let got = exec::actual(c);
    let bad = if exp == got { None } else { Some((exp.show(), got.show())) };
    Judged { outcome: got, bad }
}

// ---------------------------------------------------------------- worker side
const SLOTS: usize = 64;
const SLOT_WORDS: usize = 8; // start_ms, space+1 (0 = idle), index

struct Shm(*mut AtomicU64);
unsafe impl Sync for Shm {}
unsafe impl Send for Shm {}
impl Shm {
    fn open(path: &str) -> Shm {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("shm");
        let len = SLOTS * SLOT_WORDS * 8;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Shm(p as *mut AtomicU64)
    }
    fn at(&self, slot: usize, w: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(slot * SLOT_WORDS + w) }
    }
}

fn now_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

pub fn nthreads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SLOTS)
}

/// Worker process: enumerates all spaces completely (or up to the first violation).
/// With `outcomes`, writes one 16-byte record per case (`record`), in space and index order.
pub fn work(spaces: &[Space], judge: Judge, record: fn(&Outcome) -> u128, shm: &str, outcomes: Option<&str>) {
    unsafe {
        let gib = if spaces.iter().any(|s| s.name.ends_with("giant")) { 26 } else { 12 };
        let lim = libc::rlimit { rlim_cur: gib << 30, rlim_max: gib << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    exec::silence_panics();
    let shm = Shm::open(shm);
    let stop = AtomicBool::new(false);
    let mut out = outcomes.map(|p| std::io::BufWriter::new(std::fs::File::create(p).expect("outcomes")));
    for (si, sp) in spaces.iter().enumerate() {
        if stop.load(Relaxed) {
            break;
        }
        let next = AtomicU64::new(0);
        let chunk = (sp.n / (nthreads() as u64 * 32)).clamp(1, 256);
        let total = Mutex::new((SpaceStat { name: sp.name.clone(), ..Default::default() }, Vec::<(u64, u128)>::new()));
        let viols = Mutex::new(Vec::<Violation>::new());
        std::thread::scope(|s| {
            for slot in 0..nthreads() {
                let (next, total, viols, stop, shm) = (&next, &total, &viols, &stop, &shm);
                s.spawn(move || {
                    let mut st = Stats::default();
                    let mut fps: Vec<(u64, u128)> = Vec::new();
                    let (mut done, mut panics) = (0u64, 0u64);
                    'outer: loop {
                        let lo = next.fetch_add(chunk, Relaxed);
                        if lo >= sp.n || stop.load(Relaxed) {
                            break;
                        }
                        for i in lo..(lo + chunk).min(sp.n) {
                            let case = (sp.case)(i);
                            shm.at(slot, 2).store(i, Relaxed);
                            shm.at(slot, 0).store(now_ms(), Relaxed);
                            shm.at(slot, 1).store(si as u64 + 1, Release);
                            let j = judge(&case, &mut st);
                            shm.at(slot, 1).store(0, Release);
                            done += 1;
                            if j.outcome == Outcome::Panic {
                                panics += 1;
                            }
                            fps.push((i, record(&j.outcome)));
                            if let Some((expected, got)) = j.bad {
                                viols.lock().unwrap().push(Violation { space: si, index: i, case: case.show(), expected, got });
                                stop.store(true, Relaxed);
                                break 'outer;
                            }
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.0.done += done;
                    t.0.panics += panics;
                    t.0.states += st.states;
                    t.0.transitions += st.transitions;
                    t.1.extend(fps);
                });
            }
        });
        let (mut stat, mut fps) = total.into_inner().unwrap();
        if let Some(o) = out.as_mut() {
            use std::io::Write;
            fps.sort_unstable();
            for x in &fps {
                o.write_all(&x.1.to_le_bytes()).expect("outcomes");
            }
        }
        let mut d: Vec<u128> = fps.into_iter().map(|x| x.1).collect();
        d.sort_unstable();
        d.dedup();
        stat.distinct = d.len() as u64;
        for v in viols.into_inner().unwrap() {
            println!("V\t{}\t{}\t{}\t{}\t{}", v.space, v.index, v.case, v.expected, v.got);
        }
        println!("S\t{}\t{}\t{}\t{}\t{}\t{}", stat.name, stat.done, stat.distinct, stat.panics, stat.states, stat.transitions);
    }
    drop(out);
    println!("END");
}

// ---------------------------------------------------------------- parent side
#[derive(Default, Debug)]
pub struct RunResult {
    pub stats: Vec<SpaceStat>,
    pub violations: Vec<Violation>,
}

/// A call that takes longer does not terminate; the largest calls of the other spaces take under 5 s.
fn limit_ms(s: &Space) -> u64 {
    if s.name.ends_with("giant") {
        3_000_000
    } else {
        60_000
    }
}

pub fn scratch() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("mc-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch dir");
    d
}

/// Runs `bin work <args> <shm>` and supervises it. `spaces` is only used to name cases.
pub fn supervise(bin: &str, args: &[&str], spaces: &[Space]) -> Result<RunResult, String> {
    static N: AtomicU64 = AtomicU64::new(0);
    let shm_path = scratch().join(format!("shm{}", N.fetch_add(1, Relaxed)));
    std::fs::write(&shm_path, vec![0u8; SLOTS * SLOT_WORDS * 8]).map_err(|e| e.to_string())?;
    let shm = Shm::open(shm_path.to_str().unwrap());
    let mut child = Command::new(bin)
        .arg("work")
        .args(args)
        .arg(&shm_path)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .spawn()
        .map_err(|e| format!("spawn {bin}: {e}"))?;
    let out = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || BufReader::new(out).lines().map_while(Result::ok).collect::<Vec<String>>());
    let mut hung: Option<(usize, u64)> = None;
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        std::thread::sleep(Duration::from_millis(50));
        for slot in 0..SLOTS {
            let sp = shm.at(slot, 1).load(Acquire);
            let (start, idx) = (shm.at(slot, 0).load(Relaxed), shm.at(slot, 2).load(Relaxed));
            if sp != 0 && now_ms().saturating_sub(start) > limit_ms(&spaces[sp as usize - 1]) {
                hung = Some((sp as usize - 1, idx));
            }
        }
        if hung.is_some() {
            let _ = child.kill();
        }
    };
    let lines = reader.join().unwrap();
    let mut r = RunResult::default();
    let mut ended = false;
    for l in &lines {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "V" if f.len() == 6 => r.violations.push(Violation {
                space: f[1].parse().unwrap(),
                index: f[2].parse().unwrap(),
                case: f[3].into(),
                expected: f[4].into(),
                got: f[5].into(),
            }),
            "S" if f.len() == 7 => r.stats.push(SpaceStat {
                name: f[1].into(),
                done: f[2].parse().unwrap(),
                distinct: f[3].parse().unwrap(),
                panics: f[4].parse().unwrap(),
                states: f[5].parse().unwrap(),
                transitions: f[6].parse().unwrap(),
            }),
            "END" => ended = true,
            _ => {}
        }
    }
    if let Some((sp, idx)) = hung {
        let case = (spaces[sp].case)(idx);
        r.violations.push(Violation {
            space: sp,
            index: idx,
            case: case.show(),
            expected: "the call terminates".into(),
            got: format!("no result after {} s", limit_ms(&spaces[sp]) / 1000),
        });
    } else if !ended {
        // The worker died. Find the case: every call that was in flight, one by one, in its own process.
        use std::os::unix::process::ExitStatusExt;
        let mut found = false;
        for slot in 0..SLOTS {
            let sp = shm.at(slot, 1).load(Acquire);
            if sp == 0 {
                continue;
            }
            let idx = shm.at(slot, 2).load(Relaxed);
            let case = (spaces[sp as usize - 1].case)(idx);
            match run_one(bin, &case.show(), Duration::from_secs(60)) {
                One::Outcome(_) => {}
                One::Died(how) => {
                    r.violations.push(Violation { space: sp as usize - 1, index: idx, case: case.show(), expected: "the call returns or panics".into(), got: how });
                    found = true;
                    break;
                }
            }
        }
        if !found {
            return Err(format!("worker ended abnormally ({status:?}, signal {:?}) and no single case reproduces it", status.signal()));
        }
    }
    r.violations.sort_by_key(|v| (v.space, v.index));
    let _ = std::fs::remove_file(&shm_path);
    Ok(r)
}

pub enum One {
    /// printed form of the outcome
    Outcome(String),
    Died(String),
}

/// Runs one case in a fresh process.
pub fn run_one(bin: &str, case: &str, limit: Duration) -> One {
    spawn_one(bin, &["one", case], limit)
}

/// Judges one case of a property in a fresh process; what is wrong with it, if anything.
pub fn judge_one(bin: &str, prop: &str, case: &str) -> Option<String> {
    match spawn_one(bin, &["judge", prop, case], Duration::from_secs(120)) {
        One::Outcome(o) => o.strip_prefix("BAD ").map(|s| s.to_string()),
        One::Died(h) => Some(h),
    }
}

fn spawn_one(bin: &str, args: &[&str], limit: Duration) -> One {
    let mut child = match Command::new(bin).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return One::Died(format!("spawn: {e}")),
    };
    let out = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || BufReader::new(out).lines().map_while(Result::ok).collect::<Vec<String>>());
    let t0 = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            _ if t0.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    let lines = reader.join().unwrap();
    match status {
        None => One::Died(format!("no result after {} s", limit.as_secs())),
        Some(s) => match lines.iter().find_map(|l| l.strip_prefix("OUTCOME ")) {
            Some(o) => One::Outcome(o.to_string()),
            None => One::Died(format!("process ended with {s}")),
        },
    }
}
