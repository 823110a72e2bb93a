//! C15 (nothing but the arguments decides, nothing but the result comes out) and C16 (memory refused): drives the
//! `world` program.
use crate::engine::{nthreads, scratch};
use crate::exec;
use crate::report::Report;
use crate::worlds::*;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn bin() -> String {
    let mc = std::env::var("MC_REL").unwrap_or_default();
    std::path::Path::new(&mc).with_file_name("world").to_string_lossy().into_owned()
}
fn words(path: &std::path::Path) -> Vec<u64> {
    std::fs::read(path).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

struct Done {
    status: String,
    code: Option<i32>,
    words: Vec<u64>,
    late: bool,
}
fn spawn(args: &[String], shm: &std::path::Path, limit: Duration) -> Done {
    let mut child = match Command::new(bin()).args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return Done { status: format!("spawn: {e}"), code: None, words: vec![], late: false },
    };
    let t0 = Instant::now();
    let mut late = false;
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            _ => {}
        }
        if t0.elapsed() > limit && !late {
            late = true;
            let _ = child.kill();
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let w = words(shm);
    let _ = std::fs::remove_file(shm);
    Done { status: st.to_string(), code: st.code(), words: w, late }
}

fn effects(w: &[u64]) -> Vec<(String, u64)> {
    (0..(w.get(2).copied().unwrap_or(0) as usize).min(EFFECTS)).map(|n| (effect_name(w[8 + 3 * n], w[9 + 3 * n]), w[10 + 3 * n])).collect()
}

const SELF: [&str; 15] = ["print", "file", "remove", "spawn", "socket", "setenv", "getenv", "clock", "random", "cpus", "readfile", "thread", "tsc", "cpu", "hook"];

/// One call in one world, in a fresh process: effects and fingerprint, or how the process ended
fn one(w: usize, case: &str) -> Result<(Vec<String>, u64), String> {
    static N: AtomicUsize = AtomicUsize::new(0);
    let shm = scratch().join(format!("one{}", N.fetch_add(1, Relaxed)));
    let d = spawn(&["one".into(), w.to_string(), case.into(), shm.to_string_lossy().into_owned()], &shm, Duration::from_secs(120));
    if d.words.get(3) != Some(&1) {
        return Err(if d.late { "no result after 120 s".into() } else { d.status });
    }
    Ok((effects(&d.words).into_iter().map(|x| x.0).collect(), d.words[HEADER]))
}

pub fn worlds(rep: &mut Report, tier: &str) -> Result<(), String> {
    // the stand-ins do notice
    for s in SELF {
        let shm = scratch().join(format!("self-{s}"));
        let d = spawn(&["self".into(), s.into(), shm.to_string_lossy().into_owned()], &shm, Duration::from_secs(60));
        // libc blocks signals around the creation of a process, and the refusal then ends the program
        let ended = s == "spawn" && d.status.contains("SIGSYS");
        if d.code == Some(3) {
            return Err("system calls cannot be confined here".into());
        }
        if d.code != Some(0) && !ended {
            return Err(format!("self-test {s} of the stand-ins failed ({}, {:?})", d.status, effects(&d.words)));
        }
    }
    let set = cases(rep.thorough, exec::HOOKS);
    let mut ws = all_worlds();
    let mut tasks: Vec<(usize, usize, usize)> = Vec::new();
    for (i, w) in ws.iter().enumerate() {
        let n = if w.wide { nthreads().max(4) * 2 } else { 1 };
        for s in 0..n {
            tasks.push((i, s, n));
        }
    }
    let limit = Duration::from_secs(if rep.thorough { 7200 } else { 600 });
    let run = |tasks: &[(usize, usize, usize)]| -> Vec<(usize, usize, usize, Done)> {
        let next = AtomicUsize::new(0);
        let done = Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for _ in 0..nthreads() {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, Relaxed);
                    let Some(&(w, shard, shards)) = tasks.get(k) else { break };
                    let shm = scratch().join(format!("world-{w}-{shard}"));
                    let d = spawn(&["run".into(), w.to_string(), tier.into(), shard.to_string(), shards.to_string(), shm.to_string_lossy().into_owned()], &shm, limit);
                    done.lock().unwrap().push((w, shard, shards, d));
                });
            }
        });
        done.into_inner().unwrap()
    };
    let mut done = run(&tasks);
    // whatever is looked at is varied further
    let mut more = Vec::new();
    let mut first = ws.len();
    let looked_at: Vec<u64> = (0..5).map(|k| done.iter().map(|d| d.3.words.get(LOOK + k).copied().unwrap_or(0)).sum()).collect();
    for k in 0..5 {
        let extra = more_worlds(k);
        if looked_at[k] > 0 && done.iter().all(|d| d.3.words.get(2) == Some(&0)) {
            more.extend((0..extra.len()).map(|i| (first + i, 0, 1)));
        }
        first += extra.len();
    }
    let further = more.len() as u64;
    while ws.len() < first {
        ws.push(world(ws.len()));
    }
    done.extend(run(&more));
    done.sort_by_key(|d| (d.0, d.1));
    let mut results: Vec<Vec<u64>> = ws.iter().map(|w| vec![0; set.count(w.wide) as usize]).collect();
    let (mut calls, mut looks) = (0u64, 0u64);
    let mut trapped = 3;
    for (w, shard, shards, d) in &done {
        if d.code == Some(3) {
            return Err("system calls cannot be confined here".into());
        }
        if d.words.len() < HEADER {
            return Err(format!("world {w}: no report ({})", d.status));
        }
        calls += d.words[0];
        looks += d.words[4];
        trapped &= d.words[5];
        let at = d.words[1];
        let case_of = |at: u64| if at == 0 { String::new() } else { set.at(at - 1, ws[*w].wide).show() };
        for (what, at) in effects(&d.words).into_iter().take(1) {
            rep.violate("world", &[("world", w.to_string()), ("answers", ws[*w].name.into()), ("case", case_of(at)), ("expected", "no effect besides the result".into()), ("got", what)]);
        }
        if rep.violations.is_empty() && (d.words[3] != 1 || d.code != Some(0)) {
            let c = case_of(at);
            let how = if d.late { "does not return".to_string() } else { d.status.clone() };
            if at != 0 {
                if let Ok(x) = one(*w, &c) {
                    if d.late {
                        return Err(format!("world {w} was not finished in time"));
                    }
                    let _ = x;
                }
            }
            rep.violate("world", &[("world", w.to_string()), ("answers", ws[*w].name.into()), ("case", c), ("expected", "the call returns or panics".into()), ("got", how)]);
        }
        if !rep.violations.is_empty() {
            break;
        }
        let mut i = *shard;
        while i < results[*w].len() {
            results[*w][i] = d.words[HEADER + i];
            i += shards;
        }
    }
    let mut compared = 0u64;
    if rep.violations.is_empty() {
        'c: for w in 1..ws.len() {
            if !done.iter().any(|d| d.0 == w) {
                continue;
            }
            for i in 0..results[w].len() as u64 {
                let j = if ws[w].wide { i } else { set.widen(i) };
                compared += 1;
                let (a, b) = (results[0][j as usize], results[w][i as usize]);
                if a == 0 || b == 0 {
                    return Err(format!("world {w}: case {i} was not run"));
                }
                if a != b {
                    let c = set.at(i, ws[w].wide).show();
                    rep.violate(
                        "world",
                        &[("world", w.to_string()), ("answers", ws[w].name.into()), ("case", c), ("expected", format!("the outcome it has when {} ({a:#x})", ws[0].name)), ("got", format!("another one ({b:#x})"))],
                    );
                    break 'c;
                }
            }
        }
    }
    rep.states += calls;
    rep.transitions += calls;
    rep.traces += calls;
    rep.num("worlds", all_worlds().len() as u64);
    rep.num("further_worlds_about_what_is_looked_at", further);
    rep.num("cases_of_wide_worlds", set.count(true));
    rep.num("cases_of_other_worlds", set.count(false));
    rep.num("calls", calls);
    rep.num("outcomes_compared_across_worlds", compared);
    rep.num("times_a_call_looked_outside_its_arguments", looks);
    rep.num("processor_identification_was_varied", trapped >> 1 & 1);
    rep.num("time_stamp_counter_was_varied", trapped & 1);
    rep.num("self_tests_of_the_stand_ins", SELF.len() as u64);
    for i in [0, 20, 70, 100, 200, 300, set.few.len() as u64 + 5] {
        rep.sample(set.at(i, true).show());
    }
    for w in ws.iter().map(|w| w.name).collect::<std::collections::BTreeSet<_>>() {
        rep.sample(format!("world: {w}"));
    }
    rep.assume("outside means: system calls, environment variables, clocks, the time-stamp counter, what the processor says of itself, the placement and former contents of heap memory, the panic hook");
    Ok(())
}

pub fn replay_world(w: &str, case: &str) -> bool {
    let Ok(w) = w.parse::<usize>() else { return false };
    let (a, b) = (one(0, case), one(w, case));
    println!("base: {a:?}\nworld {w}: {b:?}");
    match (a, b) {
        (Ok(a), Ok(b)) => a.1 != b.1 || !b.0.is_empty() || !a.0.is_empty(),
        _ => true,
    }
}

pub fn oom(rep: &mut Report, tier: &str) -> Result<(), String> {
    let n = nthreads();
    let outs: Vec<Result<std::process::Output, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let shm = scratch().join(format!("oom-{i}"));
                s.spawn(move || Command::new(bin()).args(["oom", tier, &i.to_string(), &n.to_string(), shm.to_str().unwrap()]).stdin(Stdio::null()).output().map_err(|e| e.to_string()))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut sum = [0u64; 6];
    for (i, o) in outs.into_iter().enumerate() {
        let o = o?;
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        let mut ended = false;
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "V" if f.len() == 6 => rep.violate(
                    "starved",
                    &[("case", f[1].into()), ("refused (one-th, other-th, all from, larger than)", f[2].into()), ("next call", f[3].into()), ("expected", f[4].into()), ("got", f[5].into())],
                ),
                "S" if f.len() == 7 => {
                    ended = true;
                    for (a, b) in sum.iter_mut().zip(&f[1..]) {
                        *a += b.parse::<u64>().unwrap_or(0);
                    }
                }
                _ => {}
            }
        }
        if !ended && rep.violations.is_empty() {
            return Err(format!("shard {i} ended with {}", o.status));
        }
    }
    let total = sum[0] + sum[5];
    rep.states += total;
    rep.transitions += total;
    rep.traces += total;
    let list = oom_cases(rep.thorough);
    rep.num("calls_starved", list.len() as u64);
    rep.num("allocation_points", sum[4]);
    rep.num("executions_with_memory_refused", sum[0]);
    rep.num("executions_for_matrices_and_keys_that_do_not_fit", sum[5]);
    rep.num("ended_by_abort", sum[1]);
    rep.num("ended_by_panic", sum[2]);
    rep.num("returned_the_right_result", sum[3]);
    for c in list.iter().step_by(list.len() / 10 + 1) {
        rep.sample(c.show());
    }
    rep.assume("memory is asked for through the Rust global allocator");
    Ok(())
}

pub fn replay_starved(case: &str, plan: &str, follow: &str) -> bool {
    let shm = scratch().join("oom-one");
    let o = Command::new(bin()).args(["oom-one", case, plan, follow, shm.to_str().unwrap()]).stdin(Stdio::null()).output();
    match o {
        Ok(o) => {
            print!("{}", String::from_utf8_lossy(&o.stdout));
            o.status.code() != Some(0)
        }
        Err(_) => false,
    }
}
