mod alphabet;
mod checks;
mod chess;
mod collide;
mod engine;
mod env;
mod exec;
mod history;
mod mem;
mod plat;
mod report;
mod sched;
use vcommon::spaces;
mod visit;
mod work;
#[allow(dead_code)]
mod worlds;

use report::Report;
use vcommon::Case;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn usage() -> i32 {
    eprintln!("mc check ID quick|thorough | mc replay FILE | mc one CASE");
    2
}

fn check(id: &str, tier: &str) -> Result<i32, String> {
    let root = std::env::var("MC_ROOT").map_err(|_| "MC_ROOT not set (start checks through run.sh)")?;
    let mut rep = Report::new(id, tier == "thorough");
    let known = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    let is_known = |key: &str| known.lines().any(|l| l.starts_with(&format!("finding: property={id} {key}")));
    let builds: &[&'static str] = &["release", "checked"];
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C14" => {
            checks::enumerate(&mut rep, tier, builds)?;
            if rep.violations.is_empty() && id == "C01" {
                checks::endless(&mut rep, &spaces::endless(), checks::unfinished)?;
            }
            if rep.violations.is_empty() && id == "C06" {
                checks::endless(&mut rep, &spaces::long_outputs(), checks::unfinished_or_refused)?;
            }
        }
        "C07" => history::check(&mut rep)?,
        "C08" => sched::check(&mut rep)?,
        "C12" => plat::check(&mut rep, &root)?,
        "C11" => mem::check(&mut rep)?,
        "C09" => checks::binding(&mut rep, tier, is_known("tail-bytes"))?,
        "C10" => {
            visit::abstract_search(&mut rep)?;
            if !is_known("non-power-of-two-rows") {
                return Err("known_findings.txt lacks the entry for row counts that are not powers of two".into());
            }
            checks::enumerate(&mut rep, tier, &["release"])?;
            if rep.violations.is_empty() {
                checks::endless(&mut rep, &spaces::endless(), checks::unfinished)?;
            }
        }
        "C15" => env::worlds(&mut rep, tier)?,
        "C16" => env::oom(&mut rep, tier)?,
        "C17" => work::check(&mut rep)?,
        "C13" => checks::modes(&mut rep, tier)?,
        _ => return Err(format!("no check for {id}")),
    }
    let code = rep.finish(&root);
    let _ = std::fs::remove_dir_all(engine::scratch());
    Ok(code)
}

fn field<'a>(body: &'a str, key: &str) -> Option<&'a str> {
    body.lines().find_map(|l| l.strip_prefix(key)?.strip_prefix(": "))
}

/// Runs a recorded violation again: exit 1 if it is still there, 0 if not.
fn replay(file: &str) -> i32 {
    let Ok(body) = std::fs::read_to_string(file) else { return usage() };
    print!("{body}");
    let prop = field(&body, "property").unwrap_or("");
    let show = |b: &str, c: &str| match engine::run_one(&checks::bin(b).unwrap_or_default(), c, std::time::Duration::from_secs(120)) {
        engine::One::Outcome(o) => o,
        engine::One::Died(h) => h,
    };
    let case = field(&body, "case").unwrap_or("");
    let bad = match field(&body, "kind").unwrap_or("") {
        "case" => {
            let b = field(&body, "build").unwrap_or("release");
            match engine::judge_one(&checks::bin(b).unwrap_or_default(), prop, case) {
                Some(x) => {
                    println!("now: {x}");
                    true
                }
                None => false,
            }
        }
        "endless" => match engine::run_one(&checks::bin("release").unwrap_or_default(), case, std::time::Duration::from_secs(1)) {
            engine::One::Outcome(o) => {
                println!("now: {o}");
                true
            }
            engine::One::Died(h) => {
                println!("now: {h}");
                prop != "C06" && !h.starts_with("no result")
            }
        },
        "modes" => {
            let r: Vec<String> = checks::build_modes(case).iter().map(|b| show(b, case)).collect();
            println!("now: {r:?}");
            r.iter().any(|x| *x != r[0])
        }
        "pair" => {
            let (a, b) = (show("release", case), show("release", field(&body, "case2").unwrap_or("")));
            println!("now: {a} and {b}");
            a.len() >= 35 && b.len() >= 35 && a[..35] == b[..35]
        }
        "long-history" if field(&body, "sequence").unwrap_or("").starts_with("family ") => {
            history::replay_family(field(&body, "sequence").unwrap_or(""), field(&body, "call number").and_then(|x| x.parse().ok()).unwrap_or(1)).unwrap_or(false)
        }
        "history" | "long-history" => history::replay(field(&body, "history").unwrap_or("")),
        "work" => work::replay(case),
        "memory" => mem::replay(field(&body, "history").unwrap_or("")),
        "world" => env::replay_world(field(&body, "world").unwrap_or(""), case),
        "starved" => env::replay_starved(case, field(&body, "refused (one-th, other-th, all from, larger than)").unwrap_or(""), field(&body, "next call").unwrap_or("")),
        "platform" => plat::replay(&std::env::var("MC_ROOT").unwrap_or_default(), field(&body, "target").unwrap_or(""), case),
        "interleaving" => {
            let ops: Vec<String> = sched::NAMES.iter().filter_map(|k| field(&body, k)).map(|x| x.to_string()).collect();
            sched::replay_interleaving(&ops, field(&body, "start").unwrap_or(""), field(&body, "schedule (shared access > call that goes on)").unwrap_or(""))
        }
        "crowd" => sched::replay_crowd(field(&body, "A").unwrap_or(""), field(&body, "B").unwrap_or(""), field(&body, "threads").unwrap_or(""), field(&body, "all stop at request").unwrap_or(""), field(&body, "and go on").unwrap_or("")),
        "schedule" => sched::replay(field(&body, "A").unwrap_or(""), field(&body, "B").unwrap_or(""), field(&body, "start") == Some("warm")),
        _ => return usage(),
    };
    println!("{}", if bad { "REPRODUCED" } else { "not reproduced" });
    bad as i32
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", id, tier] => check(id, tier).unwrap_or_else(|e| {
            eprintln!("ERROR {id}: {e}");
            let _ = std::fs::remove_dir_all(engine::scratch());
            2
        }),
        ["work", prop, tier, out, shm] => {
            let sp = spaces::spaces_for(prop, *tier == "thorough", exec::HOOKS);
            engine::work(&sp, checks::judge_of(prop), checks::record_of(prop), shm, if *out == "-" { None } else { Some(out) });
            0
        }
        ["sched-count", op, warm] => sched::count(op, *warm == "warm"),
        ["chess", file, shard, shards, deadline, log] => chess::worker(file, shard.parse().unwrap_or(0), shards.parse().unwrap_or(1), deadline.parse().unwrap_or(0), log),
        ["sched", rest @ ..] => sched::cli(rest),
        ["replay", file] => replay(file),
        ["judge", prop, case] => match Case::parse(case) {
            Some(c) => {
                exec::silence_panics();
                let judge = checks::judge_of(prop);
                // on a thread, as in the workers: its stack is smaller than the main thread's
                let j = std::thread::spawn(move || judge(&c, &mut Default::default())).join().expect("judge");
                match j.bad {
                    Some((e, g)) => println!("OUTCOME BAD expected {e}, got {g}"),
                    None => println!("OUTCOME fine"),
                }
                0
            }
            None => usage(),
        },
        ["one", case] => match Case::parse(case) {
            Some(c) => {
                exec::silence_panics();
                println!("OUTCOME {}", std::thread::spawn(move || exec::actual(&c)).join().expect("call").show());
                0
            }
            None => usage(),
        },
        _ => usage(),
    };
    std::process::exit(code);
}
