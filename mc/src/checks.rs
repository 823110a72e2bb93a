//! Checks decided by complete enumeration of case spaces on the real code (C01-C06, C09, C10, C13, C14).
use crate::engine::{self, judge_model, scratch, supervise, Judge, Judged, RunResult, Space};
use crate::exec;
use crate::report::Report;
use vcommon::spaces::spaces_for;
use crate::visit;
use vcommon::lyra::{domain, Stats};
use vcommon::{Case, Outcome};

pub fn bin(profile: &str) -> Result<String, String> {
    let var = match profile {
        "release" => "MC_REL",
        "checked" => "MC_CHK",
        "native" => "MC_NAT",
        "small" => "MC_SIZ",
        _ => "MC_DEV",
    };
    std::env::var(var).map_err(|_| format!("{var} not set (start checks through run.sh)"))
}

fn judge_accepted(c: &Case, st: &mut Stats) -> Judged {
    let exp = c.expected(st);
    let got = exec::actual(c);
    // rejected tuples are C06's business
    let bad = if exp == Outcome::Panic || exp == got { None } else { Some((exp.show(), got.show())) };
    Judged { outcome: got, bad }
}

fn judge_domain(c: &Case, st: &mut Stats) -> Judged {
    let Case::Kdf { k, pwd, salt, t, r, c: cols } = c else { unreachable!() };
    let rejected = domain(*k, pwd.len() as u64, salt.len() as u64, *t, *r, *cols);
    let got = exec::actual(c);
    st.states += 2;
    st.transitions += 1;
    let bad = match (&rejected, &got) {
        (Some(_), Outcome::Panic) => None,
        (None, Outcome::Ok(v)) if v.len() as u64 == *k => None,
        (Some(why), Outcome::Ok(_)) => Some((format!("panic ({why:?})"), got.show())),
        (None, Outcome::Ok(v)) => Some((format!("{k} bytes"), format!("{} bytes", v.len()))),
        (None, Outcome::Panic) => Some((format!("{k} bytes"), "panic".into())),
    };
    Judged { outcome: got, bad }
}

fn judge_none(c: &Case, st: &mut Stats) -> Judged {
    st.states += 2;
    st.transitions += 1;
    Judged { outcome: exec::actual(c), bad: None }
}

fn judge_sum(c: &Case, st: &mut Stats) -> Judged {
    let Case::Sum(d) = c else { unreachable!() };
    let got = exec::actual(c);
    let exp = exec::actual(&Case::Kdf { k: 32, pwd: d.clone(), salt: d.clone(), t: 1, r: 4, c: 4 });
    st.states += 4;
    st.transitions += 2;
    let bad = if exp == got { None } else { Some((exp.show(), got.show())) };
    Judged { outcome: got, bad }
}

pub fn judge_of(prop: &str) -> Judge {
    match prop {
        "C01" => judge_accepted,
        "C02" | "C03" | "C04" | "C05" => judge_model,
        "C06" => judge_domain,
        "C10" => visit::judge,
        "C14" => judge_sum,
        _ => judge_none,
    }
}

pub fn record_of(prop: &str) -> fn(&Outcome) -> u128 {
    match prop {
        "C09" => exec::d16,
        _ => exec::fp,
    }
}

fn add_stats(rep: &mut Report, spaces: &[Space], runs: &[(&str, RunResult)]) {
    let mut rows = Vec::new();
    let (mut done, mut distinct, mut panics) = (0, 0, 0);
    for (profile, r) in runs {
        for s in &r.stats {
            let sp = spaces.iter().find(|x| x.name == s.name);
            if sp.map(|x| x.n) != Some(s.done) {
                rep.exhaustive = false;
            }
            rep.states += s.states;
            rep.transitions += s.transitions;
            done += s.done;
            distinct += s.distinct;
            panics += s.panics;
            rows.push(format!(
                "{{\"build\": {}, \"space\": {}, \"what\": {}, \"size\": {}, \"executed\": {}, \"distinct_outcomes\": {}, \"panics\": {}}}",
                crate::report::jstr(profile),
                crate::report::jstr(&s.name),
                crate::report::jstr(sp.map(|x| x.what.as_str()).unwrap_or("")),
                sp.map(|x| x.n).unwrap_or(0),
                s.done,
                s.distinct,
                s.panics
            ));
        }
    }
    rep.traces += done;
    rep.num("executions_of_the_real_code", done);
    rep.num("distinct_outcomes", distinct);
    rep.num("panicking_executions", panics);
    rep.extra.push(("spaces".into(), format!("[\n   {}\n  ]", rows.join(",\n   "))));
    for sp in spaces {
        for i in [0, sp.n / 3, sp.n - 1] {
            if rep.samples.len() < 30 {
                let mut s = (sp.case)(i).show();
                if s.len() > 300 {
                    s.truncate(300);
                    s.push_str("...");
                }
                rep.sample(format!("{}[{}]: {}", sp.name, i, s));
            }
        }
    }
}

fn run_profiles(rep: &mut Report, prop: &str, tier: &str, profiles: &[&'static str], spaces: &[Space]) -> Result<Vec<(&'static str, RunResult)>, String> {
    let mut runs = Vec::new();
    for p in profiles {
        let r = supervise(&bin(p)?, &[prop, tier, "-"], spaces)?;
        for v in &r.violations {
            rep.violate(
                "case",
                &[("build", p.to_string()), ("space", format!("{} index {}", spaces[v.space].name, v.index)), ("case", v.case.clone()), ("expected", v.expected.clone()), ("got", v.got.clone())],
            );
        }
        let stop = !r.violations.is_empty();
        runs.push((*p, r));
        if stop {
            break;
        }
    }
    Ok(runs)
}

pub fn enumerate(rep: &mut Report, tier: &str, profiles: &[&'static str]) -> Result<(), String> {
    let prop = rep.prop.clone();
    let spaces = spaces_for(&prop, rep.thorough, exec::HOOKS);
    let runs = run_profiles(rep, &prop, tier, profiles, &spaces)?;
    add_stats(rep, &spaces, &runs);
    if rep.violations.is_empty() {
        for (_, r) in &runs {
            if r.stats.len() != spaces.len() {
                return Err("worker did not enumerate every space".into());
            }
        }
    }
    rep.text("hooks", if exec::HOOKS { "private stages reached through cfg(lyra2_verif)" } else { "hook module does not build on this tree: public functions only" });
    Ok(())
}

/// Still at work when it was stopped
pub fn unfinished(_: &Case, r: &engine::One) -> bool {
    matches!(r, engine::One::Died(h) if h.starts_with("no result"))
}
/// The same, or refused the memory; up to a little over 4 GiB nothing but that is a reason to panic
pub fn unfinished_or_refused(c: &Case, r: &engine::One) -> bool {
    match r {
        engine::One::Died(_) => true,
        engine::One::Outcome(o) => o == "panic" && matches!(c, Case::Kdf { k, .. } if *k > (1 << 32) + 32),
    }
}

/// Calls that ask for more work than the limit allows on any machine; the one thing to see is that none comes back.
pub fn endless(rep: &mut Report, cases: &[Case], allowed: fn(&Case, &engine::One) -> bool) -> Result<(), String> {
    let bin = bin("release")?;
    let limit = std::time::Duration::from_secs(1);
    for cs in cases.chunks(engine::nthreads()) {
        let res: Vec<engine::One> = std::thread::scope(|s| {
            let hs: Vec<_> = cs.iter().map(|c| s.spawn(|| engine::run_one(&bin, &c.show(), limit))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (c, r) in cs.iter().zip(res) {
            if allowed(c, &r) {
                continue;
            }
            let (engine::One::Outcome(got) | engine::One::Died(got)) = r;
            if rep.violations.len() < 3 {
                rep.violate("endless", &[("build", "release".into()), ("case", c.show()), ("expected", "no result within a second: the work asked for takes longer on any machine".into()), ("got", got)]);
            }
        }
        if !rep.violations.is_empty() {
            return Ok(());
        }
    }
    let n = cases.len() as u64;
    rep.states += n;
    rep.transitions += n;
    rep.traces += n;
    rep.num("calls_that_must_not_come_back_within_1_s", n);
    Ok(())
}

/// The builds C13 compares; "small" is built without the hook module, as it is shipped, and has no private stages to call
pub fn build_modes(case: &str) -> Vec<&'static str> {
    let private = matches!(Case::parse(case), Some(Case::Stage(..)));
    let there = |p: &&str| bin(p).is_ok_and(|b| std::path::Path::new(&b).exists()) && !(private && *p == "small");
    ["release", "checked", "dev"].into_iter().chain(["native", "small"].into_iter().filter(there)).collect()
}
/// C13: the same spaces in every build mode, outcome by outcome.
pub fn modes(rep: &mut Report, tier: &str) -> Result<(), String> {
    let spaces = spaces_for("C13", rep.thorough, exec::HOOKS);
    let mut runs = Vec::new();
    let mut files = Vec::new();
    let modes = build_modes("");
    for &p in &modes {
        let f = scratch().join(format!("out-{p}"));
        let fewer = if p == "small" { Some(spaces_for("C13", rep.thorough, false)) } else { None };
        let r = supervise(&bin(p)?, &["C13", tier, f.to_str().unwrap()], fewer.as_ref().unwrap_or(&spaces))?;
        for v in &r.violations {
            rep.violate("case", &[("build", p.into()), ("case", v.case.clone()), ("expected", v.expected.clone()), ("got", v.got.clone())]);
        }
        if !rep.violations.is_empty() {
            runs.push((p, r));
            add_stats(rep, &spaces, &runs);
            return Ok(());
        }
        runs.push((p, r));
        files.push(std::fs::read(&f).map_err(|e| e.to_string())?);
    }
    let total: u64 = spaces.iter().map(|s| s.n).sum();
    let public: u64 = spaces_for("C13", rep.thorough, false).iter().map(|s| s.n).sum();
    if files.iter().zip(&modes).any(|(f, p)| f.len() as u64 != 16 * if *p == "small" { public } else { total }) {
        return Err("outcome files incomplete".into());
    }
    let mut base = 0usize;
    'o: for sp in &spaces {
        for i in 0..sp.n as usize {
            let at = (base + i) * 16;
            let a = &files[0][at..at + 16];
            if files[1..].iter().any(|f| at < f.len() && f[at..at + 16] != *a) {
                let case = (sp.case)(i as u64).show();
                let lim = std::time::Duration::from_secs(120);
                let modes = build_modes(&case);
                let res: Vec<String> = modes
                    .iter()
                    .map(|p| match engine::run_one(&bin(p).unwrap(), &case, lim) {
                        engine::One::Outcome(o) => o,
                        engine::One::Died(h) => h,
                    })
                    .collect();
                let mut f = vec![("space", format!("{} index {}", sp.name, i)), ("case", case)];
                f.extend(modes.iter().copied().zip(res));
                rep.violate("modes", &f);
                break 'o;
            }
        }
        base += sp.n as usize;
    }
    add_stats(rep, &spaces, &runs);
    rep.num("outcomes_compared_across_builds", total);
    rep.num("builds_compared", modes.len() as u64);
    Ok(())
}

/// Same function, different arguments: what differs?
pub fn only_tail_differs(a: &Case, b: &Case) -> bool {
    fn same_words(a: &[u8], b: &[u8]) -> bool {
        let n = a.len() / 8 * 8;
        a.len() == b.len() && a[..n] == b[..n]
    }
    match (a, b) {
        (Case::Kdf { k, pwd, salt, t, r, c }, Case::Kdf { k: k2, pwd: p2, salt: s2, t: t2, r: r2, c: c2 }) => {
            (k, t, r, c) == (k2, t2, r2, c2) && same_words(&pwd.bytes(), &p2.bytes()) && same_words(&salt.bytes(), &s2.bytes())
        }
        (Case::Sum(a), Case::Sum(b)) => same_words(&a.bytes(), &b.bytes()),
        _ => false,
    }
}
fn same_args(a: &Case, b: &Case) -> bool {
    match (a, b) {
        (Case::Kdf { k, pwd, salt, t, r, c }, Case::Kdf { k: k2, pwd: p2, salt: s2, t: t2, r: r2, c: c2 }) => {
            (k, t, r, c) == (k2, t2, r2, c2) && pwd.bytes() == p2.bytes() && salt.bytes() == s2.bytes()
        }
        (Case::Sum(a), Case::Sum(b)) => a.bytes() == b.bytes(),
        (Case::Hash(f, a), Case::Hash(g, b)) => f == g && a.bytes() == b.bytes(),
        _ => false,
    }
}
fn func(c: &Case) -> u8 {
    match c {
        Case::Kdf { .. } => 0,
        Case::Sum(_) => 1,
        Case::Hash(a, _) => 2 + *a as u8,
        Case::Stage(..) => 9,
    }
}

/// C09: all pairs within each function, by sorting all digests.
pub fn binding(rep: &mut Report, tier: &str, known_tail: bool) -> Result<(), String> {
    let spaces = spaces_for("C09", rep.thorough, exec::HOOKS);
    let f = scratch().join("out");
    let r = supervise(&bin("release")?, &["C09", tier, f.to_str().unwrap()], &spaces)?;
    for v in &r.violations {
        rep.violate("case", &[("build", "release".into()), ("case", v.case.clone()), ("expected", v.expected.clone()), ("got", v.got.clone())]);
    }
    if !rep.violations.is_empty() {
        add_stats(rep, &spaces, &[("release", r)]);
        return Ok(());
    }
    let data = std::fs::read(&f).map_err(|e| e.to_string())?;
    let total: u64 = spaces.iter().map(|s| s.n).sum();
    if data.len() as u64 != total * 16 {
        return Err("outcome file incomplete".into());
    }
    let mut recs: Vec<(u128, u32, u64)> = Vec::with_capacity(total as usize);
    let mut at = 0;
    for (si, sp) in spaces.iter().enumerate() {
        for i in 0..sp.n {
            let d = u128::from_le_bytes(data[at..at + 16].try_into().unwrap());
            at += 16;
            if d != 0 {
                recs.push((d, si as u32, i));
            }
        }
    }
    drop(data);
    recs.sort_unstable();
    let (mut pairs_equal_args, mut tail) = (0u64, 0u64);
    let mut tail_sample = None;
    let mut funcs = [0u64; 16];
    let mut i = 0;
    while i < recs.len() {
        let mut j = i + 1;
        while j < recs.len() && recs[j].0 == recs[i].0 {
            j += 1;
        }
        if j - i > 1 {
            let cases: Vec<Case> = recs[i..j].iter().map(|x| (spaces[x.1 as usize].case)(x.2)).collect();
            for x in 1..cases.len() {
                for y in 0..x {
                    if rep.violations.len() >= 3 {
                        break;
                    }
                    if func(&cases[x]) != func(&cases[y]) {
                        continue;
                    }
                    if same_args(&cases[x], &cases[y]) {
                        pairs_equal_args += 1;
                    } else if known_tail && only_tail_differs(&cases[x], &cases[y]) {
                        tail += 1;
                        tail_sample.get_or_insert((cases[y].show(), cases[x].show()));
                    } else if rep.violations.len() < 3 {
                        rep.violate("pair", &[("build", "release".into()), ("case", cases[y].show()), ("case2", cases[x].show()), ("expected", "different digests".into()), ("got", format!("both start with {}", vcommon::hex(&recs[i].0.to_le_bytes())))]);
                    }
                }
            }
        }
        i = j;
    }
    for x in &recs {
        funcs[func(&(spaces[x.1 as usize].case)(0)) as usize] += 1;
    }
    let compared: u64 = funcs.iter().map(|n| n.saturating_sub(1) * n / 2).sum();
    add_stats(rep, &spaces, &[("release", r)]);
    rep.num("pairs_of_calls_compared", compared);
    rep.num("pairs_with_identical_arguments", pairs_equal_args);
    rep.num("pairs_differing_only_in_ignored_tail_bytes", tail);
    if let Some((a, b)) = tail_sample {
        rep.known.push(format!("lyra2::lyra2::lyra2 and lyra2::lyra2::sum ignore the bytes after the last complete 8-byte word of password and salt ({tail} pairs, e.g. '{a}' and '{b}')"));
    }
    Ok(())
}
