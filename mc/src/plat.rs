//! C12: the same calls interpreted by Miri for other platforms (byte order x word size), with
//! undefined-behaviour checks, compared with the native build.
use crate::exec;
use crate::report::Report;
use vcommon::spaces::kdf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vcommon::{pat, patm, Alg, Case};

pub struct Target {
    pub triple: &'static str,
    pub what: &'static str,
    pub flags: &'static str,
}

pub fn targets(th: bool) -> Vec<Target> {
    let fast = "-Zmiri-disable-validation -Zmiri-disable-stacked-borrows";
    let mut v = vec![
        Target { triple: "i686-unknown-linux-gnu", what: "little endian, 32 bit", flags: "" },
        Target { triple: "s390x-unknown-linux-gnu", what: "big endian, 64 bit", flags: fast },
        Target { triple: "powerpc-unknown-linux-gnu", what: "big endian, 32 bit", flags: fast },
    ];
    if th {
        v.push(Target { triple: "x86_64-unknown-linux-gnu", what: "little endian, 64 bit", flags: "-Zmiri-symbolic-alignment-check" });
        for t in &mut v[1..3] {
            t.flags = "";
        }
    }
    v
}

/// Cases in groups of roughly equal cost.
pub fn cases(th: bool) -> Vec<Vec<Case>> {
    let l = |n: u64| pat('l', n as u32);
    let s = |n: u64| pat('L', n as u32);
    let mut a = Vec::new();
    for k in (0..=17).chain([31, 33, 63, 64, 65, 95, 96, 97, 100, 193]) {
        a.push(kdf(k, l(8), s(8), 1, 3, 1));
    }
    for p in [0, 1, 7, 8, 9, 16, 24] {
        for q in [0, 1, 7, 8, 9, 16] {
            a.push(kdf(32, l(p), s(q), 1, 3, 1));
        }
    }
    for r in 3..=if th { 17 } else { 8 } {
        for t in 1..=3 {
            a.push(kdf(32, l(8), s(8), t, r, 1));
        }
    }
    for c in 2..=if th { 12 } else { 5 } {
        a.push(kdf(32, l(8), s(8), 1, 4, c));
    }
    for k in ['z', 'f', 'h', 'r'] {
        a.push(kdf(24, pat(k, 16), pat(k, 16), 1, 4, 1));
    }
    for p in [40, 80, 81, 144, 200] {
        a.push(kdf(32, l(p), s(24), 1, 5, 2));
    }
    // rejected, and the last accepted input before that
    a.push(kdf(32, l(8), s(8), 0, 4, 4));
    a.push(kdf(32, l(8), s(8), 1, 2, 4));
    a.push(kdf(32, l(8), s(8), 1, 4, 0));
    for (r, c) in [(3, 1), (4, 1), (4, 4), (5, 1)] {
        let lim = (r * c * 96 / 64) * 64 - 48;
        a.push(kdf(32, l(lim - 1), s(0), 1, r, c));
        a.push(kdf(32, l(lim), s(0), 1, r, c));
        a.push(kdf(32, l(lim / 2), s(lim - lim / 2 - 1), 1, r, c));
        a.push(kdf(32, l(lim / 2), s(lim - lim / 2), 1, r, c));
    }
    for (r, c) in [(1u64 << 63, 4u64), ((1 << 63) + 4, 4), (1 << 62, 8), (4, 1 << 62), (u64::MAX, u64::MAX), (1 << 60, 16), (u64::MAX / 12 + 1, 3)] {
        a.push(kdf(32, l(8), s(8), 1, r, c));
    }
    for k in [1u64 << 63, (1 << 63) + (1 << 32), (1 << 63) + 32, u64::MAX - u32::MAX as u64, u64::MAX - 31, u64::MAX] {
        a.push(kdf(k, l(8), s(8), 1, 3, 1));
    }
    let mut b = Vec::new();
    for n in [0, 3, 8, 31, 32, 33, 64, 80, 200, 743, 744] {
        b.push(Case::Sum(l(n)));
    }
    let lens: &[u32] = if th { &[0, 1, 3, 8, 32, 54, 55, 56, 57, 63, 64, 65, 79, 80, 81, 111, 112, 119, 120, 127, 128, 129, 200, 256, 500, 1000] } else { &[0, 1, 3, 55, 56, 64, 80, 119, 120, 200] };
    let mut groups = vec![a, b];
    for alg in [Alg::Rev3, Alg::Rev2, Alg::Re, Alg::Z] {
        let mut g = Vec::new();
        for n in lens.iter().take(if alg == Alg::Z && !th { 7 } else { 99 }) {
            g.push(Case::Hash(alg, pat('l', *n)));
        }
        for k in ['z', 'f', 'h'] {
            g.push(Case::Hash(alg, pat(k, 80)));
        }
        for at in if th { vec![0u32, 7, 31, 63, 64, 76, 79] } else { vec![79] } {
            g.push(Case::Hash(alg, patm('l', 80, &[(at, 0x80)])));
        }
        groups.push(g);
    }
    let rev3 = groups.remove(2);
    groups[1].extend(rev3);
    groups
}

fn cargo(root: &str, t: &str, args: &[&str], flags: &str) -> Command {
    let mut c = Command::new("cargo");
    c.args(["miri"])
        .args(args)
        .current_dir(format!("{root}/mirirun"))
        .env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
        .env("CARGO_TARGET_DIR", format!("{root}/target/miri-{t}"))
        .env("XDG_CACHE_HOME", format!("{root}/target/miri-cache-{t}"))
        .env("CARGO_NET_OFFLINE", "true")
        .env("MIRIFLAGS", flags)
        .env_remove("RUSTFLAGS")
        .env_remove("MIRI_SYSROOT")
        .stdin(Stdio::null());
    c
}

fn run(mut c: Command, limit: Duration) -> Result<(bool, String, String), String> {
    use std::io::Read;
    let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("cargo miri: {e}"))?;
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let h1 = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = o.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let h2 = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = e.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    let ok = loop {
        match ch.try_wait().map_err(|e| e.to_string())? {
            Some(s) => break s.success(),
            None if t0.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                break false;
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    };
    Ok((ok, h1.join().unwrap(), h2.join().unwrap()))
}

/// Interprets the cases; one line per case, or why it stopped.
fn interpret(root: &str, t: &Target, cs: &[Case], limit: Duration) -> Result<Vec<Result<String, String>>, String> {
    let names: Vec<String> = cs.iter().map(|c| c.show()).collect();
    let mut args: Vec<&str> = vec!["run", "-q", "--offline", "--target", t.triple, "--"];
    args.extend(names.iter().map(|s| s.as_str()));
    let (ok, out, err) = run(cargo(root, t.triple, &args, t.flags), limit)?;
    let mut v: Vec<Result<String, String>> = out.lines().filter_map(|l| l.strip_prefix("OUTCOME ")).map(|s| Ok(s.to_string())).collect();
    if v.len() != cs.len() || !ok {
        let why = err.lines().find(|l| l.starts_with("error")).unwrap_or("no error message");
        if why.contains("Undefined Behavior") || why.contains("memory leaked") || err.contains("stack overflow") {
            v.push(Err(why.to_string()));
        } else {
            return Err(format!("{}: interpretation stopped after {} of {} calls: {}", t.triple, v.len(), cs.len(), err.lines().rev().take(12).collect::<Vec<_>>().join(" / ")));
        }
    }
    Ok(v)
}

fn setup(root: &str, t: &Target) -> Result<(), String> {
    let (ok, _, err) = run(cargo(root, t.triple, &["setup", "--target", t.triple], t.flags), Duration::from_secs(600))?;
    if !ok {
        return Err(format!("cargo miri setup {}: {}", t.triple, err.lines().rev().take(5).collect::<Vec<_>>().join(" / ")));
    }
    let (ok, out, err) = run(cargo(root, t.triple, &["run", "-q", "--offline", "--target", t.triple, "--", "sum in=t*8"], t.flags), Duration::from_secs(600))?;
    if !out.contains("OUTCOME") && !(err.contains("Undefined Behavior") && !ok) {
        return Err(format!("{}: {}", t.triple, err.lines().rev().take(12).collect::<Vec<_>>().join(" / ")));
    }
    Ok(())
}

/// One call or many on the wasm32 build: (differences as (case, expected, got), calls, panics)
fn wasm_run(root: &str, module: &str, cases: &str, limit: Duration, endless: bool) -> Result<(Vec<(String, String, String)>, u64, u64), String> {
    let mut c = Command::new("node");
    c.arg(format!("{root}/wasmrun/run.js")).arg(module).arg(cases).arg(format!("{:x}", vcommon::fp(&vcommon::Outcome::Panic))).stdin(Stdio::null());
    if endless {
        c.arg("700");
    }
    let (ok, out, err) = run(c, limit)?;
    let mut bad = Vec::new();
    let mut done = None;
    for l in out.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "BAD" if f.len() == 4 => bad.push((f[1].to_string(), f[2].to_string(), f[3].to_string())),
            "DONE" if f.len() == 3 => done = Some((f[1].parse().unwrap_or(0), f[2].parse().unwrap_or(0))),
            _ => {}
        }
    }
    match (ok, done) {
        (true, Some((n, p))) => Ok((bad, n, p)),
        _ => Err(format!("wasm32 run: {} {}", out.lines().last().unwrap_or(""), err.lines().rev().take(5).collect::<Vec<_>>().join(" / "))),
    }
}

/// The complete spaces on a 32-bit platform at compiled speed, outcome by outcome against the native build.
fn wasm_check(rep: &mut Report, root: &str) -> Result<Option<String>, String> {
    let module = std::env::var("MC_WASM").unwrap_or_default();
    if module.is_empty() {
        rep.text("wasm32", "not built on this tree; interpreted platforms only");
        return Ok(None);
    }
    let tier = if rep.thorough { "thorough" } else { "quick" };
    let spaces = vcommon::spaces::spaces_for("C12", rep.thorough, false);
    let f = crate::engine::scratch().join("native");
    let r = crate::engine::supervise(&crate::checks::bin("release")?, &["C12", tier, f.to_str().unwrap()], &spaces)?;
    if let Some(v) = r.violations.first() {
        rep.violate("case", &[("build", "release".into()), ("case", v.case.clone()), ("expected", v.expected.clone()), ("got", v.got.clone())]);
        return Ok(None);
    }
    let data = std::fs::read(&f).map_err(|e| e.to_string())?;
    let mut total: u64 = spaces.iter().map(|s| s.n).sum();
    if data.len() as u64 != total * 16 {
        return Err("outcome file incomplete".into());
    }
    let list = crate::engine::scratch().join("cases");
    {
        use std::io::Write;
        let mut w = std::io::BufWriter::new(std::fs::File::create(&list).map_err(|e| e.to_string())?);
        let mut at = 0;
        for sp in &spaces {
            for i in 0..sp.n {
                let fp = u128::from_le_bytes(data[at..at + 16].try_into().unwrap());
                at += 16;
                writeln!(w, "{fp:x}\t{}", (sp.case)(i).show()).map_err(|e| e.to_string())?;
            }
        }
        // no key where matrix or output cannot be addressed here (the 64-bit build would ask for the memory)
        for c in vcommon::spaces::beyond_32_bits() {
            writeln!(w, "{:x}\t{}", vcommon::fp(&vcommon::Outcome::Panic), c.show()).map_err(|e| e.to_string())?;
            total += 1;
        }
    }
    let (bad, n, panics) = wasm_run(root, &module, list.to_str().unwrap(), Duration::from_secs(if rep.thorough { 7200 } else { 500 }), false)?;
    for (case, want, got) in bad.into_iter().take(3) {
        rep.violate("platform", &[("target", "wasm32-unknown-unknown".into()), ("case", case), ("expected", format!("fingerprint {want}, as on x86-64 or of a panic where it cannot be addressed")), ("got", format!("fingerprint {got}"))]);
    }
    if rep.violations.is_empty() && n != total {
        return Err(format!("wasm32: {n} of {total} calls run"));
    }
    // time costs that take longer than any check: a call that comes back has not spent them
    let endless = vcommon::spaces::endless();
    std::fs::write(&list, endless.iter().map(|c| format!("no result\t{}\n", c.show())).collect::<String>()).map_err(|e| e.to_string())?;
    let (bad, m, _) = wasm_run(root, &module, list.to_str().unwrap(), Duration::from_secs(300), true)?;
    for (case, _, got) in bad.into_iter().take(3) {
        rep.violate("platform", &[("target", "wasm32-unknown-unknown".into()), ("case", case), ("expected", "no result within 0.7 s, as on x86-64: the work asked for takes longer".into()), ("got", got)]);
    }
    if rep.violations.is_empty() && m != endless.len() as u64 {
        return Err(format!("wasm32: {m} of {} calls run", endless.len()));
    }
    rep.num("wasm32_calls_that_must_not_come_back_within_700_ms", m);
    rep.traces += n;
    rep.states += n * 2;
    rep.transitions += n;
    for sp in &spaces {
        rep.sample(format!("{}[{}]: {}", sp.name, sp.n / 2, (sp.case)(sp.n / 2).show()));
    }
    Ok(Some(format!("{{\"target\": \"wasm32-unknown-unknown\", \"platform\": \"little endian, 32 bit, compiled\", \"calls\": {n}, \"panics\": {panics}, \"undefined_behaviour_checks\": \"none\"}}")))
}

pub fn check(rep: &mut Report, root: &str) -> Result<(), String> {
    exec::silence_panics();
    let th = rep.thorough;
    let wasm_row = wasm_check(rep, root)?;
    if !rep.violations.is_empty() {
        return Ok(());
    }
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("wasm done at {:.1}s", rep.t0.elapsed().as_secs_f64());
    }
    let limit = Duration::from_secs(if th { 7200 } else { 700 });
    let groups = cases(th);
    let ts = targets(th);
    // native outcomes
    let native: Vec<Vec<String>> = groups.iter().map(|g| g.iter().map(|c| exec::actual(c).show()).collect()).collect();
    let results: Vec<Result<Vec<Vec<Result<String, String>>>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = ts
            .iter()
            .map(|t| {
                let groups = &groups;
                s.spawn(move || {
                    setup(root, t)?;
                    std::thread::scope(|s2| {
                        let hs: Vec<_> = groups.iter().map(|g| s2.spawn(move || interpret(root, t, g, limit))).collect();
                        hs.into_iter().map(|h| h.join().unwrap()).collect::<Result<Vec<_>, String>>()
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut rows: Vec<String> = wasm_row.into_iter().collect();
    let mut errors = Vec::new();
    for (t, r) in ts.iter().zip(results) {
        let per_group = match r {
            Ok(x) => x,
            Err(e) => {
                errors.push(e);
                continue;
            }
        };
        let mut n = 0;
        for ((g, nat), got) in groups.iter().zip(&native).zip(&per_group) {
            for (i, o) in got.iter().enumerate() {
                n += 1;
                let (case, want) = if i < g.len() { (g[i].show(), nat[i].clone()) } else { ("(end of run)".into(), "no error".into()) };
                let bad = match o {
                    Ok(x) if *x == want => None,
                    Ok(x) => Some(x.clone()),
                    Err(e) => Some(e.clone()),
                };
                if let Some(b) = bad {
                    if rep.violations.len() < 3 {
                        rep.violate("platform", &[("target", t.triple.into()), ("flags", t.flags.into()), ("case", case), ("expected", want), ("got", b)]);
                    }
                }
            }
        }
        rep.traces += n;
        rep.states += n * 2;
        rep.transitions += n;
        rows.push(format!(
            "{{\"target\": \"{}\", \"platform\": \"{}\", \"calls\": {n}, \"undefined_behaviour_checks\": \"{}\"}}",
            t.triple,
            t.what,
            if t.flags.contains("disable") { "bounds, uninitialised memory, arithmetic" } else { "all, including aliasing and validity" }
        ));
    }
    if rep.violations.is_empty() && !errors.is_empty() {
        return Err(errors.join("; "));
    }
    rep.extra.push(("platforms".into(), format!("[\n   {}\n  ]", rows.join(",\n   "))));
    rep.num("distinct_calls", groups.iter().map(|g| g.len() as u64).sum());
    for g in &groups {
        for c in g.iter().step_by(g.len() / 5 + 1) {
            rep.sample(c.show());
        }
    }
    rep.assume("Miri interprets the platforms faithfully");
    Ok(())
}

pub fn replay(root: &str, triple: &str, case: &str) -> bool {
    exec::silence_panics();
    let Some(c) = Case::parse(case) else { return false };
    let all = targets(true);
    if triple.starts_with("wasm32") {
        let f = crate::engine::scratch().join("one");
        let listed = |v: Vec<Case>| v.iter().any(|x| x.show() == case);
        let endless = listed(vcommon::spaces::endless());
        let want = match &c {
            _ if endless => vcommon::Outcome::Panic,
            _ if listed(vcommon::spaces::beyond_32_bits()) => vcommon::Outcome::Panic,
            c => exec::actual(c),
        };
        let _ = std::fs::write(&f, format!("{:x}\t{case}\n", vcommon::fp(&want)));
        let r = wasm_run(root, &std::env::var("MC_WASM").unwrap_or_default(), f.to_str().unwrap(), Duration::from_secs(300), endless);
        let _ = std::fs::remove_dir_all(crate::engine::scratch());
        println!("{r:?}");
        return matches!(r, Ok((bad, _, _)) if !bad.is_empty());
    }
    let want = exec::actual(&c).show();
    let Some(t) = all.iter().find(|t| t.triple == triple) else { return false };
    if let Err(e) = setup(root, t) {
        println!("{e}");
        return false;
    }
    match interpret(root, t, &[c], Duration::from_secs(600)) {
        Ok(v) => {
            println!("native {want}; {triple} {v:?}");
            v.len() != 1 || v[0].as_deref() != Ok(want.as_str())
        }
        Err(e) => {
            println!("{e}");
            false
        }
    }
}
