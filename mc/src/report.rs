//! Verdict, replay files and evidence of one check run.
use std::fmt::Write as _;
use std::time::Instant;

pub struct Report {
    pub prop: String,
    pub thorough: bool,
    pub t0: Instant,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<String>,
    /// (name, JSON value)
    pub extra: Vec<(String, String)>,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
    /// replay file bodies
    pub violations: Vec<String>,
    pub known: Vec<String>,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Report {
    pub fn new(prop: &str, thorough: bool) -> Report {
        Report {
            prop: prop.into(),
            thorough,
            t0: Instant::now(),
            states: 0,
            transitions: 0,
            traces: 0,
            samples: vec![],
            extra: vec![],
            assumptions: vec![],
            exhaustive: true,
            violations: vec![],
            known: vec![],
        }
    }
    pub fn num(&mut self, k: &str, v: u64) {
        self.extra.push((k.into(), v.to_string()));
    }
    pub fn text(&mut self, k: &str, v: &str) {
        self.extra.push((k.into(), jstr(v)));
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 40 {
            self.samples.push(s.into());
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    /// A violation: `kind` and the lines needed to replay it.
    pub fn violate(&mut self, kind: &str, lines: &[(&str, String)]) {
        let mut b = format!("property: {}\nkind: {}\n", self.prop, kind);
        for (k, v) in lines {
            let _ = writeln!(b, "{}: {}", k, v.replace('\n', " "));
        }
        self.violations.push(b);
    }
    /// Writes evidence and replay files, prints the verdict, returns the exit code.
    pub fn finish(mut self, root: &str) -> i32 {
        let mut j = String::new();
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let arr = |v: &[String]| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   ");
        self.extra.insert(0, ("bounded_space_exhausted".into(), (self.exhaustive && self.violations.is_empty()).to_string()));
        let extra: String = self.extra.iter().map(|(k, v)| format!(",\n  {}: {}", jstr(k), v)).collect();
        let _ = write!(
            j,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"samples\": [\n   {}\n  ]{}\n }},\n \"assumptions\": [\n   {}\n ],\n \"known_findings\": [\n   {}\n ],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            jstr(&self.prop),
            if self.thorough { "\"thorough\"" } else { "\"quick\"" },
            seed,
            self.states,
            self.transitions,
            self.traces,
            arr(&self.samples),
            extra,
            arr(&self.assumptions),
            arr(&self.known),
            self.t0.elapsed().as_secs_f64(),
            self.violations.len()
        );
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        if let Err(e) = std::fs::write(format!("{root}/evidence/{}.json", self.prop), j) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        for k in &self.known {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        if self.violations.is_empty() {
            println!(
                "OK property={} states={} transitions={} traces={} wall={:.1}s",
                self.prop,
                self.states,
                self.transitions,
                self.traces,
                self.t0.elapsed().as_secs_f64()
            );
            return 0;
        }
        let _ = std::fs::create_dir_all(format!("{root}/replays"));
        for (i, b) in self.violations.iter().enumerate().take(5) {
            let path = format!("{root}/replays/{}-{}.txt", self.prop, i);
            let _ = std::fs::write(&path, b);
            print!("{b}");
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        1
    }
}
