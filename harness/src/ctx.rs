//! Bookkeeping of one check: findings, evidence, replay artefacts.
use crate::batch::{self, Mod};
use crate::json::{quote, J};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

pub struct Finding {
    /// Identifies the failing input; stable across runs.
    pub key: String,
    pub what: String,
    pub module: Option<Mod>,
    /// Arguments for the compiled module's driver, or empty if compiling it is the demonstration.
    pub args: Vec<String>,
    /// Macro input, if the demonstration is an expansion.
    pub body: Option<String>,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub findings: Mutex<Vec<Finding>>,
    pub cov: Mutex<BTreeMap<String, J>>,
    pub samples: Mutex<Vec<J>>,
    pub bounds: Mutex<Vec<String>>,
    pub assumptions: Vec<String>,
    pub level: &'static str,
    pub exhaustive: Mutex<bool>,
    blind: Mutex<bool>,
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VMC_ROOT").expect("VMC_ROOT"))
}

impl Ctx {
    pub fn new(prop: &str) -> Ctx {
        let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
        let tier = if tier == "thorough" { "thorough" } else { "quick" };
        Ctx {
            prop: prop.into(),
            thorough: tier == "thorough",
            tier: tier.into(),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            findings: Mutex::new(vec![]),
            cov: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            bounds: Mutex::new(vec![]),
            assumptions: vec![],
            level: "model_checking",
            exhaustive: Mutex::new(true),
            blind: Mutex::new(std::env::var_os("VMC_BLIND").is_some()),
        }
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// The model layer cannot read the tables.
    pub fn blind(&self) {
        let mut b = self.blind.lock().unwrap();
        if !*b {
            *b = true;
            self.capped("the form of the emitted tables is not known: model layer skipped, execution layer enlarged");
        }
    }

    /// Bounds of the execution layer, larger if it is the only one.
    pub fn pick3<T>(&self, quick: T, blind: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else if *self.blind.lock().unwrap() {
            blind
        } else {
            quick
        }
    }

    pub fn add(&self, k: &str, n: u64) {
        let mut c = self.cov.lock().unwrap();
        let e = c.entry(k.to_owned()).or_insert(J::Num(0.0));
        if let J::Num(x) = e {
            *x += n as f64;
        }
    }

    pub fn max(&self, k: &str, n: u64) {
        let mut c = self.cov.lock().unwrap();
        let e = c.entry(k.to_owned()).or_insert(J::Num(0.0));
        if let J::Num(x) = e {
            *x = x.max(n as f64);
        }
    }

    pub fn get(&self, k: &str) -> u64 {
        self.cov.lock().unwrap().get(k).map_or(0, |j| j.num())
    }

    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }

    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(J::Str(s.into()));
        }
    }

    pub fn capped(&self, what: &str) {
        *self.exhaustive.lock().unwrap() = false;
        self.bound(format!("CAPPED: {what}"));
    }

    pub fn elapsed(&self) -> u64 {
        self.start.elapsed().as_secs()
    }

    pub fn finding(&self, f: Finding) {
        let mut v = self.findings.lock().unwrap();
        if v.len() < 500 && !v.iter().any(|g| g.key == f.key) {
            v.push(f);
        }
    }

    /// Writes evidence, prints verdicts; the exit code.
    pub fn finish(self) -> i32 {
        if batch::CAPPED.load(std::sync::atomic::Ordering::Relaxed) {
            self.capped("time limit reached, the rest of the exploration was left out");
        }
        let known = known_findings(&self.prop);
        let findings = self.findings.into_inner().unwrap();
        let mut new: Vec<&Finding> = vec![];
        let mut seen_known: BTreeSet<&str> = BTreeSet::new();
        for f in &findings {
            match known.iter().find(|(k, _)| *k == f.key) {
                Some((k, _)) => {
                    seen_known.insert(k);
                }
                None => new.push(f),
            }
        }
        for (k, what) in &known {
            // listed findings are printed on every run that explores them
            if seen_known.contains(k.as_str()) {
                println!("KNOWN-FINDING: property={} {what}", self.prop);
            }
        }
        let mut cov = self.cov.into_inner().unwrap();
        cov.insert("samples".into(), J::Arr(self.samples.into_inner().unwrap()));
        cov.insert(
            "bounds".into(),
            J::Arr(self.bounds.into_inner().unwrap().into_iter().map(J::Str).collect()),
        );
        cov.insert("exhaustive".into(), J::Bool(*self.exhaustive.lock().unwrap()));
        for k in ["states", "transitions", "traces_validated_against_impl"] {
            cov.entry(k.into()).or_insert(J::Num(0.0));
        }
        let mut ev = BTreeMap::new();
        ev.insert("property".to_owned(), J::Str(self.prop.clone()));
        ev.insert("tier".to_owned(), J::Str(self.tier.clone()));
        ev.insert("seed".to_owned(), J::Num(self.seed as f64));
        ev.insert("level".to_owned(), J::Str(self.level.into()));
        ev.insert("coverage".to_owned(), J::Obj(cov));
        ev.insert(
            "assumptions".to_owned(),
            J::Arr(self.assumptions.iter().cloned().map(J::Str).collect()),
        );
        ev.insert("wall_s".to_owned(), J::Num(self.start.elapsed().as_millis() as f64 / 1000.0));
        ev.insert("violations".to_owned(), J::Num(new.len() as f64));
        let dir = root().join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join(format!("{}.json", self.prop)), J::Obj(ev).to_string() + "\n").unwrap();
        if new.is_empty() {
            println!("OK property={} tier={} ({} s)", self.prop, self.tier, self.start.elapsed().as_secs());
            return 0;
        }
        let rdir = root().join("replay").join(&self.prop);
        let _ = std::fs::remove_dir_all(&rdir);
        std::fs::create_dir_all(&rdir).unwrap();
        // shortest first, a few
        new.sort_by_key(|f| f.key.len());
        for (i, f) in new.iter().take(5).enumerate() {
            let path = write_replay(&rdir, i, f);
            println!("VIOLATION property={} replay={path}", self.prop);
            let what: String = f
                .what
                .chars()
                .take(20_000)
                .map(|c| if c.is_control() && c != '\n' { c.escape_default().to_string() } else { c.to_string() })
                .collect();
            println!("  {}", what.replace('\n', "\n  "));
        }
        if new.len() > 5 {
            println!("  ({} more)", new.len() - 5);
        }
        1
    }
}

fn write_replay(dir: &PathBuf, i: usize, f: &Finding) -> String {
    let base = dir.join(format!("{i}"));
    std::fs::create_dir_all(&base).unwrap();
    std::fs::write(base.join("what.txt"), format!("{}\n\n{}\n", f.what, f.key)).unwrap();
    let mut script = String::from(
        "#!/bin/bash\n# Rebuilds /repo's macro, then compiles and runs the failing case.\ncd \"$(dirname \"$0\")\" || exit 2\n",
    );
    let runsh = root().join("run.sh");
    if let Some(b) = &f.body {
        std::fs::write(base.join("input.txt"), b).unwrap();
        script.push_str(&format!("exec {} expand \"$PWD/input.txt\"\n", runsh.display()));
    } else if let Some(m) = &f.module {
        let (src, _) = batch::crate_source(&[(0, m)], f.args.iter().find_map(|x| x.strip_prefix("config=")).map_or(0, |x| x.parse().unwrap()));
        std::fs::write(base.join("case.rs"), src).unwrap();
        let args: Vec<String> = f.args.iter().map(|a| format!("'{a}'")).collect();
        script.push_str(&format!("exec {} run-case \"$PWD/case.rs\" {}\n", runsh.display(), args.join(" ")));
    }
    let p = base.join("replay.sh");
    std::fs::write(&p, script).unwrap();
    use std::os::unix::fs::PermissionsExt;
    let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755));
    p.display().to_string()
}

/// `finding: property=<id> key=<json string> what=<text>` lines of known_findings.txt.
fn known_findings(prop: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) else { return vec![] };
    let mut out = vec![];
    for l in s.lines() {
        let Some(r) = l.strip_prefix(&format!("finding: property={prop} key=")) else { continue };
        let Some((k, what)) = r.split_once(" what=") else { continue };
        if let Some(J::Str(k)) = J::parse(k) {
            out.push((k, what.to_owned()));
        }
    }
    out
}

#[allow(dead_code)]
pub fn known_line(prop: &str, f: &Finding) -> String {
    format!("finding: property={prop} key={} what={}", quote(&f.key), f.what.replace('\n', " "))
}
