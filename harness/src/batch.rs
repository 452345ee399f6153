//! Compiles real `parsegen::parser!` invocations with rustc, many per crate, and runs them under
//! `vref::drive`.
use crate::json::J;
use crate::pool::JOBS;
use crate::render::Pres;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Kind {
    Case { enc: String, terms: Vec<String>, bound: String, explore: bool, inputs: Vec<String> },
    /// `pub fn check(r: &mut ::vref::drive::Report)`
    Custom,
    /// Only has to compile.
    Compile,
}

#[derive(Clone, Debug)]
pub struct Mod {
    pub text: String,
    pub kind: Kind,
    /// What a reader needs to know about it.
    pub label: String,
}

impl Mod {
    pub fn of(p: &Pres, explore: bool, inputs: Vec<String>) -> Mod {
        Mod {
            text: p.module(),
            kind: Kind::Case {
                enc: p.g.to_string(),
                terms: p.t.clone(),
                bound: p.bound(),
                explore,
                inputs,
            },
            label: p.g.to_string(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub module: usize,
    pub entry: usize,
    pub input: String,
    pub why: String,
    pub exp: String,
    pub act: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Compiled {
    Yes,
    /// The macro panicked.
    Rejected(String),
    /// The macro's output, or its compile_error.
    Error(String),
    /// rustc was killed or hung on this module alone.
    Crash(String),
}

#[derive(Default, Debug)]
pub struct Outcome {
    pub compiled: Vec<Option<Compiled>>,
    pub violations: Vec<Viol>,
    pub stats: BTreeMap<String, u64>,
    pub crates: u64,
}

pub struct Args {
    pub prop: String,
    pub mode: String,
    pub budget: usize,
    pub preempt: usize,
    pub repeat: usize,
    pub per_crate: usize,
    /// Index into `CONFIGS`.
    pub config: usize,
}

/// Edition and code generation of the crates that use the macro.
pub const CONFIGS: &[(&str, &[&str])] = &[
    ("2021", &["-Copt-level=0", "-Cdebug-assertions=on", "-Coverflow-checks=on"]),
    ("2015", &["-Copt-level=0", "-Cdebug-assertions=off", "-Coverflow-checks=off"]),
    ("2018", &["-Copt-level=0", "-Cdebug-assertions=on", "-Coverflow-checks=off"]),
    ("2024", &["-Copt-level=0", "-Cdebug-assertions=off", "-Coverflow-checks=on"]),
    ("2021", &["-Copt-level=2", "-Cdebug-assertions=off", "-Coverflow-checks=off"]),
    // every other module is the expansion of a `macro_rules!` macro, the others pass the grammar
    // through one
    (MACRO_RULES, &["-Copt-level=0", "-Cdebug-assertions=on", "-Coverflow-checks=on"]),
];
const MACRO_RULES: &str = "2021 from macro_rules";

impl Args {
    pub fn new(prop: &str) -> Args {
        Args { prop: prop.into(), mode: "inputs".into(), budget: 200, preempt: 2, repeat: 300, per_crate: 48, config: 0 }
    }
    pub fn mode(mut self, m: &str) -> Args {
        self.mode = m.into();
        self
    }
    pub fn budget(mut self, b: usize) -> Args {
        self.budget = b;
        self
    }
    fn argv(&self) -> Vec<String> {
        vec![
            format!("prop={}", self.prop),
            format!("mode={}", self.mode),
            format!("budget={}", self.budget),
            format!("preempt={}", self.preempt),
            format!("repeat={}", self.repeat),
        ]
    }
}

static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
pub static CAPPED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Seconds since the first call (at the start of the check).
pub fn clock() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_secs()
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}

fn deadline() -> u64 {
    static D: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    *D.get_or_init(|| {
        std::env::var("VMC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 10_800 } else { 600 })
    })
}

/// No new work: a check always gives an answer. What was left out is reported as a cap.
pub fn time_up() -> bool {
    let up = clock() > deadline();
    if up {
        CAPPED.store(true, Ordering::Relaxed);
    }
    up
}

/// Limit for one process, so that the whole stays within the deadline and two minutes.
fn within(limit: u64) -> u64 {
    limit.min((deadline() + 120).saturating_sub(clock()).max(20))
}

pub fn target() -> PathBuf {
    PathBuf::from(std::env::var("VMC_TARGET").expect("VMC_TARGET"))
}

fn raw_str(s: &str) -> String {
    let mut h = String::from("#");
    while s.contains(&format!("\"{h}")) {
        h.push('#');
    }
    format!("r{h}\"{s}\"{h}")
}

/// Source of a crate with these modules, and the line range of each.
pub fn crate_source(mods: &[(usize, &Mod)], config: usize) -> (String, Vec<(usize, usize)>) {
    let mut s = String::from("#![allow(warnings)]\n#![recursion_limit = \"1024\"]\n");
    if CONFIGS[config].0 == "2015" {
        s.push_str("#[macro_use] extern crate parsegen; #[macro_use] extern crate vref;");
    }
    if CONFIGS[config].0 == MACRO_RULES {
        s.push_str("macro_rules! pass_on { ($($t:tt)*) => { ::parsegen::parser! { $($t)* } } }");
    }
    // see `vref::Same`
    s.push_str("#[derive(Debug, Clone)] pub struct Same(pub u32);\n");
    let mut line = 4;
    let mut ranges = vec![];
    for (id, m) in mods {
        let mut text = format!("pub mod m{id} {{\n{}}}", m.text);
        if CONFIGS[config].0 == MACRO_RULES {
            text = if ranges.len() % 2 == 0 {
                format!("macro_rules! w{id} {{ () => {{ {text} }} }} w{id}! {{}}")
            } else {
                text.replace("::parsegen::parser!", "pass_on!")
            };
        }
        let text = format!("// {}\n{text}\n", m.label.replace('\n', " "));
        let n = text.matches('\n').count();
        ranges.push((line, line + n - 1));
        line += n;
        s.push_str(&text);
    }
    s.push_str("fn main() {\n  let cases: Vec<::vref::drive::Case> = vec![\n");
    for (id, m) in mods {
        if let Kind::Case { enc, terms, bound, explore, inputs } = &m.kind {
            let ts: Vec<String> = terms.iter().map(|t| format!("{t:?}")).collect();
            let ins: Vec<String> = inputs.iter().map(|t| raw_str(t)).collect();
            s.push_str(&format!(
                "    ::vref::drive::Case {{ id: {id}, enc: {}, terms: &[{}], bound: {}, run: m{id}::run, explore: {explore}, inputs: &[{}] }},\n",
                raw_str(enc), ts.join(", "), raw_str(bound), ins.join(", ")
            ));
        }
    }
    s.push_str("  ];\n  let customs: Vec<::vref::drive::Custom> = vec![\n");
    for (id, m) in mods {
        if matches!(m.kind, Kind::Custom) {
            s.push_str(&format!("    ::vref::drive::Custom {{ id: {id}, run: m{id}::check }},\n"));
        }
    }
    s.push_str("  ];\n  ::vref::drive::main(&cases, &customs);\n}\n");
    (s, ranges)
}

pub fn rustc_args(src: &Path, out: &Path, config: usize) -> Vec<String> {
    let t = target();
    let dbg = t.join("debug");
    let mut v: Vec<String> = vec![
        "--edition".into(),
        CONFIGS[config].0[..4].into(),
        "--error-format=json".into(),
        "-Cdebuginfo=0".into(),
        "-Ccodegen-units=2".into(),
    ];
    v.extend(CONFIGS[config].1.iter().map(|s| s.to_string()));
    v.extend([
        "--extern".into(),
        format!("parsegen={}", dbg.join("libparsegen.so").display()),
        "--extern".into(),
        format!("vref={}", dbg.join("libvref.rlib").display()),
        "-L".into(),
        format!("dependency={}", dbg.join("deps").display()),
        "-o".into(),
        out.display().to_string(),
        src.display().to_string(),
    ]);
    v
}

pub struct Proc {
    pub stdout: String,
    pub stderr: String,
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timed_out: bool,
}

pub fn run_cmd(mut c: Command, limit: u64) -> Proc {
    use std::os::unix::process::ExitStatusExt;
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = c.spawn().expect("spawn");
    let mut o = ch.stdout.take().unwrap();
    let mut e = ch.stderr.take().unwrap();
    let ho = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = o.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let he = std::thread::spawn(move || {
        // keep the beginning and the end
        let mut head: Vec<String> = vec![];
        let mut tail: std::collections::VecDeque<String> = Default::default();
        let mut r = BufReader::new(&mut e);
        let mut buf = vec![];
        loop {
            buf.clear();
            match r.read_until(b'\n', &mut buf) {
                Ok(0) | Err(_) => break,
                _ => {}
            }
            let l = String::from_utf8_lossy(&buf).into_owned();
            if head.len() < 3000 {
                head.push(l);
            } else {
                tail.push_back(l);
                if tail.len() > 50 {
                    tail.pop_front();
                }
            }
        }
        head.extend(tail);
        head.concat()
    });
    let start = Instant::now();
    let mut timed_out = false;
    let st = loop {
        match ch.try_wait().unwrap() {
            Some(s) => break s,
            None => {
                if start.elapsed().as_secs() > limit {
                    timed_out = true;
                    let _ = ch.kill();
                    break ch.wait().unwrap();
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    };
    Proc {
        stdout: ho.join().unwrap(),
        stderr: he.join().unwrap(),
        code: st.code(),
        signal: st.signal(),
        timed_out,
    }
}

fn rustc() -> Command {
    let mut c = Command::new("rustc");
    c.env_remove("RUST_BACKTRACE");
    c
}

pub struct CompileErr {
    /// lines of the source file it points to
    pub lines: BTreeSet<usize>,
    pub msg: String,
    pub panicked: bool,
    /// It has an error code: not the parser's, nor a macro's.
    pub code: bool,
}

fn span_lines(sp: &J, file: &str, out: &mut BTreeSet<usize>) {
    if sp.get("file_name").str() == file {
        out.insert(sp.get("line_start").num() as usize);
    }
    let ex = sp.get("expansion");
    if *ex != J::Null {
        span_lines(ex.get("span"), file, out);
    }
}

pub fn compile_errors(stderr: &str, file: &str) -> Vec<CompileErr> {
    let mut v = vec![];
    for l in stderr.lines() {
        let Some(j) = J::parse(l) else { continue };
        if j.get("level").str() != "error" {
            continue;
        }
        let msg = j.get("message").str().to_owned();
        if msg.starts_with("aborting due to") {
            continue;
        }
        let mut lines = BTreeSet::new();
        for sp in j.get("spans").arr() {
            if sp.get("is_primary").truth() {
                span_lines(sp, file, &mut lines);
            }
        }
        let mut full = msg.clone();
        for c in j.get("children").arr() {
            full.push_str("; ");
            full.push_str(c.get("message").str());
        }
        v.push(CompileErr { code: *j.get("code") != J::Null, lines, panicked: msg.contains("proc macro panicked"), msg: full });
    }
    v
}

static SEQ: AtomicUsize = AtomicUsize::new(0);

pub fn scratch() -> PathBuf {
    let d = target().join("vmc-run").join(std::process::id().to_string());
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn cleanup() {
    let d = target().join("vmc-run").join(std::process::id().to_string());
    let _ = std::fs::remove_dir_all(&d);
}

const RUSTC_LIMIT: u64 = 240;

/// Compile and run one batch. `Err` is an error of the machinery.
fn one_batch(mods: &[(usize, &Mod)], args: &Args, out: &Mutex<Outcome>) -> Result<(), String> {
    let mut live: Vec<(usize, &Mod)> = mods.to_vec();
    let dir = scratch();
    loop {
        if live.is_empty() {
            return Ok(());
        }
        let k = SEQ.fetch_add(1, Ordering::Relaxed);
        let src = dir.join(format!("b{k}.rs"));
        let bin = dir.join(format!("b{k}"));
        let (text, ranges) = crate_source(&live, args.config);
        std::fs::write(&src, &text).unwrap();
        let mut c = rustc();
        c.args(rustc_args(&src, &bin, args.config));
        let limit = within(RUSTC_LIMIT);
        let r = run_cmd(c, limit);
        if r.timed_out && limit < RUSTC_LIMIT {
            CAPPED.store(true, Ordering::Relaxed);
            let _ = std::fs::remove_file(&src);
            return Ok(());
        }
        out.lock().unwrap().crates += 1;
        if r.code == Some(0) {
            for (id, _) in &live {
                out.lock().unwrap().compiled[*id].get_or_insert(Compiled::Yes);
            }
            let res = run_bin(&bin, &live, args, out);
            let _ = std::fs::remove_file(&bin);
            let _ = std::fs::remove_file(&src);
            return res;
        }
        let errs = compile_errors(&r.stderr, &src.display().to_string());
        let mut bad: BTreeMap<usize, Compiled> = BTreeMap::new();
        for e in &errs {
            for l in &e.lines {
                if let Some(i) = ranges.iter().position(|(a, b)| a <= l && l <= b) {
                    let id = live[i].0;
                    let v = if e.panicked {
                        Compiled::Rejected(e.msg.clone())
                    } else {
                        Compiled::Error(e.msg.clone())
                    };
                    let slot = bad.entry(id).or_insert_with(|| v.clone());
                    if e.panicked {
                        *slot = v;
                    }
                }
            }
        }
        let _ = std::fs::remove_file(&src);
        if !bad.is_empty() {
            live.retain(|(id, _)| !bad.contains_key(id));
            let mut o = out.lock().unwrap();
            for (id, v) in bad {
                o.compiled[id] = Some(v);
            }
            continue;
        }
        // not attributable: bisect
        if live.len() == 1 {
            let why = if r.timed_out {
                format!("rustc does not finish within {RUSTC_LIMIT} s")
            } else if let Some(s) = r.signal {
                format!("rustc killed by signal {s}")
            } else {
                format!("rustc failed: {}", r.stderr.chars().take(2000).collect::<String>())
            };
            out.lock().unwrap().compiled[live[0].0] = Some(Compiled::Crash(why));
            return Ok(());
        }
        let (a, b) = live.split_at(live.len() / 2);
        one_batch(a, args, out)?;
        return one_batch(b, args, out);
    }
}

fn run_bin(bin: &Path, live: &[(usize, &Mod)], args: &Args, out: &Mutex<Outcome>) -> Result<(), String> {
    let full: u64 = std::env::var("VMC_BATCH_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 7000 } else { 700 });
    let limit = within(full);
    let mut c = Command::new(bin);
    c.args(args.argv());
    let t0 = Instant::now();
    let r = run_cmd(c, limit);
    let cut_short = r.timed_out && limit < full;
    if std::env::var_os("VMC_LOG").is_some() && t0.elapsed().as_secs() >= 2 {
        let l: Vec<&str> = live.iter().take(3).map(|m| m.1.label.as_str()).collect();
        eprintln!("[{:?}] batch of {}: {}", t0.elapsed(), live.len(), l.join(" ; ").chars().take(300).collect::<String>());
    }
    let mut finished = false;
    let mut violated = false;
    for l in r.stdout.lines() {
        let Some(j) = J::parse(l) else { continue };
        if violated && (j.has("oracle_error") || j.has("harness_error")) {
            // what was seen before stands
            return Ok(());
        }
        if j.has("oracle_error") {
            return Err(format!("reference models disagree: {}", j.get("oracle_error").str()));
        }
        if j.has("harness_error") {
            return Err(format!("harness: {}", j.get("harness_error").str()));
        }
        let mut o = out.lock().unwrap();
        if j.get("violation").truth() {
            violated = true;
            if j.has("hang") {
                finished = true;
            }
            o.violations.push(Viol {
                module: j.get("case").num() as usize,
                entry: j.get("entry").num() as usize,
                input: j.get("input").str().into(),
                why: j.get("why").str().into(),
                exp: j.get("exp").str().into(),
                act: j.get("act").str().into(),
            });
        }
        if j.get("stats").truth() {
            finished = true;
            if let J::Obj(m) = &j {
                for (k, v) in m {
                    if let J::Num(n) = v {
                        let e = o.stats.entry(k.clone()).or_insert(if k == "min_depth" {
                            u64::MAX
                        } else {
                            0
                        });
                        match k.as_str() {
                            "min_depth" => *e = (*e).min(*n as u64),
                            "max_depth" => *e = (*e).max(*n as u64),
                            _ => *e += *n as u64,
                        }
                    }
                }
            }
        }
    }
    if finished {
        return Ok(());
    }
    if cut_short {
        CAPPED.store(true, Ordering::Relaxed);
        return Ok(());
    }
    if r.timed_out {
        return Err(format!("batch still running after {limit} s"));
    }
    // it died: find out where
    let mut c = Command::new(bin);
    c.args(args.argv()).arg("trace=1");
    let r = run_cmd(c, limit);
    let last = r.stderr.lines().filter(|l| l.starts_with("RUN ")).last().map(|s| s.to_owned());
    let (case, entry, input) = match &last {
        Some(l) => {
            let (head, input) = l[4..].split_once(':').unwrap_or((&l[4..], ""));
            let mut w = head.split_whitespace();
            (
                w.next().and_then(|x| x.parse().ok()).unwrap_or(live[0].0),
                w.next().and_then(|x| x.parse().ok()).unwrap_or(0),
                input.trim().to_owned(),
            )
        }
        None => {
            return Err(format!(
                "batch ended with code {:?} signal {:?}: {}",
                r.code,
                r.signal,
                r.stderr.chars().take(500).collect::<String>()
            ))
        }
    };
    out.lock().unwrap().violations.push(Viol {
        module: case,
        entry,
        input,
        why: format!("the process dies during the parse (code {:?}, signal {:?})", r.code, r.signal),
        exp: String::new(),
        act: String::new(),
    });
    Ok(())
}

/// Compile and run all modules. Module ids in the outcome are indices into `mods`.
pub fn run(mods: &[Mod], args: &Args) -> Result<Outcome, String> {
    let out = Mutex::new(Outcome { compiled: vec![None; mods.len()], ..Outcome::default() });
    let next = AtomicUsize::new(0);
    let err: Mutex<Option<String>> = Mutex::new(None);
    let mut batches: Vec<Vec<(usize, &Mod)>> = vec![];
    let mut cur: Vec<(usize, &Mod)> = vec![];
    let mut bytes = 0;
    // small crates when there is little to do, so that all cores work
    let per = args.per_crate.min((mods.len() + JOBS - 1) / JOBS).max(1);
    for (i, m) in mods.iter().enumerate() {
        bytes += m.text.len();
        cur.push((i, m));
        if cur.len() >= per || bytes > 120_000 {
            batches.push(std::mem::take(&mut cur));
            bytes = 0;
        }
    }
    if !cur.is_empty() {
        batches.push(cur);
    }
    std::thread::scope(|sc| {
        for _ in 0..JOBS {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= batches.len() || err.lock().unwrap().is_some() || time_up() {
                    break;
                }
                if out.lock().unwrap().violations.len() > 200 {
                    break;
                }
                if let Err(e) = one_batch(&batches[i], args, &out) {
                    *err.lock().unwrap() = Some(e);
                }
            });
        }
    });
    if let Some(e) = err.into_inner().unwrap() {
        if out.lock().unwrap().violations.is_empty() {
            return Err(e);
        }
        eprintln!("after violations: {e}");
    }
    Ok(out.into_inner().unwrap())
}
