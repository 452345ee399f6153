//! Explorer linked into every batch of compiled parsers. Enumerates inputs (and faults, histories,
//! nestings, schedules), runs the real parser on each, and compares with the reference model.
use crate::earley::Earley;
use crate::grammar::Grammar;
use crate::lr1::{build, Ev, Item, Lr1, Out, Pulled, Run, View};
use crate::rt::{real_run, Opts, RealRun, RunFn, FAULT};
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Case {
    pub id: usize,
    /// `Grammar` in its text form.
    pub enc: &'static str,
    pub terms: &'static [&'static str],
    /// Bound symbols per production: "10|1||".
    pub bound: &'static str,
    pub run: RunFn,
    /// Enumerate inputs?
    pub explore: bool,
    /// Explicit inputs, "entry: t0 t1*3 (t0 t1)*9 e5".
    pub inputs: &'static [&'static str],
}

pub fn parse_input(s: &str) -> (usize, Vec<Item>) {
    let (e, rest) = s.split_once(':').unwrap();
    fn item(w: &str) -> Item {
        let k = w[1..].parse().unwrap();
        if w.starts_with('t') {
            Item::Tok(k)
        } else {
            Item::Err(k)
        }
    }
    let mut out = vec![];
    let mut group: Option<Vec<Item>> = None;
    for w in rest.split_whitespace() {
        let mut w = w;
        if let Some(r) = w.strip_prefix('(') {
            group = Some(vec![]);
            w = r;
        }
        if let Some((a, n)) = w.split_once(")*") {
            let mut g = group.take().unwrap();
            g.push(item(a));
            for _ in 0..n.parse::<usize>().unwrap() {
                out.extend_from_slice(&g);
            }
        } else if let Some(g) = &mut group {
            g.push(item(w));
        } else if let Some((a, n)) = w.split_once('*') {
            for _ in 0..n.parse::<usize>().unwrap() {
                out.push(item(a));
            }
        } else {
            out.push(item(w));
        }
    }
    (e.trim().parse().unwrap(), out)
}

pub fn show_input(items: &[Item]) -> String {
    let v: Vec<String> = items
        .iter()
        .map(|i| match i {
            Item::Tok(t) => format!("t{t}"),
            Item::Err(e) => format!("e{e}"),
        })
        .collect();
    v.join(" ")
}

/// Tells the watch dog that something still happens.
pub fn progress() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

/// For modules that bring their own exhaustive comparison.
pub struct Custom {
    pub id: usize,
    pub run: fn(&mut Report),
}

#[derive(Default)]
pub struct Report {
    pub checked: u64,
    pub failures: Vec<(String, String, String)>,
    distinct: HashSet<String>,
}

impl Report {
    pub fn eq(&mut self, what: &str, got: &str, want: &str) {
        self.checked += 1;
        self.distinct.insert(want.to_owned());
        if got != want && self.failures.len() < 20 {
            self.failures.push((what.into(), want.into(), got.into()));
        }
    }
    /// Runs `f`, a panic being a result like any other.
    pub fn run(&mut self, what: &str, want: &str, f: impl FnOnce() -> String) {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(s) => s,
            Err(p) => format!(
                "panic: {}",
                p.downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or(p.downcast_ref::<String>().cloned())
                    .unwrap_or_default()
            ),
        };
        self.eq(what, &got, want);
    }
}

struct Loaded {
    g: Grammar,
    view: View,
    lr: Vec<Lr1>,
}

fn load(c: &Case) -> Loaded {
    let g = Grammar::parse(c.enc);
    let bound = if c.bound.is_empty() {
        g.prods.iter().map(|p| vec![true; p.rhs.len()]).collect()
    } else {
        c.bound.split('|').map(|p| p.chars().map(|b| b == '1').collect()).collect()
    };
    let view = View { terms: c.terms.iter().map(|s| s.to_string()).collect(), bound };
    let lr = g.entries.iter().map(|e| build(&g, *e)).collect();
    Loaded { g, view, lr }
}

// ---------------------------------------------------------------------------------------------
// Judging one run against the reference run, from the point of view of one property

fn pulls(r: &Run) -> usize {
    r.evs.iter().filter(|e| matches!(e, Ev::Pull(_))).count()
}

fn acts(r: &Run) -> Vec<&Ev> {
    r.evs.iter().filter(|e| matches!(e, Ev::Act { .. })).collect()
}

fn acts_after_last_pull(r: &Run) -> usize {
    r.evs.iter().rev().take_while(|e| matches!(e, Ev::Act { .. })).count()
}

fn skeleton(r: &Run) -> Vec<Option<Pulled>> {
    r.evs
        .iter()
        .map(|e| match e {
            Ev::Pull(p) => Some(p.clone()),
            Ev::Act { .. } => None,
        })
        .collect()
}

pub fn brief(r: &Run) -> String {
    let n = r.evs.len();
    let evs: Vec<String> = r
        .evs
        .iter()
        .take(60)
        .map(|e| match e {
            Ev::Pull(Pulled::Tok(t)) => format!("pull t{t}"),
            Ev::Pull(Pulled::Err(t)) => format!("pull err{t}"),
            Ev::Pull(Pulled::Eof) => "pull end".into(),
            Ev::Pull(Pulled::PastEnd) => "pull past end".into(),
            Ev::Act { prod, kids, id } => format!("act p{prod}{kids:?}->{id}"),
        })
        .collect();
    format!("{:?} [{}{}]", r.out, evs.join("; "), if n > 60 { "; ..." } else { "" })
}

pub fn judge(prop: &str, exp: &Run, act: &RealRun) -> Option<String> {
    let a = &act.run;
    let panic = match &a.out {
        Out::Panic(p) => Some(format!("parse panicked: {p}")),
        _ => None,
    };
    let ok = |r: &Run| matches!(r.out, Out::Ok(_));
    match prop {
        "C01" => {
            if panic.is_some() {
                return panic;
            }
            if matches!(exp.out, Out::Lexer(_)) || matches!(a.out, Out::Lexer(_)) {
                return None;
            }
            (ok(exp) != ok(a)).then(|| {
                if ok(exp) { "a sentence is rejected".into() } else { "a non-sentence is accepted".into() }
            })
        }
        "C02" => {
            if panic.is_some() {
                return panic;
            }
            if !ok(exp) {
                return None;
            }
            if !ok(a) {
                return Some("no value for a sentence".into());
            }
            (acts(exp) != acts(a) || exp.out != a.out)
                .then(|| "actions or their operands differ from the derivation".into())
        }
        "C03" => {
            if let Out::Syntax { found, .. } = &exp.out {
                if panic.is_some() {
                    return panic;
                }
                match &a.out {
                    Out::Syntax { found: f, .. } => {
                        if pulls(exp) != pulls(a) {
                            return Some(format!(
                                "error after {} items instead of {}",
                                pulls(a),
                                pulls(exp)
                            ));
                        }
                        if found != f {
                            return Some(format!("found is {f:?} instead of {found:?}"));
                        }
                        if acts_after_last_pull(a) != 0 {
                            return Some("an action ran after the offending token was pulled".into());
                        }
                        None
                    }
                    _ => Some("no syntax error for a non-sentence".into()),
                }
            } else {
                matches!(a.out, Out::Syntax { .. })
                    .then(|| "syntax error although the input can be continued".into())
            }
        }
        "C04" => match (&exp.out, &a.out) {
            (Out::Syntax { expected: e, .. }, Out::Syntax { expected: x, .. }) => {
                (e != x).then(|| format!("expected is {x:?} instead of {e:?}"))
            }
            _ => None,
        },
        "C05" => {
            let has_err = |r: &Run| r.evs.iter().any(|e| matches!(e, Ev::Pull(Pulled::Err(_))));
            match &exp.out {
                Out::Lexer(c) => {
                    if panic.is_some() {
                        return panic;
                    }
                    match &a.out {
                        Out::Lexer(d) if c == d => {}
                        Out::Lexer(d) => return Some(format!("lexer error {d} instead of {c}")),
                        o => return Some(format!("{o:?} instead of the source's error")),
                    }
                    if pulls(exp) != pulls(a) {
                        return Some("pulled on after the source's error".into());
                    }
                    if acts_after_last_pull(a) != 0 {
                        return Some("an action ran after the source's error".into());
                    }
                    None
                }
                _ => {
                    if has_err(a) && !has_err(exp) {
                        return Some("the source's error was reached after a syntax error".into());
                    }
                    matches!(a.out, Out::Lexer(_)).then(|| "unexpected lexer error".into())
                }
            }
        }
        "C06" => {
            if panic.is_some() {
                return panic;
            }
            (skeleton(exp) != skeleton(a)).then(|| "pulls and actions are interleaved differently".into())
        }
        "C14" => {
            let e = act.ownership_errors();
            (!e.is_empty()).then(|| e.join("; "))
        }
        "C17" => panic,
        // full agreement
        _ => {
            if panic.is_some() {
                return panic;
            }
            (exp != a).then(|| "behaviour differs from the reference".into())
        }
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Default)]
struct Stats {
    runs: u64,
    states: u64,
    transitions: u64,
    ok: u64,
    syntax: u64,
    lexer: u64,
    faults: u64,
    schedules: u64,
    nested: u64,
    histories: u64,
    oracle: u64,
    distinct: HashSet<u64>,
    min_depth: usize,
    max_depth: usize,
    violations: u64,
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<(usize, usize, Vec<Item>)> = Mutex::new((0, 0, Vec::new()));

struct Cfg {
    prop: String,
    mode: String,
    budget: usize,
    trace: bool,
    preempt: usize,
    repeat: usize,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn clip(s: String) -> String {
    if s.len() > 4000 {
        let mut e = 4000;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    } else {
        s
    }
}

fn violation(st: &mut Stats, case: usize, entry: usize, input: &[Item], why: &str, exp: &str, act: &str) {
    st.violations += 1;
    if st.violations > 40 {
        return;
    }
    println!(
        "{{\"violation\":true,\"case\":{case},\"entry\":{entry},\"input\":\"{}\",\"why\":\"{}\",\"exp\":\"{}\",\"act\":\"{}\"}}",
        clip(show_input(input)),
        esc(&clip(why.to_owned())),
        esc(&clip(exp.to_owned())),
        esc(&clip(act.to_owned()))
    );
}

fn begin(cfg: &Cfg, case: usize, entry: usize, input: &[Item]) {
    *CUR.lock().unwrap() = (case, entry, input.to_vec());
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    if cfg.trace {
        eprintln!("RUN {case} {entry}: {}", clip(show_input(input)));
    }
}

fn hash_run(r: &Run) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    r.evs.hash(&mut h);
    r.out.hash(&mut h);
    h.finish()
}

/// How far apart the stack depths of calls of user code within one parse may be. Far above what a
/// loop shows (the same few frames each time), far below one byte per token of the long inputs.
const STACK_SPREAD: usize = 48 << 10;

fn one(cfg: &Cfg, st: &mut Stats, c: &Case, l: &Loaded, entry: usize, input: &[Item]) -> (Run, RealRun) {
    begin(cfg, c.id, entry, input);
    let exp = l.lr[entry].run(&l.g, &l.view, input);
    // what the source says about its length must not matter; all variants where that is cheap, in
    // turns elsewhere
    let open = !exp.evs.contains(&Ev::Pull(Pulled::Eof));
    let hints: Vec<u8> = match () {
        _ if input.len() > 1000 => vec![(st.runs % 4) as u8],
        _ if ["C06", "C17"].contains(&cfg.prop.as_str()) && input.len() <= 12 || cfg.trace => (0..4 + open as u8).collect(),
        _ => vec![(st.runs % (4 + open as u64)) as u8],
    };
    for h in &hints[1..] {
        let act = real_run(c.run, entry, input, Opts { hint: *h, ..Opts::default() });
        st.runs += 1;
        if let Some(why) = judge(&cfg.prop, &exp, &act) {
            let why = format!("{why} (the source gives a size hint of kind {h})");
            violation(st, c.id, entry, input, &why, &brief(&exp), &brief(&act.run));
        }
    }
    let act = real_run(c.run, entry, input, Opts { hint: hints[0], ..Opts::default() });
    st.runs += 1;
    match &exp.out {
        Out::Ok(_) => st.ok += 1,
        Out::Syntax { .. } => st.syntax += 1,
        _ => st.lexer += 1,
    }
    st.distinct.insert(hash_run(&exp));
    if let Some(why) = judge(&cfg.prop, &exp, &act) {
        violation(st, c.id, entry, input, &why, &brief(&exp), &brief(&act.run));
    } else if cfg.prop == "C17" && act.stack_spread > STACK_SPREAD {
        let why = format!("user code is called at stack depths {} bytes apart", act.stack_spread);
        violation(st, c.id, entry, input, &why, "", "");
    }
    (exp, act)
}

/// Is the reference model itself right? Compare with Earley on the same input.
fn check_oracle(l: &Loaded, entry: usize, input: &[Item], exp: &Run) -> Result<(), String> {
    let mut e = Earley::new(&l.g, l.g.entries[entry]);
    for it in input {
        match it {
            Item::Tok(t) => {
                let want: Vec<&str> =
                    e.expected().into_iter().map(|t| l.view.terms[t as usize].as_str()).collect();
                if !e.push(*t) {
                    let want = Out::Syntax {
                        found: l.view.terms[*t as usize].clone(),
                        expected: want.join(", "),
                    };
                    return if exp.out == want { Ok(()) } else { Err(format!("earley {want:?}")) };
                }
            }
            Item::Err(c) => {
                return if exp.out == Out::Lexer(*c) { Ok(()) } else { Err("earley lexer".into()) }
            }
        }
    }
    let want: Vec<&str> =
        e.expected().into_iter().map(|t| l.view.terms[t as usize].as_str()).collect();
    match &exp.out {
        Out::Ok(_) if e.accepts() => Ok(()),
        Out::Syntax { found, expected }
            if !e.accepts() && found == "end-of-input" && *expected == want.join(", ") =>
        {
            Ok(())
        }
        o => Err(format!("earley accepts={} expected={want:?}, lr {o:?}", e.accepts())),
    }
}

/// Longest enumerated input.
const MAX_DEPTH: usize = 32;

/// All viable prefixes (by the reference) breadth first, until the next level would exceed the
/// budget; plus every one-token extension.
fn enumerate(l: &Loaded, entry: usize, budget: usize) -> (Vec<Vec<Item>>, usize) {
    let mut all: Vec<Vec<Item>> = vec![];
    let mut level: Vec<Vec<Item>> = vec![vec![]];
    let mut depth = 0;
    loop {
        all.extend(level.iter().cloned());
        let mut next = vec![];
        for w in &level {
            // a word with a syntax error inside it is not extended
            let r = l.lr[entry].run(&l.g, &l.view, w);
            let viable = match &r.out {
                Out::Ok(_) => true,
                Out::Syntax { found, .. } => found == "end-of-input" && pulls(&r) == w.len() + 1,
                _ => false,
            };
            if !viable {
                // one more token after the offending one: it must not be looked at
                if w.len() <= 2 || depth == w.len() {
                    let mut x = w.clone();
                    x.push(Item::Tok(0));
                    all.push(x);
                }
                continue;
            }
            for t in 0..l.g.n_t as u32 {
                let mut x = w.clone();
                x.push(Item::Tok(t));
                next.push(x);
            }
        }
        if next.is_empty() {
            return (all, depth);
        }
        if all.len() + next.len() > budget || depth == MAX_DEPTH {
            return (all, depth);
        }
        depth += 1;
        level = next;
    }
}

fn with_err(w: &[Item], code: u32) -> Vec<Item> {
    let mut x = w.to_vec();
    x.push(Item::Err(code));
    x
}

fn explore_inputs(cfg: &Cfg, st: &mut Stats, c: &Case, l: &Loaded) -> Result<(), String> {
    let productive = l.g.productive().iter().all(|b| *b);
    for entry in 0..l.g.entries.len() {
        let (words, depth) = enumerate(l, entry, cfg.budget);
        st.min_depth = st.min_depth.min(depth);
        st.max_depth = st.max_depth.max(depth);
        for (i, w) in words.iter().enumerate() {
            st.states += 1;
            st.transitions += 1;
            let (exp, _) = one(cfg, st, c, l, entry, w);
            if productive && l.lr[entry].sr == 0 {
                st.oracle += 1;
                check_oracle(l, entry, w, &exp)
                    .map_err(|e| format!("{} on {}: {e}", c.enc, show_input(w)))?;
            }
            if matches!(cfg.prop.as_str(), "C05" | "C06" | "C14" | "C07" | "C17" | "C09" | "C15" | "C11" | "C18") {
                st.transitions += 1;
                let x = with_err(w, 1000 + i as u32);
                one(cfg, st, c, l, entry, &x);
                // an error, then more tokens
                let mut x = x;
                x.push(Item::Tok(0));
                one(cfg, st, c, l, entry, &x);
            }
        }
    }
    Ok(())
}

/// A panic in user code at every point of every run.
fn explore_faults(cfg: &Cfg, st: &mut Stats, c: &Case, l: &Loaded) {
    for entry in 0..l.g.entries.len() {
        let (words, depth) = enumerate(l, entry, cfg.budget);
        st.min_depth = st.min_depth.min(depth);
        st.max_depth = st.max_depth.max(depth);
        for (i, w) in words.iter().enumerate() {
            for w in [w.clone(), with_err(w, 2000 + i as u32)] {
                st.states += 1;
                let (exp, base) = one(cfg, st, c, l, entry, &w);
                for k in 0..base.n_user {
                    st.faults += 1;
                    st.transitions += 1;
                    begin(cfg, c.id, entry, &w);
                    let r = real_run(c.run, entry, &w, Opts { panic_at: Some(k), ..Opts::default() });
                    let why = match cfg.prop.as_str() {
                        "C14" => {
                            let e = r.ownership_errors();
                            (!e.is_empty()).then(|| e.join("; "))
                        }
                        "C13" => {
                            // the panicking run is a prefix of the normal one, and leaves no trace in
                            // the next
                            let again = real_run(c.run, entry, &w, Opts::default());
                            if again.run != exp {
                                Some("the parse after a panicked parse differs".into())
                            } else if r.run.out != Out::Panic(FAULT.into())
                                || !exp.evs.starts_with(&r.run.evs)
                            {
                                Some("a panic in user code was not passed on".into())
                            } else {
                                None
                            }
                        }
                        _ => None,
                    };
                    if let Some(why) = why {
                        let why = format!("panic at user event {k}: {why}");
                        violation(st, c.id, entry, &w, &why, &brief(&exp), &brief(&r.run));
                    }
                }
            }
        }
    }
}

type Op = (usize, Vec<Item>, Option<usize>);

/// Histories, nestings and schedules of parse calls.
fn explore_isolation(cfg: &Cfg, st: &mut Stats, c: &Case, l: &Loaded) {
    let mut ops: Vec<Op> = vec![];
    for entry in 0..l.g.entries.len() {
        let (words, depth) = enumerate(l, entry, cfg.budget);
        st.min_depth = st.min_depth.min(depth);
        st.max_depth = st.max_depth.max(depth);
        for w in &words {
            ops.push((entry, w.clone(), None));
            ops.push((entry, with_err(w, 77), None));
        }
    }
    let exps: Vec<Run> = ops.iter().map(|(e, w, _)| l.lr[*e].run(&l.g, &l.view, w)).collect();
    // 1. histories: op b after op a (a possibly panicking at any point), for all pairs
    for (a, _ea) in ops.iter().zip(&exps) {
        begin(cfg, c.id, a.0, &a.1);
        let n = real_run(c.run, a.0, &a.1, Opts::default()).n_user;
        let mut faults: Vec<Option<usize>> = vec![None];
        faults.extend((0..n).map(Some));
        for f in faults {
            for (b, eb) in ops.iter().zip(&exps) {
                st.histories += 1;
                st.transitions += 2;
                begin(cfg, c.id, b.0, &b.1);
                real_run(c.run, a.0, &a.1, Opts { panic_at: f, ..Opts::default() });
                let r = real_run(c.run, b.0, &b.1, Opts::default());
                if r.run != *eb || !r.errors.is_empty() {
                    let why = format!(
                        "differs when run after entry {} on [{}]{}; {}",
                        a.0,
                        show_input(&a.1),
                        f.map_or(String::new(), |k| format!(" panicking at user event {k}")),
                        r.errors.join("; ")
                    );
                    violation(st, c.id, b.0, &b.1, &why, &brief(eb), &brief(&r.run));
                }
            }
        }
    }
    // 2. nesting: b (possibly panicking, caught) runs inside a, at every user event of a
    for (a, ea) in ops.iter().zip(&exps) {
        let n = real_run(c.run, a.0, &a.1, Opts::default()).n_user;
        for k in 0..n {
            for (b, eb) in ops.iter().zip(&exps) {
                let nb = eb.evs.len();
                for f in std::iter::once(None).chain((nb > 0).then(|| Some(nb / 2))) {
                    st.nested += 1;
                    st.transitions += 2;
                    begin(cfg, c.id, a.0, &a.1);
                    let inner: Rc<RefCell<Option<RealRun>>> = Rc::new(RefCell::new(None));
                    let inner2 = inner.clone();
                    let (run, be, bw) = (c.run, b.0, b.1.clone());
                    let hook = Rc::new(move |ev: usize| {
                        if ev == k {
                            let r = real_run(run, be, &bw, Opts { panic_at: f, ..Opts::default() });
                            *inner2.borrow_mut() = Some(r);
                        }
                    });
                    let r = real_run(c.run, a.0, &a.1, Opts { hook: Some(hook), ..Opts::default() });
                    let inner = inner.borrow_mut().take();
                    let ctx = || {
                        format!(
                            "outer entry {} on [{}], inner entry {} on [{}] at user event {k}, inner fault {f:?}",
                            a.0,
                            show_input(&a.1),
                            b.0,
                            show_input(&b.1)
                        )
                    };
                    if r.run != *ea || !r.ownership_errors().is_empty() {
                        let why = format!("outer parse differs: {}", ctx());
                        violation(st, c.id, a.0, &a.1, &why, &brief(ea), &brief(&r.run));
                    }
                    if let Some(i) = inner {
                        let good = match f {
                            None => i.run == *eb,
                            Some(_) => eb.evs.starts_with(&i.run.evs),
                        };
                        if !good || !i.ownership_errors().is_empty() {
                            let why = format!("inner parse differs: {}", ctx());
                            violation(st, c.id, b.0, &b.1, &why, &brief(eb), &brief(&i.run));
                        }
                    }
                }
            }
        }
    }
    // 3. schedules: two threads, switching at every user event
    let short: Vec<usize> = (0..ops.len()).filter(|i| exps[*i].evs.len() <= 6).collect();
    for &i in &short {
        for &j in &short {
            if j < i {
                continue;
            }
            explore_schedules(cfg, st, c, &[&ops[i], &ops[j]], &[&exps[i], &exps[j]], cfg.preempt);
        }
    }
    // three threads, of the shortest calls
    let tiny: Vec<usize> = (0..ops.len()).filter(|i| exps[*i].evs.len() <= 3).take(3 + cfg.preempt).collect();
    for &i in &tiny {
        for &j in &tiny {
            for &k in &tiny {
                if i <= j && j <= k {
                    let o = [&ops[i], &ops[j], &ops[k]];
                    explore_schedules(cfg, st, c, &o, &[&exps[i], &exps[j], &exps[k]], cfg.preempt - 1);
                }
            }
        }
    }
    // many threads, all under way at the same time, taking turns at every event
    if let Some(&a) = short.last() {
        for n in [5usize, 9, 17, 33, 65] {
            for step in 1..3 {
                let sel: Vec<usize> = (0..n).map(|t| if t % 2 == 0 { a } else { short[t * step % short.len()] }).collect();
                let o: Vec<&Op> = sel.iter().map(|i| &ops[*i]).collect();
                let e: Vec<&Run> = sel.iter().map(|i| &exps[*i]).collect();
                begin(cfg, c.id, o[0].0, &o[0].1);
                let (rs, log) = run_schedule(c.run, &o, vec![], 1);
                judge_schedule(st, c, &o, &e, &rs, &log);
            }
        }
    }
    // 4. repetition: a call many times over (also always panicking), then every other one
    for (a, ea) in ops.iter().zip(&exps) {
        begin(cfg, c.id, a.0, &a.1);
        let n = real_run(c.run, a.0, &a.1, Opts::default()).n_user;
        let mut faults = vec![None];
        faults.extend((n > 0).then_some(Some(0)));
        faults.extend((n > 2).then_some(Some(n - 1)));
        for f in faults {
            for i in 0..cfg.repeat {
                st.histories += 1;
                st.transitions += 1;
                let r = real_run(c.run, a.0, &a.1, Opts { panic_at: f, ..Opts::default() });
                if i % 64 == 0 {
                    begin(cfg, c.id, a.0, &a.1);
                }
                if f.is_none() && (r.run != *ea || !r.errors.is_empty()) {
                    let why = format!("differs the {}th time; {}", i + 1, r.errors.join("; "));
                    violation(st, c.id, a.0, &a.1, &why, &brief(ea), &brief(&r.run));
                    break;
                }
            }
            for (b, eb) in ops.iter().zip(&exps) {
                let r = real_run(c.run, b.0, &b.1, Opts::default());
                if r.run != *eb || !r.errors.is_empty() {
                    let why = format!(
                        "differs when run after {} times entry {} on [{}]{}; {}",
                        cfg.repeat,
                        a.0,
                        show_input(&a.1),
                        f.map_or(String::new(), |k| format!(" panicking at user event {k}")),
                        r.errors.join("; ")
                    );
                    violation(st, c.id, b.0, &b.1, &why, &brief(eb), &brief(&r.run));
                }
            }
        }
    }
    // 5. deep nesting: calls inside calls inside calls, always at the same event
    for (i, (a, ea)) in ops.iter().zip(&exps).enumerate() {
        let n = real_run(c.run, a.0, &a.1, Opts::default()).n_user;
        let (b, eb) = (&ops[(i * 7 + 3) % ops.len()], &exps[(i * 7 + 3) % ops.len()]);
        for k in 0..n {
            for depth in [2usize, 3, 5, 9, 17, 33, 65] {
                begin(cfg, c.id, a.0, &a.1);
                st.nested += 1;
                st.transitions += depth as u64;
                let bad: Rc<RefCell<Option<(usize, Run)>>> = Rc::new(RefCell::new(None));
                nest(c.run, [(a, ea), (b, eb)], k, depth, &bad);
                let bad = bad.borrow_mut().take();
                if let Some((level, got)) = bad {
                    let (o, e) = if level % 2 == depth % 2 { (a, ea) } else { (b, eb) };
                    let why = format!(
                        "differs {} levels inside {depth} nested calls: entry {} on [{}], entry {} on [{}], each at user event {k} of the one around it",
                        depth - level, a.0, show_input(&a.1), b.0, show_input(&b.1)
                    );
                    violation(st, c.id, o.0, &o.1, &why, &brief(e), &brief(&got));
                }
            }
        }
    }
}

/// Runs the first of `pair`, and in it at event `k` (or its last) the second, and so on.
fn nest(run: RunFn, pair: [(&Op, &Run); 2], k: usize, level: usize, bad: &Rc<RefCell<Option<(usize, Run)>>>) {
    let [(a, ea), (b, eb)] = pair;
    let hook: Option<Rc<dyn Fn(usize)>> = if level > 1 {
        let (a2, ea2, b2, eb2, bad2) = (a.clone(), ea.clone(), b.clone(), eb.clone(), bad.clone());
        let at = k.min(ea.evs.len().saturating_sub(1));
        Some(Rc::new(move |ev: usize| {
            if ev == at {
                nest(run, [(&b2, &eb2), (&a2, &ea2)], k, level - 1, &bad2);
            }
        }))
    } else {
        None
    };
    let r = real_run(run, a.0, &a.1, Opts { hook, ..Opts::default() });
    if (r.run != *ea || !r.ownership_errors().is_empty()) && bad.borrow().is_none() {
        *bad.borrow_mut() = Some((level, r.run));
    }
}

struct Sched {
    m: Mutex<SchedState>,
    cv: Condvar,
}

struct SchedState {
    turn: usize,
    done: Vec<bool>,
    /// Choices to make, then `rest` (kept within what there is).
    prefix: Vec<usize>,
    rest: usize,
    /// (choice, alternatives, whether another choice than 0 is a preemption)
    log: Vec<(usize, usize, bool)>,
}

impl Sched {
    /// Decide who runs next. `me` is the running thread (None at the start).
    fn point(&self, me: Option<usize>) {
        let mut s = self.m.lock().unwrap();
        // canonical order: running thread first, then in a circle
        let n = s.done.len();
        let first = me.unwrap_or(0);
        let enabled: Vec<usize> = (0..n).map(|i| (first + i) % n).filter(|t| !s.done[*t]).collect();
        if enabled.is_empty() {
            return;
        }
        let k = s.log.len();
        // a replay can only diverge if the parses behave differently from one execution to the next,
        // and then the runs themselves differ from the reference
        let ch = s.prefix.get(k).copied().unwrap_or(s.rest).min(enabled.len() - 1);
        s.log.push((ch, enabled.len(), me == Some(enabled[0])));
        s.turn = enabled[ch];
        self.cv.notify_all();
        if let Some(me) = me {
            if s.done[me] {
                return;
            }
            while s.turn != me {
                s = self.cv.wait(s).unwrap();
            }
        }
    }
    fn wait_turn(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        while s.turn != me {
            s = self.cv.wait(s).unwrap();
        }
    }
    fn finish(&self, me: usize) {
        self.m.lock().unwrap().done[me] = true;
        self.point(Some(me));
    }
}

type Log = Vec<(usize, usize, bool)>;

fn run_schedule(run: RunFn, ops: &[&Op], prefix: Vec<usize>, rest: usize) -> (Vec<RealRun>, Log) {
    let n = ops.len();
    let s = Arc::new(Sched {
        m: Mutex::new(SchedState { turn: usize::MAX, done: vec![false; n], prefix, rest, log: vec![] }),
        cv: Condvar::new(),
    });
    let rs: Vec<RealRun> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let s = s.clone();
                let (e, w, _) = ops[t].clone();
                sc.spawn(move || {
                    s.wait_turn(t);
                    let s2 = s.clone();
                    let r = real_run(
                        run,
                        e,
                        &w,
                        Opts { hook: Some(Rc::new(move |_| s2.point(Some(t)))), ..Opts::default() },
                    );
                    s.finish(t);
                    r
                })
            })
            .collect();
        s.point(None);
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let log = s.m.lock().unwrap().log.clone();
    (rs, log)
}

fn judge_schedule(st: &mut Stats, c: &Case, ops: &[&Op], exps: &[&Run], rs: &[RealRun], log: &Log) {
    st.schedules += 1;
    st.transitions += log.len() as u64;
    for t in 0..ops.len() {
        if rs[t].run != *exps[t] || !rs[t].ownership_errors().is_empty() {
            let ch: Vec<usize> = log.iter().map(|l| l.0).collect();
            let others: Vec<String> = (0..ops.len())
                .filter(|o| *o != t)
                .take(3)
                .map(|o| format!("entry {} on [{}]", ops[o].0, show_input(&ops[o].1)))
                .collect();
            let why = format!(
                "thread {t} of {} differs; other threads: {}; schedule {ch:?}; {}",
                ops.len(),
                others.join(", "),
                rs[t].ownership_errors().join("; ")
            );
            violation(st, c.id, ops[t].0, &ops[t].1, &why, &brief(exps[t]), &brief(&rs[t].run));
        }
    }
}

fn explore_schedules(cfg: &Cfg, st: &mut Stats, c: &Case, ops: &[&Op], exps: &[&Run], preempt: usize) {
    let _ = cfg;
    let mut work: Vec<Vec<usize>> = vec![vec![]];
    while let Some(prefix) = work.pop() {
        begin(cfg, c.id, ops[0].0, &ops[0].1);
        let (rs, log) = run_schedule(c.run, ops, prefix.clone(), 0);
        judge_schedule(st, c, ops, exps, &rs, &log);
        for k in prefix.len()..log.len() {
            let used = log[..k].iter().filter(|l| l.2 && l.0 > 0).count();
            if used + log[k].2 as usize > preempt {
                continue;
            }
            for ch in 1..log[k].1 {
                let mut p: Vec<usize> = log[..k].iter().map(|l| l.0).collect();
                p.push(ch);
                work.push(p);
            }
        }
    }
}

pub fn main(cases: &[Case], customs: &[Custom]) {
    let mut cfg =
        Cfg { prop: String::new(), mode: "inputs".into(), budget: 200, trace: false, preempt: 2, repeat: 300 };
    for a in std::env::args().skip(1) {
        let (k, v) = a.split_once('=').expect("key=value");
        match k {
            "prop" => cfg.prop = v.into(),
            "mode" => cfg.mode = v.into(),
            "budget" => cfg.budget = v.parse().unwrap(),
            "trace" => cfg.trace = v == "1",
            "repeat" => cfg.repeat = v.parse().unwrap(),
            "preempt" => cfg.preempt = v.parse().unwrap(),
            _ => panic!("unknown argument {k}"),
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p != last {
                last = p;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(60) {
                let cur = CUR.lock().unwrap().clone();
                println!(
                    "{{\"violation\":true,\"hang\":true,\"case\":{},\"entry\":{},\"input\":\"{}\",\"why\":\"parse does not terminate\",\"exp\":\"\",\"act\":\"\"}}",
                    cur.0, cur.1, clip(show_input(&cur.2))
                );
                use std::io::Write;
                let _ = std::io::stdout().flush();
                std::process::exit(9);
            }
        }
    });
    let mut st = Stats { min_depth: usize::MAX, ..Stats::default() };
    let body = std::panic::AssertUnwindSafe(|| {
        for c in cases {
            let l = load(c);
            for s in c.inputs {
                let (e, w) = parse_input(s);
                st.states += 1;
                st.transitions += w.len() as u64;
                one(&cfg, &mut st, c, &l, e, &w);
            }
            if !c.explore {
                continue;
            }
            match cfg.mode.as_str() {
                "inputs" => {
                    if let Err(e) = explore_inputs(&cfg, &mut st, c, &l) {
                        println!("{{\"oracle_error\":\"{}\"}}", esc(&e));
                        std::process::exit(3);
                    }
                }
                "faults" => explore_faults(&cfg, &mut st, c, &l),
                "isolation" => explore_isolation(&cfg, &mut st, c, &l),
                m => panic!("mode {m}"),
            }
        }
        for c in customs {
            begin(&cfg, c.id, 0, &[]);
            let mut r = Report::default();
            (c.run)(&mut r);
            st.states += r.distinct.len() as u64;
            st.runs += r.checked;
            st.transitions += r.checked;
            st.ok += r.checked;
            for d in r.distinct {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                d.hash(&mut h);
                st.distinct.insert(h.finish());
            }
            for (what, want, got) in r.failures {
                violation(&mut st, c.id, 0, &[], &what, &want, &got);
            }
        }
    });
    if let Err(p) = std::panic::catch_unwind(body) {
        let m = p
            .downcast_ref::<String>()
            .cloned()
            .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        println!("{{\"harness_error\":\"{}\"}}", esc(&m));
        std::process::exit(3);
    }
    if cfg.mode == "isolation" {
        st.states += st.histories + st.nested + st.schedules;
    }
    if st.min_depth == usize::MAX {
        st.min_depth = 0;
    }
    println!(
        "{{\"stats\":true,\"cases\":{},\"runs\":{},\"states\":{},\"transitions\":{},\"ok\":{},\"syntax\":{},\"lexer\":{},\"faults\":{},\"schedules\":{},\"nested\":{},\"histories\":{},\"oracle\":{},\"distinct\":{},\"min_depth\":{},\"max_depth\":{},\"violations\":{}}}",
        cases.len() + customs.len(), st.runs, st.states, st.transitions, st.ok, st.syntax, st.lexer, st.faults,
        st.schedules, st.nested, st.histories, st.oracle, st.distinct.len(), st.min_depth,
        st.max_depth, st.violations
    );
}
