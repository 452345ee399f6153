//! The two exploration layers shared by the checks.
use crate::batch::{self, Args, Compiled, Kind, Mod, Outcome};
use crate::ctx::{Ctx, Finding};
use crate::json::J;
use crate::pool;
use crate::render::Pres;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Why {
    /// LR(1), yet expansion fails.
    RejectedLr1,
    /// Not resolvable, yet expansion succeeds.
    AcceptedConflict,
    /// Product mismatch.
    Behaviour,
}

#[derive(Clone, Debug)]
pub struct Cand {
    pub pres: Pres,
    pub why: Why,
    pub msg: String,
    pub witness: Vec<String>,
}

/// What to hand to the execution layer.
#[derive(Clone, Copy)]
pub struct Look {
    pub rejected_lr1: bool,
    pub accepted_conflict: bool,
    pub behaviour: bool,
}

const PER_KIND: usize = 16;

/// Model layer: expand every presentation, compare acceptance and automaton with the reference.
pub fn model(
    ctx: &Ctx,
    look: Look,
    limit_s: u64,
    produce: impl FnOnce(&mut dyn FnMut(Pres) -> bool) + Send,
) -> Vec<Cand> {
    let cands: Mutex<BTreeMap<(Why, String), Vec<Cand>>> = Mutex::new(BTreeMap::new());
    let stop = AtomicBool::new(false);
    let t0 = Instant::now();
    // far fewer expansions per second
    let limit_s = if cfg!(feature = "inproc") { limit_s } else { limit_s.min(60) * 4 };
    let tot: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let n = pool::run(
        |send| {
            produce(&mut |p: Pres| {
                let l = pool::task_line("p", &p);
                if t0.elapsed().as_secs() > limit_s {
                    stop.store(true, Ordering::Relaxed);
                }
                send(p, l)
            })
        },
        |p: Pres, a| {
            let mut t = tot.lock().unwrap();
            let mut inc = |k: &'static str, n: u64| *t.entry(k).or_default() += n;
            inc("states", a.pairs);
            inc("transitions", a.trans);
            inc("expansions", 1);
            inc("reference_states", a.rstates);
            let conflict_free = a.sr + a.rr == 0;
            if a.accepted() {
                inc("accepted", 1);
            } else {
                inc("rejected", 1);
            }
            if conflict_free {
                inc("lr1_grammars", 1);
            } else if a.rr > 0 {
                inc("grammars_with_reduce_conflicts", 1);
            } else {
                inc("grammars_with_only_shift_reduce_conflicts", 1);
                if a.accepted() {
                    inc("shift_reduce_resolved", 1);
                }
            }
            if a.status == "unrecognised" {
                inc("tables_unrecognised", 1);
            }
            if a.status == "ok" {
                inc("closed_products", 1);
            }
            let dead = a.verdict == 'C' || a.verdict == 'H';
            let cand = |why, kind: String, msg: String, witness| {
                let mut c = cands.lock().unwrap();
                let v = c.entry((why, kind)).or_default();
                if v.len() < PER_KIND {
                    v.push(Cand { pres: p.clone(), why, msg, witness });
                }
            };
            if !a.accepted() && (conflict_free || dead) {
                inc("lr1_rejected", 1);
                if look.rejected_lr1 {
                    let kind: String = a.msg.chars().filter(|c| !c.is_ascii_digit()).take(40).collect();
                    cand(Why::RejectedLr1, kind, a.msg.clone(), vec![]);
                }
            }
            if a.accepted() && a.rr > 0 {
                inc("reduce_conflict_accepted", 1);
                if look.accepted_conflict {
                    cand(Why::AcceptedConflict, String::new(), String::new(), vec![]);
                }
            }
            if a.status == "mismatch" {
                inc("mismatches", 1);
                if look.behaviour {
                    for m in a.msg.split('\u{1f}') {
                        let (kind, rest) = m.split_once('@').unwrap();
                        cand(Why::Behaviour, kind.to_owned(), m.to_owned(), vec![rest.to_owned()]);
                    }
                }
            }
        },
        &stop,
    );
    let tot = tot.into_inner().unwrap();
    if tot.get("tables_unrecognised").copied().unwrap_or(0) > 0 {
        // the emitted tables have another form now: the execution layer has to do it alone
        ctx.blind();
    }
    for (k, v) in tot {
        ctx.add(k, v);
    }
    if std::env::var_os("VMC_LOG").is_some() {
        eprintln!("[{:?}] model: {n} expansions", t0.elapsed());
    }
    if stop.load(Ordering::Relaxed) {
        ctx.capped(&format!("model layer stopped after {limit_s} s"));
    }
    cands.into_inner().unwrap().into_values().flatten().collect()
}

/// All one- and two-token extensions of a witness input "entry: ...".
fn extend(w: &str, n_t: usize) -> Vec<String> {
    let mut v = vec![w.to_owned()];
    if n_t <= 6 {
        for a in 0..n_t {
            v.push(format!("{w} t{a}"));
            for b in 0..n_t {
                v.push(format!("{w} t{a} t{b}"));
            }
        }
    }
    // and a source error in place of, or after, the last token
    v.push(format!("{w} e7"));
    if let Some((h, _)) = w.rsplit_once(' ') {
        v.push(h.to_owned());
        v.push(format!("{h} e7"));
    }
    v
}

/// Execution layer on candidates: the verdict.
pub fn confirm(ctx: &Ctx, cands: &[Cand], budget: usize) -> Result<(), String> {
    if cands.is_empty() {
        return Ok(());
    }
    ctx.add("candidates_executed", cands.len() as u64);
    let mods: Vec<Mod> = cands
        .iter()
        .map(|c| {
            let ins = c.witness.iter().flat_map(|w| extend(w, c.pres.g.n_t)).collect();
            Mod::of(&c.pres, c.why == Why::Behaviour, ins)
        })
        .collect();
    let args = Args::new(&ctx.prop).budget(budget);
    let out = batch::run(&mods, &args)?;
    collect_stats(ctx, &out);
    for (i, c) in cands.iter().enumerate() {
        let got = out.compiled[i].clone();
        match (c.why, got) {
            (Why::RejectedLr1, Some(Compiled::Yes)) => {}
            (Why::RejectedLr1, Some(x)) => {
                ctx.finding(Finding {
                    key: format!("rejected: {}", mods[i].label),
                    what: format!("conflict-free grammar is not accepted: {x:?}\n{}", c.pres.body()),
                    module: Some(mods[i].clone()),
                    args: vec![],
                    body: None,
                });
            }
            (Why::AcceptedConflict, Some(Compiled::Yes)) => {
                ctx.finding(Finding {
                    key: format!("accepted: {}", mods[i].label),
                    what: format!(
                        "grammar with a reduce/reduce or reduce/accept conflict is accepted\n{}",
                        c.pres.body()
                    ),
                    module: Some(mods[i].clone()),
                    args: vec!["expect-reject".into()],
                    body: None,
                });
            }
            _ => {}
        }
    }
    behaviours(ctx, &mods, &out, &args);
    if cands.iter().any(|c| c.why == Why::Behaviour) && ctx.findings.lock().unwrap().is_empty() {
        // the tables mean something else than the model layer thinks
        ctx.blind();
    }
    Ok(())
}

pub fn collect_stats(ctx: &Ctx, out: &Outcome) {
    let g = |k: &str| out.stats.get(k).copied().unwrap_or(0);
    ctx.add("traces_validated_against_impl", g("runs") + g("faults") + g("nested") + g("histories") + g("schedules"));
    ctx.add("states", g("states"));
    ctx.add("transitions", g("transitions"));
    for k in ["ok", "syntax", "lexer", "faults", "schedules", "nested", "histories", "distinct"] {
        if g(k) > 0 {
            ctx.add(&format!("runs_{k}"), g(k));
        }
    }
    if g("oracle") > 0 {
        ctx.add("runs_crosschecked_with_earley", g("oracle"));
    }
    ctx.max("max_input_depth", g("max_depth"));
    ctx.add("crates_compiled", out.crates);
    ctx.add("parsers_compiled", out.compiled.iter().filter(|c| **c == Some(Compiled::Yes)).count() as u64);
    ctx.add(
        "parsers_not_compiled",
        out.compiled.iter().filter(|c| !matches!(c, Some(Compiled::Yes) | None)).count() as u64,
    );
}

/// Driver violations become findings.
pub fn behaviours(ctx: &Ctx, mods: &[Mod], out: &Outcome, args: &Args) {
    for v in &out.violations {
        let m = &mods[v.module];
        let mut one = m.clone();
        let mut inputs = String::new();
        if let Kind::Case { inputs: i, explore, .. } = &mut one.kind {
            inputs = format!("{}: {}", v.entry, v.input);
            if args.mode == "inputs" && !v.input.ends_with("...") {
                *i = vec![inputs.clone()];
                *explore = false;
            }
        }
        ctx.finding(Finding {
            key: format!("{} | {}", m.label, inputs),
            what: format!(
                "grammar [{}] input [{}]: {}\nexpected: {}\nactual:   {}",
                m.label, inputs, v.why, v.exp, v.act
            ),
            module: Some(one),
            args: vec![
                format!("prop={}", args.prop),
                format!("mode={}", args.mode),
                format!("budget={}", args.budget),
                format!("preempt={}", args.preempt),
                format!("repeat={}", args.repeat),
                format!("config={}", args.config),
            ],
            body: None,
        });
    }
}

/// Compile and explore modules; `must_compile`: a module that does not compile is a violation.
pub fn execute(ctx: &Ctx, mods: &[Mod], args: &Args, must_compile: bool) -> Result<Outcome, String> {
    let out = batch::run(mods, args)?;
    collect_stats(ctx, &out);
    if must_compile {
        for (i, c) in out.compiled.iter().enumerate() {
            if let Some(x @ (Compiled::Rejected(_) | Compiled::Error(_) | Compiled::Crash(_))) = c {
                ctx.finding(Finding {
                    key: format!("rejected: {}", mods[i].label),
                    what: format!("does not compile: {x:?}\n{}", mods[i].text),
                    module: Some(mods[i].clone()),
                    args: vec![],
                    body: None,
                });
            }
        }
    }
    behaviours(ctx, mods, &out, args);
    if args.per_crate > 1 && !crate::checks::found(ctx) {
        configurations(ctx, mods, &out, args, must_compile)?;
    }
    Ok(out)
}

/// Some of the modules again, in crates of other editions and profiles.
fn configurations(ctx: &Ctx, mods: &[Mod], first: &Outcome, args: &Args, must_compile: bool) -> Result<(), String> {
    let live: Vec<usize> = (0..mods.len()).filter(|i| first.compiled[*i] == Some(Compiled::Yes)).collect();
    let n = ctx.pick(8, 40);
    let outs: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = (1..batch::CONFIGS.len())
            .map(|config| {
                // different ones for every configuration, the first ones for all
                let mut pick: Vec<usize> = live.iter().copied().take(n / 4).collect();
                pick.extend(live.iter().copied().skip(n / 4 + config).step_by(live.len() / n + 1));
                let sub: Vec<Mod> = pick.iter().map(|i| mods[*i].clone()).collect();
                let a = Args { config, prop: args.prop.clone(), mode: args.mode.clone(), ..*args };
                sc.spawn(move || batch::run(&sub, &a).map(|o| (sub, a, o)))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for o in outs {
        let (sub, a, out) = o?;
        ctx.add("parsers_in_other_editions_and_profiles", out.compiled.iter().filter(|c| **c == Some(Compiled::Yes)).count() as u64);
        for k in ["runs", "faults", "nested", "histories", "schedules"] {
            ctx.add("runs_in_other_editions_and_profiles", out.stats.get(k).copied().unwrap_or(0));
        }
        for (i, c) in out.compiled.iter().enumerate() {
            if let (true, Some(x @ (Compiled::Rejected(_) | Compiled::Error(_) | Compiled::Crash(_)))) = (must_compile, c) {
                ctx.finding(Finding {
                    key: format!("rejected in edition {}: {}", batch::CONFIGS[a.config].0, sub[i].label),
                    what: format!("compiles in edition 2021, but not in {:?}: {x:?}\n{}", batch::CONFIGS[a.config], sub[i].text),
                    module: Some(sub[i].clone()),
                    args: vec![format!("config={}", a.config)],
                    body: None,
                });
            }
        }
        behaviours(ctx, &sub, &out, &a);
    }
    Ok(())
}

/// The tool chain works (so that compile failures are the macro's).
pub fn canary() -> Result<(), String> {
    let m = Mod {
        text: "pub fn check(r: &mut ::vref::drive::Report) { r.eq(\"\", \"a\", \"a\"); }\n".into(),
        kind: Kind::Custom,
        label: "canary".into(),
    };
    let out = batch::run(&[m], &Args::new("canary"))?;
    if out.compiled[0] != Some(Compiled::Yes) {
        return Err(format!("tool chain: {:?}", out.compiled));
    }
    Ok(())
}

#[allow(dead_code)]
pub fn num(n: u64) -> J {
    J::Num(n as f64)
}
