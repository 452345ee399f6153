//! C12: the outcome of an expansion does not depend on what happened before it, on the thread, on the
//! process or on its environment.
use crate::batch;
use crate::checks::{classic_grammars, collect, some_order};
use crate::ctx::{Ctx, Finding};
use crate::pool::{self, raw_line, Answer, JOBS};
use crate::render::{Nota, Pres};
use crate::space::{family, perms, rename, Space};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use vref::grammar::{Grammar, Sym};

struct Input {
    label: String,
    body: String,
    accepted: bool,
    /// What has to be in scope.
    prelude: String,
}

/// Macro inputs that share names for different things, so that anything remembered from one shows in
/// another.
fn inputs() -> Vec<Input> {
    let mut v = vec![];
    let mut put = |label, body: String, accepted, prelude: &str| {
        v.push(Input { label: str::to_owned(label), body, accepted, prelude: prelude.to_owned() })
    };
    let of = |g: &Grammar| Pres::plain(g).body();
    let g = |s: &str| of(&Grammar::parse(s));
    put("list", g("2 1 0 | 0 t0 | 0 n0 t1 t0"), true, "use ::vref::tok::Tok2;");
    put("list of other order", g("2 2 0,1 | 0 n1 t0 | 0 | 1 t1 | 1 t0 n0 t1"), true, "use ::vref::tok::Tok2;");
    put("levels", of(&family("levels", 2)), true, "use ::vref::tok::*;");
    put("nullable", of(&family("nullable", 4)), true, "use ::vref::tok::*;");
    put("entries", of(&family("entries", 5)), true, "use ::vref::tok::*;");
    put("lookahead", of(&family("lookahead", 5)), true, "use ::vref::tok::*;");
    put(
        "types and lifetimes",
        "enum T<'a> { \"a\" => T::A(<&'a str>, <u8>), \"b\" => T::B { x: (<bool>, _), .. }, \"c\" => <T<'a>> }
         type State = u8;
         pub N0: Vec<&'a str> = { => vec![], <mut n: N0> <x: \"a\"> => { n.push(x.0); n }, N1 N2 \"c\" N3 => vec![] };
         N1: bool = <x: \"b\"> => x,
         N2: Option<T<'a>> = { <x: \"c\"> => Some(x), \"b\" \"c\" => None };
         pub N3: Vec<&'a str> = { N2 => vec![] };"
            .into(),
        true,
        "pub enum T<'a> { A(&'a str, u8), B { x: (bool, u8), y: u8 }, C }",
    );
    put(
        "shift/reduce conflict resolved",
        g("2 1 0 | 0 t0 n0 | 0 t0 n0 t1 n0 | 0"),
        true,
        "use ::vref::tok::Tok2;",
    );
    put("reduce/reduce conflict", g("1 3 0 | 0 n1 | 0 n2 | 1 t0 | 2 t0"), false, "use ::vref::tok::*;");
    put("another reduce/reduce conflict", g("2 3 0,1 | 0 n1 t0 | 0 n2 t0 | 1 t1 | 2 t1"), false, "use ::vref::tok::*;");
    put("accept conflict", g("1 1 0 | 0 t0 | 0 n0"), false, "use ::vref::tok::*;");
    put("unknown non-terminal", "enum T { \"a\" => T::A }\npub N0: u8 = { \"a\" N1 => 1 };".into(), false, "");
    put("unknown terminal", "enum T { \"a\" => T::A }\npub N0: u8 = { \"a\" N1 => 1 };\nN1: u16 = { \"t0\" => 3 };".into(), false, "");
    put("syntax error", "enum T { \"a\" => T::A }\npub N0: u8 = { \"a\" <N1 => 1 };".into(), false, "");
    put("no token enum", "pub N0: u8 = { \"a\" => 1 };".into(), false, "");
    put("duplicates", "enum T { \"a\" => T::A, \"b\" => T::B, \"a\" => T::C }\npub N0: u8 = { \"a\" => 1 };\nN0: u8 = { \"b\" => 1 };".into(), false, "");
    v
}

/// The presentation and everything one small step away from it: one symbol, production, name, type,
/// binder, flag, order or spelling changed. Some are accepted and some are not; expansion must be a
/// function of all of it.
fn neighbours(p: &Pres) -> Vec<Input> {
    let mut v: Vec<(String, String)> = vec![("base".into(), p.body())];
    let g = &p.g;
    let syms: Vec<Sym> = (0..g.n_t as u32).map(Sym::T).chain((0..g.n_n as u32).map(Sym::N)).collect();
    let redo = |h: &Grammar| Pres { ty: p.ty.clone(), nt: p.nt.clone(), t: p.t.clone(), ..Pres::plain(h) };
    // grammar
    for i in 0..g.prods.len() {
        for j in 0..=g.prods[i].rhs.len() {
            for s in &syms {
                let mut h = g.clone();
                if j < g.prods[i].rhs.len() {
                    h.prods[i].rhs[j] = *s;
                } else {
                    h.prods[i].rhs.push(*s);
                }
                v.push((format!("symbol {j} of production {i} is {s:?}"), redo(&h).body()));
            }
            if j < g.prods[i].rhs.len() {
                let mut h = g.clone();
                h.prods[i].rhs.remove(j);
                v.push((format!("symbol {j} of production {i} is gone"), redo(&h).body()));
            }
        }
        let mut h = g.clone();
        h.prods.remove(i);
        v.push((format!("production {i} is gone"), redo(&h).body()));
        let mut h = g.clone();
        h.prods.insert(i, g.prods[i].clone());
        v.push((format!("production {i} twice"), redo(&h).body()));
    }
    for h in crate::checks::orders(g) {
        for tp in perms(g.n_t) {
            let id: Vec<usize> = (0..g.n_n).collect();
            let h = rename(&h, &id, &tp);
            v.push((format!("reordered, renumbered: {h}"), Pres::plain(&h).body()));
        }
    }
    for mask in 1..1usize << g.n_n {
        let mut h = p.clone();
        h.g.entries = (0..g.n_n).filter(|i| mask >> i & 1 == 1).collect();
        v.push((format!("public {:?}", h.g.entries), h.body()));
    }
    // everything else
    for ty in partitions(g.n_n) {
        v.push((format!("types {ty:?}"), Pres { ty, ..p.clone() }.body()));
    }
    for i in 0..g.prods.len() {
        for j in 0..g.prods[i].rhs.len() {
            for b in [crate::render::Bind::No, crate::render::Bind::Mut] {
                let mut h = p.clone();
                h.bind[i][j] = b;
                v.push((format!("binder {j} of production {i} is {b:?}"), h.body()));
            }
        }
        let b = p.body().replace(&format!("::act({i}, "), &format!("::act({}, ", i + 50));
        v.push((format!("action {i} differs"), b.replace(&format!("::mk({i}, "), &format!("::mk({}, ", i + 50))));
    }
    for i in 0..g.n_t {
        let mut h = p.clone();
        h.chosen[i] = false;
        v.push((format!("payload {i} not captured"), h.body()));
        let mut h = p.clone();
        h.t[i] = "x".into();
        v.push((format!("terminal {i} named otherwise"), h.body()));
        v.push((format!("payload {i} typed otherwise"), p.body().replacen(&format!("{}(<::vref::rt::Val>)", (b'A' + i as u8) as char), &format!("{}(<vref::rt::Val>)", (b'A' + i as u8) as char), 1)));
    }
    for i in 0..g.n_n {
        let mut h = p.clone();
        h.nt[i] = format!("M{i}");
        v.push((format!("non-terminal {i} named otherwise"), h.body()));
    }
    for e in 0..=g.n_n {
        v.push((format!("enum at {e}"), Pres { enum_pos: e, ..p.clone() }.body()));
    }
    v.push(("other binders".into(), Pres { binder: "by".into(), ..p.clone() }.body()));
    v.push(("other token type".into(), p.body().replace("enum Tok", "enum tok::Tok").replace("=> Tok", "=> tok::Tok")));
    let n = p.nota;
    for (l, nota) in [
        ("braceless", Nota { braceless: true, ..n }),
        ("no commas", Nota { no_commas: true, ..n }),
        ("no last comma", Nota { no_last_comma: true, ..n }),
        ("blocks", Nota { blocks: true, ..n }),
        ("state", Nota { state: 1, ..n }),
        ("mut", Nota { muts: true, ..n }),
        ("noise", Nota { noise: true, ..n }),
    ] {
        v.push((l.into(), Pres { nota, ..p.clone() }.body().replace("\t", " ")));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.1.clone()));
    v.into_iter()
        .map(|(l, body)| Input {
            label: format!("[{g}], {l}"),
            body,
            accepted: false,
            prelude: "use ::vref::tok::*; use ::vref::tok; use ::vref;".into(),
        })
        .collect()
}

/// A grammar of which every name (types, variants, terminals, non-terminals, binders) has a number.
fn fresh_names(k: usize) -> String {
    let mut nts = String::new();
    for j in 0..1 + k % 3 {
        nts.push_str(&format!(
            "{}N{k}x{j}: R{k}x{j} = {{ <b{k}x{j}: \"t{k}x0\"> => f{k}x{j}(b{k}x{j}), <c{k}x{j}: N{k}x{j}> \"t{k}x{}\" => g{k}x{j}(c{k}x{j}) }};\n",
            if j == 0 { "pub " } else { "" },
            1 + j % (1 + k % 4),
        ));
    }
    let toks: Vec<String> = (0..2 + k % 4).map(|i| format!("\"t{k}x{i}\" => Tok{k}::V{k}x{i}(<P{k}x{i}>)")).collect();
    format!("enum Tok{k} {{ {} }}\n{nts}", toks.join(", "))
}

fn bases() -> Vec<Pres> {
    let mut v: Vec<Pres> = [
        "2 1 0 | 0 t0 | 0 n0 t1 t0",
        "2 2 0 | 0 n1 t0 | 0 | 1 t1 | 1 t0 n0 t1",
        "3 2 0 | 0 t0 n0 n1 t1 | 0 t2 | 1 | 1 t2 n1",
        "3 3 0,1 | 0 n1 t0 | 0 n2 | 1 t1 n2 | 1 t2 | 2 n1",
        "2 1 0 | 0 t0 n0 | 0 t0 n0 t1 n0 | 0",
    ]
    .iter()
    .map(|s| Pres::plain(&Grammar::parse(s)))
    .collect();
    v[1].ty = vec![1, 0];
    v[3].ty = vec![0, 1, 2];
    v
}

fn parallel(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..JOBS {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n || batch::time_up() {
                    break;
                }
                f(i);
            });
        }
    });
}

fn outcome(a: &Answer) -> String {
    format!("{} {:016x} {}", a.verdict, a.sr, a.msg)
}

/// All ways to spread `n` steps over threads, up to renaming of threads.
fn partitions(n: usize) -> Vec<Vec<usize>> {
    crate::checks::partitions(n)
}

pub fn c12(ctx: &Ctx) -> Result<(), String> {
    let ins = inputs();
    if cfg!(not(feature = "inproc")) {
        // only rustc can expand
        for p in bases() {
            rustc_neighbours(ctx, &neighbours(&p))?;
        }
        return rustc_histories(ctx, &ins);
    }
    let k = ins.len();
    let line = |i: usize, mode: &str| raw_line(mode, &ins[i].body);
    let base: Vec<String> = (0..k)
        .map(|i| outcome(&pool::sequence(&[line(i, "h")], &[], None)[0]))
        .collect();
    for (i, b) in ins.iter().zip(&base) {
        if i.accepted != b.starts_with('A') {
            return Err(format!("harness: input `{}` is expected to be {}: {b}", i.label, if i.accepted { "accepted" } else { "rejected" }));
        }
    }
    let check = |seq: &[usize], answers: &[Answer], how: &str| {
        for (pos, (i, a)) in seq.iter().zip(answers).enumerate() {
            let o = outcome(a);
            if o != base[*i] {
                let names: Vec<&str> = seq[..=pos].iter().map(|i| ins[*i].label.as_str()).collect();
                ctx.finding(Finding {
                    key: format!("history {}", names.join(" ; ")),
                    what: format!(
                        "expanding `{}` after `{}`{how} differs from expanding it alone\nalone: {}\nnow:   {o}\ninput:\n{}",
                        ins[*i].label,
                        names[..pos].join("` ; `"),
                        base[*i],
                        ins[*i].body
                    ),
                    module: None,
                    args: vec![],
                    body: Some(ins[*i].body.clone()),
                });
            }
        }
        ctx.add("expansions", answers.len() as u64);
        ctx.add("transitions", answers.len() as u64);
        ctx.add("histories", 1);
        ctx.add("states", 1);
        ctx.add("traces_validated_against_impl", 1);
    };
    // 1. all histories on one thread, each in a process of its own
    let mut hist: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    let seqs = |len: usize, n: usize| -> Vec<Vec<usize>> {
        let mut v = vec![vec![]];
        for _ in 0..len {
            v = v.iter().flat_map(|s: &Vec<usize>| (0..n).map(move |i| [s.clone(), vec![i]].concat())).collect();
        }
        v
    };
    for len in 1..=3 {
        hist.extend(seqs(len, k).into_iter().map(|s| (s, vec![])));
    }
    ctx.bound(format!("all sequences of up to 3 expansions over {k} macro inputs ({} accepted), each sequence in a fresh process", ins.iter().filter(|i| i.accepted).count()));
    // a smaller alphabet: two accepted, two kinds of conflict, a lowering and a syntax error
    let small = [0usize, 1, 6, 8, 10, 11, 13];
    let m = ctx.pick(6, 7);
    let deep = ctx.pick(4, 5);
    hist.extend(seqs(deep, m).into_iter().map(|s| (s.iter().map(|i| small[*i]).collect(), vec![])));
    ctx.bound(format!("all sequences of {deep} expansions over {m} of them"));
    // 2. all spreads over threads
    let tlen = ctx.pick(3, 4);
    for len in 2..=tlen {
        for s in seqs(len, small.len()) {
            for p in partitions(len) {
                if p.iter().any(|x| *x != 0) {
                    hist.push((s.iter().map(|i| small[*i]).collect(), p));
                }
            }
        }
    }
    ctx.bound(format!("all sequences of 2 to {tlen} expansions over {} of them, spread over threads in every way", small.len()));
    let t0 = std::time::Instant::now();
    parallel(hist.len(), |h| {
        let (s, p) = &hist[h];
        let lines: Vec<String> = s
            .iter()
            .enumerate()
            .map(|(j, i)| if p.is_empty() { line(*i, "h") } else { line(*i, &format!("h{}", p[j])) })
            .collect();
        let a = pool::sequence(&lines, &[], None);
        check(s, &a, if p.is_empty() { "" } else { " (on several threads)" });
    });
    if std::env::var_os("VMC_LOG").is_some() {
        eprintln!("[{:?}] {} histories", t0.elapsed(), hist.len());
    }
    // 3. repetition
    let reps = ctx.pick(300, 3000);
    parallel(k, |i| {
        let s = vec![i; reps];
        let a = pool::sequence(&s.iter().map(|i| line(*i, "h")).collect::<Vec<_>>(), &[], None);
        check(&s, &a, " (repeated)");
    });
    {
        // each input after a long mixed history
        let s: Vec<usize> = (0..reps * 2).map(|n| (n * 7 + n / k) % k).collect();
        let a = pool::sequence(&s.iter().map(|i| line(*i, "h")).collect::<Vec<_>>(), &[], None);
        check(&s, &a, " (long history)");
    }
    ctx.bound(format!("each input {reps} times in one process; one history of {}", reps * 2));
    // near neighbours: every ordered pair, the second in a process that has expanded the first
    let mut everything: Vec<(String, String)> = ins.iter().map(|i| i.body.clone()).zip(base.iter().cloned()).collect();
    for p in bases() {
        let ns = neighbours(&p);
        let alone: Vec<Mutex<String>> = ns.iter().map(|_| Mutex::default()).collect();
        parallel(ns.len(), |i| {
            *alone[i].lock().unwrap() = outcome(&pool::sequence(&[raw_line("h", &ns[i].body)], &[], None)[0]);
        });
        let alone: Vec<String> = alone.into_iter().map(|m| m.into_inner().unwrap()).collect();
        let judge = |seq: &[usize], a: &[Answer]| {
            for (pos, (i, a)) in seq.iter().zip(a).enumerate() {
                let o = outcome(a);
                if o != alone[*i] && !alone[*i].is_empty() {
                    let before: Vec<&str> = seq[..pos].iter().rev().take(6).rev().map(|i| ns[*i].label.as_str()).collect();
                    ctx.finding(Finding {
                        key: format!("neighbours {} ; {}", before.join(" ; "), ns[*i].label),
                        what: format!(
                            "expanding `{}` after `{}` differs from expanding it alone\nalone: {}\nnow:   {o}\ninput:\n{}",
                            ns[*i].label, before.join("` ; `"), alone[*i], ns[*i].body
                        ),
                        module: None,
                        args: vec![],
                        body: Some(ns[*i].body.clone()),
                    });
                }
            }
            ctx.add("expansions", a.len() as u64);
            ctx.add("transitions", a.len() as u64);
            ctx.add("histories", 1);
            ctx.add("states", 1);
            ctx.add("traces_validated_against_impl", 1);
        };
        parallel(ns.len() * ns.len(), |n| {
            let s = [n / ns.len(), n % ns.len()];
            judge(&s, &pool::sequence(&s.map(|i| raw_line("h", &ns[i].body)), &[], None));
        });
        // all of them in one process, in several orders, each several times
        let k = ns.len();
        let long: Vec<Vec<usize>> = vec![
            (0..k).chain(0..k).chain(0..k).collect(),
            (0..k).rev().chain(0..k).collect(),
            (0..k).flat_map(|i| [i, i, 0]).chain(0..k).collect(),
            // strides: neighbours of one kind lie next to each other
            (0..k * 3).map(|n| (n * 37 + n / k) % k).collect(),
        ];
        parallel(long.len(), |n| {
            judge(&long[n], &pool::sequence(&long[n].iter().map(|i| raw_line("h", &ns[*i].body)).collect::<Vec<_>>(), &[], None));
        });
        ctx.bound(format!("all {k} near neighbours of [{}] in one process, 2 to 3 times each, in 4 orders", p.g));
        everything.extend(ns.iter().map(|n| n.body.clone()).zip(alone.iter().cloned()));
        let acc = alone.iter().filter(|a| a.starts_with('A')).count();
        ctx.bound(format!("all ordered pairs of {} near neighbours ({acc} accepted) of [{}], each pair in a fresh process", ns.len(), p.g));
        rustc_neighbours(ctx, &ns)?;
    }
    if std::env::var_os("VMC_LOG").is_some() {
        eprintln!("[{:?}] neighbours", t0.elapsed());
    }
    // many inputs that share no names: anything counted, interned or numbered in few bits wraps
    let fresh: Vec<String> = (0..ctx.pick(700, 3000)).map(|k| fresh_names(k)).collect();
    {
        let alone: Vec<Mutex<String>> = fresh.iter().map(|_| Mutex::default()).collect();
        parallel(fresh.len(), |i| {
            *alone[i].lock().unwrap() = outcome(&pool::sequence(&[raw_line("h", &fresh[i])], &[], None)[0]);
        });
        if let Some(a) = alone.iter().find(|a| !a.lock().unwrap().starts_with('A') && !a.lock().unwrap().is_empty()) {
            return Err(format!("harness: {}", a.lock().unwrap()));
        }
        everything.extend(fresh.iter().cloned().zip(alone.into_iter().map(|m| m.into_inner().unwrap())));
    }
    ctx.bound(format!("{} inputs that have no name in common", fresh.len()));
    // all of the above in one process
    let long: Vec<Vec<usize>> = vec![
        (0..everything.len()).chain((0..everything.len()).rev()).chain(0..everything.len()).collect(),
        (0..everything.len() * 2).map(|n| n * 641 % everything.len()).collect(),
    ];
    parallel(long.len(), |n| {
        let a = pool::sequence(&long[n].iter().map(|i| raw_line("h", &everything[*i].0)).collect::<Vec<_>>(), &[], None);
        for (pos, (i, a)) in long[n].iter().zip(&a).enumerate() {
            let o = outcome(a);
            let (body, alone) = &everything[*i];
            if o != *alone && !alone.is_empty() {
                ctx.finding(Finding {
                    key: format!("long history {n} at {pos}"),
                    what: format!("as expansion {pos} of one process, the input expands differently from alone\nalone: {alone}\nnow:   {o}\ninput:\n{body}"),
                    module: None,
                    args: vec![],
                    body: Some(body.clone()),
                });
                break;
            }
        }
        ctx.add("expansions", a.len() as u64);
        ctx.add("transitions", a.len() as u64);
        ctx.add("histories", 1);
        ctx.add("states", 1);
    });
    ctx.bound(format!("all {} inputs of the above in one process, up to 3 times each, in 2 orders", everything.len()));
    // 4. environments: fresh processes with other variables, directories, and identities
    let envs: Vec<(Vec<(String, String)>, Option<&str>)> = vec![
        (vec![], Some("/")),
        (vec![("RUST_BACKTRACE".into(), "1".into())], None),
        (vec![("RUST_LOG".into(), "trace".into()), ("DEBUG".into(), "1".into()), ("PARSEGEN_DEBUG".into(), "1".into())], None),
        (vec![("HOME".into(), "/nonexistent".into()), ("CARGO_MANIFEST_DIR".into(), "/nonexistent".into()), ("OUT_DIR".into(), "/nonexistent".into())], None),
        (vec![("LANG".into(), "tr_TR.UTF-8".into()), ("LC_ALL".into(), "C".into()), ("TZ".into(), "Asia/Tokyo".into())], Some("/usr")),
        (vec![("RUST_MIN_STACK".into(), "4000000".into()), ("PROFILE".into(), "release".into()), ("OPT_LEVEL".into(), "3".into())], None),
    ];
    let times = ctx.pick(10, 100);
    parallel(envs.len() * k * times, |n| {
        let (e, d) = &envs[n % envs.len()];
        let i = n / envs.len() % k;
        let a = pool::sequence(&[line(i, "h")], e, *d);
        check(&[i], &a, " (in another environment)");
    });
    ctx.bound(format!("each input in {} environments (variables, directory), {times} fresh processes each", envs.len()));
    // 5. many grammars, twice, in opposite orders, in processes with different histories
    let sp = ctx.pick(
        vec![Space::new(2, 2, 6), Space::new(3, 1, 6), Space::new(3, 2, 6)],
        vec![Space::new(2, 2, 7), Space::new(3, 1, 7), Space::new(3, 2, 7), Space::new(2, 3, 7)],
    );
    let mut gs = classic_grammars();
    gs.extend(crate::checks::families(false).into_iter().map(|f| f.1).filter(|g| g.prods.len() < 40));
    gs.extend(collect(&sp, |_| true).iter().enumerate().map(|(i, g)| some_order(g, i)));
    for s in &sp {
        ctx.bound(format!("all grammars with {s}: expanded twice, in opposite orders, in processes with other histories"));
    }
    let first: Vec<Mutex<Option<String>>> = gs.iter().map(|_| Mutex::new(None)).collect();
    for pass in 0..2 {
        let stop = AtomicBool::new(false);
        let n = pool::run(
            |send| {
                for j in 0..gs.len() {
                    let i = if pass == 0 { j } else { gs.len() - 1 - j };
                    if !send(i, raw_line("h", &Pres::plain(&gs[i]).body())) {
                        return;
                    }
                }
            },
            |i, a| {
                let o = outcome(&a);
                let mut f = first[i].lock().unwrap();
                match f.as_ref() {
                    None => *f = Some(o),
                    Some(p) if *p != o => {
                        let body = Pres::plain(&gs[i]).body();
                        ctx.finding(Finding {
                            key: format!("twice {}", gs[i]),
                            what: format!("expanding [{}] twice gives different outcomes\nfirst:  {p}\nsecond: {o}\ninput:\n{body}", gs[i]),
                            module: None,
                            args: vec![],
                            body: Some(body),
                        });
                    }
                    _ => {}
                }
            },
            &stop,
        );
        ctx.add("expansions", n);
        ctx.add("transitions", n);
    }
    ctx.add("grammars_expanded_twice", gs.len() as u64);
    ctx.add("states", gs.len() as u64);
    // 6. histories of the real macro in rustc
    rustc_histories(ctx, &ins)?;
    for i in &ins {
        ctx.sample(format!("{}: {}", i.label, i.body.replace('\n', " ")));
    }
    Ok(())
}

/// What rustc makes of each macro invocation: expanded items, or the error.
fn rustc_expand(ins: &[Input], seq: &[usize], n: usize) -> Result<Vec<String>, String> {
    let dir = batch::scratch();
    let src = dir.join(format!("p{n}.rs"));
    let mut text = String::from("#![allow(warnings)]\n");
    let mut line = 2;
    let mut ranges = vec![];
    for (k, i) in seq.iter().enumerate() {
        let m = format!("pub mod m{k} {{ {}\n::parsegen::parser! {{\n{}\n}}\npub struct End; }}\n", ins[*i].prelude, ins[*i].body);
        let c = m.matches('\n').count();
        ranges.push((line, line + c - 1));
        line += c;
        text.push_str(&m);
    }
    text.push_str("fn main() {}\n");
    std::fs::write(&src, text).unwrap();
    let mut c = std::process::Command::new("rustc");
    c.env("RUSTC_BOOTSTRAP", "1").env_remove("RUST_BACKTRACE");
    let mut args = batch::rustc_args(&src, &dir.join(format!("p{n}")), 0);
    let o = args.iter().position(|a| a == "-o").unwrap();
    args.drain(o..o + 2);
    c.args(args).arg("-Zunpretty=expanded");
    let r = batch::run_cmd(c, 120);
    let _ = std::fs::remove_file(&src);
    if r.timed_out {
        return Err("rustc does not finish".into());
    }
    let mut out = vec![String::new(); seq.len()];
    let mut cur = usize::MAX;
    for l in r.stdout.lines() {
        if let Some(k) = (0..seq.len()).find(|k| l == format!("pub mod m{k} {{")) {
            cur = k;
        } else if l == "}" {
            cur = usize::MAX;
        } else if cur != usize::MAX {
            // the pretty printer places blank lines and breaks by source position
            let l = l.trim();
            if !l.is_empty() {
                out[cur].push_str(l);
                out[cur].push('\n');
            }
        }
    }
    for e in batch::compile_errors(&r.stderr, &src.display().to_string()) {
        for l in &e.lines {
            if let Some(k) = ranges.iter().position(|(a, b)| a <= l && l <= b) {
                // errors about names come after expansion
                if e.panicked || out[k].lines().count() < 20 {
                    out[k].push_str(&format!("ERROR {}\n", e.msg));
                }
            }
        }
    }
    Ok(out)
}

/// Near neighbours in rustc: forward, backward, and each right after and right before the base.
fn rustc_neighbours(ctx: &Ctx, ns: &[Input]) -> Result<(), String> {
    // the pretty printer reprints comments of the source wherever it finds a gap: leave out those
    // with comments
    let k = ns.iter().position(|n| n.body.contains("/*")).unwrap_or(ns.len());
    let ns = &ns[..k];
    let mut seqs: Vec<Vec<usize>> = (0..k).map(|i| vec![i]).collect();
    seqs.push((0..k).collect());
    seqs.push((0..k).rev().collect());
    seqs.push((1..k).flat_map(|i| [0, i]).collect());
    let res: Vec<Mutex<Vec<String>>> = seqs.iter().map(|_| Mutex::default()).collect();
    let err = Mutex::new(None);
    parallel(seqs.len(), |n| match rustc_expand(ns, &seqs[seqs.len() - 1 - n], 100_000 + n) {
        Ok(v) => *res[seqs.len() - 1 - n].lock().unwrap() = v,
        Err(e) => *err.lock().unwrap() = Some(e),
    });
    if let Some(e) = err.into_inner().unwrap() {
        return Err(e);
    }
    let res: Vec<Vec<String>> = res.into_iter().map(|m| m.into_inner().unwrap()).collect();
    for (s, r) in seqs.iter().zip(&res).skip(k) {
        for (pos, (i, o)) in s.iter().zip(r).enumerate() {
            // (not reached before the time limit)
            if res[*i].is_empty() {
                continue;
            }
            if *o != res[*i][0] {
                let d = o.lines().zip(res[*i][0].lines()).find(|(a, b)| a != b).map_or("lengths differ".into(), |(a, b)| format!("alone: {b}\nnow:   {a}"));
                ctx.finding(Finding {
                    key: format!("rustc neighbours {} at {pos}", ns[*i].label),
                    what: format!("`{}`, as number {pos} of {} in one rustc process, right after `{}`, expands differently from alone\n{d}\ninput:\n{}", ns[*i].label, s.len(), if pos > 0 { ns[s[pos - 1]].label.as_str() } else { "" }, ns[*i].body),
                    module: None,
                    args: vec![],
                    body: Some(ns[*i].body.clone()),
                });
            }
        }
        ctx.add("rustc_histories", 1);
        ctx.add("transitions", r.len() as u64);
        ctx.add("traces_validated_against_impl", 1);
    }
    Ok(())
}

fn rustc_histories(ctx: &Ctx, ins: &[Input]) -> Result<(), String> {
    let k = ins.len();
    let base: Vec<String> = (0..k)
        .map(|i| rustc_expand(ins, &[i], i).map(|mut v| v.remove(0)))
        .collect::<Result<_, _>>()?;
    for (i, b) in ins.iter().zip(&base) {
        if i.accepted != b.contains("SemanticActionResult") && i.accepted == b.contains("ERROR") {
            return Err(format!("harness: `{}` in rustc: {}", i.label, b.chars().take(500).collect::<String>()));
        }
    }
    let mut seqs: Vec<Vec<usize>> = vec![];
    for a in 0..k {
        for b in 0..k {
            seqs.push(vec![a, b]);
        }
    }
    let alpha: Vec<usize> = if ctx.thorough { (0..k).collect() } else { vec![0, 1, 6, 8, 11, 13] };
    for a in &alpha {
        for b in &alpha {
            for c in &alpha {
                seqs.push(vec![*a, *b, *c]);
            }
        }
    }
    for i in 0..k {
        seqs.push(vec![i; 12]);
        seqs.push((0..k).map(|j| (i + j) % k).collect());
        seqs.push((0..k).map(|j| (i + k - j) % k).collect());
    }
    ctx.bound(format!("in rustc itself: all sequences of 2 invocations over {k} inputs and of 3 over {}, each input 12 times, all inputs in {} orders; expanded items and error messages compared", alpha.len(), 2 * k));
    let err = Mutex::new(None);
    let found: Mutex<BTreeMap<String, (String, String)>> = Mutex::new(BTreeMap::new());
    let t0 = std::time::Instant::now();
    parallel(seqs.len(), |n| {
        let s = &seqs[n];
        match rustc_expand(ins, s, 1000 + n) {
            Err(e) => *err.lock().unwrap() = Some(e),
            Ok(v) => {
                for (pos, (i, o)) in s.iter().zip(&v).enumerate() {
                    if *o != base[*i] {
                        let names: Vec<&str> = s[..=pos].iter().map(|i| ins[*i].label.as_str()).collect();
                        let d = o
                            .lines()
                            .zip(base[*i].lines())
                            .find(|(a, b)| a != b)
                            .map_or("lengths differ".into(), |(a, b)| format!("alone: {b}\nnow:   {a}"));
                        found.lock().unwrap().insert(format!("rustc history {}", names.join(" ; ")), (d, ins[*i].body.clone()));
                    }
                }
                ctx.add("rustc_histories", 1);
                ctx.add("transitions", v.len() as u64);
                ctx.add("traces_validated_against_impl", 1);
            }
        }
    });
    if std::env::var_os("VMC_LOG").is_some() {
        eprintln!("[{:?}] {} rustc histories", t0.elapsed(), seqs.len());
    }
    if let Some(e) = err.into_inner().unwrap() {
        return Err(e);
    }
    for (k, (d, body)) in found.into_inner().unwrap() {
        ctx.finding(Finding {
            what: format!("the last expansion in this sequence in one rustc process differs from the same expansion alone: {k}\n{d}\ninput:\n{body}"),
            key: k,
            module: None,
            args: vec![],
            body: Some(body),
        });
    }
    Ok(())
}
