//! One function per property.
use crate::batch::{Args, Mod};
use crate::ctx::Ctx;
use crate::layers::*;
use crate::render::{Bind, Pres};
use crate::space::*;
use vref::grammar::{Grammar, Sym};

pub fn check(prop: &str) -> i32 {
    let ctx = Ctx::new(prop);
    let r = (|| {
        canary()?;
        match prop {
            "C01" => c01(&ctx),
            "C02" => c02(&ctx),
            "C03" | "C04" => c03_c04(&ctx),
            "C05" | "C06" => c05_c06(&ctx),
            "C07" => c07(&ctx),
            "C08" => c08(&ctx),
            "C09" => c09(&ctx),
            "C10" => crate::patterns::c10(&ctx),
            "C11" => c11(&ctx),
            "C12" => crate::purity::c12(&ctx),
            "C13" => c13(&ctx),
            "C14" => c14(&ctx),
            "C15" => crate::notation::c15(&ctx),
            "C16" => crate::notation::c16(&ctx),
            "C17" => c17(&ctx),
            "C18" => crate::types::c18(&ctx),
            _ => Err(format!("no check for {prop}")),
        }
    })();
    crate::batch::cleanup();
    match r {
        Err(e) => {
            println!("ERROR property={prop} {e}");
            2
        }
        Ok(()) => ctx.finish(),
    }
}

/// Declaration order of productions as the macro sees it: grouped by non-terminal.
pub fn regroup(g: &Grammar) -> Grammar {
    let mut o: Vec<usize> = (0..g.prods.len()).collect();
    o.sort_by_key(|i| g.prods[*i].lhs);
    reorder(g, &o)
}

/// Every order of non-terminal declarations, each with productions in order and reversed.
pub fn orders(g: &Grammar) -> Vec<Grammar> {
    let id: Vec<usize> = (0..g.n_t).collect();
    let mut out = vec![];
    for np in perms(g.n_n) {
        let h = regroup(&rename(g, &np, &id));
        let mut rev = h.clone();
        rev.prods.reverse();
        let rev = regroup(&rev);
        if rev != h {
            out.push(rev);
        }
        out.push(h);
    }
    out
}

/// The i-th of the orders, cycling.
pub fn some_order(g: &Grammar, i: usize) -> Grammar {
    let v = orders(g);
    v[i % v.len()].clone()
}

pub fn collect(sp: &[Space], keep: impl Fn(&Grammar) -> bool) -> Vec<Grammar> {
    let mut v = vec![];
    for s in sp {
        enumerate(s, &mut |g| {
            if keep(&g) {
                v.push(g);
            }
        });
    }
    v
}

pub fn lr1_reduced(sp: &[Space]) -> Vec<Grammar> {
    collect(sp, |g| reduced(g) && conflict_free(g))
}

/// Family instances whose parameters cross 8, 16, 32, 64, 128 and 256.
pub fn families(thorough: bool) -> Vec<(String, Grammar)> {
    let q = [
        ("terminals", vec![7, 9, 17, 33, 65, 129, 257]),
        ("long", vec![9, 17, 33, 65, 129, 257]),
        ("longmix", vec![9, 17, 33, 65]),
        ("chain", vec![9, 33, 65, 129, 257]),
        ("chainrev", vec![9, 33, 65, 129, 257]),
        ("nest", vec![4, 9]),
        ("nullable", vec![4, 7]),
        ("nullchain", vec![4, 8, 12]),
        ("lookahead", vec![4, 9, 33]),
        ("entries", vec![3, 7]),
        ("prods", vec![7, 16, 33, 64, 129, 257]),
        ("levels", vec![3, 5]),
        ("sparse", vec![9, 33, 65, 69, 130, 257]),
        ("sparsegoto", vec![9, 17, 34, 67, 130]),
        ("strides", vec![9, 33, 65, 130, 264]),
    ];
    let t = [
        ("terminals", vec![8, 16, 32, 64, 128, 256, 300, 513]),
        ("long", vec![8, 16, 32, 64, 128, 255, 256, 300, 512]),
        ("longmix", vec![10, 34, 129, 257]),
        ("chain", vec![16, 64, 128, 256, 300]),
        ("chainrev", vec![16, 64, 128, 256, 300]),
        ("nest", vec![12, 17]),
        ("nullable", vec![9, 11]),
        ("nullchain", vec![16, 33]),
        ("lookahead", vec![65, 129]),
        ("entries", vec![12]),
        ("prods", vec![128, 255, 256, 300]),
        ("levels", vec![7]),
        ("sparse", vec![64, 128, 256, 513]),
        ("sparsegoto", vec![64, 128, 257]),
        ("strides", vec![8, 16, 64, 128, 256, 257, 300]),
    ];
    let mut out = vec![];
    for (n, ks) in q.iter().chain(if thorough { t.iter() } else { [].iter() }) {
        for k in ks {
            out.push((format!("{n}({k})"), family(n, *k)));
        }
    }
    // NT and production numbers that run together, tables whose area crosses powers of two
    for (m, q) in [(12, 12), (22, 12), (3, 112), (112, 3), (33, 33)] {
        out.push((format!("grid({m},{q})"), grid(m, q)));
    }
    if thorough {
        for (m, q) in [(65, 65), (12, 120), (120, 12), (22, 23)] {
            out.push((format!("grid({m},{q})"), grid(m, q)));
        }
    }
    out
}

pub fn classic_grammars() -> Vec<Grammar> {
    classics().into_iter().map(|(_, s)| Grammar::parse(s)).filter(conflict_free).collect()
}

/// Long inputs for list-like grammars: (grammar, inputs).
pub fn deep(n: usize) -> Vec<(Grammar, Vec<String>)> {
    vec![
        // left recursion
        (Grammar::parse("2 1 0 | 0 t0 | 0 n0 t1 t0"), vec![
            format!("0: t0 (t1 t0)*{n}"),
            format!("0: t0 (t1 t0)*{n} t1"),
            format!("0: t0 (t1 t0)*{n} t0"),
            format!("0: t0 (t1 t0)*{n} e3"),
        ]),
        // right recursion
        (Grammar::parse("2 1 0 | 0 t0 | 0 t0 t1 n0"), vec![
            format!("0: (t0 t1)*{n} t0"),
            format!("0: (t0 t1)*{n}"),
            format!("0: (t0 t1)*{n} t1"),
            format!("0: (t0 t1)*{n} e3"),
        ]),
        // nesting
        (Grammar::parse("3 1 0 | 0 t0 n0 t1 | 0 t2"), vec![
            format!("0: t0*{n} t2 t1*{n}"),
            format!("0: t0*{n} t2 t1*{}", n + 1),
            format!("0: t0*{n} t2 t1*{}", n - 1),
            format!("0: t0*{n} t1"),
        ]),
        // nullable tail, one reduction per token at the end
        (Grammar::parse("2 2 0 | 0 t0 n0 n1 | 0 | 1 | 1 t1"), vec![
            format!("0: t0*{n} t1*{n}"),
            format!("0: t0*{n}"),
            format!("0: t0*{n} t1*{}", n + 1),
        ]),
    ]
}

fn quick_spaces() -> Vec<Space> {
    vec![
        Space::new(1, 1, 9),
        Space::new(1, 2, 9),
        Space::new(1, 3, 9),
        Space::new(2, 1, 8),
        Space::new(2, 2, 9),
        Space::new(2, 3, 9),
        Space::new(3, 1, 8),
        Space::new(3, 2, 9).rhs(3),
        Space::new(3, 2, 8),
        Space::new(3, 3, 8),
        // deeper, few productions' worth of freedom each
        Space::new(3, 1, 8).rhs(2),
        Space::new(4, 1, 8).rhs(2),
    ]
}

fn thorough_spaces() -> Vec<Space> {
    vec![
        Space::new(1, 1, 10),
        Space::new(1, 2, 10),
        Space::new(1, 3, 10),
        Space::new(1, 4, 10),
        Space::new(2, 1, 10),
        Space::new(2, 2, 10),
        Space::new(2, 3, 10),
        Space::new(2, 4, 10),
        Space::new(3, 1, 9),
        Space::new(3, 2, 10).rhs(3),
        Space::new(3, 3, 10).rhs(3),
        Space::new(4, 1, 9).rhs(2),
        Space::new(4, 2, 9).rhs(3),
    ]
}

const ALL: Look = Look { rejected_lr1: false, accepted_conflict: false, behaviour: true };

/// Model layer of the behavioural properties: every grammar of the spaces that passes `keep`, in
/// several declaration orders, plus families and classics.
fn model_behaviour(
    ctx: &Ctx,
    look: Look,
    spaces: &[Space],
    all_orders: bool,
    keep: impl Fn(&Grammar) -> bool + Send + Sync,
    limit: u64,
) -> Vec<Cand> {
    for s in spaces {
        ctx.bound(format!("model layer: all grammars with {s}"));
    }
    ctx.bound(format!("model layer: {} LR(1) grammars that need the left context (two bodies, two prefixes of up to {} terminals)", contexts(if ctx.thorough { 4 } else { 3 }).len(), if ctx.thorough { 4 } else { 3 }));
    ctx.bound(if all_orders {
        "model layer: every order of the non-terminals, productions forward and reversed"
    } else {
        "model layer: one order of declarations per grammar, cycling through all orders"
    });
    let thorough = ctx.thorough;
    model(ctx, look, limit, |send| {
        for g in classic_grammars() {
            for h in orders(&g).into_iter().take(48) {
                if keep(&h) && !send(Pres::plain(&h)) {
                    return;
                }
            }
        }
        for (_, g) in families(thorough) {
            if !send(Pres::plain(&g)) {
                return;
            }
        }
        let mut go = true;
        for (i, g) in contexts(if thorough { 4 } else { 3 }).iter().enumerate() {
            if !keep(g) {
                continue;
            }
            let hs = if all_orders { orders(g) } else { vec![some_order(g, i)] };
            for h in hs {
                if !send(Pres::plain(&h)) {
                    return;
                }
            }
        }
        let mut i = 0usize;
        for s in spaces {
            enumerate(s, &mut |g| {
                if !go || !keep(&g) {
                    return;
                }
                i += 1;
                let hs = if all_orders { orders(&g) } else { vec![some_order(&g, i)] };
                for h in hs {
                    go &= send(Pres::plain(&h));
                }
            });
            if !go {
                return;
            }
        }
    })
}

fn family_mods(ctx: &Ctx, max: usize) -> Vec<Mod> {
    families(ctx.thorough)
        .into_iter()
        .filter(|(_, g)| g.size() <= max)
        .map(|(n, g)| {
            let mut m = Mod::of(&Pres::plain(&g), true, family_inputs(&g));
            m.label = n;
            m
        })
        .collect()
}

/// For every production, a sentence whose derivation uses it, and that sentence damaged.
pub fn family_inputs(g: &Grammar) -> Vec<String> {
    let shortest = g.shortest();
    // shortest context (before, after) of each non-terminal, per entry
    let mut out = vec![];
    for (ei, e) in g.entries.iter().enumerate() {
        let mut ctxs: Vec<Option<(Vec<u32>, Vec<u32>)>> = vec![None; g.n_n];
        ctxs[*e] = Some((vec![], vec![]));
        let mut work = std::collections::VecDeque::from([*e]);
        while let Some(n) = work.pop_front() {
            let (b, a) = ctxs[n].clone().unwrap();
            for p in g.prods.iter().filter(|p| p.lhs as usize == n) {
                for (i, s) in p.rhs.iter().enumerate() {
                    if let Sym::N(m) = s {
                        let m = *m as usize;
                        if ctxs[m].is_none() {
                            let (Some(x), Some(y)) =
                                (yield_of(&p.rhs[..i], &shortest), yield_of(&p.rhs[i + 1..], &shortest))
                            else {
                                continue;
                            };
                            ctxs[m] = Some(([b.clone(), x].concat(), [y, a.clone()].concat()));
                            work.push_back(m);
                        }
                    }
                }
            }
        }
        let mut seen = std::collections::HashSet::new();
        for p in &g.prods {
            let (Some((b, a)), Some(y)) = (&ctxs[p.lhs as usize], yield_of(&p.rhs, &shortest)) else {
                continue;
            };
            let w = [b.clone(), y, a.clone()].concat();
            let show = |w: &[u32]| {
                let v: Vec<String> = w.iter().map(|t| format!("t{t}")).collect();
                format!("{ei}: {}", v.join(" "))
            };
            let mut add = |w: Vec<u32>| {
                let s = show(&w);
                if seen.insert(s.clone()) {
                    out.push(s);
                }
            };
            add(w.clone());
            if !w.is_empty() {
                add(w[..w.len() - 1].to_vec());
                add([w.clone(), w.clone()].concat());
                let mut x = w.clone();
                let k = x.len() - 1;
                x[k] = (x[k] + 1) % g.n_t as u32;
                add(x);
            }
            if out.len() > 1500 {
                return out;
            }
        }
    }
    out
}

fn yield_of(rhs: &[Sym], shortest: &[Option<Vec<u32>>]) -> Option<Vec<u32>> {
    let mut w = vec![];
    for s in rhs {
        match s {
            Sym::T(t) => w.push(*t),
            Sym::N(n) => w.extend(shortest[*n as usize].clone()?),
        }
    }
    Some(w)
}

fn deep_mods(n: usize) -> Vec<Mod> {
    deep(n)
        .into_iter()
        .map(|(g, ins)| Mod::of(&Pres::plain(&g), false, ins))
        .collect()
}

/// More LR(1) states than 16 bits count.
fn tree_mod() -> Mod {
    sampled_mod("tree(6)", &family("tree", 6), 16, 4096)
}

/// As many productions as 16 bits count (with the augmented one): S -> the first 65,535 sequences of
/// eight of four terminals.
fn codes_mod() -> Mod {
    let mut text = "#[derive(Debug)] pub enum T { A, B, C, D }\n::parsegen::parser! {\nenum T { \"a\" => T::A, \"b\" => T::B, \"c\" => T::C, \"d\" => T::D }\npub S: u32 = {\n".to_owned();
    for i in 0..65_535 {
        for d in (0..8).rev() {
            text += ["\"a\" ", "\"b\" ", "\"c\" ", "\"d\" "][i >> (2 * d) & 3];
        }
        text += &format!("=> {i},\n");
    }
    text += r#"};
}
pub fn check(r: &mut ::vref::drive::Report) {
    for i in 0..65_536u32 {
        let w = (0..8).rev().map(|d| Ok::<_, ()>(match i >> (2 * d) & 3 { 0 => T::A, 1 => T::B, 2 => T::C, _ => T::D }));
        let want = if i == 65_535 { "None".into() } else { format!("{:?}", Some(i)) };
        r.eq(&format!("sentence {i}"), &format!("{:?}", S::parse(w).ok()), &want);
    }
}
"#;
    Mod { text, kind: crate::batch::Kind::Custom, label: "65,535 productions".into() }
}

/// The sentences of every `step`th of the first `m` productions, and the same damaged.
fn sampled_mod(label: &str, g: &Grammar, step: usize, m: usize) -> Mod {
    let mut ins = vec![];
    for i in (0..m).step_by(step).chain([m - 1]) {
        let w: Vec<u32> = g.prods[i].rhs.iter().map(|s| if let Sym::T(t) = s { *t } else { 0 }).collect();
        let show = |w: &[u32]| format!("0:{}", w.iter().map(|t| format!(" t{t}")).collect::<String>());
        ins.push(show(&w));
        for k in [5, 6, w.len() - 1] {
            ins.push(show(&w[..k]));
            let mut x = w.clone();
            x[k] = (x[k] + 1 + i as u32 % 3) % 4;
            ins.push(show(&x));
        }
        ins.push(show(&[&w[..], &w[..1]].concat()));
    }
    let mut m = Mod::of(&Pres::plain(g), false, ins);
    m.label = label.into();
    m
}

fn classic_mods() -> Vec<Mod> {
    classic_grammars().iter().map(|g| Mod::of(&Pres::plain(g), true, vec![])).collect()
}

pub fn found(ctx: &Ctx) -> bool {
    !ctx.findings.lock().unwrap().is_empty()
}

fn exec_spaces(ctx: &Ctx) -> Vec<Space> {
    ctx.pick3(
        vec![
            Space::new(1, 1, 6),
            Space::new(1, 2, 6),
            Space::new(1, 3, 6),
            Space::new(2, 1, 6),
            Space::new(2, 2, 7),
            Space::new(2, 3, 7),
            Space::new(3, 1, 7),
            Space::new(3, 2, 8).rhs(3),
        ],
        vec![
            Space::new(1, 1, 8),
            Space::new(1, 2, 7),
            Space::new(1, 3, 7),
            Space::new(2, 1, 8),
            Space::new(2, 2, 8),
            Space::new(2, 3, 8),
            Space::new(3, 1, 8),
            Space::new(3, 2, 9).rhs(3),
            Space::new(3, 3, 9).rhs(3),
        ],
        vec![
            Space::new(1, 1, 8),
            Space::new(1, 2, 8),
            Space::new(1, 3, 8),
            Space::new(1, 4, 8),
            Space::new(2, 1, 8),
            Space::new(2, 2, 9),
            Space::new(2, 3, 9),
            Space::new(2, 4, 9).rhs(3),
            Space::new(3, 1, 8),
            Space::new(3, 2, 9),
            Space::new(3, 3, 9),
        ],
    )
}

/// Execution layer shared by the behavioural properties.
fn exec_behaviour(ctx: &Ctx, keep: impl Fn(&Grammar) -> bool, vary: bool) -> Result<(), String> {
    let sp = exec_spaces(ctx);
    for s in &sp {
        ctx.bound(format!("execution layer: all reduced LR(1) grammars with {s}"));
    }
    let mut mods = classic_mods();
    for (i, g) in lr1_reduced(&sp).iter().filter(|g| keep(g)).enumerate() {
        let mut p = Pres::plain(&some_order(g, i));
        if vary {
            vary_pres(&mut p, i);
        }
        mods.push(Mod::of(&p, true, vec![]));
    }
    let cs: Vec<Grammar> = contexts(2).into_iter().filter(|g| keep(g)).collect();
    for (i, g) in cs.iter().enumerate().step_by(ctx.pick3(17, 5, 1)) {
        mods.push(Mod::of(&Pres::plain(&some_order(g, i)), true, vec![]));
    }
    for m in mods.iter().step_by(mods.len() / 4 + 1) {
        ctx.sample(format!("compiled grammar [{}], inputs enumerated", m.label));
    }
    let budget = ctx.pick(150, 600);
    ctx.bound(format!(
        "execution layer: per entry, all viable prefixes and one-token extensions level by level up to {budget} inputs"
    ));
    execute(ctx, &mods, &Args::new(&ctx.prop).budget(budget), false)?;
    let mut big = family_mods(ctx, ctx.pick(1500, 3000));
    let n = ctx.pick(70_000, 1_000_000);
    big.extend(deep_mods(n));
    if ctx.prop == "C01" || ctx.thorough {
        ctx.bound("execution layer: a grammar with 70,999 LR(1) states (4,097 productions): every 16th production's sentence, and the same damaged");
        big.insert(0, tree_mod());
    }
    ctx.bound(format!("execution layer: inputs of up to {} tokens", 2 * n));
    let mut a = Args::new(&ctx.prop).budget(60);
    a.per_crate = 1;
    execute(ctx, &big, &a, false)?;
    Ok(())
}

/// Deterministic variety: binders, result types, enum position.
pub fn vary_pres(p: &mut Pres, i: usize) {
    let mut k = i;
    for (pi, b) in p.bind.iter_mut().enumerate() {
        for (si, b) in b.iter_mut().enumerate() {
            k = k.wrapping_mul(31).wrapping_add(pi * 7 + si);
            *b = [Bind::Plain, Bind::Mut, Bind::No, Bind::Plain][k / 3 % 4];
        }
    }
    let parts = partitions(p.g.n_n);
    p.ty = parts[i % parts.len()].clone();
    p.enum_pos = i % (p.g.n_n + 1);
}

/// Set partitions as restricted growth strings.
pub fn partitions(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for v in &out {
            let m = v.iter().max().map_or(0, |m: &usize| m + 1);
            for k in 0..=m {
                let mut w: Vec<usize> = v.clone();
                w.push(k);
                next.push(w);
            }
        }
        out = next;
    }
    out
}

fn c01(ctx: &Ctx) -> Result<(), String> {
    let sp = ctx.pick(quick_spaces(), thorough_spaces());
    let c = model_behaviour(ctx, ALL, &sp, ctx.thorough, |g| conflict_free(g), ctx.pick(60, 3000));
    confirm(ctx, &c, 600)?;
    if found(ctx) {
        return Ok(());
    }
    exec_behaviour(ctx, |_| true, false)
}

/// Every subset of bound symbols and every sharing of result types; long productions with many subsets
/// bound.
fn mask_mods(ctx: &Ctx, sp: &[Space], k: usize, coarse: usize) -> Vec<Mod> {
    let mut mods = vec![];
    for s in sp {
        ctx.bound(format!("execution layer: every subset of bound symbols and every sharing of result types for all reduced LR(1) grammars with {s}"));
    }
    for (i, g) in lr1_reduced(sp).iter().enumerate() {
        let g = some_order(g, i);
        let n: usize = g.prods.iter().map(|p| p.rhs.len()).sum();
        for mask in 0..1usize << n {
            for ty in partitions(g.n_n) {
                let mut p = Pres::plain(&g);
                let mut k = 0;
                for b in p.bind.iter_mut().flatten() {
                    *b = if mask >> k & 1 == 0 {
                        Bind::No
                    } else if (i + k + mask) % 3 == 0 {
                        Bind::Mut
                    } else {
                        Bind::Plain
                    };
                    k += 1;
                }
                p.ty = ty;
                mods.push(Mod::of(&p, true, vec![]));
            }
        }
    }
    // one production of k symbols, every subset bound
    ctx.bound(format!("execution layer: productions of up to {k} symbols with every subset of them bound, of 12, 20 and 40 symbols with every bound interval, every unbound interval and every stride bound"));
    let push = |mods: &mut Vec<Mod>, g: &Grammar, bound: &dyn Fn(usize) -> bool| {
        let mut p = Pres::plain(g);
        for (j, b) in p.bind[0].iter_mut().enumerate() {
            *b = if bound(j) { if j % 3 == 1 { Bind::Mut } else { Bind::Plain } } else { Bind::No };
        }
        p.ty = vec![0, 1, 2];
        mods.push(Mod::of(&p, false, family_inputs(g)));
    };
    for k in 1..=k {
        for pattern in 0..3 {
            let g = row(k, pattern);
            for mask in 0..1usize << k {
                push(&mut mods, &g, &|j| mask >> j & 1 == 1);
            }
        }
    }
    for k in [12, 20, 40] {
        for pattern in 0..3 {
            let g = row(k, pattern);
            for a in (0..k).step_by(1 + k / 14 * coarse) {
                for b in (a + 1..=k).step_by(1 + k / 14 * coarse) {
                    push(&mut mods, &g, &|j| a <= j && j < b);
                    push(&mut mods, &g, &|j| !(a <= j && j < b));
                }
            }
            for d in 2..=k {
                push(&mut mods, &g, &|j| j % d == 0);
                push(&mut mods, &g, &|j| j % d != d - 1);
            }
        }
    }
    ctx.bound("execution layer: productions of 70, 134 and 300 symbols with every 2nd, 3rd, 7th bound, all but these bound, only the ends bound");
    for k in [70usize, 134, 300] {
        for pattern in 0..3 {
            let g = row(k, pattern);
            for d in [2, 3, 7] {
                push(&mut mods, &g, &|j| j % d == 0);
                push(&mut mods, &g, &|j| j % d != d - 1);
            }
            for d in [8, 32, 64, 128, 256].into_iter().filter(|d| *d < k) {
                push(&mut mods, &g, &|j| j >= d);
                push(&mut mods, &g, &|j| j < d);
                push(&mut mods, &g, &|j| j == d || j == d - 1);
            }
        }
    }
    mods
}

fn c02(ctx: &Ctx) -> Result<(), String> {
    let sp = ctx.pick(quick_spaces(), thorough_spaces());
    let c = model_behaviour(ctx, ALL, &sp, false, |g| conflict_free(g), ctx.pick(40, 2000));
    confirm(ctx, &c, 600)?;
    if found(ctx) {
        return Ok(());
    }
    // every binder mask and every assignment of result types
    let sp = ctx.pick(
        vec![Space::new(1, 1, 5), Space::new(1, 2, 5), Space::new(2, 1, 5), Space::new(2, 2, 6), Space::new(2, 3, 6), Space::new(3, 1, 6)],
        vec![Space::new(1, 1, 6), Space::new(1, 2, 6), Space::new(1, 3, 6), Space::new(2, 1, 6), Space::new(2, 2, 7), Space::new(2, 3, 7), Space::new(3, 1, 7), Space::new(3, 2, 7)],
    );
    let mods = mask_mods(ctx, &sp, ctx.pick(8, 11), ctx.pick(3, 1));
    execute(ctx, &mods, &Args::new(&ctx.prop).budget(ctx.pick(60, 200)), false)?;
    if found(ctx) {
        return Ok(());
    }
    exec_behaviour(ctx, |_| true, true)
}

fn c03_c04(ctx: &Ctx) -> Result<(), String> {
    let sp = ctx.pick(quick_spaces(), thorough_spaces());
    let c = model_behaviour(
        ctx,
        ALL,
        &sp,
        ctx.thorough,
        |g| all_productive(g) && conflict_free(g),
        ctx.pick(60, 3000),
    );
    confirm(ctx, &c, 600)?;
    if found(ctx) {
        return Ok(());
    }
    exec_behaviour(ctx, |_| true, false)
}

fn c05_c06(ctx: &Ctx) -> Result<(), String> {
    let sp = ctx.pick(
        vec![Space::new(1, 2, 7), Space::new(2, 2, 7), Space::new(2, 3, 7), Space::new(3, 2, 7)],
        thorough_spaces(),
    );
    let c = model_behaviour(
        ctx,
        ALL,
        &sp,
        false,
        |g| all_productive(g) && conflict_free(g),
        ctx.pick(40, 1500),
    );
    confirm(ctx, &c, 600)?;
    if found(ctx) {
        return Ok(());
    }
    exec_behaviour(ctx, |_| true, true)
}

/// Every non-empty set of public non-terminals.
fn c07(ctx: &Ctx) -> Result<(), String> {
    let sp = ctx.pick(
        vec![Space::new(2, 1, 7), Space::new(2, 2, 8), Space::new(2, 3, 8), Space::new(3, 1, 7), Space::new(3, 2, 8), Space::new(3, 3, 8).rhs(3)],
        vec![Space::new(2, 1, 9), Space::new(2, 2, 9), Space::new(2, 3, 9), Space::new(3, 1, 9), Space::new(3, 2, 9), Space::new(3, 3, 9), Space::new(4, 2, 9).rhs(3)],
    );
    for s in &sp {
        ctx.bound(format!("model layer: every set of entry points that keeps the grammar LR(1), for all grammars with {s}"));
    }
    let look = Look { rejected_lr1: true, accepted_conflict: false, behaviour: true };
    let variants = |g: &Grammar| {
        let ok: Vec<usize> = (0..g.n_n)
            .filter(|e| {
                let l = vref::lr1::build(g, *e);
                l.sr + l.rr == 0
            })
            .collect();
        let mut out = vec![];
        for mask in 1..1usize << ok.len() {
            let mut h = g.clone();
            h.entries = (0..ok.len()).filter(|i| mask >> i & 1 == 1).map(|i| ok[i]).collect();
            out.push(h);
        }
        out
    };
    let thorough = ctx.thorough;
    let c = model(ctx, look, ctx.pick(60, 3000), |send| {
        for g in classic_grammars().into_iter().filter(|g| g.n_n <= 5) {
            for h in variants(&g) {
                if !send(Pres::plain(&h)) {
                    return;
                }
            }
        }
        for k in [3, 4, 5, 6, 7, 8, 9] {
            send(Pres::plain(&family("entries", k)));
        }
        for k in ctx.pick(vec![33, 65, 130, 257, 300], vec![33, 65, 130, 257, 300, 513]) {
            send(Pres::plain(&family("pubs", k)));
        }
        let mut go = true;
        let mut i = 0;
        for s in &sp {
            enumerate(s, &mut |g| {
                if !go {
                    return;
                }
                for h in variants(&g) {
                    if h.entries.len() == 1 && h.entries[0] == 0 {
                        continue; // covered by C01
                    }
                    i += 1;
                    if thorough {
                        for o in orders(&h) {
                            go &= send(Pres::plain(&o));
                        }
                    } else {
                        go &= send(Pres::plain(&some_order(&h, i)));
                    }
                }
            });
        }
    });
    confirm(ctx, &c, 600)?;
    if found(ctx) {
        return Ok(());
    }
    // execution: types per entry point differ
    let sp = ctx.pick3(
        vec![Space::new(2, 1, 6), Space::new(2, 2, 7), Space::new(3, 1, 7), Space::new(3, 2, 7), Space::new(3, 3, 8).rhs(2)],
        vec![Space::new(2, 1, 7), Space::new(2, 2, 8), Space::new(3, 1, 8), Space::new(3, 2, 8).rhs(2), Space::new(2, 3, 7), Space::new(3, 3, 8).rhs(2)],
        vec![Space::new(2, 1, 8), Space::new(2, 2, 8), Space::new(2, 3, 8), Space::new(3, 1, 8), Space::new(3, 2, 8), Space::new(3, 3, 9).rhs(3)],
    );
    for s in &sp {
        ctx.bound(format!("execution layer: every set of entry points of all reduced LR(1) grammars with {s}"));
    }
    let mut mods = vec![];
    let mut i = 0;
    for g in collect(&sp, |g| reduced(g)) {
        for h in variants(&g) {
            i += 1;
            if h.entries.len() < 2 && i % 4 != 0 {
                continue;
            }
            let mut p = Pres::plain(&some_order(&h, i));
            vary_pres(&mut p, i);
            mods.push(Mod::of(&p, true, vec![]));
        }
    }
    for g in classic_grammars().iter().filter(|g| g.n_n <= 4) {
        for h in variants(g) {
            mods.push(Mod::of(&Pres::plain(&h), true, vec![]));
        }
    }
    for k in [4, 8] {
        mods.push(Mod::of(&Pres::plain(&family("entries", k)), true, vec![]));
    }
    for k in ctx.pick(vec![65, 130, 300], vec![33, 65, 130, 257, 300, 513]) {
        let g = family("pubs", k);
        mods.push(Mod::of(&Pres::plain(&g), true, family_inputs(&g)));
    }
    ctx.bound("families: up to 300 (thorough: 513) public non-terminals in one invocation".to_string());
    for m in mods.iter().step_by(mods.len() / 5 + 1) {
        ctx.sample(format!("compiled [{}]", m.label));
    }
    execute(ctx, &mods, &Args::new(&ctx.prop).budget(ctx.pick(60, 250)), true)?;
    Ok(())
}

/// Acceptance of every LR(1) grammar, reduced or not.
fn c08(ctx: &Ctx) -> Result<(), String> {
    let sp = ctx.pick(quick_spaces(), thorough_spaces());
    let look = Look { rejected_lr1: true, accepted_conflict: false, behaviour: false };
    let c = model_behaviour(ctx, look, &sp, true, |g| conflict_free(g), ctx.pick(70, 3000));
    confirm(ctx, &c, 20)?;
    if found(ctx) {
        return Ok(());
    }
    // compile: non-reduced and several entry points as well
    let sp = ctx.pick(
        vec![Space::new(1, 1, 5), Space::new(1, 2, 6), Space::new(2, 1, 5), Space::new(2, 2, 6), Space::new(3, 1, 5), Space::new(3, 2, 6)],
        vec![Space::new(1, 1, 7), Space::new(1, 2, 7), Space::new(1, 3, 7), Space::new(2, 1, 7), Space::new(2, 2, 8), Space::new(2, 3, 8), Space::new(3, 1, 7), Space::new(3, 2, 7), Space::new(3, 3, 8)],
    );
    let mut mods = classic_mods();
    for s in &sp {
        ctx.bound(format!("execution layer: every LR(1) grammar (reduced or not) with {s} is compiled"));
    }
    for (i, g) in collect(&sp, conflict_free).iter().enumerate() {
        let mut g = some_order(g, i);
        // additional entry points where that keeps it LR(1)
        if i % 2 == 1 {
            for e in 0..g.n_n {
                let l = vref::lr1::build(&g, e);
                if !g.entries.contains(&e) && l.sr + l.rr == 0 {
                    g.entries.push(e);
                }
            }
            g.entries.sort();
        }
        let mut p = Pres::plain(&g);
        vary_pres(&mut p, i);
        mods.push(Mod::of(&p, true, vec![]));
    }
    for m in mods.iter().step_by(mods.len() / 5 + 1) {
        ctx.sample(format!("compiled [{}]", m.label));
    }
    execute(ctx, &mods, &Args::new(&ctx.prop).budget(6), true)?;
    let mut big = family_mods(ctx, ctx.pick(1500, 3000));
    for m in &mut big {
        if let crate::batch::Kind::Case { inputs, explore, .. } = &mut m.kind {
            inputs.clear();
            *explore = false;
        }
    }
    if ctx.thorough {
        // first, it takes longest
        ctx.bound("execution layer: a grammar with 65,535 productions is compiled, and the sentence of each parsed");
        big.insert(0, codes_mod());
    }
    let mut a = Args::new(&ctx.prop);
    a.per_crate = 1;
    execute(ctx, &big, &a, true)?;
    Ok(())
}

fn has_conflict(g: &Grammar) -> bool {
    !conflict_free(g)
}

/// For every production and every occurrence of its non-terminal: another non-terminal with this
/// production alone, as an alternative in that place.
fn twins(g: &Grammar) -> Vec<Grammar> {
    let mut out = vec![];
    for p in &g.prods {
        for q in &g.prods {
            for (i, s) in q.rhs.iter().enumerate() {
                if *s == Sym::N(p.lhs) {
                    let mut h = g.clone();
                    h.n_n += 1;
                    let mut r = q.clone();
                    r.rhs[i] = Sym::N(g.n_n as u32);
                    h.prods.push(r);
                    h.prods.push(vref::grammar::Prod { lhs: g.n_n as u32, rhs: p.rhs.clone() });
                    let h = regroup(&h);
                    if h.entries.iter().any(|e| { let l = vref::lr1::build(&h, *e); l.sr + l.rr > 0 }) {
                        out.push(h);
                    }
                }
            }
        }
    }
    out
}

fn c09(ctx: &Ctx) -> Result<(), String> {
    let sp = ctx.pick(
        vec![Space::new(1, 1, 9), Space::new(1, 2, 9), Space::new(1, 3, 8), Space::new(2, 1, 8), Space::new(2, 2, 8), Space::new(2, 3, 8), Space::new(3, 1, 8), Space::new(3, 2, 8), Space::new(3, 3, 8).rhs(3)],
        vec![Space::new(1, 1, 10), Space::new(1, 2, 9), Space::new(1, 3, 9), Space::new(2, 1, 9), Space::new(2, 2, 9), Space::new(2, 3, 9), Space::new(3, 1, 9), Space::new(3, 2, 9), Space::new(3, 3, 9), Space::new(4, 1, 8)],
    );
    let look = Look { rejected_lr1: false, accepted_conflict: true, behaviour: true };
    let thorough = ctx.thorough;
    for s in &sp {
        ctx.bound(format!("model layer: every order of declarations of all conflicting grammars with {s}"));
    }
    let mut masks = 0u64;
    let mut lonelies = 0u64;
    let c = model(ctx, look, ctx.pick(120, 3000), |send| {
        let mut go = true;
        for s in &sp {
            enumerate(s, &mut |g| {
                if !go {
                    return;
                }
                // conflicts of any entry point, also ones behind which no other one gets
                if g.n_n > 1 && (g.size() <= 7 || thorough && g.size() <= 8) {
                    for mask in 2..1usize << g.n_n {
                        let mut h = g.clone();
                        h.entries = (0..g.n_n).filter(|i| mask >> i & 1 == 1).collect();
                        if h.entries.iter().any(|e| { let l = vref::lr1::build(&h, *e); l.sr + l.rr > 0 }) {
                            masks += 1;
                            for h in orders(&h).into_iter().step_by(if h.size() <= 5 { 1 } else { 3 }) {
                                go &= send(Pres::plain(&h));
                            }
                        }
                    }
                }
                if !has_conflict(&g) {
                    return;
                }
                for h in orders(&g) {
                    go &= send(Pres::plain(&h));
                }
            });
        }
        // a second non-terminal with a production of another one, in its place in some production
        let mut hosts = classic_grammars();
        hosts.extend(contexts(ctx.pick(4, 7)));
        hosts.extend(lr1_reduced(&[Space::new(2, 2, 6), Space::new(3, 1, 6)]));
        for k in [2, 5, 9] {
            hosts.extend(["terminals", "long", "chain", "chainrev", "lookahead", "prods"].iter().map(|f| family(f, k)));
        }
        for g in hosts {
            for h in twins(&g) {
                go &= send(Pres::plain(&h));
            }
        }
        // duplicated productions: a reduce/reduce conflict in any grammar
        for g in lr1_reduced(&[Space::new(1, 2, 6), Space::new(2, 2, 6), Space::new(2, 1, 6), Space::new(3, 1, 6)]) {
            for i in 0..g.prods.len() {
                let mut h = g.clone();
                let p = h.prods[i].clone();
                h.prods.push(p);
                go &= send(Pres::plain(&regroup(&h)));
            }
        }
        // a conflict on one lookahead only
        for k in [3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] {
            let ats: Vec<usize> = [0, 1, 7, 8, 31, 32, 63, 64, 127, 128, 255, 256].into_iter().filter(|a| *a + 1 < k).chain([k - 1, k]).collect();
            for at in ats {
                for before in [0, 3, 30] {
                    if before == 30 && (k > 70 || at + 2 < k) {
                        continue;
                    }
                    for accept in [false, true] {
                        let g = lonely(k, at, before, accept);
                        if (!accept || at == k) && vref::lr1::build(&g, 0).rr > 0 {
                            lonelies += 1;
                            go &= send(Pres::plain(&regroup(&g)));
                        }
                    }
                }
            }
        }
        for gap in [1, 2, 7, 8, 9, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512] {
            for nts in [false, true] {
                let g = apart(gap, nts);
                assert!(vref::lr1::build(&g, 0).rr > 0, "harness");
                lonelies += 1;
                go &= send(Pres::plain(&g));
            }
        }
        // a reduction on end of input against acceptance, and against reductions, in large grammars
        for k in [2, 5, 9, 17, 33, 65] {
            for f in ["terminals", "long", "chain", "chainrev", "nullable", "lookahead", "levels", "prods"] {
                if f == "nullable" && k > 6 || f == "levels" && k > 5 || f == "long" && k > 33 {
                    continue;
                }
                let g = family(f, k);
                for e in 0..2 {
                    let mut h = g.clone();
                    match e {
                        0 => h.prods.push(vref::grammar::Prod { lhs: g.entries[0] as u32, rhs: vec![Sym::N(g.entries[0] as u32)] }),
                        _ => {
                            let p = h.prods.last().unwrap().clone();
                            h.prods.push(p);
                        }
                    }
                    go &= send(Pres::plain(&regroup(&h)));
                }
            }
        }
    });
    ctx.bound(format!("{lonelies} grammars with 3 to 300 terminals whose only conflict shows on one lookahead (the first, the last, around powers of two, the end), or whose reductions are up to 512 non-terminals or productions apart"));
    ctx.bound(format!("every set of entry points with a conflict, size <= {}: {masks} sets; non-terminals doubled in every place of classics, contexts and families", ctx.pick(7, 8)));
    for c in c.iter().take(3) {
        ctx.sample(format!("candidate {:?} [{}]", c.why, c.pres.g));
    }
    confirm(ctx, &c, 600)?;
    if found(ctx) {
        return Ok(());
    }
    // execution: which orders of shift/reduce grammars are accepted is the implementation's choice;
    // those that are behave as the shift-preferring machine
    let sp = ctx.pick(
        vec![Space::new(1, 1, 6), Space::new(1, 2, 6), Space::new(2, 1, 6), Space::new(2, 2, 6)],
        vec![Space::new(1, 1, 8), Space::new(1, 2, 8), Space::new(2, 1, 7), Space::new(2, 2, 8), Space::new(3, 1, 7), Space::new(3, 2, 8)],
    );
    let mut mods = vec![];
    let mut must_fail = vec![];
    for g in collect(&sp, has_conflict) {
        let rr = vref::lr1::build(&g, 0).rr;
        if rr > 0 {
            if must_fail.len() < ctx.pick(400, 3000) {
                must_fail.push(Mod::of(&Pres::plain(&some_order(&g, must_fail.len())), false, vec![]));
            }
            continue;
        }
        for h in orders(&g) {
            mods.push(Mod::of(&Pres::plain(&h), true, vec![]));
        }
    }
    for m in must_fail.iter().step_by(must_fail.len() / 4 + 1) {
        ctx.sample(format!("must be rejected by rustc: [{}]", m.label));
    }
    for m in mods.iter().step_by(mods.len() / 4 + 1) {
        ctx.sample(format!("shift preferred or rejected: [{}]", m.label));
    }
    let out = crate::batch::run(&must_fail, &Args::new(&ctx.prop))?;
    collect_stats(ctx, &out);
    for (i, c) in out.compiled.iter().enumerate() {
        if *c == Some(crate::batch::Compiled::Yes) {
            ctx.finding(crate::ctx::Finding {
                key: format!("accepted: {}", must_fail[i].label),
                what: format!("a reduce conflict is accepted\n{}", must_fail[i].text),
                module: Some(must_fail[i].clone()),
                args: vec!["expect-reject".into()],
                body: None,
            });
        }
    }
    ctx.add("conflicting_grammars_compiled", must_fail.len() as u64);
    execute(ctx, &mods, &Args::new(&ctx.prop).budget(ctx.pick(100, 300)), false)?;
    Ok(())
}

/// Name pools that could collide with names the macro makes up from user names.
fn name_schemes(g: &Grammar) -> Vec<(Vec<String>, Vec<String>)> {
    let nn = g.n_n;
    let nt = |f: &dyn Fn(usize) -> String| (0..nn).map(f).collect::<Vec<_>>();
    let tt = |f: &dyn Fn(usize) -> String| (0..g.n_t).map(f).collect::<Vec<_>>();
    let mut out = vec![
        // A, A1, A11: "1" is what the macro appends to public names
        (nt(&|i| format!("A{}", "1".repeat(i))), tt(&|i| format!("{i}"))),
        (nt(&|i| format!("A{}", "1".repeat(nn - 1 - i))), tt(&|i| "ab".repeat(i + 1))),
        // terminals and non-terminals with the same text; awkward characters
        (nt(&|i| format!("x{i}")), tt(&|i| format!("x{i}"))),
        (nt(&|i| format!("Z{}", nn - i)), tt(&|i| ["", ",", "end-of-input", "\\", "\"", " ", "é{}"][i % 7].to_owned() + &"'".repeat(i / 7))),
        (nt(&|i| format!("r{}", i * 10)), tt(&|i| format!("{}", 9 - i % 10) + &"z".repeat(i / 10))),
    ];
    // every awkward string comes up, however few terminals there are
    let pool = ["\\", "\"", "\n", "{}", "{0}", "", ",", ", ", "end-of-input", "é", "'", "\\n", "#", "//", "/*", "$", "\t", "%", "\0", "日本", " ", "r\"", "\u{202e}"];
    let mut o = 0;
    while o < pool.len() {
        out.push((nt(&|i| format!("N{i}")), tt(&|i| pool[(i + o) % pool.len()].to_owned() + &"'".repeat(i / pool.len()))));
        o += g.n_t.max(1);
    }
    // names of the generated code's own variables, functions and statics, and of the prelude
    let own = [
        "input", "token", "state", "value_stack", "f", "f0", "err", "found", "expected", "terminal_idx", "state_stack", "init_state", "action_idx", "extract_value",
        "next_state", "token_", "parse_generic", "ACTION", "GOTO", "SEMANTIC_ACTIONS", "Some", "None", "Ok", "Err", "EXPECTED_TERMINALS", "TERMINAL_STRS", "nt0p0_action",
        "nt1p0_action", "token_value", "n_symbols", "non_terminal_idx", "semantic_action_idx", "Vec", "Option", "Result", "Iterator", "Clone", "core", "Tk_terminal_idx", "x",
    ];
    let mut o = 0;
    while o < own.len() {
        out.push((nt(&|i| own.get((i + o) % own.len() + i / own.len() * own.len()).map_or(format!("own{i}"), |s| s.to_string())), tt(&|i| own[(o + i) % own.len()].to_owned() + &"_".repeat(i / own.len()))));
        o += nn.max(1);
    }
    // raw identifiers
    out.push((nt(&|i| ["r#type", "r#match", "r#fn", "r#struct"].get(i).map_or(format!("r#x{i}"), |s| s.to_string())), tt(&|i| format!("r#{i}"))));
    // names that some way of comparing them takes for the same: by case, without underscores or white
    // space, by prefix, by value, by length, normalised
    let mask = |w: &str, i: usize| -> String {
        w.char_indices().map(|(k, c)| if i >> k & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect::<String>() + &"_".repeat(i >> w.len())
    };
    out.push((nt(&|i| mask("expr", i)), tt(&|i| mask("word", i))));
    out.push((nt(&|i| mask("Nt".to_lowercase().as_str(), 3 - i % 4) + &"_".repeat(i / 4)), tt(&|i| mask("end-of-input", i))));
    out.push((nt(&|i| format!("a{}b", "_".repeat(i))), tt(&|i| format!("a{}b", " ".repeat(i)))));
    out.push((nt(&|i| format!("{}ab", "_".repeat(i))), tt(&|i| format!("a{}b{}", "\t".repeat(i / 2), " ".repeat(i % 2)))));
    out.push((nt(&|i| format!("x{}1", "0".repeat(i))), tt(&|i| format!("{}1", "0".repeat(i)))));
    out.push((nt(&|i| format!("{}{i}", "y".repeat(300))), tt(&|i| format!("{}{i}", "long".repeat(100)))));
    out.push((nt(&|i| format!("{i}{}", "w".repeat(300)).replacen(|c: char| c.is_ascii_digit(), &format!("v{i}"), 1)), tt(&|i| format!("{i}{}", "tail".repeat(100)))));
    out.push((nt(&|i| ["é", "e", "ê", "ë", "è"].get(i).map_or(format!("é{i}"), |s| s.to_string())), tt(&|i| ["é", "e\u{301}", "e", "E\u{301}", "É"].get(i).map_or(format!("é{i}"), |s| s.to_string()))));
    // reversed alphabetical order
    out.push((nt(&|i| format!("{}", (b'z' - i as u8 % 26) as char) + &"_".repeat(i / 26 + 1)), tt(&|i| format!("{}", (b'z' - (i % 26) as u8) as char) + &"z".repeat(i / 26))));
    out
}

fn c11(ctx: &Ctx) -> Result<(), String> {
    let sp = ctx.pick(
        vec![Space::new(1, 2, 6), Space::new(2, 1, 6), Space::new(2, 2, 7), Space::new(2, 3, 7), Space::new(3, 1, 7), Space::new(3, 2, 7)],
        vec![Space::new(1, 2, 8), Space::new(1, 3, 8), Space::new(2, 1, 8), Space::new(2, 2, 8), Space::new(2, 3, 8), Space::new(3, 1, 8), Space::new(3, 2, 8), Space::new(3, 3, 8)],
    );
    for s in &sp {
        ctx.bound(format!("model layer: every order of non-terminals, productions and tokens, every position of the token enum, all name schemes (names that run together, collide with made-up names or with the generated code's own, 23 awkward terminal strings, raw identifiers), for all LR(1) grammars with {s}"));
    }
    let look = Look { rejected_lr1: true, accepted_conflict: false, behaviour: true };
    // all permutations of everything, for one grammar
    fn variants(g: &Grammar, cap: usize) -> Vec<Pres> {
        let mut out = vec![];
        'all: for np in perms(g.n_n) {
            for tp in perms(g.n_t) {
                let h = regroup(&rename(g, &np, &tp));
                // orders of productions inside each non-terminal
                let mut pos: Vec<Vec<usize>> = vec![vec![]];
                for n in 0..g.n_n {
                    let own: Vec<usize> =
                        (0..h.prods.len()).filter(|i| h.prods[*i].lhs as usize == n).collect();
                    let ps = if own.len() <= 4 { perms(own.len()) } else { vec![(0..own.len()).collect(), (0..own.len()).rev().collect()] };
                    let mut next = vec![];
                    for v in &pos {
                        for q in &ps {
                            let mut w = v.clone();
                            w.extend(q.iter().map(|k| own[*k]));
                            next.push(w);
                        }
                    }
                    pos = next;
                }
                for o in pos {
                    out.push(Pres::plain(&reorder(&h, &o)));
                    if out.len() >= cap {
                        break 'all;
                    }
                }
            }
        }
        out
    }
    fn named(g: &Grammar) -> Vec<Pres> {
        let mut out = vec![];
        // names and enum position
        for (i, (nt, t)) in name_schemes(g).into_iter().enumerate() {
            let es: Vec<usize> = if nt[0] == "N0" { vec![i % (g.n_n + 1)] } else { (0..=g.n_n).collect() };
            for e in es {
                let mut p = Pres::plain(&some_order(g, i + e));
                p.nt = nt.clone();
                p.t = t.clone();
                p.binder = ["q", "_b", "value", "this", "token", "state", "r#type", "value_stack", "input", "f0"][i % 10].into();
                p.enum_pos = e;
                out.push(p);
            }
        }
        out
    }
    let thorough = ctx.thorough;
    let c = model(ctx, look, ctx.pick(300, 3000), |send| {
        for g in classic_grammars() {
            for p in variants(&g, 300).into_iter().chain(named(&g)) {
                if !send(p) {
                    return;
                }
            }
        }
        let mut go = true;
        let mut ng = 0usize;
        for s in &sp {
            enumerate(s, &mut |g| {
                if !go || !conflict_free(&g) {
                    return;
                }
                ng += 1;
                let ns = named(&g);
                let w = if thorough { ns.len() } else { 12.min(ns.len()) };
                let ns = (0..w).map(|k| ns[(ng * w + k) % ns.len()].clone());
                for p in variants(&g, 2000).into_iter().chain(ns) {
                    go &= send(p);
                }
            });
        }
    });
    confirm(ctx, &c, 600)?;
    if found(ctx) {
        return Ok(());
    }
    let sp = ctx.pick(
        vec![Space::new(1, 2, 5), Space::new(2, 1, 5), Space::new(2, 2, 6), Space::new(3, 1, 6)],
        vec![Space::new(1, 2, 6), Space::new(2, 1, 6), Space::new(2, 2, 7), Space::new(3, 1, 7), Space::new(3, 2, 7), Space::new(2, 3, 7)],
    );
    for s in &sp {
        ctx.bound(format!("execution layer: the same variants compiled and run for all reduced LR(1) grammars with {s}"));
    }
    let mut mods = vec![];
    for (gi, g) in lr1_reduced(&sp).iter().chain(&classic_grammars()).enumerate() {
        // all non-terminals public where possible, so that made-up names are as many as can be
        let mut h = g.clone();
        if gi % 2 == 0 {
            h.entries = (0..h.n_n)
                .filter(|e| {
                    let l = vref::lr1::build(&h, *e);
                    l.sr + l.rr == 0
                })
                .collect();
        }
        // a window into the named variants, moving on with every grammar
        let ns = named(&h);
        let w = ctx.pick(10, 60).min(ns.len());
        let ns: Vec<Pres> = (0..w).map(|k| ns[(gi * w + k) % ns.len()].clone()).collect();
        for (k, mut p) in variants(&h, 24).into_iter().chain(ns).enumerate() {
            if p.g.entries.is_empty() {
                continue;
            }
            let parts = partitions(p.g.n_n.min(5));
            if p.g.n_n <= 5 {
                p.ty = parts[k % parts.len()].clone();
            }
            mods.push(Mod::of(&p, true, vec![]));
        }
    }
    for m in mods.iter().step_by(mods.len() / 5 + 1) {
        ctx.sample(m.text.lines().filter(|l| l.contains("=>") || l.contains("= {")).take(12).collect::<Vec<_>>().join(" "));
    }
    execute(ctx, &mods, &Args::new(&ctx.prop).budget(ctx.pick(40, 150)), true)?;
    Ok(())
}

fn small_mods(ctx: &Ctx, sp: &[Space], budget_note: &str) -> Vec<Mod> {
    for s in sp {
        ctx.bound(format!("all reduced LR(1) grammars with {s}{budget_note}"));
    }
    let mut mods = vec![];
    for (i, g) in lr1_reduced(sp).iter().enumerate() {
        let mut p = Pres::plain(&some_order(g, i));
        vary_pres(&mut p, i);
        if i % 3 == 1 {
            p.chosen[i / 3 % p.g.n_t] = false;
        }
        mods.push(Mod::of(&p, true, vec![]));
    }
    mods
}

fn c13(ctx: &Ctx) -> Result<(), String> {
    // entry points matter: make all public where possible
    let sp = ctx.pick(
        vec![Space::new(1, 1, 4), Space::new(1, 2, 5), Space::new(2, 1, 4), Space::new(2, 2, 5), Space::new(3, 1, 6)],
        vec![Space::new(1, 1, 6), Space::new(1, 2, 6), Space::new(2, 1, 6), Space::new(2, 2, 6), Space::new(2, 3, 6), Space::new(3, 1, 6), Space::new(3, 2, 7)],
    );
    for s in &sp {
        ctx.bound(format!("all reduced LR(1) grammars with {s}, every LR(1) entry point public"));
    }
    let mut mods = vec![];
    let classics: Vec<Grammar> = classic_grammars().into_iter().filter(|g| g.n_t <= 3 && g.n_n <= 3).collect();
    for (i, g) in lr1_reduced(&sp).iter().chain(&classics).enumerate() {
        let mut g = some_order(g, i);
        for e in 0..g.n_n {
            let l = vref::lr1::build(&g, e);
            if !g.entries.contains(&e) && l.sr + l.rr == 0 {
                g.entries.push(e);
            }
        }
        g.entries.sort();
        let mut p = Pres::plain(&g);
        vary_pres(&mut p, i);
        mods.push(Mod::of(&p, true, vec![]));
    }
    for m in mods.iter().step_by(mods.len() / 6 + 1) {
        ctx.sample(format!("calls of [{}]: all pairs, nestings and schedules", m.label));
    }
    let b = ctx.pick(6, 14);
    ctx.bound(format!("operations: all inputs up to {b} per entry point (each also ending in a source error); histories: every operation, also panicking at every user event, before every operation; every operation nested at every user event of every operation (also panicking); two threads, all schedules with at most {} preemptions; three threads (the shortest operations), all schedules with at most {}; 5 to 65 threads taking turns; every operation {} times, also panicking each time, before every operation; operations nested up to 65 deep", ctx.pick(2, 3), ctx.pick(1, 2), ctx.pick(300, 3000)));
    let mut a = Args::new(&ctx.prop).mode("isolation").budget(b);
    a.preempt = ctx.pick(2, 3);
    a.repeat = ctx.pick(300, 3000);
    a.per_crate = 12;
    execute(ctx, &mods, &a, false)?;
    if found(ctx) {
        return Ok(());
    }
    let mut a = Args::new(&ctx.prop);
    a.per_crate = 1;
    execute(ctx, &[calls_mod(ctx)], &a, false)?;
    Ok(())
}

fn c14(ctx: &Ctx) -> Result<(), String> {
    let sp = ctx.pick(
        vec![Space::new(1, 1, 7), Space::new(1, 2, 7), Space::new(1, 3, 7), Space::new(2, 1, 7), Space::new(2, 2, 8), Space::new(2, 3, 7), Space::new(3, 1, 7), Space::new(3, 2, 8).rhs(3)],
        vec![Space::new(1, 1, 8), Space::new(1, 2, 8), Space::new(1, 3, 8), Space::new(2, 1, 8), Space::new(2, 2, 8), Space::new(2, 3, 8), Space::new(3, 1, 8), Space::new(3, 2, 8), Space::new(3, 3, 9)],
    );
    let mut mods = small_mods(ctx, &sp, "; a panic at every user event of every run");
    mods.extend(classic_mods());
    let sp = ctx.pick(
        vec![Space::new(1, 1, 5), Space::new(1, 2, 5), Space::new(2, 1, 5), Space::new(2, 2, 5)],
        vec![Space::new(1, 1, 6), Space::new(1, 2, 6), Space::new(1, 3, 6), Space::new(2, 1, 6), Space::new(2, 2, 6), Space::new(3, 1, 6)],
    );
    mods.extend(mask_mods(ctx, &sp, ctx.pick(5, 8), 6));
    for m in mods.iter().step_by(mods.len() / 6 + 1) {
        ctx.sample(format!("[{}], every input, every fault", m.label));
    }
    execute(ctx, &mods, &Args::new(&ctx.prop).mode("faults").budget(ctx.pick(60, 200)), false)?;
    if found(ctx) {
        return Ok(());
    }
    let n = ctx.pick(20_000, 200_000);
    let mut big = deep_mods(n);
    big.extend(family_mods(ctx, ctx.pick(400, 1200)));
    big.push(lives_mod(ctx));
    let mut a = Args::new(&ctx.prop).budget(30);
    a.per_crate = 1;
    execute(ctx, &big, &a, false)?;
    Ok(())
}

fn c17(ctx: &Ctx) -> Result<(), String> {
    let sp = ctx.pick(
        vec![Space::new(1, 1, 8), Space::new(1, 2, 8), Space::new(2, 1, 7), Space::new(2, 2, 7), Space::new(2, 3, 7), Space::new(3, 1, 7), Space::new(3, 2, 7)],
        vec![Space::new(1, 1, 10), Space::new(1, 2, 9), Space::new(2, 1, 9), Space::new(2, 2, 9), Space::new(2, 3, 9), Space::new(3, 1, 8), Space::new(3, 2, 9), Space::new(3, 3, 9)],
    );
    // model layer: a product that closes without mismatch has every goto it needs and makes only the
    // finitely many moves of the reference
    let c = model_behaviour(ctx, ALL, &sp, false, |_| true, ctx.pick(60, 3000));
    confirm(ctx, &c, 600)?;
    if found(ctx) {
        return Ok(());
    }
    // execution: every accepted grammar, conflicts and useless non-terminals included
    let sp = ctx.pick3(
        vec![Space::new(1, 1, 6), Space::new(1, 2, 6), Space::new(2, 1, 5), Space::new(2, 2, 6), Space::new(3, 1, 5), Space::new(3, 2, 6)],
        vec![Space::new(1, 1, 7), Space::new(1, 2, 7), Space::new(2, 1, 6), Space::new(2, 2, 7), Space::new(3, 1, 6), Space::new(3, 2, 6), Space::new(2, 3, 6)],
        vec![Space::new(1, 1, 8), Space::new(1, 2, 8), Space::new(2, 1, 7), Space::new(2, 2, 7), Space::new(2, 3, 7), Space::new(3, 1, 7), Space::new(3, 2, 7)],
    );
    for s in &sp {
        ctx.bound(format!("execution layer: every grammar without reduce conflicts (reduced or not) with {s}, all orders if it has shift/reduce conflicts"));
    }
    let mut mods = classic_mods();
    let mut i = 0;
    for g in collect(&sp, |g| vref::lr1::build(g, 0).rr == 0) {
        i += 1;
        if conflict_free(&g) {
            let mut p = Pres::plain(&some_order(&g, i));
            vary_pres(&mut p, i);
            mods.push(Mod::of(&p, true, vec![]));
        } else {
            for h in orders(&g) {
                mods.push(Mod::of(&Pres::plain(&h), true, vec![]));
            }
        }
    }
    for m in mods.iter().step_by(mods.len() / 6 + 1) {
        ctx.sample(format!("[{}], every input", m.label));
    }
    execute(ctx, &mods, &Args::new(&ctx.prop).budget(ctx.pick(60, 250)), false)?;
    if found(ctx) {
        return Ok(());
    }
    let n = ctx.pick(150_000, 2_000_000);
    ctx.bound(format!("inputs of up to {} tokens: user code is called at a constant stack depth", 2 * n));
    let mut big = deep_mods(n);
    big.extend(family_mods(ctx, ctx.pick(1500, 3000)));
    big.push(endurance(ctx));
    let mut a = Args::new(&ctx.prop).budget(40);
    a.per_crate = 1;
    execute(ctx, &big, &a, false)?;
    if ctx.thorough && !found(ctx) {
        // past 2^32 steps, in optimised code
        let m = Mod { text: ENDURANCE.replace("@FLAT@", "(1 << 32) + 2").replace("@DEEP@", "1 << 20"), kind: crate::batch::Kind::Custom, label: "2^32 tokens".into() };
        ctx.bound("one flat input of 2^32 + 2 tokens");
        let mut a = Args::new(&ctx.prop);
        a.per_crate = 1;
        a.config = crate::batch::CONFIGS.iter().position(|c| c.1.contains(&"-Copt-level=2")).unwrap();
        execute(ctx, &[m], &a, false)?;
    }
    Ok(())
}

/// Parsers without instrumentation, for inputs longer than can be recorded.
const ENDURANCE: &str = r#"
pub enum T { A, B }
// nothing is to be formatted while parsing
pub struct Q(u64);
impl ::std::fmt::Debug for Q { fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { panic!("formatted") } }
impl ::std::fmt::Debug for T { fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { panic!("formatted") } }
::parsegen::parser! {
    enum T { "a" => T::A, "b" => T::B }
    pub Flat: u64 = { => 0, <n: Flat> "a" => n + 1 };
    pub Deep: u64 = { "b" => 0, "a" <n: Deep> => n + 1 };
    pub Nest: u64 = { "b" => 0, "a" <n: Nest> "a" => n + 1 };
    pub Units: u64 = { => 0, <n: Units> <x: U0> => n + x.0 };
    U0: Q = { <x: U1> => Q(x) };
    U1: u64 = { <e: E> <x: U2> => x + e };
    U2: u64 = { "a" => 1 };
    E: u64 = { => 0 };
}
fn src(n: u64, last: &'static [(u64, bool)]) -> impl Iterator<Item = Result<T, ()>> {
    // n times "a", then counted tokens, true is "b"
    let tick = |i: u64| if i % (1 << 20) == 0 { ::vref::drive::progress() };
    (0..n).map(move |i| { tick(i); Ok(T::A) }).chain(last.iter().flat_map(|(k, b)| (0..*k).map(move |_| Ok(if *b { T::B } else { T::A }))))
}
pub fn check(r: &mut ::vref::drive::Report) {
    let flat: u64 = @FLAT@;
    let deep: u64 = @DEEP@;
    let near = |top: u64| -> Vec<u64> {
        let mut v: Vec<u64> = [8, 15, 16, 20, 24, 32].iter().map(|k| 1u64 << k).filter(|k| *k < top).flat_map(|k| [k - 2, k - 1, k, k + 1]).filter(|k| *k < top).collect();
        v.retain(|k| *k < 100_000);
        v.push(top);
        v
    };
    for n in near(flat) {
        r.run(&format!("Flat a^{n}"), &format!("Ok({n})"), || format!("{:?}", Flat::parse(src(n, &[]))));
    }
    for n in near(deep) {
        let ok = format!("Ok({n})");
        r.run(&format!("Deep a^{n} b"), &ok, || format!("{:?}", Deep::parse(src(n, &[(1, true)]))));
        r.run(&format!("Units a^{n}"), &ok, || format!("{:?}", Units::parse(src(n, &[]))));
        r.run(&format!("Nest a^{n} b a^{n}"), &ok, || format!("{:?}", Nest::parse(src(n, &[(1, true)]).chain(src(n, &[])))));
        let no = "Err(ParserError { found: \"b\", expected: \"\" })";
        r.run(&format!("Nest a^{n} b a^{n} b"), no, || format!("{:?}", Nest::parse(src(n, &[(1, true)]).chain(src(n, &[(1, true)])))));
        let no = "Err(ParserError { found: \"b\", expected: \"a\" })";
        r.run(&format!("Flat a^{n} b"), no, || format!("{:?}", Flat::parse(src(n, &[(1, true)]))));
        let no = "Err(ParserError { found: \"end-of-input\", expected: \"a, b\" })";
        r.run(&format!("Deep a^{n}"), no, || format!("{:?}", Deep::parse(src(n, &[]))));
    }
}
"#;

fn endurance(ctx: &Ctx) -> Mod {
    let (flat, deep) = ctx.pick(((1u64 << 24) + 2, (1u64 << 20) + 2), ((1 << 26) + 2, (1 << 22) + 2));
    ctx.bound(format!("one flat input of {flat} tokens, deep and nested ones of {deep}, and around 2^8, 2^15, 2^16"));
    Mod { text: ENDURANCE.replace("@FLAT@", &flat.to_string()).replace("@DEEP@", &deep.to_string()), kind: crate::batch::Kind::Custom, label: "endurance".into() }
}

/// Many calls, one after the other, inside one another, and at the same time.
const CALLS: &str = r#"
#[derive(Debug, Clone)] pub enum T { A, B, P }
::parsegen::parser! {
    enum T { "a" => T::A, "b" => T::B, "p" => T::P }
    pub S: u64 = { => 0, <n: S> "a" => n + 1, "p" => panic!("action"), };
    pub D: u64 = { "b" => 0, "a" <n: D> => n + 1 };
}
type Out = (u8, u64);
fn s(i: impl Iterator<Item = Result<T, u64>>) -> Out {
    match S::parse(i) {
        Ok(n) => (0, n),
        Err(ParseError::LexerError(e)) => (1, e),
        Err(ParseError::ParserError { found, expected }) => (2, (found.len() * 100 + expected.len()) as u64),
    }
}
fn d(i: impl Iterator<Item = Result<T, u64>>) -> Out {
    match D::parse(i) {
        Ok(n) => (0, n),
        Err(ParseError::LexerError(e)) => (1, e),
        Err(ParseError::ParserError { found, expected }) => (2, (found.len() * 100 + expected.len()) as u64),
    }
}
fn call(k: u64) -> (Out, Out) {
    let a = |n: u64| (0..n).map(|_| Ok(T::A));
    let n = k % 5;
    match k % 8 {
        0 => (s(a(n)), (0, n)),
        1 => (s(a(n).chain([Ok(T::B)])), (2, if n == 0 { 104 } else { 101 })),
        2 => (s(a(n).chain([Err(k)])), (1, k)),
        3 => (d(a(n).chain([Ok(T::B)])), (0, n)),
        4 => (d(a(n)), (2, 1204)),
        5 => (d(a(n).chain([Ok(T::B), Ok(T::A)])), (2, 100)),
        6 => (d(a(n).chain([Ok(T::B), Err(k)])), (1, k)),
        _ => {
            if k % 64 != 7 { return ((0, 0), (0, 0)); }
            let p = std::panic::catch_unwind(|| if k % 128 == 7 {
                s([Ok(T::P)].into_iter().chain(a(n)))
            } else {
                d(a(n).chain([Ok(T::A)]).inspect(|_| ()).chain(std::iter::from_fn(|| panic!("source"))))
            });
            ((p.is_err() as u8, 0), (1, 0))
        }
    }
}
/// A parse whose source parses before one of its items, and so on.
fn inside(depth: u64, bad: &mut u64) -> u64 {
    let mut k = 0;
    let mut below = 0;
    let first = (depth + depth / 256 + depth / 65536) % 2 == 0;
    let at = 1 + (depth / 2) as usize % 5;
    let src = std::iter::from_fn(|| {
        k += 1;
        if k == at && depth > 0 { below = inside(depth - 1, bad) }
        [T::A, T::A, T::A, T::B].get(k - 1 + first as usize * 4).or([T::A, T::A, T::A, T::A].get(k - 1 + !first as usize * 4)).cloned().map(Ok)
    });
    let r = if first { s(src) } else { d(src) };
    if r != (0, 3 + first as u64) || below != depth { *bad += 1 }
    below + 1
}
pub fn check(r: &mut ::vref::drive::Report) {
    r.run("@CALLS@ calls", "[]", || {
        let mut bad = vec![];
        for k in 0..@CALLS@u64 {
            if k % 65536 == 0 { ::vref::drive::progress() }
            let (got, want) = call(k);
            if got != want && bad.len() < 5 { bad.push((k, got, want)) }
        }
        format!("{bad:?}")
    });
    for n in [255u64, 256, 257, 300, @DEPTH@] {
        r.run(&format!("{n} calls inside one another"), &format!("{} 0", n + 1), || {
            let t = std::thread::Builder::new().stack_size(3 << 30).spawn(move || { let mut bad = 0; let x = inside(n, &mut bad); format!("{x} {bad}") }).unwrap();
            t.join().unwrap()
        });
        ::vref::drive::progress();
    }
    r.run("300 threads, all in the middle of a parse", "[]", || {
        let bar = std::sync::Barrier::new(300);
        let bad = std::sync::Mutex::new(vec![]);
        std::thread::scope(|sc| for id in 0..300u64 { let (bar, bad) = (&bar, &bad); std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(sc, move || {
            let n = 1 + id % 7;
            let src = (0..n + 2).map(move |i| { if i == n / 2 || i == n { bar.wait(); } Ok(if i == n { T::B } else { T::A }) });
            let got = if id % 2 == 0 { d(src.take(n as usize + 1)) } else { d(src) };
            let want = if id % 2 == 0 { (0, n) } else { (2, 100) };
            if got != want { bad.lock().unwrap().push((id, got, want)) }
        }).unwrap(); });
        format!("{:?}", bad.into_inner().unwrap())
    });
}
"#;

fn calls_mod(ctx: &Ctx) -> Mod {
    let (calls, depth) = ctx.pick((1u64 << 20, 66_000u64), (1 << 24, 140_000));
    ctx.bound(format!("{calls} calls of all outcomes one after the other; up to {depth} calls inside one another; 300 threads in the middle of a parse at the same time"));
    Mod { text: CALLS.replace("@CALLS@", &calls.to_string()).replace("@DEPTH@", &depth.to_string()), kind: crate::batch::Kind::Custom, label: "many calls".into() }
}

/// Values that count themselves, on value stacks of many sizes, with every way to end.
const LIVES: &str = r#"
use std::cell::Cell;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; static MADE: Cell<u64> = const { Cell::new(0) }; static STOP: Cell<u64> = const { Cell::new(0) }; }
// boxed: dropping twice is a double free, using after a drop an error of the allocator
pub struct P(Box<u64>);
impl ::std::fmt::Debug for P { fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { panic!("formatted") } }
fn p(n: u64) -> P { LIVE.with(|l| l.set(l.get() + 1)); MADE.with(|l| l.set(l.get() + 1)); P(Box::new(n)) }
impl Drop for P { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); assert!(*self.0 != u64::MAX); *self.0 = u64::MAX - 1; } }
impl Clone for P { fn clone(&self) -> P { p(*self.0) } }
fn act(n: u64) -> P { STOP.with(|s| { s.set(s.get().wrapping_sub(1)); if s.get() == 0 { panic!("action") } }); p(n) }
#[derive(Debug)] pub enum T { A(P), B(P), C(P, P) }
::parsegen::parser! {
    enum T { "a" => T::A(<P>), "b" => T::B(_), "c" => T::C(<P>, <P>) }
    pub Left: P = { => act(0), <n: Left> "a" => act(*n.0 + 1), <n: Left> <c: "c"> => act(*n.0 + *c.0.0 + *c.1.0), };
    pub Right: P = { "b" => act(0), <a: "a"> <n: Right> => act(*n.0 + *a.0), "c" Right => act(1), };
    pub Nest: P = { "b" => act(0), "a" <n: Nest> "c" => act(*n.0 + 1), };
    pub Tail: P = { "a" Tail Nil => act(1), "b" => act(0), };
    Nil: P = { => act(0) };
}
enum End { Eof, A, B, C, Err, Panic }
fn input(n: u64, mid: bool, m: u64, end: &End) -> impl Iterator<Item = Result<T, P>> + '_ {
    let a = |_| Ok(T::A(p(1)));
    (0..n).map(a).chain((0..mid as u64).map(|_| Ok(T::B(p(5))))).chain((0..m).map(|_| Ok(T::C(p(1), p(2))))).chain(std::iter::once(()).flat_map(move |_| match end {
        End::Eof => None,
        End::A => Some(Ok(T::A(p(1)))),
        End::B => Some(Ok(T::B(p(1)))),
        End::C => Some(Ok(T::C(p(1), p(1)))),
        End::Err => Some(Err(p(77))),
        End::Panic => panic!("source"),
    }))
}
fn show(r: Result<P, ParseError<P>>) -> String {
    match r {
        Ok(x) => format!("Ok({})", x.0),
        Err(ParseError::LexerError(e)) => format!("lexer {}", e.0),
        Err(ParseError::ParserError { found, expected }) => format!("{found} / {expected}"),
    }
}
pub fn check(r: &mut ::vref::drive::Report) {
    let ns: Vec<u64> = [8u32, 10, 12, 15, 16].iter().flat_map(|k| [(1u64 << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1]).chain([0, 1, 2, 1000, @TOP@]).collect();
    for n in ns {
        ::vref::drive::progress();
        for (e, end) in [End::Eof, End::A, End::B, End::C, End::Err, End::Panic].iter().enumerate() {
            let mut one = |what: &str, want: String, stop: u64, f: &dyn Fn() -> Result<P, ParseError<P>>| {
                let want = match end { End::Err if stop == 0 => "lexer 77".into(), End::Panic if stop == 0 => "panic: source".into(), _ => want };
                LIVE.with(|l| l.set(0));
                STOP.with(|s| s.set(stop));
                r.run(&format!("{what} {n} {e} {stop}"), &want, || show(f()));
                let live = LIVE.with(|l| l.get());
                r.eq(&format!("{what} {n} {e} {stop}: values left"), &live.to_string(), "0");
            };
            let pick = |w: [String; 4]| w[e.min(3)].clone();
            one("Left", pick([format!("Ok({n})"), format!("Ok({})", n + 1), "b / a, c".into(), format!("Ok({})", n + 2)]), 0, &|| Left::parse(input(n, false, 0, end)));
            one("Left of pairs", pick([format!("Ok({})", 3 * n), format!("Ok({})", 3 * n + 1), "b / a, c".into(), format!("Ok({})", 3 * n + 2)]), 0, &|| Left::parse(input(0, false, n, end)));
            one("Right", pick([format!("Ok({n})"), "a / ".into(), "b / ".into(), "c / ".into()]), 0, &|| Right::parse(input(n, true, 0, end)));
            one("Nest", pick([format!("Ok({n})"), format!("a / "), format!("b / "), format!("c / ")]), 0, &|| Nest::parse(input(n, true, n, end)));
            one("Tail", pick([if n == 0 { "Ok(0)".into() } else { "Ok(1)".into() }, "a / ".into(), "b / ".into(), "c / ".into()]), 0, &|| Tail::parse(input(n, true, 0, end)));
            if n > 0 && e == 0 {
                // the last action but a few panics, with everything still there or with nothing
                for stop in [1, 2, n / 2 + 1, n, n + 1] {
                    one("Left", "panic: action".into(), stop, &|| Left::parse(input(n, false, 0, end)));
                    one("Right", "panic: action".into(), stop, &|| Right::parse(input(n, true, 0, end)));
                    one("Nest", "panic: action".into(), stop, &|| Nest::parse(input(n, true, n, end)));
                }
            }
        }
    }
}
"#;

fn lives_mod(ctx: &Ctx) -> Mod {
    let top = ctx.pick(70_000u64, 1 << 21);
    ctx.bound(format!("value stacks of around 2^8, 2^10, 2^12, 2^15, 2^16 and {top} values, ending in success, syntax errors, source errors, panics in the source and in actions: nothing is left"));
    Mod { text: LIVES.replace("@TOP@", &top.to_string()), kind: crate::batch::Kind::Custom, label: "lives of values".into() }
}
