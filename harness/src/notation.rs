//! C15: equivalent notations. C16: ill-formed macro inputs.
use crate::batch::{Args, Compiled, Kind, Mod};
use crate::checks::*;
use crate::ctx::{Ctx, Finding};
use crate::layers::*;
use crate::pool;
use crate::render::{Nota, Pres};
use crate::space::*;
use std::collections::HashMap;
use std::sync::atomic::AtomicBool;
use std::sync::Mutex;
use vref::grammar::Grammar;

/// Every combination of notation choices that `g` can show.
pub fn notations() -> Vec<Nota> {
    let mut out = vec![];
    for state in 0..4u8 {
        for m in 0..128u32 {
            let b = |i: u32| m >> i & 1 == 1;
            out.push(Nota {
                braceless: b(0),
                no_commas: b(1),
                no_last_comma: b(2),
                no_last_token_comma: b(3),
                blocks: b(4),
                noise: b(5),
                muts: b(6),
                state,
                frags: 0,
            });
        }
    }
    out
}

fn with(p: &Pres, n: Nota) -> Pres {
    let mut q = p.clone();
    q.nota = n;
    q
}

pub fn c15(ctx: &Ctx) -> Result<(), String> {
    // model layer
    let sp = ctx.pick(
        vec![Space::new(1, 1, 4), Space::new(1, 2, 4), Space::new(2, 1, 5), Space::new(2, 2, 5), Space::new(3, 1, 6)],
        vec![Space::new(1, 1, 6), Space::new(1, 2, 6), Space::new(2, 1, 6), Space::new(2, 2, 6), Space::new(3, 1, 7), Space::new(2, 3, 6)],
    );
    for s in &sp {
        ctx.bound(format!("model layer: all 512 combinations of notation choices, all grammars (with conflicts too) with {s}"));
    }
    let gs: Vec<Grammar> = {
        let mut v = classic_grammars();
        let mut i = 0;
        v.extend(collect(&sp, |_| true).iter().map(|g| {
            i += 1;
            some_order(g, i)
        }));
        v
    };
    // acceptance per grammar: the plain notation decides what the others have to do
    let stop = AtomicBool::new(false);
    let tot = Mutex::new([0u64; 4]);
    let seen: Mutex<HashMap<String, Vec<(bool, Pres)>>> = Mutex::new(HashMap::new());
    let cands: Mutex<Vec<Cand>> = Mutex::new(vec![]);
    let t0 = std::time::Instant::now();
    let limit = ctx.pick(120, 3000);
    pool::run(
        |send| {
            for g in &gs {
                for n in notations() {
                    let p = with(&Pres::plain(g), n);
                    let l = pool::task_line("p", &p);
                    if t0.elapsed().as_secs() > limit {
                        stop.store(true, std::sync::atomic::Ordering::Relaxed);
                    }
                    if !send(p, l) {
                        return;
                    }
                }
            }
        },
        |p: Pres, a| {
            let mut t = tot.lock().unwrap();
            t[0] += 1;
            t[1] += a.pairs;
            t[2] += a.trans;
            t[3] += (a.status == "unrecognised") as u64;
            drop(t);
            let mut s = seen.lock().unwrap();
            let v = s.entry(p.g.to_string()).or_default();
            if !v.iter().any(|x| x.0 == a.accepted()) {
                v.push((a.accepted(), p.clone()));
            }
            drop(s);
            let mut c = cands.lock().unwrap();
            if a.status == "mismatch" && a.sr + a.rr == 0 && c.len() < 40 {
                let witness = a
                    .msg
                    .split('\u{1f}')
                    .filter_map(|m| m.split_once('@').map(|x| x.1.to_owned()))
                    .collect();
                c.push(Cand { pres: p, why: Why::Behaviour, msg: a.msg, witness });
            }
        },
        &stop,
    );
    let t = tot.into_inner().unwrap();
    ctx.add("expansions", t[0]);
    ctx.add("states", t[1]);
    ctx.add("transitions", t[2]);
    ctx.add("tables_unrecognised", t[3]);
    if t[3] > 0 {
        ctx.blind();
    }
    if stop.load(std::sync::atomic::Ordering::Relaxed) {
        ctx.capped(&format!("model layer stopped after {limit} s"));
    }
    // both accepted and rejected: ask rustc about both notations
    let mut pairs = vec![];
    let mut split: Vec<_> = seen.into_inner().unwrap().into_values().filter(|v| v.len() > 1).collect();
    split.sort_by_key(|v| (v[0].1.g.to_string().len(), v[0].1.g.to_string()));
    for v in split.iter().take(20) {
        for (_, p) in v {
            pairs.push(Mod::of(p, false, vec![]));
        }
    }
    let out = crate::batch::run(&pairs, &Args::new("C15"))?;
    collect_stats(ctx, &out);
    for (k, v) in split.iter().take(20).enumerate() {
        let yes = |i: usize| out.compiled[2 * k + i] == Some(Compiled::Yes);
        let known = |i: usize| out.compiled[2 * k + i].is_some();
        if known(0) && known(1) && yes(0) != yes(1) {
            let bad = if yes(0) { 1 } else { 0 };
            ctx.finding(Finding {
                key: format!("{} {:?}", v[0].1.g, v[bad].1.nota),
                what: format!(
                    "accepted in one notation, not in an equivalent one\n--- accepted\n{}--- not accepted\n{}",
                    v[1 - bad].1.body(),
                    v[bad].1.body()
                ),
                module: Some(pairs[2 * k + bad].clone()),
                args: vec![],
                body: None,
            });
        }
    }
    confirm(ctx, &cands.into_inner().unwrap(), 200)?;
    if !ctx.findings.lock().unwrap().is_empty() {
        return Ok(());
    }
    // execution layer
    let sp = ctx.pick(
        vec![Space::new(1, 2, 4), Space::new(2, 1, 4)],
        vec![Space::new(1, 2, 5), Space::new(2, 1, 5), Space::new(2, 2, 5), Space::new(3, 1, 6)],
    );
    for s in &sp {
        ctx.bound(format!("execution layer: all 512 combinations, all reduced LR(1) grammars with {s}"));
    }
    let mut mods = vec![];
    let mut gs = lr1_reduced(&sp);
    // a few with many productions per block and unary blocks
    for s in ["2 2 0 | 0 t0 n1 | 0 t1 | 0 | 1 t0 n1 t1 | 1", "3 3 0,2 | 0 n1 t0 | 1 n2 n2 | 2 t1 | 2 t2 n2 | 2 t0 n1 t0"] {
        gs.push(Grammar::parse(s));
    }
    for (i, g) in gs.iter().enumerate() {
        for n in notations() {
            mods.push(Mod::of(&with(&Pres::plain(&some_order(g, i)), n), true, vec![]));
        }
    }
    for (i, g) in classic_grammars().iter().enumerate() {
        for n in notations().iter().skip(i % 7).step_by(ctx.pick(37, 7)) {
            mods.push(Mod::of(&with(&Pres::plain(g), *n), true, vec![]));
        }
    }
    // parts of the grammar as fragments of another macro: every set of kinds of fragments
    ctx.bound("fragments: every set of 7 kinds of parts (types, actions and binders, literals, names, visibility, paths, token type) of classic grammars given as macro_rules fragments");
    for (i, g) in classic_grammars().iter().enumerate() {
        let step = if i < 2 { 1 } else { ctx.pick(16, 1) };
        for frags in (1..128u8).skip((i * 5) % step).step_by(step).chain([127]) {
            let n = Nota { frags, ..notations()[(i * 31 + frags as usize * 7) % 512] };
            mods.push(Mod::of(&with(&Pres::plain(g), n), true, vec![]));
        }
    }
    mods.extend(action_forms());
    mods.push(places());
    mods.push(literals());
    ctx.bound(format!("notations of literals: {} names x every way of writing them (escapes, raw, line continuations) in the declaration x all of them in one production", LITERALS.len()));
    ctx.bound("places of the invocation: module, function, method, closure, block, constant, generic function, loop; the three delimiters; renamed imports");
    for m in mods.iter().step_by(mods.len() / 4 + 1) {
        ctx.sample(m.text.lines().skip(1).take(14).collect::<Vec<_>>().join("\n"));
    }
    execute(ctx, &mods, &Args::new("C15").budget(30), true)?;
    Ok(())
}

/// Every way of writing a string literal with this value.
pub fn writings(v: &str) -> Vec<String> {
    let mut out = vec![format!("{v:?}")];
    let esc = |f: &dyn Fn(char) -> String| format!("\"{}\"", v.chars().map(|c| f(c)).collect::<String>());
    out.push(esc(&|c| format!("\\u{{{:x}}}", c as u32)));
    out.push(esc(&|c| format!("\\u{{{}}}", format!("{:X}", c as u32).chars().map(|d| format!("{d}_")).collect::<String>())));
    out.push(esc(&|c| if c.is_ascii() { format!("\\x{:02X}", c as u32) } else { c.to_string() }));
    // as the character itself wherever that is possible
    out.push(esc(&|c| match c {
        '"' | '\\' => format!("\\{c}"),
        '\r' => "\\r".into(),
        c => c.to_string(),
    }));
    // continued on the next line, before the first character and after every character
    let cont = "\\\n      ";
    out.push(format!("\"{cont}{}\"", v.chars().map(|c| format!("\\u{{{:x}}}{cont}", c as u32)).collect::<String>()));
    if !v.contains('\r') {
        for h in ["", "#", "##"] {
            if !v.contains(&format!("\"{h}")) {
                out.push(format!("r{h}\"{v}\"{h}"));
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|w| seen.insert(w.clone()));
    for w in &out {
        assert_eq!(syn::parse_str::<syn::LitStr>(w).unwrap_or_else(|e| panic!("harness: {w}: {e}")).value(), v, "harness: {w}");
    }
    out
}

const LITERALS: &[&str] = &["a", "", "ab c", "\\", "\"", "'", "\n", "\\n", "\t", "\0", "é", "e\u{301}", "日本", "\u{1f600}", "r", "r\"a\"", "#", "{}", "\\x61", "\\u{61}", "end-of-input", " a", "\u{7f}", "\r", "// a", "$a"];

/// However the literals in the declaration and in the productions are written.
fn literals() -> Mod {
    let mut s = String::from("#[derive(Clone, Copy, Debug)] pub enum T { A(u32), B }\n");
    let mut calls = String::new();
    let mut k = 0;
    for (i, v) in LITERALS.iter().enumerate() {
        let ws = writings(v);
        let n = ws.len();
        for (j, w) in ws.iter().enumerate() {
            // every writing in one production, starting with another one each time
            let syms: Vec<String> = (0..n).map(|x| format!("<x{x}: {}>", ws[(x + j) % n])).collect();
            let sum = (0..n).map(|x| format!("x{x}")).collect::<Vec<_>>().join(" + ");
            let o = LITERALS[(i + 1) % LITERALS.len()];
            let ow = writings(o);
            s.push_str(&format!(
                "mod l{k} {{ use super::*; ::parsegen::parser! {{ enum T {{ {w} => T::A(<u32>), {} => T::B }} pub S: u32 = {{ {} => {sum}, {} S => 5, }}; }} }}\n",
                ow[j % ow.len()],
                syms.join(" "),
                ow[(j + 1) % ow.len()],
            ));
            calls.push_str(&format!(
                "{{ let f = |v: &[T]| format!(\"{{:?}}\", l{k}::S::parse(v.iter().map(|t| Ok::<T, ()>(*t)))); let a = vec![T::A(3); {n}]; let w: &str = {w:?};\n\
                 let err = |f: &str, e: &str| format!(\"Err(ParserError {{{{ found: {{f:?}}, expected: {{e:?}} }}}})\");\n\
                 r.run(w, \"Ok({})\", || f(&a));\n\
                 r.run(w, &err(\"end-of-input\", {v:?}), || f(&a[1..]));\n\
                 r.run(w, &err({o:?}, {v:?}), || f(&[T::A(1), T::B]));\n\
                 r.run(w, &err({v:?}, \"\"), || f(&[&a[..], &[T::A(1)]].concat()));\n\
                 r.run(w, &err(\"end-of-input\", {:?}), || f(&[T::B])); }}\n",
                3 * n,
                format!("{v}, {o}"),
            ));
            k += 1;
        }
    }
    s.push_str(&format!("pub fn check(r: &mut ::vref::drive::Report) {{\n{calls}}}\n"));
    Mod { text: s, kind: Kind::Custom, label: "notations of literals".into() }
}

/// Action expressions of every syntactic form, in terms of `a: u32` and `mut b: u32`; value `u64`.
const FORMS: &[&str] = &[
    "7",
    "a as u64",
    "u64::from(a) + b as u64 * 2",
    "(a < b) as u64",
    "((a as u64) << 2 >> 1)",
    "(a as u64) & 6 | 1 ^ 2",
    "(a == 1 && b != 3 || !(a > b)) as u64",
    "-(-(a as i64)) as u64",
    "if a > b { 1 } else if a == 2 { 2 } else { 3 }",
    "match a { 1 => 10, 2 | 3 => { 20 } _ if b > 4 => 30, _ => 40, }",
    "{ let x = a as u64; let y = x * 2; x + y }",
    "{ b += 5; b as u64 }",
    "{ { { a as u64 } } }",
    "(|x: u64| -> u64 { x + a as u64 })(b as u64)",
    "vec![a, b, 3].iter().map(|x| *x as u64).sum::<u64>()",
    "P { x: a as u64, y: (b, 2) }.x",
    "P { x: a as u64, ..P { x: 1, y: (b, 2) } }.y.0 as u64",
    "loop { b += 1; if b > 30 { break b as u64; } }",
    "{ let mut s = 0; for i in 0..a { s += i as u64; } s }",
    "{ let mut s = 0; while s < a as u64 { s += 3 } s }",
    "unsafe { std::mem::transmute::<u64, u64>(a as u64) }",
    "(a as u64, b).0",
    "[a as u64, b as u64, 9][1]",
    "(0..a as u64).chain(3..=4).sum::<u64>()",
    "\"12\".parse::<u64>().unwrap() + a as u64",
    "'l: { if a > 3 { break 'l 1 } 2 }",
    "if let Some(x) = Some(a).filter(|x| *x > 1) { x as u64 } else { 0 }",
    "{ fn f<T: Into<u64>>(x: T) -> u64 { x.into() } f::<u32>(a) }",
    "{ let x; x = (a, b); let (p, q) = x; (p + q) as u64 }",
    "{ let f = |s: &str| s.len() as u64; f(\"},;=>\") + f(\"\\\"\") }",
    "{ let c = '}'; let d = b'{'; c as u64 + d as u64 + a as u64 }",
    "*&*&(a as u64)",
    "<u64 as From<u32>>::from(a)",
    "u64::MAX - a as u64",
    "{ const K: u64 = 3; static S: u64 = 4; K + S + b as u64 }",
    "if let (1, x) | (x, 1) = (a, b) { x as u64 } else { 77 }",
    "a.max(b).pow(2).wrapping_mul(3) as u64",
    "{ use std::convert::TryFrom; u64::try_from(a as i32 - 1).unwrap_or(99) }",
    "{ ; ; a as u64 }",
    "{ macro_rules! m { ($e:expr) => { $e * 2 } } m!(a as u64) }",
    "Some(a).map_or(0, |x| if x > 1 { 1 } else { 2 })",
    "{ let v: Vec<Vec<u8>> = vec![vec![1], vec![]]; v.len() as u64 }",
];

/// The same grammar wherever an item macro may stand.
fn places() -> Mod {
    let grammar = "enum T { \"a\" => T::A(<u32>), \"b\" => T::B(<u32>) } \
         pub S: u64 = { <x:S> \"a\" <y:\"b\"> => K + x * 2 + y as u64, <z:N> => z as u64 }; pub N: u32 = <w:\"a\"> => w + 1, \
         M: (u32, &'static str) = { \"b\" => (1, \"m\") };";
    let run = "let f = |v: &[T]| -> String { let i = || v.iter().map(|t| Ok::<T, String>(*t)); format!(\"{:?} {:?}\", S::parse(i()), N::parse(i())) };";
    let inside = [
        ("function", "fn inside(r: R) { MACRO! { G } RUN all(r, \"function\", f); }"),
        ("end of function", "fn inside(r: R) { RUN all(r, \"end\", f); MACRO! { G } }"),
        ("method", "struct X; impl X { fn m(&self, r: R) { MACRO!( G ); RUN all(r, \"method\", f); } } fn inside(r: R) { X.m(r) }"),
        ("closure", "fn inside(r: R) { (|| { MACRO![ G ]; RUN all(r, \"closure\", f) })() }"),
        ("blocks", "fn inside(r: R) { { MACRO! { G } RUN all(r, \"block 1\", f); } { MACRO! { G } RUN all(r, \"block 2\", f); } }"),
        ("generic function", "fn g<A: std::fmt::Debug, E>(r: R, _: A, _: E) { MACRO! { G } RUN all(r, \"generic\", f); } fn inside(r: R) { g(r, 1u8, ()) }"),
        ("constant", "const F: fn(R) = { MACRO! { G } fn h(r: R) { RUN all(r, \"constant\", f); } h }; fn inside(r: R) { F(r) }"),
        ("loop", "fn inside(r: R) { for i in 0..2 { if i == 1 { MACRO! { G } RUN all(r, \"loop\", f); } } }"),
        ("match arm", "fn inside(r: R) { match 5 { 5 => { MACRO! { G } RUN all(r, \"arm\", f); } _ => {} } }"),
        ("renamed import", "use ::parsegen::parser as grammar; grammar! { G } fn inside(r: R) { RUN all(r, \"renamed\", f); }"),
        ("plain import", "use ::parsegen::parser; parser! { G } fn inside(r: R) { RUN all(r, \"imported\", f); }"),
        ("parentheses", "MACRO!( G ); fn inside(r: R) { RUN all(r, \"parentheses\", f); }"),
        ("brackets", "MACRO![ G ]; fn inside(r: R) { RUN all(r, \"brackets\", f); }"),
        ("trait method", "trait Y { fn y(r: R) { MACRO! { G } RUN all(r, \"trait\", f); } } impl Y for u8 {} fn inside(r: R) { u8::y(r) }"),
        ("static", "static L: fn(R) = |r| { MACRO! { G } RUN all(r, \"static\", f); }; fn inside(r: R) { L(r) }"),
        ("deep module", "mod p { use super::*; pub mod q { use super::*; MACRO! { G } pub fn inside(r: R) { RUN all(r, \"deep\", f); } } } pub use p::q::inside;"),
        ("from outside", "mod p { use super::*; pub mod q { use super::*; MACRO! { G } } } fn inside(r: R) { use p::q::{S, N}; RUN all(r, \"outside\", f); let e: Result<u64, p::q::ParseError<u8>> = S::parse([Err(3u8)].into_iter()); r.eq(\"its error type\", \"Err(LexerError(3))\", &format!(\"{e:?}\")); }"),
    ];
    let mut text = String::from(
        "use ::vref::drive::Report;\ntype R<'r> = &'r mut Report;\n\
         #[derive(Clone, Copy, Debug)] pub enum T { A(u32), B(u32) }\nconst K: u64 = 1000;\n\
         fn all(r: R, what: &str, f: impl Fn(&[T]) -> String) {\n\
           r.run(what, \"Ok(6) Ok(6)\", || f(&[T::A(5)]));\n\
           r.run(what, \"Ok(1021) Err(ParserError { found: \\\"a\\\", expected: \\\"\\\" })\", || f(&[T::A(5), T::A(7), T::B(9)]));\n\
           r.run(what, \"Err(ParserError { found: \\\"b\\\", expected: \\\"a\\\" }) Err(ParserError { found: \\\"b\\\", expected: \\\"a\\\" })\", || f(&[T::B(1), T::A(1)]));\n\
           r.run(what, \"Err(ParserError { found: \\\"end-of-input\\\", expected: \\\"b\\\" }) Err(ParserError { found: \\\"a\\\", expected: \\\"\\\" })\", || f(&[T::A(1), T::A(2)]));\n}\n",
    );
    let mut calls = String::new();
    for (i, (_, t)) in inside.iter().enumerate() {
        let t = t.replace("MACRO", "::parsegen::parser").replace("RUN", run).replace(" G ", &format!(" {grammar} "));
        text.push_str(&format!("mod p{i} {{ use super::*; {}}}\n", t.replacen("fn inside(", "pub fn inside(", if t.contains("pub fn inside") { 0 } else { 1 })));
        calls.push_str(&format!("p{i}::inside(r);\n"));
    }
    text.push_str(&format!("pub fn check(r: R) {{\n{calls}}}\n"));
    Mod { text, kind: Kind::Custom, label: "places of the invocation".into() }
}

/// Every action form in every layout, compared with the same expression in an ordinary function.
fn action_forms() -> Vec<Mod> {
    let mut out = vec![];
    for (k, f) in FORMS.iter().enumerate() {
        let mut s = String::new();
        let mut calls = String::new();
        let mut layouts: Vec<String> = vec![];
        let e1 = format!("<a: \"a\"> <mut b: \"b\"> => {f}");
        let e2 = format!("\"b\" <a: \"a\"> <mut b: \"b\"> => {f}");
        for last in ["", ","] {
            layouts.push(format!("pub S: u64 = {{ {e1}{last} }};"));
            layouts.push(format!("pub S: u64 = {{ {e1}, {e2}{last} }};"));
            layouts.push(format!("pub S: u64 = {{ {e2}, {e1}{last} }};"));
            layouts.push(format!("pub S: u64 = {{ {e1} {e2}{last} }};"));
            layouts.push(format!("pub S: u64 = {{ {e1} => 5, {e2}{last} }};"));
            layouts.push(format!("pub S: u64 = {{ => 5 {e2}, {e1}{last} }};"));
            layouts.push(format!("pub S: u64 = {{ {e1} N => 6 {e2}{last} }}; N: () = {{ \"b\" \"b\" => () }};"));
        }
        layouts.push(format!("pub S: u64 = {e1},"));
        layouts.push(format!("pub S: u64 = {e1}, N: () = => (),"));
        layouts.push(format!("N: () = {{ => {{}} }}; pub S: u64 = {e1},"));
        for (i, l) in layouts.iter().enumerate() {
            for tc in ["", ","] {
                let (before, after) = match i % 3 {
                    0 => ("", ""),
                    1 => ("type State = &'static [u8];", ""),
                    _ => ("", "type State = fn(Vec<u8>) -> (u8,);"),
                };
                let id = format!("l{i}{}", tc.len());
                s.push_str(&format!(
                    "mod {id} {{ use super::*; ::parsegen::parser! {{ {before} enum T {{ \"a\" => T::A(<u32>), \"b\" => T::B(<u32>){tc} }} {l} {after} }} \
                     pub fn run(v: &[T]) -> String {{ match S::parse(v.iter().map(|t| Ok::<T, ()>(*t))) {{ Ok(x) => x.to_string(), Err(_) => \"error\".to_string() }} }} }}\n"
                ));
                let is2 = l.contains(&e2) as u8;
                calls.push_str(&format!("one(r, {:?}, {id}::run, {}, {is2});\n", l, l.contains(&e1)));
            }
        }
        let text = format!(
            "#[derive(Clone, Copy, Debug)] pub enum T {{ A(u32), B(u32) }}\n#[derive(Debug)] pub struct P {{ x: u64, y: (u32, u8) }}\n{s}\
             fn want(a: u32, mut b: u32) -> u64 {{ {f} }}\n\
             fn one(r: &mut ::vref::drive::Report, what: &str, run: fn(&[T]) -> String, e1: bool, e2: u8) {{\n\
               for a in [0u32, 1, 2, 4] {{ for b in [0u32, 1, 3, 9] {{\n\
                 let w = want(a, b).to_string();\n\
                 r.run(what, if e1 {{ &w }} else {{ \"error\" }}, || run(&[T::A(a), T::B(b)]));\n\
                 r.run(what, if e2 == 1 {{ &w }} else {{ \"error\" }}, || run(&[T::B(7), T::A(a), T::B(b)]));\n\
                 r.run(what, \"error\", || run(&[T::A(a)]));\n\
               }} }}\n}}\n\
             pub fn check(r: &mut ::vref::drive::Report) {{\n{calls}}}\n"
        );
        out.push(Mod { text, kind: Kind::Custom, label: format!("action form {k}: {f}") });
    }
    out
}

// ---------------------------------------------------------------------------------------------
// C16

/// Independent reading of the notation. `Some(reason)` if the input is certainly ill-formed; where the
/// notation is not pinned down, `None`.
pub fn ill_formed(body: &str) -> Option<String> {
    let ts: proc_macro2::TokenStream = match body.parse() {
        Ok(t) => t,
        Err(_) => return Some("not tokens".into()),
    };
    let r = syn::parse::Parser::parse2(read, ts);
    match r {
        Err(e) => Some(format!("malformed: {e}")),
        Ok(d) => d.check(),
    }
}

#[derive(Default, Debug)]
struct Decls {
    enums: usize,
    states: usize,
    unknown_types: Vec<String>,
    terms: Vec<String>,
    nts: Vec<String>,
    used_t: Vec<String>,
    used_n: Vec<String>,
    ops: usize,
    fallible: usize,
}

impl Decls {
    fn check(&self) -> Option<String> {
        let dup = |v: &[String]| (0..v.len()).find(|i| v[..*i].contains(&v[*i])).map(|i| v[i].clone());
        if self.enums == 0 {
            return Some("no token enum".into());
        }
        if self.enums > 1 {
            return Some("several token enums".into());
        }
        if self.states > 1 {
            return Some("several State types".into());
        }
        if let Some(t) = self.unknown_types.first() {
            return Some(format!("unknown type {t}"));
        }
        if let Some(t) = dup(&self.terms) {
            return Some(format!("terminal {t:?} declared twice"));
        }
        if let Some(t) = dup(&self.nts) {
            return Some(format!("non-terminal {t} declared twice"));
        }
        if let Some(t) = self.used_t.iter().find(|t| !self.terms.contains(t)) {
            return Some(format!("terminal {t:?} not declared"));
        }
        if let Some(t) = self.used_n.iter().find(|t| !self.nts.contains(t)) {
            return Some(format!("non-terminal {t} not declared"));
        }
        if self.ops > 0 {
            return Some("repetition operator".into());
        }
        if self.fallible > 0 {
            return Some("fallible action".into());
        }
        None
    }
}

type In<'a> = syn::parse::ParseStream<'a>;

fn read(i: In) -> syn::Result<Decls> {
    use syn::Token;
    let mut d = Decls::default();
    while !i.is_empty() {
        if i.peek(Token![type]) {
            i.parse::<Token![type]>()?;
            let n: syn::Ident = i.parse()?;
            i.parse::<Token![=]>()?;
            i.parse::<syn::Type>()?;
            i.parse::<Token![;]>()?;
            if n == "State" {
                d.states += 1;
            } else {
                d.unknown_types.push(n.to_string());
            }
        } else if i.peek(Token![enum]) {
            i.parse::<Token![enum]>()?;
            i.parse::<syn::Ident>()?;
            if i.peek(Token![<]) {
                i.parse::<Token![<]>()?;
                while !i.peek(Token![>]) {
                    i.parse::<syn::Lifetime>()?;
                    if i.peek(Token![,]) {
                        i.parse::<Token![,]>()?;
                    }
                }
                i.parse::<Token![>]>()?;
            }
            let c;
            syn::braced!(c in i);
            while !c.is_empty() {
                let t: syn::LitStr = c.parse()?;
                c.parse::<Token![=>]>()?;
                pattern(&c)?;
                d.terms.push(t.value());
                if c.is_empty() {
                    break;
                }
                c.parse::<Token![,]>()?;
            }
            d.enums += 1;
        } else {
            if i.peek(Token![pub]) {
                i.parse::<Token![pub]>()?;
            }
            let n: syn::Ident = i.parse()?;
            i.parse::<Token![:]>()?;
            i.parse::<syn::Type>()?;
            i.parse::<Token![=]>()?;
            d.nts.push(n.to_string());
            if i.peek(syn::token::Brace) {
                let c;
                syn::braced!(c in i);
                while !c.is_empty() {
                    production(&c, &mut d)?;
                    if c.peek(Token![,]) {
                        c.parse::<Token![,]>()?;
                    }
                }
                i.parse::<Token![;]>()?;
            } else {
                production(i, &mut d)?;
                i.parse::<Token![,]>()?;
            }
        }
    }
    Ok(d)
}

fn production(i: In, d: &mut Decls) -> syn::Result<()> {
    use syn::Token;
    while !i.peek(Token![=>]) {
        symbol(i, d)?;
    }
    i.parse::<Token![=>]>()?;
    if i.peek(Token![?]) {
        i.parse::<Token![?]>()?;
        d.fallible += 1;
    }
    i.parse::<syn::Expr>()?;
    Ok(())
}

fn symbol(i: In, d: &mut Decls) -> syn::Result<()> {
    use syn::Token;
    if i.peek(syn::LitStr) {
        d.used_t.push(i.parse::<syn::LitStr>()?.value());
    } else if i.peek(Token![<]) {
        i.parse::<Token![<]>()?;
        if i.peek(Token![mut]) {
            i.parse::<Token![mut]>()?;
        }
        i.parse::<syn::Ident>()?;
        i.parse::<Token![:]>()?;
        symbol(i, d)?;
        i.parse::<Token![>]>()?;
    } else {
        d.used_n.push(i.parse::<syn::Ident>()?.to_string());
    }
    loop {
        if i.peek(Token![*]) {
            i.parse::<Token![*]>()?;
        } else if i.peek(Token![+]) {
            i.parse::<Token![+]>()?;
        } else if i.peek(Token![?]) {
            i.parse::<Token![?]>()?;
        } else {
            return Ok(());
        }
        d.ops += 1;
    }
}

fn pattern(i: In) -> syn::Result<()> {
    use syn::Token;
    fn list(c: In) -> syn::Result<()> {
        while !c.is_empty() {
            pattern(c)?;
            if c.is_empty() {
                break;
            }
            c.parse::<Token![,]>()?;
        }
        Ok(())
    }
    let c;
    if i.peek(Token![..]) {
        i.parse::<Token![..]>()?;
    } else if i.peek(syn::Lit) {
        i.parse::<syn::Lit>()?;
    } else if i.peek(Token![_]) {
        i.parse::<Token![_]>()?;
    } else if i.peek(syn::token::Paren) {
        syn::parenthesized!(c in i);
        list(&c)?;
    } else if i.peek(Token![<]) {
        i.parse::<Token![<]>()?;
        i.parse::<syn::Type>()?;
        i.parse::<Token![>]>()?;
    } else {
        i.parse::<syn::ExprPath>()?;
        if i.peek(syn::token::Paren) {
            syn::parenthesized!(c in i);
            list(&c)?;
        } else if i.peek(syn::token::Brace) {
            syn::braced!(c in i);
            while !c.is_empty() {
                if c.peek(Token![..]) {
                    c.parse::<Token![..]>()?;
                } else {
                    c.parse::<syn::Ident>()?;
                    c.parse::<Token![:]>()?;
                    pattern(&c)?;
                }
                // a missing comma is left to the implementation
                if c.peek(Token![,]) {
                    c.parse::<Token![,]>()?;
                }
            }
        }
    }
    Ok(())
}

/// Hand-written inputs with every construct; tokens separated by blanks, one item per line.
const BASES: &[(&str, &str)] = &[
    (
        "#[derive(Debug)] pub enum T<'i> { A, B(&'i str), C { x: u32, y: (u8, u8) } }",
        "type State = Vec < u8 > ;
enum T < 'i > { \"a\" => T :: A , \"b\" => T :: B ( < & 'i str > ) , \"c\" => T :: C { x : < u32 > , y : ( 1 , _ ) } , \"d\" => T :: C { x : _ , .. } , }
pub S : usize = { \"a\" < x : L > => x , < mut y : S > \"b\" < z : M > => { y += z ; y } , => 0 } ;
L : usize = { < n : L > \"c\" => n + 1 , \"c\" => 1 , } ;
pub M : usize = < v : \"d\" > => { let _ = v ; 2 } ,
U : & 'i str = { < s : \"b\" > => s , \"a\" U => \"q\" } ;",
    ),
    (
        "#[derive(Debug, Clone, Copy)] pub enum K { P(u8), Q }",
        "pub X : u8 = { < a : \"p\" > => a } ;
enum K { \"p\" => K :: P ( < u8 > ) , \"q\" => _ }
pub X1 : Vec < u8 > = { < x : X > \"q\" => vec ! [ x ] , } ;
Y : ( ) = => ( ) ,
type State = ( ) ;",
    ),
    (
        "pub type I = u32;",
        "enum I { \"1\" => 1 , \"2\" => 2 , \"n\" => < u32 > , }
pub E : u32 = { < l : E > \"1\" < r : F > => l + r , F => 0 } ;
F : u32 = { \"n\" => 3 , \"2\" E \"2\" => 4 } ;",
    ),
];

const ALPHABET: &[&str] = &[
    "=>", "=", ",", ";", ":", "<", ">", "*", "+", "?", "{ }", "( )", "[ ]", "pub", "enum", "type", "mut", "\"zz\"", "\"a\"", "Zz", "S", "X1", "'z", "_", "..", "5", "&",
];

fn is_open(t: &str) -> bool {
    matches!(t, "{" | "(" | "[")
}
fn is_close(t: &str) -> bool {
    matches!(t, "}" | ")" | "]")
}

/// Every single edit of the token sequence.
fn edits(ts: &[&str], out: &mut Vec<String>) {
    let join = |a: &[&str], m: &str, b: &[&str]| format!("{} {m} {}", a.join(" "), b.join(" "));
    for i in 0..=ts.len() {
        for x in ALPHABET {
            out.push(join(&ts[..i], x, &ts[i..]));
        }
        if i == ts.len() {
            break;
        }
        out.push(join(&ts[..i], "", &ts[i + 1..]));
        out.push(join(&ts[..=i], ts[i], &ts[i + 1..]));
        if i + 1 < ts.len() {
            out.push(join(&ts[..i], &format!("{} {}", ts[i + 1], ts[i]), &ts[i + 2..]));
        }
        if !is_open(ts[i]) && !is_close(ts[i]) {
            for x in ALPHABET {
                out.push(join(&ts[..i], x, &ts[i + 1..]));
            }
            // any other token of the input
            for x in ts {
                if !is_open(x) && !is_close(x) && x != &ts[i] {
                    out.push(join(&ts[..i], x, &ts[i + 1..]));
                }
            }
        } else if is_open(ts[i]) {
            // without the group's delimiters, and without the group
            let mut depth = 0;
            for j in i..ts.len() {
                if is_open(ts[j]) {
                    depth += 1;
                }
                if is_close(ts[j]) {
                    depth -= 1;
                }
                if depth == 0 {
                    let mut v: Vec<&str> = ts.to_vec();
                    v.remove(j);
                    v.remove(i);
                    out.push(v.join(" "));
                    out.push(join(&ts[..i], "", &ts[j + 1..]));
                    for (o, c) in [("(", ")"), ("{", "}"), ("[", "]")] {
                        let mut v: Vec<&str> = ts.to_vec();
                        v[i] = o;
                        v[j] = c;
                        out.push(v.join(" "));
                    }
                    break;
                }
            }
        }
    }
}

/// Items deleted, repeated at every place, and repeated with changes.
fn item_edits(items: &[String], out: &mut Vec<String>) {
    for i in 0..items.len() {
        let mut v = items.to_vec();
        v.remove(i);
        out.push(v.concat());
        let it = &items[i];
        let mut copies = vec![it.clone()];
        if let Some(x) = it.strip_prefix("pub ") {
            copies.push(x.to_owned());
        } else if !it.starts_with("enum") && !it.starts_with("type") {
            copies.push(format!("pub {it}"));
        }
        if let Some((head, _)) = it.split_once('=') {
            if !it.starts_with("enum") && !it.starts_with("type") {
                copies.push(format!("{head} = {{ }} ;\n"));
                copies.push(format!("{head} = => panic!(), \n"));
                let n = head.split(':').next().unwrap();
                copies.push(format!("{n}: () = {{ => () }} ;\n"));
            }
        }
        for c in copies {
            for j in 0..=items.len() {
                let mut v = items.to_vec();
                v.insert(j, format!("\n{c}"));
                out.push(v.concat());
            }
        }
        for extra in ["type State = u8 ;\n", "type Stat = u8 ;\n", "type LexerError = u8 ;\n", "type state = () ;\n", "enum Other { }\n"] {
            let mut v = items.to_vec();
            v.insert(i, extra.to_owned());
            out.push(v.concat());
            let mut v = items.to_vec();
            v.insert(i, extra.to_owned());
            v.push(extra.to_owned());
            out.push(v.concat());
        }
    }
}

/// Faults placed in grammars: at every symbol of every production, every kind of bad reference and
/// operator, in every binding form; at every declaration, a clash with every other.
fn reference_faults(p: &Pres, out: &mut Vec<String>) {
    let g = &p.g;
    let names_n: Vec<String> = p
        .nt
        .iter()
        .flat_map(|n| vec![format!("{n}1"), format!("{n}0"), n.to_lowercase() + "_", format!("r#{n}_")])
        .chain(p.t.iter().map(|t| format!("{t}_")))
        .chain(p.t.iter().filter(|t| syn::parse_str::<syn::Ident>(t).is_ok()).cloned())
        .chain(["Self".into(), "self".into(), p.token_type()])
        .collect();
    let names_t: Vec<String> =
        p.nt.iter().cloned().chain(["".into(), "end-of-input".into(), "$".into(), " a".into(), "A".into()]).collect();
    let marker = "\u{1}";
    for pi in 0..g.prods.len() {
        for at in 0..=g.prods[pi].rhs.len() {
            // the body with a hole before symbol `at`, and with symbol `at` replaced by a hole
            for replace in [false, true] {
                if replace && at == g.prods[pi].rhs.len() {
                    continue;
                }
                let mut items = p.items();
                let n = g.prods[pi].lhs as usize;
                let idx = n + (p.enum_pos.min(g.n_n) <= n) as usize;
                let action = p.action(pi);
                let mut syms = p.symbols(pi);
                let needle = format!("{} => {}", syms.join(" "), action);
                let old = if replace { syms.remove(at) } else { String::new() };
                syms.insert(at, marker.into());
                let with_hole = format!("{} => {}", syms.join(" "), action);
                if !items[idx].contains(&needle) {
                    continue;
                }
                items[idx] = items[idx].replacen(&needle, &with_hole, 1);
                let body = items.concat();
                let mut put = |s: &str| out.push(body.replace(marker, s));
                for n in names_n.iter() {
                    put(n);
                    put(&format!("<zz: {n}>"));
                }
                for t in &names_t {
                    put(&format!("{t:?}"));
                    put(&format!("<mut zz: {t:?}>"));
                }
                // what the source text of a declared one looks like, as a value
                for t in &p.t {
                    for w in &writings(t)[1..3] {
                        put(&format!("r{w}"));
                        put(&format!("<zz: {w:?}>"));
                    }
                }
                if replace {
                    for op in ["*", "+", "?", "*?", "+*", "??"] {
                        put(&format!("{old}{op}"));
                        if let Some(x) = old.strip_suffix('>') {
                            put(&format!("{x}{op}>"));
                        }
                    }
                }
            }
        }
        // fallible action
        let mut items = p.items();
        let n = g.prods[pi].lhs as usize;
        let idx = n + (p.enum_pos.min(g.n_n) <= n) as usize;
        let needle = format!("=> {}", p.action(pi));
        for f in ["=>? Ok(", "=> ? Err("] {
            let v = items[idx].replacen(&needle, &format!("{f}{})", p.action(pi)), 1);
            let old = std::mem::replace(&mut items[idx], v);
            out.push(items.concat());
            items[idx] = old;
        }
    }
    for i in 0..g.n_n {
        for j in 0..g.n_n {
            if i != j {
                let mut q = p.clone();
                q.nt[i] = q.nt[j].clone();
                out.push(q.body());
            }
        }
    }
    for i in 0..g.n_t {
        for j in 0..g.n_t {
            if i != j {
                let mut q = p.clone();
                q.t[i] = q.t[j].clone();
                out.push(q.body());
                // only the declaration clashes
                for w in writings(&p.t[j]) {
                    out.push(p.body().replacen(&format!("{:?} => Tok", p.t[i]), &format!("{w} => Tok"), 1));
                }
            }
        }
    }
}

/// One fault in a grammar with `n` terminals, non-terminals and productions, at places around powers of two.
fn large_faults(n: usize, out: &mut Vec<(String, String)>) {
    let at: Vec<usize> = [0, 1, 7, 8, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, n - 2, n - 1].into_iter().filter(|i| *i < n).collect();
    let items = |f: &dyn Fn(usize) -> Option<String>| -> Vec<String> {
        (0..n)
            .map(|i| {
                f(i).unwrap_or_else(|| {
                    // small automata, should one be built
                    let other = if i % 16 == 1 && i + 16 < n { format!("N{} ", i + 16) } else { String::new() };
                    format!("N{i}: u32 = {{ \"t{i}\" {other}=> {i}, }};\n")
                })
            })
            .collect()
    };
    let terms = |extra: Option<(usize, usize)>| -> String {
        let mut v: Vec<String> = (0..n).map(|i| format!("\"t{i}\" => {i}, ")).collect();
        if let Some((i, j)) = extra {
            v.insert(j, format!("\"t{i}\" => {n}, "));
        }
        format!("enum T {{ {}\"rest\" => _ }}\n", v.concat())
    };
    let first = "pub S: u32 = { N1 => 0 };\n";
    fn put(out: &mut Vec<(String, String)>, first: &str, t: String, is: &[String]) {
        out.push(("pub type T = u32;".into(), format!("{t}{first}{}", is.concat())));
    }
    for i in &at {
        for bad in [format!("N{n}"), "S1".into(), format!("\"t{n}\""), "\"t\"".into(), format!("t{i}"), format!("\"N{i}\"")] {
            let w = |k: usize| (k == *i).then(|| format!("N{i}: u32 = {{ \"t{i}\" {bad} => 0, }};\n"));
            put(out, first, terms(None), &items(&w));
        }
        for j in &at {
            put(out, first, terms(Some((*i, *j))), &items(&|_| None));
            put(out, first, terms(Some((*i, n))), &items(&|_| None));
            let mut is = items(&|_| None);
            is.insert(*j, format!("N{i}: u32 = {{ \"t{j}\" => 0, }};\n"));
            put(out, first, terms(None), &is);
        }
        // many productions in one non-terminal, one of them with a bad reference
        for bad in ["Zz", "\"zz\"", "N0*", "\"t0\"?"] {
            let ps: Vec<String> = (0..n).map(|k| if k == *i { format!("\"t{k}\" {bad} => 0, ") } else { format!("\"t{k}\" => 0, ") }).collect();
            out.push(("pub type T = u32;".into(), format!("{}pub S: u32 = {{ {} }};\n", terms(None), ps.concat())));
            // many symbols in one production
            let ps: Vec<String> = (0..n).map(|k| if k == *i { format!("{bad} ") } else { format!("\"t{k}\" ") }).collect();
            out.push(("pub type T = u32;".into(), format!("{}pub S: u32 = {{ {} => 0 }}; N0: () = {{}};\n", terms(None), ps.concat())));
        }
    }
}

pub fn c16(ctx: &Ctx) -> Result<(), String> {
    let mut inputs: Vec<(String, String)> = vec![];
    for (prelude, b) in BASES {
        let ts: Vec<&str> = b.split_whitespace().collect();
        assert!(ill_formed(b).is_none(), "harness: {:?}", ill_formed(b));
        let mut v = vec![];
        edits(&ts, &mut v);
        let items: Vec<String> = b.lines().map(|l| format!("{l}\n")).collect();
        item_edits(&items, &mut v);
        if ctx.thorough {
            // two deletions anywhere
            for i in 0..ts.len() {
                for j in i + 1..ts.len() {
                    let w: Vec<&str> =
                        ts.iter().enumerate().filter(|(k, _)| *k != i && *k != j).map(|(_, t)| *t).collect();
                    v.push(w.join(" "));
                }
            }
            // an item edit, then a token deletion
            let mut first = vec![];
            item_edits(&items, &mut first);
            for f in first.iter().step_by(3) {
                let ts: Vec<&str> = f.split_whitespace().collect();
                for i in 0..ts.len() {
                    let w: Vec<&str> = ts.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, t)| *t).collect();
                    v.push(w.join(" "));
                }
            }
        }
        inputs.extend(v.into_iter().map(|x| (prelude.to_string(), x)));
    }
    ctx.bound(format!(
        "{} inputs with every construct: every deletion, repetition, adjacent swap, insertion and replacement of one token (27 tokens and the input's own), every regrouping, every repetition of an item at every place (same, other visibility, emptied, retyped){}",
        BASES.len(),
        ctx.pick("", ", every two deletions")
    ));
    let sp = ctx.pick(
        vec![Space::new(1, 1, 4), Space::new(1, 2, 4), Space::new(2, 1, 5), Space::new(2, 2, 5), Space::new(3, 1, 6)],
        vec![Space::new(1, 1, 6), Space::new(1, 2, 6), Space::new(2, 1, 6), Space::new(2, 2, 7), Space::new(3, 1, 7), Space::new(3, 2, 7)],
    );
    for s in &sp {
        ctx.bound(format!("every bad reference, operator, fallible action and clash, at every place, in all LR(1) grammars (unused and unproductive non-terminals included) with {s}"));
    }
    let mut gs = collect(&sp, |g| conflict_free(g));
    gs.extend(classic_grammars());
    for (i, g) in gs.iter().enumerate() {
        let mut p = Pres::plain(&some_order(g, i));
        if i % 2 == 0 {
            vary_pres(&mut p, i);
        }
        p.enum_pos = i % (g.n_n + 1);
        p.nota.braceless = i % 3 == 0;
        p.nota.state = (i % 4) as u8;
        let before = p.body();
        assert!(ill_formed(&before).is_none(), "harness: {:?} {before}", ill_formed(&before));
        let mut v = vec![];
        let mut q = p.clone();
        q.nota.state = 0;
        reference_faults(&q, &mut v);
        item_edits(&p.items(), &mut v);
        let prelude = format!("use ::vref::tok::{};", p.token_type());
        inputs.extend(v.into_iter().map(|x| (prelude.clone(), x)));
    }
    let before = inputs.len();
    for n in ctx.pick(vec![70, 300], vec![70, 130, 300, 520]) {
        large_faults(n, &mut inputs);
    }
    ctx.bound(format!("{} grammars with 70 to {} terminals, non-terminals, productions or symbols with one fault, at places around powers of two", inputs.len() - before, ctx.pick(300, 520)));
    // only those that are certainly ill-formed
    let todo = Mutex::new((vec![], HashMap::<String, u64>::new()));
    {
        let next = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..pool::JOBS {
                sc.spawn(|| loop {
                    let i = next.fetch_add(512, std::sync::atomic::Ordering::Relaxed);
                    if i >= inputs.len() {
                        break;
                    }
                    for (k, (p, b)) in inputs[i..(i + 512).min(inputs.len())].iter().enumerate() {
                        if let Some(why) = ill_formed(b) {
                            let mut t = todo.lock().unwrap();
                            let kind = [("malformed", "malformed"), ("not tokens", "malformed"), ("non-terminal", "non-terminal"), ("terminal", "terminal"), ("unknown", "unknown type")]
                                .iter()
                                .find(|k| why.starts_with(k.0))
                                .map_or(why.clone(), |k| {
                                    let tail = if why.ends_with("twice") { " declared twice" } else if why.ends_with("not declared") { " not declared" } else { "" };
                                    format!("{}{tail}", k.1)
                                });
                            *t.1.entry(kind).or_default() += 1;
                            t.0.push((i + k, p.clone(), b.clone(), why));
                        }
                    }
                });
            }
        });
    }
    let (mut todo, kinds) = todo.into_inner().unwrap();
    todo.sort_by_key(|t| t.0);
    ctx.add("inputs_generated", inputs.len() as u64);
    ctx.add("ill_formed_inputs", todo.len() as u64);
    for (k, n) in kinds {
        ctx.add(&format!("faults: {k}"), n);
    }
    for t in todo.iter().step_by(todo.len() / 8 + 1) {
        ctx.sample(format!("{}: {}", t.3, t.2.chars().take(400).collect::<String>()));
    }
    let stop = AtomicBool::new(false);
    let accepted: Mutex<Vec<(usize, String, String, String)>> = Mutex::new(vec![]);
    let n = pool::run(
        |send| {
            for t in &todo {
                if !send(t.clone(), pool::raw_line("x", &t.2)) {
                    return;
                }
            }
        },
        |t, a| {
            if a.accepted() {
                accepted.lock().unwrap().push(t);
            }
        },
        &stop,
    );
    ctx.add("expansions", n);
    ctx.add("states", n);
    ctx.add("transitions", n);
    let mut accepted = accepted.into_inner().unwrap();
    accepted.sort();
    ctx.add("ill_formed_inputs_expanded_without_error", accepted.len() as u64);
    // shortest of each reason first
    accepted.sort_by_key(|t| t.2.len());
    let mut per: HashMap<String, usize> = HashMap::new();
    accepted.retain(|t| {
        let n = per.entry(t.3.clone()).or_default();
        *n += 1;
        // large ones take rustc long
        *n <= if t.2.len() > 3000 { 1 } else { 6 }
    });
    let mut large = 0;
    accepted.retain(|t| t.2.len() <= 3000 || { large += 1; large <= 8 });
    accepted.truncate(600);
    let module = |p: &str, b: &str| Mod {
        text: format!("{p}\n::parsegen::parser! {{\n{b}\n}}\n"),
        kind: Kind::Compile,
        label: b.chars().take(120).collect::<String>().replace('\n', " "),
    };
    let mods: Vec<Mod> = accepted.iter().map(|t| module(&t.1, &t.2)).collect();
    let out = crate::batch::run(&mods, &Args::new("C16"))?;
    collect_stats(ctx, &out);
    for (i, t) in accepted.iter().enumerate() {
        if out.compiled[i] == Some(Compiled::Yes) {
            ctx.finding(Finding {
                key: t.2.clone(),
                what: format!("ill-formed input ({}) yields a parser:\n{}", t.3, t.2),
                module: Some(mods[i].clone()),
                args: vec!["expect-reject".into()],
                body: None,
            });
        }
    }
    if !ctx.findings.lock().unwrap().is_empty() {
        return Ok(());
    }
    // the real macro in rustc, on a regular selection
    let sel: Vec<Mod> =
        todo.iter().step_by(todo.len() / ctx.pick(400, 4000) + 1).map(|t| module(&t.1, &t.2)).collect();
    // inputs that are not even tokens would break the whole crate
    let sel: Vec<Mod> = sel.into_iter().filter(|m| m.text.parse::<proc_macro2::TokenStream>().is_ok()).collect();
    let out = crate::batch::run(&sel, &Args::new("C16"))?;
    collect_stats(ctx, &out);
    ctx.add("traces_validated_against_impl", sel.len() as u64);
    for (i, m) in sel.iter().enumerate() {
        if out.compiled[i] == Some(Compiled::Yes) {
            ctx.finding(Finding {
                key: m.text.clone(),
                what: format!("ill-formed input yields a parser:\n{}", m.text),
                module: Some(m.clone()),
                args: vec!["expect-reject".into()],
                body: None,
            });
        }
    }
    Ok(())
}
