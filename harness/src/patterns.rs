//! C10: every token pattern up to a depth, alone and in overlapping lists, on every token value.
use crate::batch::{Args, Kind, Mod};
use crate::ctx::Ctx;
use crate::layers::*;

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    /// Enumerated atoms: type name, values (as expressions), literal/path patterns (with the index of
    /// the value each matches).
    Atom(&'static str, &'static [&'static str], &'static [(&'static str, usize)]),
    Tup(Vec<Ty>),
    Adt(&'static str, Vec<(&'static str, Shape)>),
    /// Opaque, owned, not Clone, not Copy; every instance distinct.
    Pay,
}

#[derive(Clone, Debug, PartialEq)]
enum Shape {
    Unit,
    Tuple(Vec<Ty>),
    Struct(Vec<(&'static str, Ty)>),
}

#[derive(Clone, Debug, PartialEq)]
enum Pat {
    Wild,
    Choose,
    Atom(usize),
    /// Sub-patterns before and after `..` (if any).
    Tup(Vec<Pat>, Option<Vec<Pat>>),
    /// Variant; tuple sub-patterns or fields (index, pattern) in written order; `..` given.
    Unit(usize),
    Tuple(usize, Vec<Pat>, Option<Vec<Pat>>),
    Struct(usize, Vec<(usize, Pat)>, bool),
}

#[derive(Clone, Debug, PartialEq)]
enum Val {
    Atom(usize),
    Pay,
    Tup(Vec<Val>),
    Adt(usize, Vec<Val>),
}

fn shape_types(s: &Shape) -> Vec<Ty> {
    match s {
        Shape::Unit => vec![],
        Shape::Tuple(v) => v.clone(),
        Shape::Struct(v) => v.iter().map(|x| x.1.clone()).collect(),
    }
}

fn product<T: Clone>(cols: &[Vec<T>]) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for c in cols {
        let mut next = vec![];
        for o in &out {
            for x in c {
                let mut v: Vec<T> = o.clone();
                v.push(x.clone());
                next.push(v);
            }
        }
        out = next;
    }
    out
}

fn values(t: &Ty) -> Vec<Val> {
    match t {
        Ty::Atom(_, vs, _) => (0..vs.len()).map(Val::Atom).collect(),
        Ty::Pay => vec![Val::Pay],
        Ty::Tup(ts) => product(&ts.iter().map(values).collect::<Vec<_>>()).into_iter().map(Val::Tup).collect(),
        Ty::Adt(_, vars) => {
            let mut out = vec![];
            for (i, (_, s)) in vars.iter().enumerate() {
                let cols: Vec<Vec<Val>> = shape_types(s).iter().map(values).collect();
                out.extend(product(&cols).into_iter().map(|v| Val::Adt(i, v)));
            }
            out
        }
    }
}

fn ty_name(t: &Ty) -> String {
    match t {
        Ty::Atom(n, _, _) | Ty::Adt(n, _) => n.to_string(),
        Ty::Pay => "Pay".into(),
        Ty::Tup(ts) => {
            let v: Vec<String> = ts.iter().map(|t| ty_name(t) + ",").collect();
            format!("({})", v.join(" "))
        }
    }
}

/// Rust expression; payloads are numbered in order of appearance from `pay`.
fn val_expr(t: &Ty, v: &Val, pay: &mut u32) -> String {
    match (t, v) {
        (Ty::Atom(_, vs, _), Val::Atom(i)) => vs[*i].into(),
        (Ty::Pay, Val::Pay) => {
            *pay += 1;
            format!("Pay({})", *pay - 1)
        }
        (Ty::Tup(ts), Val::Tup(vs)) => {
            let v: Vec<String> = ts.iter().zip(vs).map(|(t, v)| val_expr(t, v, pay) + ",").collect();
            format!("({})", v.join(" "))
        }
        (Ty::Adt(_, vars), Val::Adt(i, vs)) => {
            let (n, s) = &vars[*i];
            match s {
                Shape::Unit => n.to_string(),
                Shape::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().zip(vs).map(|(t, v)| val_expr(t, v, pay)).collect();
                    format!("{n}({})", v.join(", "))
                }
                Shape::Struct(fs) => {
                    let v: Vec<String> =
                        fs.iter().zip(vs).map(|((f, t), v)| format!("{f}: {}", val_expr(t, v, pay))).collect();
                    format!("{n} {{ {} }}", v.join(", "))
                }
            }
        }
        _ => unreachable!(),
    }
}

fn pat_text(t: &Ty, p: &Pat) -> String {
    let seq = |ts: &[Ty], a: &[Pat], b: &Option<Vec<Pat>>, one_tuple: bool| {
        let mut v: Vec<String> = a.iter().enumerate().map(|(i, p)| pat_text(&ts[i], p)).collect();
        if let Some(b) = b {
            v.push("..".into());
            let off = ts.len() - b.len();
            v.extend(b.iter().enumerate().map(|(i, p)| pat_text(&ts[off + i], p)));
        }
        let s = v.join(", ");
        if one_tuple && v.len() == 1 {
            s + ","
        } else {
            s
        }
    };
    match (t, p) {
        (_, Pat::Wild) => "_".into(),
        (_, Pat::Choose) => format!("<{}>", ty_name(t)),
        (Ty::Atom(_, _, ps), Pat::Atom(i)) => ps[*i].0.into(),
        (Ty::Tup(ts), Pat::Tup(a, b)) => format!("({})", seq(ts, a, b, true)),
        (Ty::Adt(_, vars), Pat::Unit(i)) => vars[*i].0.into(),
        (Ty::Adt(_, vars), Pat::Tuple(i, a, b)) => {
            let ts = shape_types(&vars[*i].1);
            format!("{}({})", vars[*i].0, seq(&ts, a, b, false))
        }
        (Ty::Adt(_, vars), Pat::Struct(i, fs, dots)) => {
            let Shape::Struct(decl) = &vars[*i].1 else { unreachable!() };
            let mut v: Vec<String> =
                fs.iter().map(|(f, p)| format!("{}: {}", decl[*f].0, pat_text(&decl[*f].1, p))).collect();
            if *dots {
                v.push("..".into());
            }
            format!("{} {{ {} }}", vars[*i].0, v.join(", "))
        }
        _ => unreachable!(),
    }
}

/// Does the value match, and which sub-expressions are captured (in written order)? `exprs` carries the
/// rendered value, since payloads are distinct.
fn matches(t: &Ty, p: &Pat, v: &Val, pay: &mut u32, caps: &mut Vec<(u32, String)>) -> bool {
    // renders even what is not captured, so that payload numbers stay aligned
    let start = *pay;
    let text = val_expr(t, v, pay);
    let end = *pay;
    let mut inner = start;
    let seq = |ts: &[Ty], vs: &[Val], a: &[Pat], b: &Option<Vec<Pat>>, inner: &mut u32, caps: &mut Vec<(u32, String)>| {
        let mut ok = true;
        let off = b.as_ref().map_or(usize::MAX, |b| ts.len() - b.len());
        for i in 0..ts.len() {
            let q = if i < a.len() {
                &a[i]
            } else if i >= off {
                &b.as_ref().unwrap()[i - off]
            } else {
                &Pat::Wild
            };
            ok &= matches(&ts[i], q, &vs[i], inner, caps);
        }
        ok
    };
    let ok = match (t, p, v) {
        (_, Pat::Wild, _) => true,
        (_, Pat::Choose, _) => {
            caps.push((start, text));
            true
        }
        (Ty::Atom(_, _, ps), Pat::Atom(i), Val::Atom(j)) => ps[*i].1 == *j,
        (Ty::Tup(ts), Pat::Tup(a, b), Val::Tup(vs)) => seq(ts, vs, a, b, &mut inner, caps),
        (Ty::Adt(..), Pat::Unit(i), Val::Adt(j, _)) => i == j,
        (Ty::Adt(_, vars), Pat::Tuple(i, a, b), Val::Adt(j, vs)) => {
            i == j && seq(&shape_types(&vars[*i].1), vs, a, b, &mut inner, caps)
        }
        (Ty::Adt(_, vars), Pat::Struct(i, fs, _), Val::Adt(j, vs)) => {
            i == j && {
                let ts = shape_types(&vars[*i].1);
                // payload numbers go by declaration, captures by written order
                let mut at = vec![];
                for (t, v) in ts.iter().zip(vs) {
                    at.push(inner);
                    val_expr(t, v, &mut inner);
                }
                let mut ok = true;
                for (f, p) in fs {
                    let mut n = at[*f];
                    ok &= matches(&ts[*f], p, &vs[*f], &mut n, caps);
                }
                ok
            }
        }
        _ => unreachable!(),
    };
    *pay = end;
    ok
}

/// All patterns for `t` with constructors nested at most `depth` deep.
fn pats(t: &Ty, depth: usize) -> Vec<Pat> {
    let mut out = vec![Pat::Choose, Pat::Wild];
    let seqs = |ts: &[Ty]| -> Vec<(Vec<Pat>, Option<Vec<Pat>>)> {
        let cols: Vec<Vec<Pat>> = ts.iter().map(|t| pats(t, depth - 1)).collect();
        let mut v: Vec<(Vec<Pat>, Option<Vec<Pat>>)> =
            product(&cols).into_iter().map(|a| (a, None)).collect();
        // `..` in every place, standing for any number of parts (none included)
        for before in 0..=ts.len() {
            for after in 0..=ts.len() - before {
                for a in product(&cols[..before]) {
                    for b in product(&cols[ts.len() - after..]) {
                        v.push((a.clone(), Some(b)));
                    }
                }
            }
        }
        v
    };
    match t {
        Ty::Pay => {}
        Ty::Atom(_, _, ps) => out.extend((0..ps.len()).map(Pat::Atom)),
        Ty::Tup(ts) if depth > 0 => out.extend(seqs(ts).into_iter().map(|(a, b)| Pat::Tup(a, b))),
        Ty::Adt(_, vars) if depth > 0 => {
            for (i, (_, s)) in vars.iter().enumerate() {
                match s {
                    Shape::Unit => out.push(Pat::Unit(i)),
                    Shape::Tuple(ts) => {
                        out.extend(seqs(ts).into_iter().map(|(a, b)| Pat::Tuple(i, a, b)))
                    }
                    Shape::Struct(fs) => {
                        // every subset of the fields in every order
                        for mask in 0..1usize << fs.len() {
                            let sub: Vec<usize> = (0..fs.len()).filter(|k| mask >> k & 1 == 1).collect();
                            for perm in crate::space::perms(sub.len()) {
                                let order: Vec<usize> = perm.iter().map(|k| sub[*k]).collect();
                                let cols: Vec<Vec<Pat>> =
                                    order.iter().map(|f| pats(&fs[*f].1, depth - 1)).collect();
                                for ps in product(&cols) {
                                    let fields: Vec<(usize, Pat)> =
                                        order.iter().copied().zip(ps).collect();
                                    if sub.len() == fs.len() {
                                        out.push(Pat::Struct(i, fields.clone(), false));
                                    }
                                    out.push(Pat::Struct(i, fields, true));
                                }
                            }
                        }
                    }
                }
            }
        }
        _ => {}
    }
    out
}

const BOOL: Ty = Ty::Atom("bool", &["false", "true"], &[("false", 0), ("true", 1)]);
const E3: Ty = Ty::Atom("E3", &["E3::X", "E3::Y", "E3::Z"], &[("E3::X", 0), ("E3::Y", 1), ("E3::Z", 2)]);
const E2: Ty = Ty::Atom("E3", &["E3::X", "E3::Y", "E3::Z"], &[("E3::Y", 1)]);
const ONE: Ty = Ty::Atom("u8", &["0", "1", "255"], &[("1", 1)]);

fn types() -> Vec<(&'static str, Ty)> {
    vec![
        ("bool", BOOL),
        ("u8", Ty::Atom("u8", &["0", "1", "2", "255"], &[("0", 0), ("1u8", 1), ("0xff", 3), ("b'\\x02'", 2), ("LIM", 3), ("u8::MAX", 3)])),
        ("i64", Ty::Atom("i64", &["-1", "0", "7", "i64::MIN"], &[("0", 1), ("7i64", 2), ("i64::MIN", 3), ("-1", 0), ("0b1_11", 2)])),
        ("char", Ty::Atom("char", &["'a'", "'\\''", "'é'", "'z'"], &[("'a'", 0), ("'\\''", 1), ("'\\u{e9}'", 2)])),
        ("str", Ty::Atom("&'static str", &["\"\"", "\"a\"", "\"é\\\"\\\\\"", "\"zz\""], &[("\"\"", 0), ("\"a\"", 1), ("r#\"é\"\\\"#", 2)])),
        ("bytes", Ty::Atom("&'static [u8; 2]", &["b\"ab\"", "b\"ba\"", "b\"\\x00\\xff\""], &[("b\"ab\"", 0), ("b\"\\x00\\xff\"", 2)])),
        ("f64", Ty::Atom("f64", &["1.5", "0.0", "-2.0"], &[("1.5", 0), ("0f64", 1), ("-2.0", 2)])),
        ("unit", Ty::Tup(vec![])),
        ("one", Ty::Tup(vec![Ty::Pay])),
        ("onebool", Ty::Tup(vec![BOOL])),
        ("oneone", Ty::Tup(vec![Ty::Tup(vec![BOOL])])),
        ("pair", Ty::Tup(vec![BOOL, E3])),
        ("paypair", Ty::Tup(vec![Ty::Pay, Ty::Pay])),
        ("triple", Ty::Tup(vec![BOOL, Ty::Pay, E2])),
        ("nest", Ty::Tup(vec![Ty::Tup(vec![BOOL, Ty::Pay]), Ty::Pay])),
        ("option", Ty::Adt("Option<Pay>", vec![("None::<Pay>", Shape::Unit), ("Some", Shape::Tuple(vec![Ty::Pay]))])),
        (
            "optopt",
            Ty::Adt(
                "Option<Option<bool>>",
                vec![
                    ("Option::<Option<bool>>::None", Shape::Unit),
                    (
                        "Option::Some",
                        Shape::Tuple(vec![Ty::Adt(
                            "Option<bool>",
                            vec![("None::<bool>", Shape::Unit), ("Some", Shape::Tuple(vec![BOOL]))],
                        )]),
                    ),
                ],
            ),
        ),
        (
            "struct",
            Ty::Adt("St", vec![("St", Shape::Struct(vec![("k", ONE), ("v", Ty::Pay)]))]),
        ),
        ("tstruct", Ty::Adt("Ts", vec![("Ts", Shape::Tuple(vec![Ty::Pay, BOOL]))])),
        ("ustruct", Ty::Adt("Us", vec![("Us", Shape::Unit)])),
        (
            "main",
            Ty::Adt(
                "Tk",
                vec![
                    ("Tk::P", Shape::Tuple(vec![Ty::Pay])),
                    ("Tk::Q", Shape::Tuple(vec![BOOL, Ty::Pay])),
                    ("Tk::R", Shape::Struct(vec![("x", BOOL), ("y", Ty::Pay)])),
                    ("Tk::U", Shape::Unit),
                    ("Tk::E", Shape::Tuple(vec![])),
                    ("Tk::S", Shape::Struct(vec![])),
                ],
            ),
        ),
        (
            "deep",
            Ty::Adt(
                "Dp",
                vec![
                    (
                        "Dp::A",
                        Shape::Tuple(vec![
                            Ty::Adt(
                                "In",
                                vec![
                                    ("In::L", Shape::Tuple(vec![Ty::Pay])),
                                    ("In::R", Shape::Struct(vec![("p", Ty::Pay)])),
                                ],
                            ),
                            Ty::Pay,
                        ]),
                    ),
                    ("Dp::B", Shape::Tuple(vec![])),
                ],
            ),
        ),
        (
            "three",
            Ty::Adt("Th", vec![("Th::A", Shape::Tuple(vec![Ty::Pay, Ty::Pay, Ty::Pay])), ("Th::B", Shape::Unit)]),
        ),
        (
            "fields",
            Ty::Adt(
                "Fs",
                vec![
                    ("Fs::A", Shape::Struct(vec![("a", Ty::Pay), ("b", Ty::Pay), ("c", Ty::Pay)])),
                    ("Fs::B", Shape::Struct(vec![("a", BOOL)])),
                ],
            ),
        ),
    ]
}

const PRELUDE: &str = "
#[derive(Debug)] pub struct Pay(u32);
#[derive(Debug, PartialEq, Eq)] pub enum E3 { X, Y, Z }
#[derive(Debug)] pub struct St { k: u8, v: Pay }
#[derive(Debug)] pub struct Ts(Pay, bool);
#[derive(Debug)] pub struct Us;
#[derive(Debug)] pub enum Tk { P(Pay), Q(bool, Pay), R { x: bool, y: Pay }, U, E(), S {} }
#[derive(Debug)] pub enum In { L(Pay), R { p: Pay } }
#[derive(Debug)] pub enum Dp { A(In, Pay), B() }
#[derive(Debug)] pub enum Th { A(Pay, Pay, Pay), B }
#[derive(Debug)] pub enum Fs { A { a: Pay, b: Pay, c: Pay }, B { a: bool } }
pub const LIM: u8 = 255;
";

struct List {
    ty: usize,
    pats: Vec<Pat>,
}

/// Adds a final `_` if some value is matched by no pattern. `None` if the last pattern given is the
/// whole story and adding would be wrong.
fn close(t: &Ty, pats: &[Pat]) -> Vec<Pat> {
    let mut v = pats.to_vec();
    let open = values(t).iter().any(|x| !v.iter().any(|p| matches(t, p, x, &mut 0, &mut vec![])));
    if open {
        v.push(Pat::Wild);
    }
    v
}

fn module(tys: &[(&str, Ty)], lists: &[List]) -> Mod {
    module_with(PRELUDE, tys, lists)
}

fn module_with(prelude: &str, tys: &[(&str, Ty)], lists: &[List]) -> Mod {
    let mut s = String::from(prelude);
    let mut calls = String::new();
    let mut label = vec![];
    for (k, l) in lists.iter().enumerate() {
        let t = &tys[l.ty].1;
        let decl: Vec<String> =
            l.pats.iter().enumerate().map(|(i, p)| format!("\"p{i}\" => {}", pat_text(t, p))).collect();
        let prods: Vec<String> =
            (0..l.pats.len()).map(|i| format!("<t: \"p{i}\"> => format!(\"p{i} {{:?}}\", t)")).collect();
        let found: Vec<String> = (0..l.pats.len()).map(|i| format!("\"p{i}\" => ()")).collect();
        s.push_str(&format!(
            "mod l{k} {{ use super::*; pub type T = {};\n::parsegen::parser! {{ enum T {{ {} }}\n\
             pub S: Vec<String> = {{ => vec![], <mut v: S> <x: X> => {{ v.push(x); v }} }};\nX: String = {{ {} }};\n\
             pub F: () = {{ => () }}; pub G: () = {{ {} }}; }}\n}}\n",
            ty_name(t),
            decl.join(", "),
            prods.join(", "),
            found.join(", "),
        ));
        let desc = decl.join(", ");
        label.push(desc.clone());
        let mut pay = 0;
        let mut vals = vec![];
        let mut wants = vec![];
        let mut idx = vec![];
        for v in values(t) {
            let start = pay;
            vals.push(val_expr(t, &v, &mut pay));
            let mut done = false;
            for (i, p) in l.pats.iter().enumerate() {
                let mut caps = vec![];
                if matches(t, p, &v, &mut start.clone(), &mut caps) {
                    let c: Vec<String> = caps.into_iter().map(|c| c.1).collect();
                    wants.push(format!("format!(\"p{i} {{:?}}\", ({}))", c.join(", ")));
                    idx.push(i);
                    done = true;
                    break;
                }
            }
            assert!(done);
        }
        // all values in one stream, then each alone; then the name under which each is reported
        let ok = "Ok::<_, ()>(x)";
        calls.push_str(&format!(
            "{{ let want: Vec<String> = vec![{}];\n\
             let idx: Vec<usize> = vec!{idx:?};\n\
             let vals = || -> Vec<l{k}::T> {{ vec![{}] }};\n\
             let show = |x: Result<Vec<String>, l{k}::ParseError<()>>| match x {{ Ok(v) => v.join(\"; \"), Err(_) => \"error\".to_string() }};\n\
             r.run({desc:?}, &want.join(\"; \"), || show(l{k}::S::parse(vals().into_iter().map(|x| {ok}))));\n\
             for i in 0..want.len() {{\n\
               r.run({desc:?}, &want[i], || show(l{k}::S::parse(vals().into_iter().skip(i).take(1).map(|x| {ok}))));\n\
               r.run({desc:?}, &format!(\"p{{}} / \", idx[i]), || match l{k}::F::parse(vals().into_iter().skip(i).take(1).map(|x| {ok})) {{ Err(l{k}::ParseError::ParserError {{ found, expected }}) => format!(\"{{found}} / {{expected}}\"), Err(_) => \"lexer\".into(), Ok(_) => \"ok\".into() }});\n\
               r.run({desc:?}, \"true\", || l{k}::G::parse(vals().into_iter().skip(i).take(1).map(|x| {ok})).is_ok().to_string());\n\
             }} }}\n",
            wants.join(", "),
            vals.join(", "),
        ));
    }
    Mod {
        text: format!("{s}pub fn check(r: &mut ::vref::drive::Report) {{\n{calls}}}\n"),
        kind: Kind::Custom,
        label: format!("token patterns {}", label.join(" | ")),
    }
}

/// Token types with n literals or variants, each with a pattern of its own.
fn many(n: usize) -> Vec<Mod> {
    fn leak(s: String) -> &'static str {
        Box::leak(s.into_boxed_str())
    }
    let vals: Vec<&'static str> = (0..n + 3).map(|i| leak(format!("{i}"))).collect();
    let lits: Vec<(&'static str, usize)> = (0..n).map(|i| (leak(format!("{i}")), i)).collect();
    let t = Ty::Atom("u16", vals.leak(), lits.leak());
    let mut pats: Vec<Pat> = (0..n).map(Pat::Atom).collect();
    pats.push(Pat::Choose);
    let a = module_with(PRELUDE, &[("u16", t)], &[List { ty: 0, pats }]);
    let mut decl = String::new();
    let mut vars = vec![];
    let mut pats = vec![];
    for i in 0..n {
        let name = leak(format!("Bg::V{i}"));
        let (d, s, p) = match i % 3 {
            0 => (format!("V{i}"), Shape::Unit, Pat::Unit(i)),
            1 => (format!("V{i}(Pay, bool)"), Shape::Tuple(vec![Ty::Pay, BOOL]), Pat::Tuple(i, vec![Pat::Choose, Pat::Wild], None)),
            _ => (format!("V{i} {{ a: Pay }}"), Shape::Struct(vec![("a", Ty::Pay)]), Pat::Struct(i, vec![(0, Pat::Choose)], false)),
        };
        decl.push_str(&format!("{d}, "));
        vars.push((name, s));
        pats.push(p);
    }
    let prelude = format!("{PRELUDE}\n#[derive(Debug)] pub enum Bg {{ {decl} }}\n");
    let rev: Vec<Pat> = pats.iter().rev().cloned().collect();
    let b = module_with(&prelude, &[("big", Ty::Adt("Bg", vars))], &[List { ty: 0, pats }, List { ty: 0, pats: rev }]);
    vec![a, b]
}

/// Patterns with many marked parts.
fn wide(n: usize) -> Mod {
    let join = |f: &dyn Fn(usize) -> String| (0..n).map(|i| f(i)).collect::<Vec<_>>().join(", ");
    // part i has type u32, (u8, u16) with its second part marked, or is not marked at all
    let ty = |i: usize| if i % 4 == 2 { "(u8, u16)".to_owned() } else { ["u32", "u64"][i % 2].to_owned() };
    let pat = |i: usize| match i % 4 {
        2 => "(_, <u16>)".to_owned(),
        3 if i % 5 == 1 => "_".to_owned(),
        _ => format!("<{}>", ty(i)),
    };
    let val = |i: usize| if i % 4 == 2 { format!("(7, {})", i * 3 + 1) } else { (i * 3 + 1).to_string() };
    let bound: Vec<usize> = (0..n).filter(|i| pat(*i) != "_").collect();
    let names: Vec<String> = bound.iter().map(|i| format!("a{i}")).collect();
    let order = |i: usize| (i * 7 + 5) % n; // n is not a multiple of 7
    let bound_o: Vec<usize> = (0..n).map(order).filter(|i| pat(*i) != "_").collect();
    let names_o: Vec<String> = bound_o.iter().map(|i| format!("a{i}")).collect();
    let list = "vec![".to_owned() + &bound.iter().map(|i| format!("a{i} as u64")).collect::<Vec<_>>().join(", ") + "]";
    let want: Vec<u64> = bound.iter().map(|i| *i as u64 * 3 + 1).collect();
    let take = |ns: &[String]| match ns {
        [one] => format!("let {one} = x;"),
        _ => format!("let ({}) = x;", ns.join(", ")),
    };
    let text = format!(
        "pub enum T {{ A({}), B {{ {} }}, C(({})), D({}) }}
         impl ::std::fmt::Debug for T {{ fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ Ok(()) }} }}
         ::parsegen::parser! {{
           enum T {{ \"a\" => T::A({}), \"b\" => T::B {{ {} }}, \"c\" => T::C(({})), \"d\" => T::D({}) }}
           pub S: Vec<u64> = {{ <x: \"a\"> => {{ {} {list} }}, <x: \"b\"> => {{ {} {list} }}, <x: \"c\"> => {{ {} {list} }}, \"d\" \"d\" <x: \"d\"> \"d\" => {{ {} {list} }}, }};
         }}
         pub fn check(r: &mut ::vref::drive::Report) {{
           let want = {:?};
           let f = |v: Vec<T>| match S::parse(v.into_iter().map(Ok::<T, ()>)) {{ Ok(v) => format!(\"{{v:?}}\"), Err(_) => \"error\".into() }};
           let d = || T::D({});
           r.run(\"tuple variant\", want, || f(vec![T::A({})]));
           r.run(\"struct variant\", want, || f(vec![T::B {{ {} }}]));
           r.run(\"tuple\", want, || f(vec![T::C(({}))]));
           r.run(\"among others\", want, || f(vec![d(), d(), d(), d()]));
         }}",
        join(&ty),
        join(&|i| format!("f{i}: {}", ty(i))),
        join(&ty) + ",",
        join(&ty),
        join(&pat),
        join(&|i| format!("f{}: {}", order(i), pat(order(i)))),
        join(&pat),
        join(&pat),
        take(&names),
        take(&names_o),
        take(&names),
        take(&names),
        format!("{want:?}"),
        join(&val),
        join(&val),
        join(&|i| format!("f{i}: {}", val(i))),
        join(&val) + ",",
    );
    Mod { text, kind: Kind::Custom, label: format!("patterns with {n} parts") }
}

pub fn c10(ctx: &Ctx) -> Result<(), String> {
    let tys = types();
    let mut lists: Vec<List> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut put = |ty: usize, ps: Vec<Pat>| {
        let t = &tys[ty].1;
        let ps = close(t, &ps);
        let key: Vec<String> = ps.iter().map(|p| pat_text(t, p)).collect();
        if seen.insert((ty, key)) {
            lists.push(List { ty, pats: ps });
        }
    };
    for (k, (name, t)) in tys.iter().enumerate() {
        // every pattern, alone (and the rest)
        let all = pats(t, 3);
        let cap = ctx.pick(1500, 20_000);
        ctx.bound(format!("token type {name} = {}: {} patterns (constructors nested up to 3, `..` anywhere, fields in any order) alone{}", ty_name(t), all.len(), if all.len() > cap { format!(", every {}th", all.len() / cap + 1) } else { String::new() }));
        ctx.add("patterns", all.len() as u64);
        for p in all.iter().step_by(all.len() / cap + 1) {
            put(k, vec![p.clone()]);
        }
        // every pair and triple over a smaller alphabet
        let small: Vec<Pat> = {
            let v = pats(t, 1);
            let n = ctx.pick(16, 40);
            v.iter().step_by(v.len() / n + 1).cloned().collect()
        };
        for p in &small {
            for q in &small {
                put(k, vec![p.clone(), q.clone()]);
            }
        }
        let tri: Vec<&Pat> = small.iter().step_by(small.len() / ctx.pick(5, 12) + 1).collect();
        ctx.bound(format!("token type {name}: every list of 2 of {} patterns, of 3 of {} patterns, closed with `_` if needed", small.len(), tri.len()));
        for p in &tri {
            for q in &tri {
                for r in &tri {
                    put(k, vec![(*p).clone(), (*q).clone(), (*r).clone()]);
                }
            }
        }
    }
    ctx.add("pattern_lists", lists.len() as u64);
    let mut mods = vec![];
    let mut cur = vec![];
    for l in lists {
        cur.push(l);
        if cur.len() == 8 {
            mods.push(module(&tys, &std::mem::take(&mut cur)));
        }
    }
    if !cur.is_empty() {
        mods.push(module(&tys, &cur));
    }
    let ns = ctx.pick(vec![70, 130, 300], vec![33, 65, 70, 129, 130, 255, 256, 257, 300, 513]);
    ctx.bound(format!("lists of {ns:?} patterns: literals with a capture of the rest, variants with and without payload (in order and reversed)"));
    for n in ns {
        mods.extend(many(n));
    }
    let ns = ctx.pick(vec![2, 3, 9, 10, 11, 12, 13, 16, 23, 40, 72, 134], (1..27).filter(|n| n % 7 != 0).chain([33, 40, 65, 72, 101, 128, 134, 256, 257, 300]).collect());
    ctx.bound(format!("patterns with {ns:?} parts, most of them marked: tuple variants, struct variants in another order, tuples"));
    for n in ns {
        mods.push(wide(n));
    }
    for m in mods.iter().step_by(mods.len() / 8 + 1) {
        ctx.sample(m.label.clone());
    }
    let mut a = Args::new("C10");
    a.per_crate = 12;
    execute(ctx, &mods, &a, true)?;
    Ok(())
}
