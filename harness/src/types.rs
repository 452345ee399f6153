//! C18: every combination of payload and result types from a palette, under every way of declaring
//! lifetimes, bound and unbound; values (with the identity of what they point to) come out as they
//! went in.
use crate::batch::{Args, Kind, Mod};
use crate::ctx::Ctx;
use crate::layers::*;

struct Ty {
    /// Type, with `'a` and `'b` for lifetimes and `$T` for the token type.
    ty: &'static str,
    /// Expression for the value made from number `k` and the texts `sa: &'a str` and `sb: &'b str`.
    mk: &'static str,
    /// The token type itself: captured by a pattern `<T>`.
    token: bool,
}

const fn ty(ty: &'static str, mk: &'static str) -> Ty {
    Ty { ty, mk, token: false }
}

const PALETTE: &[Ty] = &[
    ty("()", "()"),
    ty("usize", "k"),
    ty("&'a str", "&sa[k % 2..]"),
    ty("&'b str", "&sb[k % 2..]"),
    ty("String", "format!(\"s{k}\")"),
    ty("fn(usize) -> usize", "if k % 2 == 0 { double as fn(usize) -> usize } else { square as fn(usize) -> usize }"),
    ty("for<'x> fn(&'x str) -> &'x str", "if k % 2 == 0 { tail as for<'x> fn(&'x str) -> &'x str } else { same as for<'x> fn(&'x str) -> &'x str }"),
    ty("Option<Vec<(usize, &'a str)>>", "if k % 3 == 0 { None } else { Some(vec![(k, sa), (1, &sa[1..])]) }"),
    Ty { ty: "$T", mk: "$M::More(k)", token: true },
    ty("Box<$T>", "Box::new($M::More(k))"),
    ty("Result<Vec<Box<$T>>, E>", "if k % 3 == 0 { Err(E(k)) } else { Ok(vec![Box::new($M::More(k)), Box::new($M::More(k + 1))]) }"),
    ty("E", "E(k)"),
    ty("R<E>", "R(E(k))"),
    ty("Cow<'a, str>", "if k % 2 == 0 { Cow::Borrowed(sa) } else { Cow::Owned(format!(\"c{k}\")) }"),
    ty("Tree<'a>", "Tree::Node(Box::new(Tree::Leaf(sa)), Box::new(Tree::Leaf(&sa[1..])))"),
    ty("&'b mut usize", "leak(k)"),
    ty("[Rc<(u8,)>; 2]", "[Rc::new((k as u8,)), Rc::new((7,))]"),
    ty("<u8 as Tr>::Out", "k as u64"),
    ty("*const u8", "sa.as_ptr()"),
    ty("&'a dyn Debug", "Box::leak(Box::new(k)) as &dyn Debug"),
    ty("Big", "Big([k as u64; 300])"),
    ty("(&'a str, &'b [u8])", "(sa, sb.as_bytes())"),
];

/// Types that look alike: each list is tried in all places together.
const TWINS: &[&[Ty]] = &[
    &[ty("ma::V", "ma::V(k)"), ty("mb::V", "mb::V(format!(\"v{k}\"))"), ty("mb::inner::V", "mb::inner::V([k, 1])")],
    &[ty("Option<u8>", "Some(k as u8)"), ty("Option<u16>", "Some(k as u16)"), ty("Option<Option<u8>>", "Some(None)")],
    &[ty("[usize; 1]", "[k]"), ty("[usize; 2]", "[k, 2]"), ty("[usize; { 1 + 2 }]", "[k, 2, 3]")],
    &[ty("[usize; TWO]", "[k, 2]"), ty("[usize; 2]", "[k, 2]"), ty("[usize; { TWO }]", "[k, 2]")],
    &[ty("(usize)", "k"), ty("usize", "k"), ty("(usize,)", "(k,)")],
    &[ty("&'a str", "&sa[k % 2..]"), ty("&'static str", "[\"s0\", \"s1\", \"s2\"][k % 3]"), ty("&'b str", "&sb[k % 2..]")],
    &[ty("Tree<'a>", "Tree::Leaf(sa)"), ty("Tree<'b>", "Tree::Leaf(sb)"), ty("Tree<'static>", "Tree::Leaf(\"st\")")],
    &[ty("*const u8", "sa.as_ptr()"), ty("*mut u8", "sa.as_ptr() as *mut u8"), ty("usize", "k")],
    &[ty("<u8 as Tr>::Out", "k as u64"), ty("<u16 as Tr>::Out", "k as isize"), ty("<u8 as Tq>::Out", "k == 1")],
    &[ty("Vec<usize>", "vec![k]"), ty("::std::vec::Vec<usize>", "vec![k, k]"), ty("std::vec::Vec<usize>", "vec![k, k, k]")],
    &[ty("fn(usize) -> usize", "double"), ty("unsafe fn(usize) -> usize", "double"), ty("extern \"C\" fn(usize) -> usize", "cdouble")],
    &[ty("&'a dyn Debug", "Box::leak(Box::new(k)) as &dyn Debug"), ty("&'a (dyn Debug + Send)", "Box::leak(Box::new(k)) as &(dyn Debug + Send)"), ty("&'b (dyn Debug + 'static)", "Box::leak(Box::new(k)) as &dyn Debug")],
    &[ty("(usize, String)", "(k, format!(\"t{k}\"))"), ty("(String, usize)", "(format!(\"t{k}\"), k)"), ty("(usize, (String))", "(k, format!(\"u{k}\"))")],
    &[ty("Result<usize, String>", "Ok(k)"), ty("Result<String, usize>", "Err(k)"), ty("std::result::Result<usize, String>", "Ok(k + 1)")],
    &[ty("Wide", "Wide(k as u8)"), ty("Option<Never>", "None"), ty("Result<Wide, Never>", "Ok(Wide(k as u8))")],
    &[ty("Nothing", "Nothing::new()"), ty("()", "()"), ty("std::marker::PhantomData<&'a str>", "PhantomData")],
    &[ty("Box<dyn std::any::Any>", "Box::new(k)"), ty("Box<str>", "format!(\"b{k}\").into()"), ty("std::pin::Pin<Box<usize>>", "Box::pin(k)")],
    &[ty("std::num::NonZeroU8", "std::num::NonZeroU8::new(k as u8 + 1).unwrap()"), ty("Option<std::num::NonZeroU8>", "std::num::NonZeroU8::new(k as u8 % 2)"), ty("std::cell::Cell<usize>", "std::cell::Cell::new(k)")],
    &[ty("Arr<1>", "Arr([k])"), ty("Arr<2>", "Arr([k, 2])"), ty("Arr<{ 1 + 2 }>", "Arr([k, 2, 3])")],
    &[ty("Flag<true>", "Flag::<true>(k)"), ty("Flag<false>", "Flag::<false>(k)"), ty("Flag", "Flag::<true>(k)")],
    &[ty("Box<dyn Tw<Out = usize>>", "Box::new(Wide(k as u8))"), ty("Box<dyn Tw<Out = String>>", "Box::new(Never2(k))"), ty("Box<dyn Tw<Out = usize> + Send>", "Box::new(Wide(k as u8))")],
    &[ty("::vref::tm!(usize)", "k"), ty("::vref::tm!(String)", "format!(\"m{k}\")"), ty("::vref::tm!((usize))", "(k, k)")],
    &[ty("r#ma::V", "ma::V(k)"), ty("self::mb::V", "mb::V(format!(\"v{k}\"))"), ty("::vref::ty::mb::inner::V", "mb::inner::V([k, 1])")],
    &[ty("Vec<((), [(); 0])>", "vec![((), []); k]"), ty("Vec<[(); 0]>", "vec![[]; k]"), ty("Vec<()>", "vec![(); k]")],
    &[ty("Box<usize>", "Box::new(k)"), ty("Rc<usize>", "Rc::new(k)"), ty("R<usize>", "R(k)")],
];

/// Index into the palette, or beyond it into the twins.
fn at(i: usize) -> &'static Ty {
    PALETTE.get(i).unwrap_or_else(|| TWINS.iter().flat_map(|t| t.iter()).nth(i - PALETTE.len()).unwrap())
}

struct Life {
    /// As declared after the token type's name.
    decl: &'static str,
    /// What `'a` and `'b` of the palette become.
    a: &'static str,
    b: &'static str,
}

const LIVES: &[Life] = &[
    Life { decl: "", a: "'static", b: "'static" },
    Life { decl: "<'a>", a: "'a", b: "'a" },
    Life { decl: "<'input>", a: "'input", b: "'static" },
    Life { decl: "<'a, 'b>", a: "'a", b: "'b" },
    Life { decl: "<'y, 'a,>", a: "'a", b: "'y" },
    Life { decl: "<'p, 'q, 'r>", a: "'q", b: "'p" },
];

#[derive(Clone)]
struct Conf {
    ty: [usize; 3],
    life: usize,
    /// Bits 0..3: terminal i captures its payload. 3, 4: bound in A, B. 5..8: a, b, c bound in S.
    mask: u8,
    name: &'static str,
}

impl Conf {
    fn of(ty: [usize; 3], life: usize, mask: u8) -> Conf {
        Conf { ty, life, mask, name: "T" }
    }
    fn text(&self) -> String {
        let t: Vec<&str> = self.ty.iter().map(|i| at(*i).ty).collect();
        format!("{}{} types {} bound {:08b}", self.name, LIVES[self.life].decl, t.join(" ; "), self.mask)
    }
}

fn parser(k: usize, c: &Conf) -> (String, String) {
    let l = &LIVES[c.life];
    let bit = |i: usize| c.mask >> i & 1 == 1;
    let token_ty = format!("{}{}", c.name, l.decl);
    let sub = |s: &str| {
        s.replace("'a", "\u{1}")
            .replace("'b", l.b)
            .replace('\u{1}', l.a)
            .replace("$T", &token_ty)
            .replace("$M", c.name)
    };
    let tys: Vec<String> = c.ty.iter().map(|i| sub(at(*i).ty)).collect();
    let mks: Vec<String> = c.ty.iter().map(|i| sub(at(*i).mk)).collect();
    // the token type itself can be captured by one terminal only, the last
    let whole = (0..3).find(|i| at(c.ty[*i]).token);
    let captured = |i: usize| bit(i) && (!at(c.ty[i]).token || whole == Some(i));
    let lts: Vec<&str> = l.decl.trim_matches(|c| c == '<' || c == '>').split(',').map(|s| s.trim()).filter(|s| !s.is_empty()).collect();
    let marks: Vec<String> = lts.iter().map(|l| format!("PhantomData<&{l} ()>")).collect();
    let mut s = format!(
        "mod l{k} {{ use ::vref::ty::*; use std::borrow::Cow; use std::fmt::Debug; use std::marker::PhantomData; use std::rc::Rc;\n\
         #[derive(Debug)] pub enum {}{} {{ {} Sep, More(usize), Mark({}) }}\n\
         impl{d} Show for {}{} {{ fn show(&self) -> String {{ match self {{ Self::More(k) => format!(\"More {{k}}\"), _ => \"?\".into() }} }} }}\n",
        c.name,
        l.decl,
        (0..3)
            .map(|i| if at(c.ty[i]).token { String::new() } else { format!("P{i}({}), ", tys[i]) })
            .collect::<String>(),
        marks.join(", "),
        c.name,
        l.decl,
        d = l.decl,
    );
    let mut pats: Vec<String> = vec![];
    for i in 0..3 {
        if !at(c.ty[i]).token {
            let p = if captured(i) { format!("<{}>", tys[i]) } else { "_".into() };
            pats.push(format!("\"p{i}\" => {}::P{i}({p})", c.name));
        }
    }
    pats.push(format!("\"sep\" => {}::Sep", c.name));
    if !lts.is_empty() {
        pats.push(format!("\"mark\" => {}::Mark(..)", c.name));
    } else {
        pats.push(format!("\"mark\" => {}::Mark()", c.name));
    }
    match whole {
        Some(w) => {
            // a second terminal of that type never occurs
            for i in 0..3 {
                if at(c.ty[i]).token && i != w {
                    pats.push(format!("\"p{i}\" => {}::More(7{i})", c.name));
                }
            }
            pats.push(if captured(w) { format!("\"p{w}\" => <{}>", tys[w]) } else { format!("\"p{w}\" => _") });
        }
        None => pats.push(format!("\"more\" => {}::More(..)", c.name)),
    }
    let stat = "let sa: &'static str = \"made\"; let sb: &'static str = \"here\";";
    let nt = |i: usize| {
        let bound = bit(3 + i) && captured(i);
        if bound {
            format!("<x: \"p{i}\"> => x")
        } else if bit(3 + i) {
            // the terminal has no value: bound to ()
            format!("<x: \"p{i}\"> => {{ let () = x; let k = {}usize; {stat} {} }}", 40 + i, mks[i])
        } else {
            format!("\"p{i}\" => {{ let k = {}usize; {stat} {} }}", 40 + i, mks[i])
        }
    };
    let sym = |b: bool, n: &str, s: &str| if b { format!("<{n}: {s}>") } else { s.to_string() };
    let mut act = String::from("{ ");
    if bit(5) {
        act.push_str("log(\"a\", &a); ");
    }
    if bit(6) {
        act.push_str("log(\"b\", &b); ");
    }
    let third = bit(7) && captured(2);
    if third {
        act.push_str("c }");
    } else {
        act.push_str(&format!("let k = 42usize; {stat} {} }}", mks[2]));
    }
    s.push_str(&format!(
        "::parsegen::parser! {{ enum {token_ty} {{ {} }}\n\
         pub A: {} = {{ {} }};\nB: {} = {{ {}, \"mark\" => {{ let k = 41usize; {stat} {} }} }};\n\
         pub S: {} = {{ {} \"sep\" {} {} => {act} }};\n\
         pub N: usize = {{ => 0, <n: N> \"sep\" => n + 1 }}; }}\n",
        pats.join(",\n"),
        tys[0],
        nt(0),
        tys[1],
        nt(1),
        mks[1],
        tys[2],
        sym(bit(5), "a", "A"),
        sym(bit(6), "b", "B"),
        sym(bit(7), "c", "\"p2\""),
    ));
    // the test: `'a` and `'b` are the lifetimes of local buffers, where not 'static
    let (ba, bb) = (l.a != "'static", l.b != "'static");
    let buf = |b: bool, v: &str| {
        if b {
            format!("let buf_{v} = String::from(\"buf {v}\"); let s{v}: &str = &buf_{v};")
        } else {
            format!("let s{v}: &'static str = \"static {v}\";")
        }
    };
    let tok = |i: usize| {
        if at(c.ty[i]).token {
            if whole == Some(i) {
                format!("{}::More(v{i}k)", c.name)
            } else {
                format!("{}::More(7{i})", c.name)
            }
        } else {
            format!("{}::P{i}(v{i})", c.name)
        }
    };
    let mut t = String::new();
    let mut decl = String::new();
    for i in 0..3 {
        if at(c.ty[i]).token {
            decl.push_str(&format!("let v{i}k = k; let w{i} = format!(\"More {{k}}\"); "));
        } else {
            decl.push_str(&format!("let v{i}: {} = {}; let w{i} = v{i}.show(); ", 
                at(c.ty[i]).ty.replace("'a", "'_").replace("'b", "'_").replace("$T", c.name), mks[i]));
        }
        let flows = match i {
            2 => third,
            _ => bit(3 + i) && captured(i),
        };
        if !flows {
            // made by the action
            decl.push_str(&format!(
                "let w{i} = {{ let k = {}usize; {stat} let v: {} = {}; v.show() }}; ",
                40 + i,
                at(c.ty[i]).ty.replace("'a", "'static").replace("'b", "'static").replace("$T", c.name),
                mks[i]
            ));
        }
        decl.push_str(&format!("let n{i} = {}; ", if flows { "|s: String| s" } else { "|s: String| strip(&s)" }));
    }
    let d = c.text();
    t.push_str(&format!(
        "pub fn check(r: &mut ::vref::drive::Report) {{ for k in 0..3usize {{ {} {} {{ let keep: Vec<String>;\n\
         {{ {decl}\n\
         let want_log: Vec<String> = vec![{}];\n\
         let stream = vec![{}, {}::Sep, {}, {}];\n\
         let mut res = None;\n\
         r.run({d:?}, \"ok\", || {{ let _ = logged(); match S::parse(stream.into_iter().map(Ok::<_, String>)) {{ Ok(v) => {{ res = Some(v); \"ok\".into() }}, Err(_) => \"error\".into() }} }});\n\
         if let Some(v) = res {{ r.eq({d:?}, &n2(v.show()), &n2(w2)); }}\n\
         let got: Vec<String> = logged(); let got: Vec<String> = got.into_iter().map(|s| if s.starts_with('a') {{ n0(s) }} else {{ n1(s) }}).collect();\n\
         r.eq({d:?}, &got.join(\"; \"), &want_log.join(\"; \")); keep = got; }}\n\
         {{ {decl}\n\
         match A::parse(std::iter::once(Ok::<_, &u8>({}))) {{ Ok(v) => r.eq({d:?}, &n0(v.show()), &n0(w0)), Err(_) => r.eq({d:?}, \"error\", \"ok\") }} }}\n\
         }} }} }}\n}}\n",
        buf(ba, "a"),
        buf(bb, "b"),
        [(5, "a", 0), (6, "b", 1)]
            .iter()
            .filter(|x| bit(x.0))
            .map(|x| format!("format!(\"{}={{}}\", n{}(w{}))", x.1, x.2, x.2))
            .collect::<Vec<_>>()
            .join(", "),
        tok(0),
        c.name,
        tok(1),
        tok(2),
        tok(0),
    ));
    s.push_str(&t);
    (s, format!("l{k}::check(r);\n"))
}

fn pack(confs: &[Conf], per: usize) -> Vec<Mod> {
    confs
        .chunks(per)
        .map(|cs| {
            let mut text = String::new();
            let mut calls = String::new();
            for (k, c) in cs.iter().enumerate() {
                let (m, call) = parser(k, c);
                text.push_str(&m);
                calls.push_str(&call);
            }
            Mod {
                text: format!("{text}pub fn check(r: &mut ::vref::drive::Report) {{ {calls} }}\n"),
                kind: Kind::Custom,
                label: cs.iter().map(|c| c.text()).collect::<Vec<_>>().join(" | "),
            }
        })
        .collect()
}

/// `$crate::Same` of two crates, written by macros of both, next to plain paths; binders that differ
/// in nothing but the macro they come from.
fn hygiene() -> String {
    // (type, constructor, value)
    let tys = [("$a $b $c", "::vref::Same", 1), ("$crate::Same", "crate::Same", 2), ("::vref::Same", "::vref::Same", 3), ("crate::Same", "crate::Same", 4), ("vref::Same", "vref::Same", 5), ("self::vref::Same", "vref::Same", 6)];
    let mut text = String::from("#[derive(Debug)] pub enum T { A(u32), B(u32) }\npub mod vref { #[derive(Debug)] pub struct Same(pub u64); }\n");
    let mut calls = String::new();
    for (i, p) in tys.iter().enumerate() {
        for (j, q) in tys.iter().enumerate() {
            text.push_str(&format!(
                "pub mod h{i}{j} {{ use super::*; macro_rules! go {{ ($a:tt $b:tt $c:tt) => {{ PARSER {{
                 enum T {{ \"a\" => T::A(<u32>), \"b\" => T::B(<u32>) }}
                 pub S: (u32, u32) = {{ <x: P> <y: Q> => (x.0 as u32, y.0 as u32), <q: Q> => (0, q.0 as u32) }};
                 P: {} = {{ \"a\" => {}({}) }};
                 Q: {} = {{ \"b\" => {}({}), <q: Q> \"a\" => q }};
                 }} }} }} ::vref::hand_over!{{ go }} }}\n",
                p.0, p.1, p.2, q.0, q.1, q.2 + 10,
            ));
            calls.push_str(&format!(
                "r.eq(\"types {i} {j}\", &format!(\"{{:?}}\", h{i}{j}::S::parse(vec![T::A(0), T::B(0), T::A(0)].into_iter().map(Ok::<_, ()>)).ok()), \"Some(({}, {}))\");\n",
                p.2, q.2 + 10,
            ));
        }
    }
    // all binders are called x: of the inner macro, of the outer one, and of nobody
    text.push_str(
        "macro_rules! inner { ($y:ident $z:ident) => { PARSER { enum T { \"a\" => T::A(<u32>), \"b\" => T::B(<u32>) }
         pub S: u32 = { <x: \"a\"> <$y: \"b\"> <mut $z: \"b\"> => { $z += 1000; $y * 10 + x + $z }, <x: S> <mut $y: \"a\"> => { $y += 1; x * $y } }; } } }
         macro_rules! outer { ($z:ident) => { inner! { x $z } } }
         pub mod hb { use super::*; outer! { x } }\n",
    );
    calls.push_str("r.eq(\"binders\", &format!(\"{:?}\", hb::S::parse(vec![T::A(1), T::B(2), T::B(300), T::A(1)].into_iter().map(Ok::<_, ()>)).ok()), \"Some(2642)\");\n");
    format!("{text}pub fn check(r: &mut ::vref::drive::Report) {{ {calls} }}\n")
}

/// Modules that only need to compile and pass, each about one way of using the generated code.
fn uses() -> Vec<Mod> {
    let m = |label: &str, text: &str| Mod {
        text: text.replace("PARSER", "::parsegen::parser!"),
        kind: Kind::Custom,
        label: label.into(),
    };
    let mut out = vec![
        m(
            "the result outlives data it does not borrow from",
            "#[derive(Debug)] pub enum T<'a, 'b> { A(&'a str), B(&'b str) }
             PARSER { enum T<'a, 'b> { \"a\" => T::A(<&'a str>), \"b\" => T::B(<&'b str>) }
             pub S: &'a str = { <x: \"a\"> <y: \"b\"> => { let _: &'b str = y; x }, <x: \"b\"> <y: \"a\"> => y }; 
             pub U: (&'b str, Vec<&'a str>) = { <y: \"b\"> => (y, vec![]), <mut u: U> <x: \"a\"> => { u.1.push(x); u } }; }
             pub fn check(r: &mut ::vref::drive::Report) {
               let a = String::from(\"aaa\");
               let (mut s, mut u) = (\"\", vec![]);
               { let b = String::from(\"bbb\");
                 s = S::parse(vec![T::A(&a), T::B(&b)].into_iter().map(Ok::<_, ()>)).unwrap_or(\"\");
                 u = U::parse(vec![T::B(&b), T::A(&a), T::A(&a[1..])].into_iter().map(Ok::<_, ()>)).map(|u| u.1).unwrap_or(vec![]); }
               r.eq(\"S\", s, \"aaa\"); r.eq(\"U\", &u.join(\" \"), \"aaa aa\");
             }\n",
        ),
        m("types of two crates under the same path, binders of two macros with the same name", &hygiene()),
        m(
            "the result outlives the iterator and the error",
            "#[derive(Debug)] pub enum T<'a> { A(&'a str) }
             PARSER { enum T<'a> { \"a\" => T::A(<&'a str>) }
             pub S: Vec<&'a str> = { => vec![], <mut v: S> <x: \"a\"> => { v.push(x); v } }; }
             pub fn parse<'t>(t: &'t str) -> Vec<&'t str> {
               let sep = String::from(\" \");
               let err = String::from(\"e\");
               let e: &str = &err;
               let it = t.split(sep.as_str()).map(|w| if w == \"!\" { Err(e) } else { Ok(T::A(w)) });
               match S::parse(it) { Ok(v) => v, Err(ParseError::LexerError(e2)) => { assert!(std::ptr::eq(e, e2)); vec![] } Err(_) => vec![] }
             }
             pub fn check(r: &mut ::vref::drive::Report) {
               let t = String::from(\"a bb c\");
               r.eq(\"ok\", &parse(&t).join(\"/\"), \"a/bb/c\");
               r.eq(\"err\", &parse(\"a ! c\").join(\"/\"), \"\");
             }\n",
        ),
        m(
            "token sources of all kinds, errors of all kinds",
            "#[derive(Debug, Clone, Copy, PartialEq)] pub enum T { A(u8), B }
             PARSER { enum T { \"a\" => T::A(<u8>), \"b\" => T::B }
             pub S: u32 = { => 0, <v: S> <x: \"a\"> => v * 10 + x as u32 }; }
             #[derive(Clone, PartialEq)] pub struct NoDebug(Box<dyn_free::F>);
             mod dyn_free { #[derive(Clone, PartialEq)] pub struct F(pub u8); }
             pub fn check(r: &mut ::vref::drive::Report) {
               let ts = [T::A(1), T::A(2)];
               let mut it = ts.iter().map(|t| Ok::<T, ()>(*t));
               r.eq(\"by reference\", &format!(\"{:?}\", S::parse(&mut it)), \"Ok(12)\");
               r.eq(\"exhausted\", &format!(\"{:?}\", S::parse(&mut it)), \"Ok(0)\");
               let b: Box<dyn Iterator<Item = Result<T, String>>> = Box::new(ts.iter().map(|t| Ok(*t)));
               r.eq(\"boxed\", &format!(\"{:?}\", S::parse(b)), \"Ok(12)\");
               let mut n = 0;
               let e = S::parse(std::iter::from_fn(|| { n += 1; if n < 3 { Some(Ok(T::A(n))) } else { Some(Err(NoDebug(Box::new(dyn_free::F(n))))) } }));
               r.eq(\"error type without Debug\", match e { Err(ParseError::LexerError(e)) if e.0.0 == 3 => \"3\", _ => \"?\" }, \"3\");
               let e: Result<u32, ParseError<std::convert::Infallible>> = S::parse(std::iter::empty());
               r.eq(\"no error\", &format!(\"{e:?}\"), \"Ok(0)\");
               let (f, x): (&'static str, &'static str) = match S::parse(vec![Ok::<T, ()>(T::B)].into_iter()) { Err(ParseError::ParserError { found, expected }) => (found, expected), _ => (\"\", \"\") };
               r.eq(\"message outlives everything\", f, \"b\"); r.eq(\"expected\", x, \"a\");
               let e1: ParseError<u8> = ParseError::LexerError(1); 
               r.eq(\"errors compare\", &format!(\"{} {} {:?}\", e1.clone() == e1, e1 == ParseError::LexerError(2), e1), \"true false LexerError(1)\");
               let f: fn(std::vec::IntoIter<Result<T, u8>>) -> Result<u32, ParseError<u8>> = S::parse;
               r.eq(\"as a function pointer\", &format!(\"{:?}\", f(vec![Ok(T::A(4))].into_iter())), \"Ok(4)\");
             }\n",
        ),
        m(
            "no terminals",
            "#[derive(Debug)] pub enum T {}
             PARSER { enum T {}
             pub S: u8 = { => 7 }; pub U: (u8, u8) = <a: S> <b: S> => (a, b + 1), }
             pub fn check(r: &mut ::vref::drive::Report) {
               r.eq(\"S\", &format!(\"{:?}\", S::parse(std::iter::empty::<Result<T, ()>>())), \"Ok(7)\");
               r.eq(\"U\", &format!(\"{:?}\", U::parse(std::iter::empty::<Result<T, ()>>())), \"Ok((7, 8))\");
               r.eq(\"lexer error\", &format!(\"{:?}\", U::parse(std::iter::once::<Result<T, u8>>(Err(3)))), \"Err(LexerError(3))\");
             }\n",
        ),
        m(
            "two parsers in one crate, in a function body, and one entry point used by another's action",
            "pub mod inner { #[derive(Debug)] pub enum T { N(u32) } PARSER { enum T { \"n\" => T::N(<u32>) } pub S: u32 = { => 0, <s: S> <n: \"n\"> => s + n }; } }
             #[derive(Debug)] pub enum T { G(Vec<u32>) }
             PARSER { enum T { \"g\" => T::G(<Vec<u32>>) }
             pub S: Result<u32, inner::ParseError<()>> = { => Ok(1), <s: S> <g: \"g\"> => { s.and_then(|s| inner::S::parse(g.into_iter().map(|n| Ok(inner::T::N(n)))).map(|x| s * x)) } }; }
             pub fn check(r: &mut ::vref::drive::Report) {
               r.eq(\"nested\", &format!(\"{:?}\", S::parse(vec![T::G(vec![1, 2]), T::G(vec![3, 4])].into_iter().map(Ok::<_, u8>))), \"Ok(Ok(21))\");
               fn local() -> String {
                 #[derive(Debug)] pub enum T { N(u32) }
                 PARSER { enum T { \"n\" => T::N(<u32>) } pub S: u32 = <n: \"n\"> => n + 1, }
                 format!(\"{:?}\", S::parse(vec![Ok::<_, ()>(T::N(4))].into_iter()))
               }
               r.eq(\"in a function\", &local(), \"Ok(5)\");
             }\n",
        ),
        m(
            "actions that name items, call functions, use closures, labels, constants and macros of the module",
            "#[derive(Debug)] pub enum T { N(i64), C }
             const BASE: i64 = 10; static START: i64 = 5; fn add(a: i64, b: i64) -> i64 { a + b } macro_rules! twice { ($e:expr) => { $e * 2 } }
             PARSER { enum T { \"n\" => T::N(<i64>), \",\" => T::C }
             pub S: i64 = { => START, <s: S> <n: \"n\"> => add(s * BASE, n), <s: S> \",\" => 'out: { let mut i = 0; let f = |x: i64| x + s; loop { i += 1; if i > 3 { break 'out twice!(f(i)); } } } };
             pub M: Vec<i64> = <n: \"n\"> => match n { 0 => Vec::new(), 1..=9 => vec![n; 2], _ => (0..n).filter(|x| x % 7 == 0).collect() },
             pub I: bool = <n: \"n\"> => if n > 3 { true } else { n == 1 },
             pub U: () = \"n\" => {},
             pub W: i64 = <n: \"n\"> => unsafe { *(&n as *const i64) },
             pub Q: Option<i64> = <n: \"n\"> => (|| { let x = if n > 0 { Some(n) } else { None }?; Some(x + 1) })(), }
             pub fn check(r: &mut ::vref::drive::Report) {
               let t = |v: Vec<i64>| v.into_iter().map(|n| Ok::<T, ()>(if n < 0 { T::C } else { T::N(n) }));
               r.eq(\"S\", &format!(\"{:?}\", S::parse(t(vec![1, -1, 3]))), \"Ok(1103)\");
               r.eq(\"M\", &format!(\"{:?} {:?} {:?}\", M::parse(t(vec![0])), M::parse(t(vec![2])), M::parse(t(vec![15]))), \"Ok([]) Ok([2, 2]) Ok([0, 7, 14])\");
               r.eq(\"I\", &format!(\"{:?} {:?}\", I::parse(t(vec![0])), I::parse(t(vec![5]))), \"Ok(false) Ok(true)\");
               r.eq(\"U\", &format!(\"{:?}\", U::parse(t(vec![0]))), \"Ok(())\");
               r.eq(\"W\", &format!(\"{:?}\", W::parse(t(vec![8]))), \"Ok(8)\");
               r.eq(\"Q\", &format!(\"{:?} {:?}\", Q::parse(t(vec![8])), Q::parse(t(vec![0]))), \"Ok(Some(9)) Ok(None)\");
             }\n",
        ),
    ];
    // names of the standard prelude that mean something else where the macro is used, or are the names
    // of public non-terminals
    for name in ["Result", "Option", "Vec", "Iterator", "Clone", "Copy", "Debug", "String", "Box", "Default", "Fn", "FnOnce", "Send", "Sized", "PhantomData", "From", "Into", "core", "alloc"] {
        let uses = "::core::result::Result::<_, ()>::Ok";
        for (kind, item) in [
            ("type", format!("pub type {name} = u8;")),
            ("generic alias", format!("pub type {name}<T> = ::core::result::Result<T, ()>;")),
            ("struct", format!("#[derive(::core::fmt::Debug)] pub struct {name}<A, B, C>(A, B, C);")),
            ("trait", format!("pub trait {name} {{ fn next(&self) {{}} fn clone(&self) {{}} fn unwrap(&self) {{}} fn push(&self) {{}} }}")),
            ("module", format!("pub mod {name} {{ pub struct Vec; }}")),
            ("non-terminal", String::new()),
        ] {
            if kind == "type" && name.starts_with(|c: char| c.is_lowercase()) {
                continue;
            }
            let nt = if item.is_empty() { name } else { "S" };
            out.push(m(
                &format!("{name} is a {kind}"),
                &format!(
                    "pub mod inner {{ {item}
                     pub enum T<'a> {{ A(&'a str), B }}
                     PARSER {{ enum T<'a> {{ \"a\" => T::A(<&'a str>), \"b\" => T::B }}
                     pub {nt}: usize = {{ => 0, <s: {nt}> <x: \"a\"> => s * 10 + x.len(), <y: M> => y.len() }}; M: &'a str = {{ \"b\" <x: \"a\"> => x }};  }} }}
                     pub fn check(r: &mut ::vref::drive::Report) {{
                       let p = |v: &[&'static str]| {{ match inner::{nt}::parse(v.iter().map(|x| {uses}(if *x == \"\" {{ inner::T::B }} else {{ inner::T::A(x) }}))) {{ Ok(n) => n.to_string(), Err(inner::ParseError::ParserError {{ found, expected }}) => format!(\"{{found}} not {{expected}}\"), Err(inner::ParseError::LexerError(())) => \"lexer\".into() }} }};
                       r.eq(\"ab\", &p(&[\"a\", \"bb\"]), \"12\"); r.eq(\"b\", &p(&[\"\", \"xyz\"]), \"3\"); r.eq(\"error\", &p(&[\"a\", \"\"]), \"b not a\"); }}\n"
                ),
            ));
        }
    }
    // macros of the standard prelude that mean something else where the macro is used
    let body = "pub enum T<'a> { A(&'a str), B }
         PARSER { enum T<'a> { \"a\" => T::A(<&'a str>), \"b\" => T::B }
         pub S: usize = { => 0, <s: S> <x: \"a\"> => s * 10 + x.len(), <y: M> => y.len() }; M: &'a str = { \"b\" <x: \"a\"> => x };  }";
    for name in ["vec", "panic", "unreachable", "assert", "assert_eq", "debug_assert", "format", "matches", "todo", "unimplemented", "write", "println", "concat", "stringify", "dbg"] {
        let mac = format!("macro_rules! {name} {{ ($($t:tt)*) => {{ compile_error!(\"not the one you want\") }} }}");
        for (kind, text) in [
            ("defined before", format!("{mac} {body}")),
            ("defined outside", format!("{mac} pub mod m {{ {body} }} pub use m::*;")),
            ("imported", format!("pub mod m {{ pub mod x {{ {mac} pub(crate) use {name}; }} pub mod y {{ use super::x::{name}; {body} }} }} pub use m::y::*;")),
        ] {
            out.push(m(
                &format!("macro {name} {kind}"),
                &format!(
                    "pub mod inner {{ #![allow(unused_macros, unused_imports)] {text} }}
                     pub fn check(r: &mut ::vref::drive::Report) {{
                       let p = |v: &[&'static str]| {{ match inner::S::parse(v.iter().map(|x| Ok::<_, ()>(if *x == \"\" {{ inner::T::B }} else {{ inner::T::A(x) }}))) {{ Ok(n) => n.to_string(), Err(inner::ParseError::ParserError {{ found, expected }}) => [found, expected].join(\" not \"), Err(inner::ParseError::LexerError(())) => \"lexer\".into() }} }};
                       r.eq(\"ab\", &p(&[\"a\", \"bb\"]), \"12\"); r.eq(\"b\", &p(&[\"\", \"xyz\"]), \"3\"); r.eq(\"error\", &p(&[\"a\", \"\"]), \"b not a\"); }}\n"
                ),
            ));
        }
    }
    // token variants named like those of the prelude, in scope by a glob import; a raw token type name
    for (name, vars) in [("T", ["None", "Some", "Ok", "Err"]), ("r#match", ["Some", "None", "Err", "Ok"]), ("r#type", ["r#fn", "Vec", "Option", "Result"]), ("S1", ["Shift", "Reduce", "Accept", "LexerError"])] {
        let [v0, v1, v2, v3] = vars;
        out.push(m(
            &format!("token type {name} with variants {vars:?} in scope"),
            &format!(
                "pub mod toks {{ #[derive(Debug)] pub enum {name}<'a> {{ {v0}(&'a str), {v1}, {v2}(u32, u32), {v3} }} }}
                 mod p {{ use super::toks::{name}; use super::toks::{name}::*;
                 PARSER {{ enum {name}<'t> {{ \"a\" => {v0}(<&'t str>), \"b\" => {v1}, \"c\" => {v2}(_, <u32>), \"d\" => {v3} }}
                 pub S: usize = {{ => 0, <s: S> <x: \"a\"> \"b\" => s * 10 + x.len(), <s: S> <n: \"c\"> \"d\" => s * 10 + n as usize }};
                 pub L: &'t str = <x: \"a\"> => x, }} }}
                 pub fn check(r: &mut ::vref::drive::Report) {{ use toks::{name} as K;
                   let p = |v: Vec<K<'static>>| match p::S::parse(v.into_iter().map(::core::result::Result::Ok::<_, ()>)) {{ ::core::result::Result::Ok(n) => n.to_string(), ::core::result::Result::Err(e) => format!(\"{{e:?}}\") }};
                   r.eq(\"abcd\", &p(vec![K::{v0}(\"xy\"), K::{v1}, K::{v2}(1, 3), K::{v3}]), \"23\");
                   r.eq(\"ad\", &p(vec![K::{v0}(\"xy\"), K::{v3}]), \"ParserError {{ found: \\\"d\\\", expected: \\\"b\\\" }}\");
                   r.eq(\"a\", &p(vec![K::{v0}(\"xy\")]), \"ParserError {{ found: \\\"end-of-input\\\", expected: \\\"b\\\" }}\");
                   r.eq(\"b\", &p(vec![K::{v1}]), \"ParserError {{ found: \\\"b\\\", expected: \\\"a, c\\\" }}\"); }}\n"
            ),
        ));
    }
    // many captures in one pattern
    for n in [1usize, 2, 3, 8, 12, 13, 20] {
        let tys: Vec<String> = (0..n).map(|i| ["u8", "&'a str", "bool", "Vec<u8>"][i % 4].to_string()).collect();
        let caps: Vec<String> = tys.iter().map(|t| format!("<{t}>")).collect();
        let vals: Vec<String> = (0..n).map(|i| [format!("{i}"), format!("&s[{}..]", i % 3), format!("{}", i % 3 == 0), format!("vec![{i}]")][i % 4].clone()).collect();
        let names: Vec<String> = (0..n).map(|i| format!("x{i}")).collect();
        let fmt = vec!["{:?}"; n].join(" ");
        let args = names.join(", ");
        let comma = if n == 1 { "" } else { "" };
        out.push(m(
            &format!("a token with {n} captured parts"),
            &format!(
                "#[derive(Debug)] pub enum T<'a> {{ A({}), Z(&'a u8) }}
                 PARSER {{ enum T<'a> {{ \"a\" => T::A({}), \"z\" => T::Z(_) }}
                 pub S: String = <t: \"a\"> => {{ let ({args}{comma}) = t; format!(\"{fmt}\", {args}) }}, }}
                 pub fn check(r: &mut ::vref::drive::Report) {{ let s = String::from(\"text\");
                   let got = match S::parse(std::iter::once(Ok::<_, ()>(T::A({})))) {{ Ok(s) => s, Err(_) => String::new() }};
                   r.eq(\"parts\", &got, &format!(\"{fmt}\", {})); }}\n",
                tys.join(", "),
                caps.join(", "),
                vals.join(", "),
                vals.join(", "),
            ),
        ));
    }
    out
}

pub fn c18(ctx: &Ctx) -> Result<(), String> {
    let n = PALETTE.len();
    let mut confs = vec![];
    // every triple of types; every lifetime declaration and mask in turn (thorough: every one)
    let mut i = 0usize;
    for a in 0..n {
        for b in 0..n {
            for c in 0..n {
                if ctx.thorough {
                    for life in 0..LIVES.len() {
                        let mask = if life == 3 { 255 } else { (i * 37 + 11) as u8 };
                        confs.push(Conf::of([a, b, c], life, mask));
                        i += 1;
                    }
                } else if (a + b + c) % 3 == 0 || a == b || b == c || a == c {
                    let mask = if i % 3 == 0 { 255 } else { (i * 37 + 11) as u8 };
                    confs.push(Conf::of([a, b, c], (a * 5 + b + c * 3 + i / 7) % LIVES.len(), mask));
                    i += 1;
                }
            }
        }
    }
    ctx.bound(format!(
        "{} combinations of three payload/result types from a palette of {n}{}, each under {} lifetime declarations{} with bindings in rotation",
        i,
        if ctx.thorough { "" } else { " (all pairs in any two places, all with two equal)" },
        LIVES.len(),
        if ctx.thorough { "" } else { " in rotation and" },
    ));
    // every type alone with every lifetime declaration, everything bound / nothing captured
    for t in 0..n {
        for life in 0..LIVES.len() {
            for mask in [255, 0, 0b11111000, 0b00000111, 0b10101101] {
                confs.push(Conf::of([t, t, t], life, mask));
            }
        }
    }
    // twins
    let mut base = n;
    let mut twins = 0;
    for t in TWINS {
        let m = t.len();
        for x in 0..m * m * m {
            let tys = [x % m, x / m % m, x / m / m];
            if tys == [tys[0]; 3] && tys[0] > 0 {
                continue;
            }
            let lives: Vec<usize> = if ctx.thorough { (0..LIVES.len()).collect() } else { vec![x % LIVES.len(), 3] };
            for life in lives {
                for mask in [255, 0b01010110] {
                    confs.push(Conf::of(tys.map(|y| base + y), life, mask));
                    twins += 1;
                }
            }
        }
        base += m;
    }
    ctx.bound(format!("{} sets of types that look alike, every assignment to three places: {twins} configurations", TWINS.len()));
    // every mask for some triples under every declaration
    let some: &[[usize; 3]] = ctx.pick(&[[2, 7, 8]], &[[2, 7, 8], [1, 0, 15], [9, 3, 4], [21, 21, 5]]);
    for t in some {
        for life in 0..LIVES.len() {
            for mask in 0..=255u8 {
                confs.push(Conf::of(*t, life, mask));
            }
        }
    }
    // every name for the token type
    for name in ["E", "R", "Token", "tok_3", "I", "K", "V", "S1", "Iterator", "Clone", "r#match", "input"] {
        for life in 0..LIVES.len() {
            let t = if name == "E" || name == "R" { [2, 1, 8] } else { [11, 12, 8] };
            for mask in [255, 0b11011111, 0b01011010] {
                confs.push(Conf { ty: t, life, mask, name });
                confs.push(Conf { ty: [4, 9, 2], life, mask, name });
            }
        }
    }
    ctx.bound(format!("every single type x {} lifetime declarations x 5 binding masks; all 256 masks for {} triples; 12 names of the token type", LIVES.len(), some.len()));
    ctx.add("configurations", confs.len() as u64);
    let mut mods = pack(&confs, 6);
    let u = uses();
    ctx.bound(format!("{} modules exercising token sources, error types, lifetimes of results and forms of actions", u.len()));
    for m in u.iter().chain(mods.iter().step_by(mods.len() / 6 + 1)) {
        ctx.sample(m.label.clone());
    }
    mods.extend(u);
    let mut a = Args::new("C18");
    a.per_crate = 12;
    execute(ctx, &mods, &a, true)?;
    Ok(())
}
