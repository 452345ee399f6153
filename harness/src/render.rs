//! Presentation of a grammar as macro input.
use std::fmt::Write;
use vref::grammar::{Grammar, Sym};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bind {
    No,
    Plain,
    Mut,
}

#[derive(Clone, Debug)]
pub struct Pres {
    pub g: Grammar,
    pub nt: Vec<String>,
    pub t: Vec<String>,
    /// Result type per non-terminal: 0 = `Val`, k = `Ty<k>`.
    pub ty: Vec<usize>,
    pub bind: Vec<Vec<Bind>>,
    /// Name of the i-th symbol's binder.
    pub binder: String,
    /// Is the payload of the terminal captured?
    pub chosen: Vec<bool>,
    /// Number of items before the token enum.
    pub enum_pos: usize,
    pub nota: Nota,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Nota {
    /// Non-terminals with one production are written without braces.
    pub braceless: bool,
    /// Commas between productions left out wherever the next production does not start with `<`.
    pub no_commas: bool,
    /// No comma after the last production of a block.
    pub no_last_comma: bool,
    /// No comma after the last token.
    pub no_last_token_comma: bool,
    /// Actions as blocks.
    pub blocks: bool,
    /// `type State = ...;` 0 none, 1 first, 2 last, 3 middle
    pub state: u8,
    /// Extra whitespace and comments.
    pub noise: bool,
    /// `mut` on all binders
    pub muts: bool,
    /// Parts that are fragments of a `macro_rules!` macro around the invocation (`Pres::module` only):
    /// 1 types, 2 actions and binders, 4 literals, 8 names, 16 visibility, 32 paths of token patterns,
    /// 64 the name of the token type
    pub frags: u8,
}

pub fn nt_name(i: usize) -> String {
    format!("N{i}")
}

impl Pres {
    pub fn plain(g: &Grammar) -> Pres {
        Pres {
            nt: (0..g.n_n).map(nt_name).collect(),
            t: (0..g.n_t).map(vref::lr1::term_name).collect(),
            ty: vec![0; g.n_n],
            bind: g.prods.iter().map(|p| vec![Bind::Plain; p.rhs.len()]).collect(),
            binder: "bx".into(),
            chosen: vec![true; g.n_t],
            enum_pos: 0,
            nota: Nota::default(),
            g: g.clone(),
        }
    }

    pub fn token_type(&self) -> String {
        if self.g.n_t <= 6 {
            format!("Tok{}", self.g.n_t)
        } else {
            "TokN".into()
        }
    }

    /// Marks `text` as a fragment, if it is to be one.
    fn frag(&self, bit: u8, kind: &str, text: String) -> String {
        if self.nota.frags & bit == 0 {
            return text;
        }
        format!("\u{1}{kind}\u{2}{text}\u{3}")
    }

    fn pattern(&self, t: usize) -> String {
        let cap = if self.chosen[t] { format!("<{}>", self.frag(1, "ty", "::vref::rt::Val".into())) } else { "_".into() };
        if self.g.n_t <= 6 {
            let path = format!("Tok{}::{}", self.g.n_t, (b'A' + t as u8) as char);
            format!("{}({cap})", self.frag(32, "path", path))
        } else if t + 1 < self.g.n_t {
            format!("TokN {{ k: {t}, v: {cap} }}")
        } else {
            format!("TokN {{ k: _, v: {cap} }}")
        }
    }

    pub fn ty_name(&self, nt: usize) -> String {
        match self.ty[nt] {
            0 => "::vref::rt::Val".into(),
            k => format!("::vref::rt::Ty<{k}>"),
        }
    }

    fn capturable(&self, s: &Sym) -> bool {
        match s {
            Sym::T(t) => self.chosen[*t as usize],
            Sym::N(_) => true,
        }
    }

    /// For `vref::drive::Case::bound`.
    pub fn bound(&self) -> String {
        let v: Vec<String> = self
            .g
            .prods
            .iter()
            .zip(&self.bind)
            .map(|(p, b)| {
                p.rhs
                    .iter()
                    .zip(b)
                    .map(|(s, b)| if *b != Bind::No && self.capturable(s) { '1' } else { '0' })
                    .collect()
            })
            .collect();
        v.join("|")
    }

    /// The first one has no number, so that it can be any name.
    fn binder_name(&self, i: usize) -> String {
        if i == 0 {
            self.binder.clone()
        } else {
            format!("{}{i}", self.binder)
        }
    }

    pub fn symbols(&self, pi: usize) -> Vec<String> {
        let p = &self.g.prods[pi];
        p.rhs
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let sym = match s {
                    Sym::T(t) => self.frag(4, "literal", format!("{:?}", self.t[*t as usize])),
                    Sym::N(n) => self.frag(8, "ident", self.nt[*n as usize].clone()),
                };
                match self.bind[pi][i] {
                    Bind::No => sym,
                    b => {
                        let m = if b == Bind::Mut || self.nota.muts { "mut " } else { "" };
                        format!("<{m}{}: {sym}>", self.frag(2, "ident", self.binder_name(i)))
                    }
                }
            })
            .collect()
    }

    pub fn action(&self, pi: usize) -> String {
        let p = &self.g.prods[pi];
        let kids: Vec<String> = p
            .rhs
            .iter()
            .enumerate()
            .filter(|(i, s)| self.bind[pi][*i] != Bind::No && self.capturable(s))
            .map(|(i, _)| format!("::vref::rt::HasVal::v({})", self.binder_name(i)))
            .collect();
        let kids = kids.join(", ");
        let e = match self.ty[p.lhs as usize] {
            0 => format!("::vref::rt::act({pi}, vec![{kids}])"),
            k => format!("::vref::rt::Ty::<{k}>::mk({pi}, vec![{kids}])"),
        };
        let e = if self.nota.blocks {
            format!("{{ let value = {e}; value }}")
        } else {
            e
        };
        self.frag(2, "expr", e)
    }

    pub fn token_item(&self) -> String {
        let mut s = format!("enum {} {{\n", self.frag(64, "ident", self.token_type()));
        for t in 0..self.g.n_t {
            let comma =
                if t + 1 == self.g.n_t && self.nota.no_last_token_comma { "" } else { "," };
            if self.nota.noise {
                s.push_str("/* a token */ // one\n");
            }
            let name = self.frag(4, "literal", format!("{:?}", self.t[t]));
            writeln!(s, "  {name} => {}{comma}", self.pattern(t)).unwrap();
        }
        s.push_str("}\n");
        s
    }

    pub fn nt_item(&self, n: usize) -> String {
        let g = &self.g;
        let mut s = String::new();
        let ps: Vec<usize> = (0..g.prods.len()).filter(|i| g.prods[*i].lhs as usize == n).collect();
        if g.entries.contains(&n) {
            s.push_str(&self.frag(16, "vis", "pub".into()));
            s.push(' ');
        }
        let name = self.frag(8, "ident", self.nt[n].clone());
        write!(s, "{name}: {} = ", self.frag(1, "ty", self.ty_name(n))).unwrap();
        if self.nota.noise {
            s.push_str("/* = { } */\n\n\t");
        }
        if self.nota.braceless && ps.len() == 1 {
            let syms = self.symbols(ps[0]).join(" ");
            writeln!(s, "{syms} => {},", self.action(ps[0])).unwrap();
            return s;
        }
        s.push_str("{\n");
        for (k, &i) in ps.iter().enumerate() {
            let syms = self.symbols(i).join(if self.nota.noise { "\n /* , */ " } else { " " });
            let last = k + 1 == ps.len();
            let comma = if last {
                !self.nota.no_last_comma
            } else if self.nota.no_commas {
                let j = ps[k + 1];
                !g.prods[j].rhs.is_empty() && self.bind[j][0] != Bind::No
            } else {
                true
            };
            writeln!(s, "  {syms} => {}{}", self.action(i), if comma { "," } else { "" }).unwrap();
        }
        s.push_str("};\n");
        s
    }

    pub fn items(&self) -> Vec<String> {
        let mut items: Vec<String> = (0..self.g.n_n).map(|n| self.nt_item(n)).collect();
        items.insert(self.enum_pos.min(items.len()), self.token_item());
        match self.nota.state {
            1 => items.insert(0, "type State = Vec<(u8, String)>;\n".into()),
            2 => items.push("type State = Vec<(u8, String)>;\n".into()),
            3 => items.insert(items.len() / 2, "type State = fn(u8) -> [u8; 2];\n".into()),
            _ => {}
        }
        items
    }

    /// The text between the braces of `parser! { }`.
    pub fn body(&self) -> String {
        self.items().concat()
    }

    pub fn entry_names(&self) -> Vec<String> {
        self.g.entries.iter().map(|e| self.nt[*e].clone()).collect()
    }

    /// The invocation, through a macro of its own if there are fragments.
    fn invocation(&self) -> (String, String) {
        let body = self.body();
        if self.nota.frags == 0 {
            return (format!("::parsegen::parser! {{\n{body}}}"), String::new());
        }
        // equal parts are one fragment, used several times
        let mut params: Vec<(&str, &str)> = vec![];
        let mut inner = String::new();
        for (k, part) in body.split('\u{1}').enumerate() {
            if k == 0 {
                inner.push_str(part);
                continue;
            }
            let (kind, rest) = part.split_once('\u{2}').unwrap();
            let (text, after) = rest.split_once('\u{3}').unwrap();
            let i = params.iter().position(|p| *p == (kind, text)).unwrap_or_else(|| {
                params.push((kind, text));
                params.len() - 1
            });
            write!(inner, "$f{i}{after}").unwrap();
        }
        let decl: Vec<String> = params.iter().enumerate().map(|(i, p)| format!("$f{i}:{}", p.0)).collect();
        let args: Vec<&str> = params.iter().map(|p| p.1).collect();
        (
            format!("macro_rules! around {{ ({}) => {{ ::parsegen::parser! {{\n{inner}}} }} }}", decl.join(", ")),
            format!("around! {{ {} }}", args.join(", ")),
        )
    }

    /// Body of a module with the expansion and a `run` function for `vref::drive`.
    pub fn module(&self) -> String {
        let tt = self.token_type();
        let (macro_call, end) = self.invocation();
        let mut s = format!(
            "use ::vref::tok::{tt};\n{macro_call}\n{end}\npub fn run(e: usize, i: &[::vref::lr1::Item]) -> ::vref::rt::Raw {{\n  match e {{\n",
        );
        for (k, e) in self.g.entries.iter().enumerate() {
            writeln!(
                s,
                "    {k} => ::vref::conv!({}::parse(::vref::rt::It::<{tt}>::new(i))),",
                self.nt[*e]
            )
            .unwrap();
        }
        s.push_str("    _ => unreachable!(),\n  }\n}\n");
        s
    }
}
