//! Reads the automaton out of the tokens the macro emitted. `None` whenever the output does not look
//! as expected: the model layer is then skipped for that grammar (never a verdict).
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IAct {
    Shift(usize),
    Reduce { nt: usize, n: usize, act: usize },
    Accept,
}

#[derive(Debug)]
pub struct Tables {
    pub action: Vec<Vec<Option<IAct>>>,
    pub goto: Vec<Vec<Option<usize>>>,
    pub expected: Vec<String>,
    pub terminals: Vec<String>,
    /// Semantic action index -> production id found in its body (None: not an instrumented action).
    pub prod_of: Vec<Option<u32>>,
    /// Entry name -> initial state.
    pub entries: HashMap<String, usize>,
}

type Tts = Vec<TokenTree>;

fn tts(s: TokenStream) -> Tts {
    s.into_iter().collect()
}

fn ident(t: &TokenTree) -> Option<String> {
    match t {
        TokenTree::Ident(i) => Some(i.to_string()),
        _ => None,
    }
}

fn is_punct(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}

fn group(t: &TokenTree, d: Delimiter) -> Option<Tts> {
    match t {
        TokenTree::Group(g) if g.delimiter() == d => Some(tts(g.stream())),
        _ => None,
    }
}

fn int(t: &TokenTree) -> Option<usize> {
    match t {
        TokenTree::Literal(l) => {
            let s = l.to_string();
            let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
            d.parse().ok()
        }
        _ => None,
    }
}

fn string(t: &TokenTree) -> Option<String> {
    match t {
        TokenTree::Literal(l) => {
            let s = l.to_string();
            let s = s.strip_prefix('"')?.strip_suffix('"')?;
            if s.contains('\\') {
                return syn_unescape(s);
            }
            Some(s.to_owned())
        }
        _ => None,
    }
}

fn syn_unescape(s: &str) -> Option<String> {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next()? {
            'n' => o.push('\n'),
            't' => o.push('\t'),
            'r' => o.push('\r'),
            '\\' => o.push('\\'),
            '"' => o.push('"'),
            '\'' => o.push('\''),
            '0' => o.push('\0'),
            _ => return None,
        }
    }
    Some(o)
}

fn split_commas(v: Tts) -> Vec<Tts> {
    let mut out = vec![];
    let mut cur = vec![];
    for t in v {
        if is_punct(&t, ',') {
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(t);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

/// `static NAME : ... = [ ... ] ;` or `... = { ... [ ... ] };` -> elements
fn static_array(all: &Tts, name: &str) -> Option<Vec<Tts>> {
    for i in 0..all.len() {
        if ident(&all[i]).as_deref() == Some("static")
            && all.get(i + 1).and_then(ident).as_deref() == Some(name)
        {
            let mut j = i + 2;
            while j < all.len() && !is_punct(&all[j], '=') {
                j += 1;
            }
            // the value may be the last expression of a block
            let g = match group(all.get(j + 1)?, Delimiter::Brace) {
                Some(block) => group(block.last()?, Delimiter::Bracket)?,
                None => group(all.get(j + 1)?, Delimiter::Bracket)?,
            };
            if !is_punct(all.get(j + 2)?, ';') {
                return None;
            }
            return Some(split_commas(g));
        }
    }
    None
}

fn fields(v: Tts) -> Option<HashMap<String, usize>> {
    let mut m = HashMap::new();
    for f in split_commas(v) {
        if f.len() != 3 || !is_punct(&f[1], ':') {
            return None;
        }
        m.insert(ident(&f[0])?, int(&f[2])?);
    }
    Some(m)
}

/// `None` or `Some(...)`
fn option(v: &Tts) -> Option<Option<Tts>> {
    match (v.len(), ident(&v[0])?.as_str()) {
        (1, "None") => Some(None),
        (2, "Some") => Some(Some(group(&v[1], Delimiter::Parenthesis)?)),
        _ => None,
    }
}

fn row(v: &Tts) -> Option<Vec<Tts>> {
    if v.len() != 1 {
        return None;
    }
    Some(split_commas(group(&v[0], Delimiter::Bracket)?))
}

fn find_act(v: &Tts) -> Option<u32> {
    for i in 0..v.len() {
        if let TokenTree::Group(g) = &v[i] {
            if let Some(x) = find_act(&tts(g.stream())) {
                return Some(x);
            }
        }
        if matches!(ident(&v[i]).as_deref(), Some("act") | Some("mk")) {
            if let Some(g) = v.get(i + 1).and_then(|t| group(t, Delimiter::Parenthesis)) {
                return g.first().and_then(int).map(|x| x as u32);
            }
        }
    }
    None
}

fn find_parse_generic(v: &Tts) -> Option<usize> {
    for i in 0..v.len() {
        if ident(&v[i]).as_deref() == Some("parse_generic") {
            let args = split_commas(group(v.get(i + 1)?, Delimiter::Parenthesis)?);
            if args.len() != 4 || args[2].len() != 1 {
                return None;
            }
            return int(&args[2][0]);
        }
        if let TokenTree::Group(g) = &v[i] {
            if let Some(x) = find_parse_generic(&tts(g.stream())) {
                return Some(x);
            }
        }
    }
    None
}

pub fn read(out: TokenStream) -> Option<Tables> {
    let all = tts(out);
    let mut action = vec![];
    for r in static_array(&all, "ACTION")? {
        let mut cells = vec![];
        for c in row(&r)? {
            cells.push(match option(&c)? {
                None => None,
                Some(a) => {
                    // LRAction :: X [{ .. }]
                    if a.len() < 4 {
                        return None;
                    }
                    match (ident(&a[3])?.as_str(), a.len()) {
                        ("Accept", 4) => Some(IAct::Accept),
                        ("Shift", 5) => {
                            let f = fields(group(&a[4], Delimiter::Brace)?)?;
                            Some(IAct::Shift(*f.get("next_state")?))
                        }
                        ("Reduce", 5) => {
                            let f = fields(group(&a[4], Delimiter::Brace)?)?;
                            Some(IAct::Reduce {
                                nt: *f.get("non_terminal_idx")?,
                                n: *f.get("n_symbols")?,
                                act: *f.get("semantic_action_idx")?,
                            })
                        }
                        _ => return None,
                    }
                }
            });
        }
        action.push(cells);
    }
    let mut goto = vec![];
    for r in static_array(&all, "GOTO")? {
        let mut cells = vec![];
        for c in row(&r)? {
            cells.push(match option(&c)? {
                None => None,
                Some(v) if v.len() == 1 => Some(int(&v[0])?),
                _ => return None,
            });
        }
        goto.push(cells);
    }
    let strings = |name| -> Option<Vec<String>> {
        static_array(&all, name)?
            .iter()
            .map(|v| if v.len() == 1 { string(&v[0]) } else { None })
            .collect()
    };
    let expected = strings("EXPECTED_TERMINALS")?;
    let terminals = strings("TERMINAL_STRS")?;
    let fn_names: Vec<String> = static_array(&all, "SEMANTIC_ACTIONS")?
        .iter()
        .map(|v| if v.len() == 1 { ident(&v[0]) } else { None })
        .collect::<Option<_>>()?;
    let mut bodies: HashMap<String, Option<u32>> = HashMap::new();
    let mut entries = HashMap::new();
    for i in 0..all.len() {
        match ident(&all[i]).as_deref() {
            Some("fn") => {
                let name = ident(all.get(i + 1)?)?;
                let body = all[i + 2..].iter().find_map(|t| group(t, Delimiter::Brace))?;
                bodies.insert(name, find_act(&body));
            }
            Some("impl") => {
                if let (Some(name), Some(b)) = (
                    all.get(i + 1).and_then(ident),
                    all.get(i + 2).and_then(|t| group(t, Delimiter::Brace)),
                ) {
                    if let Some(s) = find_parse_generic(&b) {
                        entries.insert(name, s);
                    }
                }
            }
            _ => {}
        }
    }
    let prod_of = fn_names.iter().map(|n| bodies.get(n).copied()).collect::<Option<Vec<_>>>()?;
    Some(Tables { action, goto, expected, terminals, prod_of, entries })
}
