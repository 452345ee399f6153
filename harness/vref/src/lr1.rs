//! Canonical LR(1) automata by the book (Aho, Sethi, Ullman 4.7), one per entry point.
use crate::grammar::{Grammar, Sym};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
}

#[derive(Debug)]
pub struct State {
    /// Terminal (n_t = end of input) -> actions, more than one if there is a conflict.
    pub actions: BTreeMap<u32, Vec<Act>>,
    pub goto: BTreeMap<u32, usize>,
}

#[derive(Debug)]
pub struct Lr1 {
    pub entry: usize,
    pub n_t: usize,
    pub states: Vec<State>,
    /// (state, terminal) with a shift/reduce conflict.
    pub sr: usize,
    /// (state, terminal) with more than one reduction, or a reduction and accept.
    pub rr: usize,
}

pub type Bits = Vec<u64>;

fn or(a: &mut Bits, b: &Bits) -> bool {
    let mut ch = false;
    for (x, y) in a.iter_mut().zip(b) {
        let n = *x | *y;
        ch |= n != *x;
        *x = n;
    }
    ch
}

fn ones(b: &Bits) -> impl Iterator<Item = u32> + '_ {
    b.iter().enumerate().flat_map(|(i, w)| {
        (0..64).filter(move |k| w >> k & 1 == 1).map(move |k| (i * 64 + k) as u32)
    })
}

pub struct First {
    pub nullable: Vec<bool>,
    pub first: Vec<Bits>,
    pub words: usize,
}

pub fn first_sets(g: &Grammar) -> First {
    let words = (g.n_t + 1 + 63) / 64;
    let nullable = g.nullable();
    let mut first: Vec<Bits> = vec![vec![0; words]; g.n_n];
    loop {
        let mut changed = false;
        for p in &g.prods {
            let mut acc: Bits = vec![0; words];
            for s in &p.rhs {
                match s {
                    Sym::T(t) => {
                        acc[*t as usize / 64] |= 1 << (t % 64);
                        break;
                    }
                    Sym::N(n) => {
                        or(&mut acc, &first[*n as usize]);
                        if !nullable[*n as usize] {
                            break;
                        }
                    }
                }
            }
            changed |= or(&mut first[p.lhs as usize], &acc);
        }
        if !changed {
            return First { nullable, first, words };
        }
    }
}

/// Item set: (production, dot) -> lookahead set. Production `prods.len()` is the augmented one.
type Items = BTreeMap<(u32, u32), Bits>;

pub struct Ctx<'g> {
    pub g: &'g Grammar,
    pub first: First,
    by_lhs: Vec<Vec<u32>>,
    aug: [Sym; 1],
}

impl<'g> Ctx<'g> {
    pub fn new(g: &'g Grammar, entry: usize) -> Ctx<'g> {
        let mut by_lhs = vec![vec![]; g.n_n];
        for (i, p) in g.prods.iter().enumerate() {
            by_lhs[p.lhs as usize].push(i as u32);
        }
        Ctx { g, first: first_sets(g), by_lhs, aug: [Sym::N(entry as u32)] }
    }

    fn rhs(&self, p: u32) -> &[Sym] {
        if p as usize == self.g.prods.len() {
            &self.aug
        } else {
            &self.g.prods[p as usize].rhs
        }
    }

    fn closure(&self, items: &mut Items) {
        let mut work: Vec<(u32, u32)> = items.keys().copied().collect();
        while let Some(it) = work.pop() {
            let rhs = self.rhs(it.0);
            if let Some(Sym::N(b)) = rhs.get(it.1 as usize) {
                let mut la: Bits = vec![0; self.first.words];
                let mut transparent = true;
                for s in &rhs[it.1 as usize + 1..] {
                    match s {
                        Sym::T(t) => {
                            la[*t as usize / 64] |= 1 << (t % 64);
                            transparent = false;
                        }
                        Sym::N(n) => {
                            or(&mut la, &self.first.first[*n as usize]);
                            transparent = self.first.nullable[*n as usize];
                        }
                    }
                    if !transparent {
                        break;
                    }
                }
                if transparent {
                    let own = items[&it].clone();
                    or(&mut la, &own);
                }
                if la.iter().all(|w| *w == 0) {
                    continue; // FIRST of the rest is empty (unproductive): no item
                }
                for &p in &self.by_lhs[*b as usize] {
                    let e = items.entry((p, 0)).or_insert_with(|| vec![0; self.first.words]);
                    if or(e, &la) {
                        work.push((p, 0));
                    }
                }
            }
        }
    }
}

pub fn build(g: &Grammar, entry: usize) -> Lr1 {
    build_capped(g, entry, usize::MAX).unwrap()
}

/// None if the automaton has more than `cap` states.
pub fn build_capped(g: &Grammar, entry: usize, cap: usize) -> Option<Lr1> {
    let cx = Ctx::new(g, entry);
    let aug = g.prods.len() as u32;
    let eof = g.n_t as u32;
    let mut init: Items = BTreeMap::new();
    let mut la: Bits = vec![0; cx.first.words];
    la[g.n_t / 64] |= 1 << (g.n_t % 64);
    init.insert((aug, 0), la);
    cx.closure(&mut init);

    let mut index: HashMap<Items, usize> = HashMap::new();
    index.insert(init.clone(), 0);
    let mut sets: Vec<Items> = vec![init];
    let mut states: Vec<State> = vec![];
    let (mut sr, mut rr) = (0, 0);
    let mut i = 0;
    while i < sets.len() {
        let mut kernels: BTreeMap<Sym, Items> = BTreeMap::new();
        let mut actions: BTreeMap<u32, Vec<Act>> = BTreeMap::new();
        for ((p, d), la) in &sets[i] {
            match cx.rhs(*p).get(*d as usize) {
                Some(s) => {
                    kernels.entry(*s).or_default().insert((*p, d + 1), la.clone());
                }
                None => {
                    for t in ones(la) {
                        let a = if *p == aug { Act::Accept } else { Act::Reduce(*p as usize) };
                        actions.entry(t).or_default().push(a);
                    }
                }
            }
        }
        let mut goto = BTreeMap::new();
        for (s, mut k) in kernels {
            cx.closure(&mut k);
            let next = match index.get(&k) {
                Some(n) => *n,
                None => {
                    let n = sets.len();
                    index.insert(k.clone(), n);
                    sets.push(k);
                    n
                }
            };
            match s {
                Sym::T(t) => actions.entry(t).or_default().insert(0, Act::Shift(next)),
                Sym::N(n) => {
                    goto.insert(n, next);
                }
            }
        }
        if sets.len() > cap {
            return None;
        }
        for a in actions.values() {
            let shifts = a.iter().filter(|a| matches!(a, Act::Shift(_))).count();
            let others = a.len() - shifts;
            sr += (shifts > 0 && others > 0) as usize;
            rr += (others > 1) as usize;
        }
        states.push(State { actions, goto });
        i += 1;
    }
    let _ = eof;
    Some(Lr1 { entry, n_t: g.n_t, states, sr, rr })
}

// ---------------------------------------------------------------------------------------------
// Reference parser

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Item {
    Tok(u32),
    Err(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Pulled {
    Tok(u32),
    Err(u32),
    Eof,
    /// The source was asked again after it had returned None or Err.
    PastEnd,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ev {
    Pull(Pulled),
    Act { prod: u32, kids: Vec<u32>, id: u32 },
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Out {
    Ok(u32),
    Syntax { found: String, expected: String },
    Lexer(u32),
    /// Only in real runs.
    Panic(String),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Run {
    pub evs: Vec<Ev>,
    pub out: Out,
}

pub const NODE0: u32 = 1 << 28;

/// How a grammar is presented to parsegen: names of terminals, which symbols are bound.
#[derive(Clone, Debug)]
pub struct View {
    pub terms: Vec<String>,
    /// Per production and symbol.
    pub bound: Vec<Vec<bool>>,
}

impl View {
    pub fn all_bound(g: &Grammar) -> View {
        View {
            terms: (0..g.n_t).map(term_name).collect(),
            bound: g.prods.iter().map(|p| vec![true; p.rhs.len()]).collect(),
        }
    }
}

pub fn term_name(t: usize) -> String {
    if t < 26 {
        ((b'a' + t as u8) as char).to_string()
    } else {
        format!("t{t}")
    }
}

impl Lr1 {
    /// The action taken, shift winning over anything else.
    pub fn action(&self, state: usize, t: u32) -> Option<Act> {
        self.states[state].actions.get(&t).map(|a| a[0])
    }

    pub fn expected(&self, state: usize) -> Vec<u32> {
        self.states[state].actions.keys().copied().filter(|t| *t < self.n_t as u32).collect()
    }

    pub fn run(&self, g: &Grammar, view: &View, input: &[Item]) -> Run {
        let mut evs = vec![];
        let mut stack = vec![0usize];
        let mut vals: Vec<u32> = vec![];
        let mut pos = 0;
        let mut next_node = NODE0;
        let eof = self.n_t as u32;
        let pull = |evs: &mut Vec<Ev>, pos: &mut usize| {
            let r = match input.get(*pos) {
                None => Pulled::Eof,
                Some(Item::Tok(t)) => Pulled::Tok(*t),
                Some(Item::Err(e)) => Pulled::Err(*e),
            };
            *pos += 1;
            evs.push(Ev::Pull(r.clone()));
            r
        };
        let mut la = pull(&mut evs, &mut pos);
        let mut steps = 0usize;
        let out = loop {
            steps += 1;
            if steps > 100_000 + 1000 * input.len() {
                break Out::Panic("the canonical machine diverges".into());
            }
            let s = *stack.last().unwrap();
            let t = match la {
                Pulled::Tok(t) => t,
                Pulled::Err(e) => break Out::Lexer(e),
                _ => eof,
            };
            match self.action(s, t) {
                None => {
                    let found = if t == eof {
                        "end-of-input".to_owned()
                    } else {
                        view.terms[t as usize].clone()
                    };
                    let expected: Vec<&str> = self
                        .expected(s)
                        .into_iter()
                        .map(|t| view.terms[t as usize].as_str())
                        .collect();
                    break Out::Syntax { found, expected: expected.join(", ") };
                }
                Some(Act::Shift(n)) => {
                    stack.push(n);
                    vals.push(pos as u32 - 1);
                    la = pull(&mut evs, &mut pos);
                }
                Some(Act::Reduce(p)) => {
                    let prod = &g.prods[p];
                    let n = prod.rhs.len();
                    let kids = vals.split_off(vals.len() - n);
                    stack.truncate(stack.len() - n);
                    let kids: Vec<u32> = kids
                        .into_iter()
                        .zip(&view.bound[p])
                        .filter(|(_, b)| **b)
                        .map(|(k, _)| k)
                        .collect();
                    let id = next_node;
                    next_node += 1;
                    evs.push(Ev::Act { prod: p as u32, kids, id });
                    vals.push(id);
                    let to = self.states[*stack.last().unwrap()].goto[&prod.lhs];
                    stack.push(to);
                }
                Some(Act::Accept) => break Out::Ok(vals.pop().unwrap()),
            }
        };
        Run { evs, out }
    }
}
