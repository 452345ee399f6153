//! Product of the emitted automaton and the reference automaton.
use crate::tables::{IAct, Tables};
use std::collections::HashMap;
use vref::grammar::{Grammar, Sym};
use vref::lr1::{Act, Lr1};

#[derive(Debug, Default)]
pub struct Product {
    pub pairs: usize,
    pub trans: usize,
    /// (kind, witness word)
    pub mismatch: Vec<(&'static str, Vec<u32>)>,
}

/// Compare one entry point. Explores every pair of states reachable in lock step; two machines with a
/// mismatch-free product make the same moves on every input.
pub fn explore(g: &Grammar, lr: &Lr1, t: &Tables, init: usize, names: &[String]) -> Product {
    let mut out = Product::default();
    let shortest = g.shortest();
    let eof = g.n_t;
    // non-terminal -> index used by the tables
    let mut nt_idx: Vec<Option<usize>> = vec![None; g.n_n];
    let mut index: HashMap<(usize, usize), usize> = HashMap::new();
    let mut pairs: Vec<(usize, usize)> = vec![(lr_init(), init)];
    let mut how: Vec<Option<(usize, Sym)>> = vec![None];
    index.insert(pairs[0], 0);
    let word = |how: &Vec<Option<(usize, Sym)>>, mut i: usize, last: Option<usize>| {
        let mut parts: Vec<Vec<u32>> = vec![];
        while let Some((p, s)) = how[i] {
            parts.push(match s {
                Sym::T(t) => vec![t],
                Sym::N(n) => shortest[n as usize].clone().unwrap_or_default(),
            });
            i = p;
        }
        parts.reverse();
        let mut w: Vec<u32> = parts.concat();
        if let Some(l) = last {
            if l < eof {
                w.push(l as u32);
            }
        }
        w
    };
    // Two passes over pairs: reductions are seen (and non-terminal indices learnt) before gotos
    // are compared, so iterate until nothing changes.
    let mut i = 0;
    let mut pending: Vec<(usize, u32, usize)> = vec![]; // (pair, non-terminal, ref target)
    loop {
        while i < pairs.len() {
            let (r, s) = pairs[i];
            if s >= t.action.len() || s >= t.goto.len() || t.action[s].len() != eof + 1 {
                out.mismatch.push(("shape", word(&how, i, None)));
                i += 1;
                continue;
            }
            let mut err_at = None;
            for x in 0..=eof {
                let want = lr.action(r, x as u32);
                let got = t.action[s][x];
                out.trans += 1;
                let kind = match (want, got) {
                    (None, None) => {
                        err_at = Some(x);
                        None
                    }
                    (Some(Act::Shift(a)), Some(IAct::Shift(b))) => {
                        index.entry((a, b)).or_insert_with(|| {
                            pairs.push((a, b));
                            how.push(Some((i, Sym::T(x as u32))));
                            pairs.len() - 1
                        });
                        None
                    }
                    (Some(Act::Reduce(p)), Some(IAct::Reduce { nt, n, act })) => {
                        let lhs = g.prods[p].lhs as usize;
                        let same_nt = match nt_idx[lhs] {
                            None => {
                                nt_idx[lhs] = Some(nt);
                                true
                            }
                            Some(k) => k == nt,
                        };
                        if n != g.prods[p].rhs.len() {
                            Some("pop count")
                        } else if t.prod_of.get(act).copied().flatten() != Some(p as u32) {
                            Some("production")
                        } else if !same_nt {
                            Some("non-terminal index")
                        } else {
                            None
                        }
                    }
                    (Some(Act::Accept), Some(IAct::Accept)) => None,
                    (None, Some(_)) => Some("extra action"),
                    (Some(_), None) => Some("missing action"),
                    _ => Some("other action"),
                };
                if let Some(k) = kind {
                    out.mismatch.push((k, word(&how, i, Some(x))));
                }
            }
            if let Some(x) = err_at {
                let exp: Vec<&str> =
                    lr.expected(r).into_iter().map(|t| names[t as usize].as_str()).collect();
                if t.expected.get(s) != Some(&exp.join(", ")) {
                    out.mismatch.push(("expected list", word(&how, i, Some(x))));
                }
            }
            for (n, to) in &lr.states[r].goto {
                pending.push((i, *n, *to));
            }
            i += 1;
        }
        // follow gotos whose non-terminal's index is known
        let before = pairs.len();
        let mut rest = vec![];
        for (pi, n, to) in std::mem::take(&mut pending) {
            match nt_idx[n as usize] {
                None => rest.push((pi, n, to)),
                Some(k) => {
                    out.trans += 1;
                    match t.goto[pairs[pi].1].get(k).copied().flatten() {
                        None => {
                            let mut w = word(&how, pi, None);
                            w.extend(shortest[n as usize].clone().unwrap_or_default());
                            out.mismatch.push(("missing goto", w));
                        }
                        Some(b) => {
                            index.entry((to, b)).or_insert_with(|| {
                                pairs.push((to, b));
                                how.push(Some((pi, Sym::N(n))));
                                pairs.len() - 1
                            });
                        }
                    }
                }
            }
        }
        pending = rest;
        if pairs.len() == before {
            break;
        }
    }
    // names
    for (k, n) in names.iter().enumerate() {
        if t.terminals.get(k) != Some(n) {
            out.mismatch.push(("terminal name", vec![k as u32]));
        }
    }
    if t.terminals.get(eof).map(|s| s.as_str()) != Some("end-of-input") {
        out.mismatch.push(("end-of-input name", vec![]));
    }
    out.pairs = pairs.len();
    out
}

fn lr_init() -> usize {
    0
}
