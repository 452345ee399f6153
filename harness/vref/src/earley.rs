//! A naive Earley recogniser: an oracle for derivability, viable prefixes and possible next terminals
//! that shares nothing with LR theory. Exact for grammars whose non-terminals are all productive.
use crate::grammar::{Grammar, Sym};
use std::collections::BTreeSet;

type It = (u32, u32, u32); // production (prods.len() = start), dot, origin

pub struct Earley<'g> {
    g: &'g Grammar,
    entry: u32,
    pub sets: Vec<BTreeSet<It>>,
}

impl<'g> Earley<'g> {
    pub fn new(g: &'g Grammar, entry: usize) -> Self {
        let mut e = Earley { g, entry: entry as u32, sets: vec![] };
        e.sets.push([(g.prods.len() as u32, 0, 0)].into_iter().collect());
        e.complete();
        e
    }

    fn next(&self, it: &It) -> Option<Sym> {
        if it.0 as usize == self.g.prods.len() {
            [Sym::N(self.entry)].get(it.1 as usize).copied()
        } else {
            self.g.prods[it.0 as usize].rhs.get(it.1 as usize).copied()
        }
    }

    fn complete(&mut self) {
        let k = self.sets.len() - 1;
        loop {
            let mut new: Vec<It> = vec![];
            for it in &self.sets[k] {
                match self.next(it) {
                    Some(Sym::N(n)) => {
                        for (i, p) in self.g.prods.iter().enumerate() {
                            if p.lhs == n {
                                new.push((i as u32, 0, k as u32));
                            }
                        }
                    }
                    Some(Sym::T(_)) => {}
                    None => {
                        if it.0 as usize == self.g.prods.len() {
                            continue;
                        }
                        let lhs = self.g.prods[it.0 as usize].lhs;
                        for par in &self.sets[it.2 as usize] {
                            if self.next(par) == Some(Sym::N(lhs)) {
                                new.push((par.0, par.1 + 1, par.2));
                            }
                        }
                    }
                }
            }
            let before = self.sets[k].len();
            self.sets[k].extend(new);
            if self.sets[k].len() == before {
                return;
            }
        }
    }

    /// Terminals that can come next.
    pub fn expected(&self) -> BTreeSet<u32> {
        let k = self.sets.len() - 1;
        self.sets[k]
            .iter()
            .filter_map(|it| match self.next(it) {
                Some(Sym::T(t)) => Some(t),
                _ => None,
            })
            .collect()
    }

    pub fn accepts(&self) -> bool {
        let k = self.sets.len() - 1;
        self.sets[k].contains(&(self.g.prods.len() as u32, 1, 0))
    }

    /// Advance over a terminal; false (and unchanged) if impossible.
    pub fn push(&mut self, t: u32) -> bool {
        let k = self.sets.len() - 1;
        let next: BTreeSet<It> = self.sets[k]
            .iter()
            .filter(|it| self.next(it) == Some(Sym::T(t)))
            .map(|it| (it.0, it.1 + 1, it.2))
            .collect();
        if next.is_empty() {
            return false;
        }
        self.sets.push(next);
        self.complete();
        true
    }

    pub fn pop(&mut self) {
        self.sets.pop();
    }
}
