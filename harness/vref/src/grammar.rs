use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Sym {
    T(u32),
    N(u32),
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Prod {
    pub lhs: u32,
    pub rhs: Vec<Sym>,
}

/// A context-free grammar with entry points. Production ids are indices into `prods`.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Grammar {
    pub n_t: usize,
    pub n_n: usize,
    pub entries: Vec<usize>,
    pub prods: Vec<Prod>,
}

/// `n_t n_n e0,e1 | lhs sym sym | ...` with `tK`, `nK` symbols.
impl fmt::Display for Grammar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let es: Vec<String> = self.entries.iter().map(|e| e.to_string()).collect();
        write!(f, "{} {} {}", self.n_t, self.n_n, es.join(","))?;
        for p in &self.prods {
            write!(f, " | {}", p.lhs)?;
            for s in &p.rhs {
                match s {
                    Sym::T(t) => write!(f, " t{t}")?,
                    Sym::N(n) => write!(f, " n{n}")?,
                }
            }
        }
        Ok(())
    }
}

impl Grammar {
    pub fn parse(s: &str) -> Grammar {
        let mut parts = s.split('|');
        let head: Vec<&str> = parts.next().unwrap().split_whitespace().collect();
        let entries = if head.len() > 2 {
            head[2].split(',').map(|x| x.parse().unwrap()).collect()
        } else {
            vec![]
        };
        let prods = parts
            .map(|p| {
                let mut w = p.split_whitespace();
                let lhs = w.next().unwrap().parse().unwrap();
                let rhs = w
                    .map(|x| match x.split_at(1) {
                        ("t", k) => Sym::T(k.parse().unwrap()),
                        ("n", k) => Sym::N(k.parse().unwrap()),
                        _ => panic!("bad symbol {x}"),
                    })
                    .collect();
                Prod { lhs, rhs }
            })
            .collect();
        Grammar { n_t: head[0].parse().unwrap(), n_n: head[1].parse().unwrap(), entries, prods }
    }

    pub fn size(&self) -> usize {
        self.prods.iter().map(|p| 1 + p.rhs.len()).sum()
    }

    pub fn productive(&self) -> Vec<bool> {
        let mut ok = vec![false; self.n_n];
        loop {
            let mut changed = false;
            for p in &self.prods {
                if !ok[p.lhs as usize]
                    && p.rhs.iter().all(|s| match s {
                        Sym::T(_) => true,
                        Sym::N(n) => ok[*n as usize],
                    })
                {
                    ok[p.lhs as usize] = true;
                    changed = true;
                }
            }
            if !changed {
                return ok;
            }
        }
    }

    pub fn reachable(&self, from: &[usize]) -> Vec<bool> {
        let mut seen = vec![false; self.n_n];
        let mut work: Vec<usize> = from.to_vec();
        while let Some(n) = work.pop() {
            if std::mem::replace(&mut seen[n], true) {
                continue;
            }
            for p in &self.prods {
                if p.lhs as usize == n {
                    for s in &p.rhs {
                        if let Sym::N(m) = s {
                            work.push(*m as usize);
                        }
                    }
                }
            }
        }
        seen
    }

    pub fn nullable(&self) -> Vec<bool> {
        let mut ok = vec![false; self.n_n];
        loop {
            let mut changed = false;
            for p in &self.prods {
                if !ok[p.lhs as usize]
                    && p.rhs.iter().all(|s| match s {
                        Sym::T(_) => false,
                        Sym::N(n) => ok[*n as usize],
                    })
                {
                    ok[p.lhs as usize] = true;
                    changed = true;
                }
            }
            if !changed {
                return ok;
            }
        }
    }

    /// A shortest terminal string derived from each non-terminal (None if unproductive).
    pub fn shortest(&self) -> Vec<Option<Vec<u32>>> {
        let mut best: Vec<Option<Vec<u32>>> = vec![None; self.n_n];
        loop {
            let mut changed = false;
            for p in &self.prods {
                let mut s = vec![];
                let mut ok = true;
                for x in &p.rhs {
                    match x {
                        Sym::T(t) => s.push(*t),
                        Sym::N(n) => match &best[*n as usize] {
                            Some(b) => s.extend_from_slice(b),
                            None => ok = false,
                        },
                    }
                }
                if !ok {
                    continue;
                }
                let b = &mut best[p.lhs as usize];
                if b.as_ref().map_or(true, |b| s.len() < b.len()) {
                    *b = Some(s);
                    changed = true;
                }
            }
            if !changed {
                return best;
            }
        }
    }
}
