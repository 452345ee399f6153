//! Enumeration of bounded grammar spaces, and parametric families of large grammars.
use vref::grammar::{Grammar, Prod, Sym};

#[derive(Clone, Copy, Debug)]
pub struct Space {
    pub n_n: usize,
    pub n_t: usize,
    /// Bound on sum of (1 + length) over the productions.
    pub size: usize,
    pub max_rhs: usize,
    pub max_prods: usize,
    pub min_prods: usize,
}

impl Space {
    pub fn new(n_n: usize, n_t: usize, size: usize) -> Space {
        Space { n_n, n_t, size, max_rhs: 4, max_prods: 7, min_prods: 1 }
    }
    pub fn rhs(mut self, l: usize) -> Space {
        self.max_rhs = l;
        self
    }
    pub fn prods(mut self, p: usize) -> Space {
        self.max_prods = p;
        self
    }
}

impl std::fmt::Display for Space {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "{} non-terminals, {} terminals, size<={}, rhs<={}, productions<={}",
            self.n_n, self.n_t, self.size, self.max_rhs, self.max_prods
        )
    }
}

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}

/// All productions of the space, ordered by (size, lhs, rhs).
fn all_prods(sp: &Space) -> Vec<Prod> {
    let syms: Vec<Sym> = (0..sp.n_t as u32)
        .map(Sym::T)
        .chain((0..sp.n_n as u32).map(Sym::N))
        .collect();
    let mut rhss: Vec<Vec<Sym>> = vec![vec![]];
    let mut all = rhss.clone();
    for _ in 0..sp.max_rhs.min(sp.size.saturating_sub(1)) {
        let mut next = vec![];
        for r in &rhss {
            for s in &syms {
                let mut x = r.clone();
                x.push(*s);
                next.push(x);
            }
        }
        all.extend(next.iter().cloned());
        rhss = next;
    }
    let mut out = vec![];
    for r in all {
        for lhs in 0..sp.n_n as u32 {
            out.push(Prod { lhs, rhs: r.clone() });
        }
    }
    out
}

fn map_sym(s: &Sym, np: &[usize], tp: &[usize]) -> Sym {
    match s {
        Sym::T(t) => Sym::T(tp[*t as usize] as u32),
        Sym::N(n) => Sym::N(np[*n as usize] as u32),
    }
}

/// Rename non-terminals and terminals (new id = perm[old id]); production order is kept.
pub fn rename(g: &Grammar, np: &[usize], tp: &[usize]) -> Grammar {
    Grammar {
        n_t: g.n_t,
        n_n: g.n_n,
        entries: g.entries.iter().map(|e| np[*e]).collect(),
        prods: g
            .prods
            .iter()
            .map(|p| Prod {
                lhs: np[p.lhs as usize] as u32,
                rhs: p.rhs.iter().map(|s| map_sym(s, np, tp)).collect(),
            })
            .collect(),
    }
}

pub fn reorder(g: &Grammar, order: &[usize]) -> Grammar {
    Grammar { prods: order.iter().map(|i| g.prods[*i].clone()).collect(), ..g.clone() }
}

/// Calls `f` with every set of productions of the space that uses all its terminals and in which
/// non-terminal 0 has a production, once per class under renaming of terminals and of the
/// non-terminals other than 0. Entry point: 0.
pub fn enumerate(sp: &Space, f: &mut dyn FnMut(Grammar)) {
    let prods = all_prods(sp);
    let code: std::collections::HashMap<Prod, u32> =
        prods.iter().enumerate().map(|(i, p)| (p.clone(), i as u32)).collect();
    // permuted codes
    let mut maps: Vec<Vec<u32>> = vec![];
    for np in perms(sp.n_n).into_iter().filter(|p| p[0] == 0) {
        for tp in perms(sp.n_t) {
            maps.push(
                prods
                    .iter()
                    .map(|p| {
                        code[&Prod {
                            lhs: np[p.lhs as usize] as u32,
                            rhs: p.rhs.iter().map(|s| map_sym(s, &np, &tp)).collect(),
                        }]
                    })
                    .collect(),
            );
        }
    }
    fn go(
        sp: &Space,
        prods: &[Prod],
        maps: &[Vec<u32>],
        from: usize,
        size: usize,
        cur: &mut Vec<u32>,
        f: &mut dyn FnMut(Grammar),
    ) {
        if cur.len() >= sp.min_prods {
            let mut used = 0u32;
            let mut has0 = false;
            for c in cur.iter() {
                let p = &prods[*c as usize];
                has0 |= p.lhs == 0;
                for s in &p.rhs {
                    if let Sym::T(t) = s {
                        used |= 1 << t;
                    }
                }
            }
            // every non-terminal is mentioned
            let mut nts = 1u32;
            for c in cur.iter() {
                let p = &prods[*c as usize];
                nts |= 1 << p.lhs;
                for s in &p.rhs {
                    if let Sym::N(n) = s {
                        nts |= 1 << n;
                    }
                }
            }
            if has0 && used == (1 << sp.n_t) - 1 && nts == (1 << sp.n_n) - 1 {
                let canonical = maps.iter().all(|m| {
                    let mut x: Vec<u32> = cur.iter().map(|c| m[*c as usize]).collect();
                    x.sort();
                    x >= *cur
                });
                if canonical {
                    let mut ps: Vec<Prod> =
                        cur.iter().map(|c| prods[*c as usize].clone()).collect();
                    ps.sort_by(|a, b| (a.lhs, a.rhs.len(), &a.rhs).cmp(&(b.lhs, b.rhs.len(), &b.rhs)));
                    f(Grammar { n_t: sp.n_t, n_n: sp.n_n, entries: vec![0], prods: ps });
                }
            }
        }
        if cur.len() == sp.max_prods {
            return;
        }
        for i in from..prods.len() {
            let s = size + 1 + prods[i].rhs.len();
            if s > sp.size {
                break; // ordered by size
            }
            cur.push(i as u32);
            go(sp, prods, maps, i + 1, s, cur, f);
            cur.pop();
        }
    }
    go(sp, &prods, &maps, 0, 0, &mut vec![], f);
}

pub fn reduced(g: &Grammar) -> bool {
    g.productive().iter().all(|b| *b) && g.reachable(&g.entries).iter().all(|b| *b)
}

pub fn all_productive(g: &Grammar) -> bool {
    g.productive().iter().all(|b| *b)
}

pub fn conflict_free(g: &Grammar) -> bool {
    g.entries.iter().all(|e| {
        let l = vref::lr1::build(g, *e);
        l.sr + l.rr == 0
    })
}

fn t(k: usize) -> Sym {
    Sym::T(k as u32)
}
fn n(k: usize) -> Sym {
    Sym::N(k as u32)
}
fn p(lhs: usize, rhs: Vec<Sym>) -> Prod {
    Prod { lhs: lhs as u32, rhs }
}
fn gr(n_t: usize, n_n: usize, entries: Vec<usize>, prods: Vec<Prod>) -> Grammar {
    Grammar { n_t, n_n, entries, prods }
}

/// Parametric families. Each is LR(1) for every k.
pub fn family(name: &str, k: usize) -> Grammar {
    match name {
        // S -> t0 | t1 | ... | tk-1 | S S-list
        "terminals" => {
            let mut ps = vec![p(0, vec![]), p(0, vec![n(0), n(1)])];
            ps.extend((0..k).map(|i| p(1, vec![t(i)])));
            gr(k, 2, vec![0], ps)
        }
        // S -> a b a b ... (k symbols) | b
        "long" => gr(
            2,
            1,
            vec![0],
            vec![p(0, (0..k).map(|i| t(i % 2)).collect()), p(0, vec![t(1)])],
        ),
        // S -> A a A a ... (k symbols, A nullable, all bound) | b
        "longmix" => {
            let rhs = (0..k).map(|i| if i % 2 == 0 { n(1) } else { t(0) }).collect();
            gr(
                2,
                2,
                vec![0],
                vec![p(0, rhs), p(1, vec![]), p(1, vec![t(1)])],
            )
        }
        // S -> N1, N1 -> N2, ..., Nk -> a
        "chain" => {
            let mut ps: Vec<Prod> = (0..k).map(|i| p(i, vec![n(i + 1)])).collect();
            ps.push(p(k, vec![t(0)]));
            gr(1, k + 1, vec![0], ps)
        }
        // the same, declared bottom-up
        "chainrev" => {
            let mut ps: Vec<Prod> = (0..k).map(|i| p(i + 1, vec![n(i)])).collect();
            ps.insert(0, p(0, vec![t(0)]));
            gr(1, k + 1, vec![k], ps)
        }
        // S -> b N1; N1 -> N2 a ... nested: each level wraps in its own terminal pair
        "nest" => {
            // Ni -> ti Ni+1 ti | tk ; Nk -> t k+1
            let mut ps = vec![];
            for i in 0..k {
                ps.push(p(i, vec![t(i), n(i + 1), t(i)]));
                ps.push(p(i, vec![t(k)]));
            }
            ps.push(p(k, vec![t(k)]));
            gr(k + 1, k + 1, vec![0], ps)
        }
        // S -> A1 A2 ... Ak x,  Ai -> ai | empty
        "nullable" => {
            let mut ps = vec![];
            let mut rhs: Vec<Sym> = (1..=k).map(n).collect();
            rhs.push(t(k));
            ps.push(p(0, rhs));
            for i in 1..=k {
                ps.push(p(i, vec![]));
                ps.push(p(i, vec![t(i - 1)]));
            }
            gr(k + 1, k + 1, vec![0], ps)
        }
        // S -> A1 x; Ai -> Ai+1 Bi ; all nullable in the end, FIRST needs k passes
        "nullchain" => {
            // Ni -> Ni+1 ti | empty ... left-nested nullable
            let mut ps = vec![p(0, vec![n(1), t(k)])];
            for i in 1..=k {
                if i < k {
                    ps.push(p(i, vec![n(i + 1), t(i - 1)]));
                }
                ps.push(p(i, vec![]));
            }
            // N1 -> N2 t0 | eps, N2 -> N3 t1 | eps: conflict-free since ti distinct
            gr(k + 1, k + 1, vec![0], ps)
        }
        // S -> t0 A t0 | ... k contexts, two reductions distinguished only by lookahead (LR(1), not LALR(1))
        "lookahead" => {
            // S -> ti A tk | ti B tk+1 for even i; S -> ti B tk | ti A tk+1 for odd i; A -> c; B -> c
            let mut ps = vec![];
            for i in 0..k {
                let (x, y) = if i % 2 == 0 { (1, 2) } else { (2, 1) };
                ps.push(p(0, vec![t(i), n(x), t(k)]));
                ps.push(p(0, vec![t(i), n(y), t(k + 1)]));
            }
            ps.push(p(1, vec![t(k + 2)]));
            ps.push(p(2, vec![t(k + 2)]));
            gr(k + 3, 3, vec![0], ps)
        }
        // k public non-terminals: Ni -> a^(i%3) ti? each also uses the next
        "entries" => {
            let mut ps = vec![];
            for i in 0..k {
                ps.push(p(i, vec![t(0), n((i + 1) % k), t(1)]));
                ps.push(p(i, vec![t(2); 1 + i % 4]));
            }
            gr(3, k, (0..k).collect(), ps)
        }
        // k public non-terminals: Ni -> t(i%3) | t3 Ni+1 ti (every fifth)
        "pubs" => {
            let mut ps = vec![];
            for i in 0..k {
                ps.push(p(i, vec![t(i % 3)]));
                if i % 5 == 4 {
                    ps.push(p(i, vec![t(3), n((i + 1) % k), t(i / 5 % 3)]));
                }
            }
            gr(4, k, (0..k).collect(), ps)
        }
        // k productions of one non-terminal, told apart by a binary code of terminals
        "prods" => {
            let bits = usize::BITS as usize - (k.max(2) - 1).leading_zeros() as usize;
            let ps = (0..k)
                .map(|i| p(0, (0..bits).map(|b| t(i >> b & 1)).collect()))
                .collect();
            gr(2, 1, vec![0], ps)
        }
        // operator precedence with k levels
        "levels" => {
            let mut ps = vec![];
            for i in 0..k {
                ps.push(p(i, vec![n(i), t(i), n(i + 1)]));
                ps.push(p(i, vec![n(i + 1)]));
            }
            ps.push(p(k, vec![t(k)]));
            ps.push(p(k, vec![t(k + 1), n(0), t(k + 2)]));
            gr(k + 3, k + 1, vec![0], ps)
        }
        // S -> ti tj, j a function of i: k states that each go on with one terminal of k
        "sparse" => gr(k, 1, vec![0], (0..k).map(|i| p(0, vec![t(i), t((i * 7 + 3) % k)])).collect()),
        // S -> ti Ni, Ni -> tj: k states that each have a goto on one of k non-terminals
        "sparsegoto" => {
            let mut ps: Vec<Prod> = (0..k).map(|i| p(0, vec![t(i), n(i + 1)])).collect();
            ps.extend((0..k).map(|i| p(i + 1, vec![t((i * 5 + 1) % k)])));
            ps.extend((0..k).map(|i| p(i + 1, vec![])));
            gr(k, k + 1, vec![0], ps)
        }
        // every sequence of k of four terminals, each with a tail of its own: S -> w t0^15 A, A -> t0
        // (k = 6: more than 65,536 states)
        "tree" => {
            let w = |i: usize| (0..k).rev().map(move |d| t(i >> (2 * d) & 3));
            let mut ps: Vec<Prod> = (0..1 << (2 * k)).map(|i| p(0, w(i).chain([t(0); 15]).chain([n(1)]).collect())).collect();
            ps.push(p(1, vec![t(0)]));
            gr(4, 2, vec![0], ps)
        }
        // S -> ti A tj | ti B tj', A -> x, B -> x: in each of k contexts the two reductions are told apart
        // by terminals (or the end) whose numbers differ by a power of two
        "strides" => {
            let x = k;
            let mut ps = vec![];
            for i in 0..k {
                let d = 1 << (i % 9);
                let (a, b) = if i % 2 == 0 { (1, 2) } else { (2, 1) };
                let j = i * 5 % k;
                ps.push(p(0, vec![t(i), n(a), t(j)]));
                if j + d < k {
                    ps.push(p(0, vec![t(i), n(b), t(j + d)]));
                } else {
                    ps.push(p(0, vec![t(i), n(b)]));
                }
            }
            ps.push(p(1, vec![t(x)]));
            ps.push(p(2, vec![t(x)]));
            gr(k + 1, 3, vec![0], ps)
        }
        _ => panic!("family {name}"),
    }
}

/// A reduce/reduce conflict (or, `accept`, a reduction against acceptance) that shows on a single
/// lookahead only, terminal `at` of `k` (`k`: the end), after `before` states and non-terminals.
pub fn lonely(k: usize, at: usize, before: usize, accept: bool) -> Grammar {
    let mut ps = vec![];
    // states, non-terminals and productions that come first
    for i in 0..before {
        ps.push(p(0, vec![t(0), n(i + 1), t(i % k)]));
        ps.push(p(i + 1, vec![t(1); i + 1]));
    }
    let ps0 = ps.len();
    // terminals that are otherwise only shifted
    ps.push(p(0, (0..k).rev().map(t).collect()));
    let (a, b) = (before + 1, before + 2);
    let tail = |x: usize| if at == k { vec![n(x)] } else { vec![n(x), t(at)] };
    if accept {
        ps.push(p(0, vec![n(0)]));
        ps.truncate(ps0 + 2);
        return gr(k, before + 1, vec![0], ps);
    }
    ps.push(p(0, tail(a)));
    ps.push(p(0, tail(b)));
    let c = (k - 1).min(2);
    ps.push(p(a, vec![t(c), t(c)]));
    ps.push(p(b, vec![t(c), t(c)]));
    gr(k, before + 3, vec![0], ps)
}

/// Two reductions on the same lookahead whose non-terminals (`nts`) or productions are `gap` apart.
pub fn apart(gap: usize, nts: bool) -> Grammar {
    let mut ps = vec![p(0, vec![t(2), n(1)])];
    let bits = usize::BITS as usize - gap.leading_zeros() as usize;
    let code = |i: usize| (0..bits).map(|b| t(i >> b & 1)).collect::<Vec<_>>();
    if nts {
        ps.push(p(0, vec![t(2), n(1 + gap)]));
        ps.push(p(1, vec![t(2)]));
        ps.extend((2..=gap).map(|i| p(i, vec![t(0), t(1)])));
        ps.push(p(1 + gap, vec![t(2)]));
        return gr(3, gap + 2, vec![0], ps);
    }
    ps.push(p(1, vec![t(2)]));
    ps.extend((1..gap).map(|i| p(1, code(i))));
    ps.push(p(1, vec![t(2)]));
    gr(3, 2, vec![0], ps)
}

/// m non-terminals with q productions each, told apart by binary codes.
pub fn grid(m: usize, q: usize) -> Grammar {
    let code = |i: usize, n: usize| -> Vec<Sym> {
        let bits = usize::BITS as usize - (n.max(2) - 1).leading_zeros() as usize;
        (0..bits).map(|b| t(i >> b & 1)).collect()
    };
    let mut ps: Vec<Prod> = (0..m)
        .map(|i| {
            let mut r = code(i, m);
            r.push(n(i + 1));
            p(0, r)
        })
        .collect();
    for i in 0..m {
        ps.extend((0..q).map(|j| p(i + 1, code(j, q))));
    }
    gr(2, m + 1, vec![0], ps)
}

/// One production of k symbols (terminals and two non-terminals, one of them nullable).
pub fn row(k: usize, pattern: usize) -> Grammar {
    let sym = |i: usize| match pattern {
        0 => t(i % 2),
        1 => [n(1), t(0), n(2), t(1)][i % 4],
        _ => [t(1), n(2), n(2), t(0), n(1)][i % 5],
    };
    let mut ps = vec![p(0, (0..k).map(sym).collect())];
    ps.push(p(1, vec![t(1), t(0)]));
    ps.push(p(2, vec![t(0)]));
    gr(2, 3, vec![0], ps)
}

/// LR(1) grammars that need the right context: two bodies that look alike, after two prefixes, told
/// apart by what follows (in opposite ways).
pub fn contexts(long: usize) -> Vec<Grammar> {
    let mut prefixes: Vec<Vec<Sym>> = vec![vec![]];
    let mut lvl = prefixes.clone();
    for _ in 0..long {
        lvl = lvl.iter().flat_map(|w| (0..2).map(move |a| [w.clone(), vec![t(a)]].concat())).collect();
        prefixes.extend(lvl.iter().cloned());
    }
    let bodies = [vec![t(2)], vec![t(2), t(2)], vec![t(0)], vec![t(0), t(2)], vec![n(3)], vec![]];
    let follows = [[vec![t(3)], vec![t(4)]], [vec![t(3)], vec![]], [vec![t(0)], vec![t(1)]], [vec![t(3), t(3)], vec![t(4), t(3)]]];
    let mut out = vec![];
    for a in &prefixes {
        for b in &prefixes {
            for body in &bodies {
                for f in &follows {
                    for kind in 0..3 {
                        let cat = |x: &[Sym], y: Sym, z: &[Sym]| [x, &[y], z].concat();
                        let mut ps = vec![
                            p(0, cat(a, n(1), &f[0])),
                            p(0, cat(a, n(2), &f[1])),
                            p(0, cat(b, n(1), &f[1])),
                        ];
                        match kind {
                            0 => ps.push(p(0, cat(b, n(2), &f[0]))),
                            // a third way to go on after the second prefix
                            1 => ps.push(p(0, [&b[..], body, &f[0], &[t(2)]].concat())),
                            _ => {}
                        }
                        ps.push(p(1, body.clone()));
                        ps.push(p(2, body.clone()));
                        let mut n_n = 3;
                        if body == &vec![n(3)] {
                            ps.push(p(3, vec![t(2)]));
                            n_n = 4;
                        }
                        ps.sort_by(|x, y| x.lhs.cmp(&y.lhs));
                        ps.dedup();
                        let g = gr(5, n_n, vec![0], ps);
                        let used = (0..5u32).all(|x| g.prods.iter().any(|p| p.rhs.contains(&Sym::T(x))));
                        let g = if used { g } else { compact(&g) };
                        if a != b && conflict_free(&g) {
                            out.push(g);
                        }
                    }
                }
            }
        }
    }
    out.sort_by_key(|g| g.to_string());
    out.dedup();
    out
}

/// Renumber the terminals so that all are used.
fn compact(g: &Grammar) -> Grammar {
    let mut map = vec![usize::MAX; g.n_t];
    let mut k = 0;
    for pr in &g.prods {
        for s in &pr.rhs {
            if let Sym::T(x) = s {
                if map[*x as usize] == usize::MAX {
                    map[*x as usize] = k;
                    k += 1;
                }
            }
        }
    }
    let id: Vec<usize> = (0..g.n_n).collect();
    let mut h = rename(g, &id, &map);
    h.n_t = k;
    h
}

/// Hand-written grammars of familiar languages and classic counterexamples, in text form.
pub fn classics() -> Vec<(&'static str, &'static str)> {
    vec![
        ("lisp", "3 2 0 | 0 t0 n1 t1 | 0 t2 | 1 | 1 n1 n0"),
        ("balanced", "2 1 0 | 0 | 0 t0 n0 t1 n0"),
        ("anbn", "2 1 0 | 0 | 0 t0 n0 t1"),
        ("palindrome-centre", "3 1 0 | 0 t0 n0 t0 | 0 t1 n0 t1 | 0 t2"),
        ("expr", "5 3 0 | 0 n0 t0 n1 | 0 n1 | 1 n1 t1 n2 | 1 n2 | 2 t2 | 2 t3 n0 t4"),
        ("lvalue (not SLR)", "3 3 0 | 0 n1 t0 n2 | 0 n2 | 1 t1 n2 | 1 t2 | 2 n1"),
        ("not LALR", "5 3 0 | 0 t0 n1 t3 | 0 t1 n2 t3 | 0 t0 n2 t4 | 0 t1 n1 t4 | 1 t2 | 2 t2"),
        ("json", "8 5 0 | 0 t0 | 0 t1 n1 t2 | 0 t3 n3 t4 | 1 | 1 n2 | 2 n0 | 2 n2 t5 n0 | 3 | 3 n4 | 4 t6 t7 n0 | 4 n4 t5 t6 t7 n0"),
        ("right list", "2 1 0 | 0 t0 | 0 t0 t1 n0"),
        ("left list", "2 1 0 | 0 t0 | 0 n0 t1 t0"),
        ("opt trailing", "2 3 0 | 0 n1 n2 | 1 t0 | 1 n1 t1 t0 | 2 | 2 t1 t1"),
        ("middle", "3 2 0 | 0 t0 n0 n1 t1 | 0 t2 | 1 | 1 t2 n1"),
        ("mutual", "3 3 0 | 0 n1 t0 | 0 t2 | 1 n2 t1 | 1 t2 t2 | 2 n0 t2 | 2 t1"),
        ("matched if", "6 3 0 | 0 n1 | 0 n2 | 1 t0 t1 n1 t2 n1 | 1 t3 | 2 t0 t1 n0 | 2 t0 t1 n1 t2 n2"),
        ("eps tower", "1 4 0 | 0 n1 n2 n3 t0 | 1 | 2 n1 n1 | 3 n2 n2"),
        ("hidden", "2 3 0 | 0 n1 n2 | 1 | 2 t0 n2 | 2 t1"),
        ("begin-end", "4 3 0 | 0 t0 n1 t1 | 1 n2 | 1 n1 t2 n2 | 2 | 2 t3 | 2 n0"),
    ]
}
