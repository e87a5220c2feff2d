//! Seeded random inputs. Everything derives from one SplitMix64 stream.
use crate::model::A;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability p/100
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

pub const SYMS: &[&str] = &["a", "b", "c", "d", "0", "1", "x", "y", "z", "w"];
pub const ODD_SYMS: &[&str] = &[
    "aa", "ab", "ba", "\u{e9}", "e\u{301}", "\u{1F1F8}\u{1F1EA}", "eps1", "->a", "*b", "long_symbol", "\u{3b5}x",
];
/// Symbols of one grapheme cluster made of several characters, and symbols that join their neighbours when written
/// next to each other.
pub const CLUSTER_SYMS: &[&str] = &[
    "\u{928}\u{93f}", "\u{928}", "\u{e01}\u{e33}", "\u{e01}", "\u{1100}\u{1161}", "\u{1100}", "\u{1161}", "e\u{301}", "e", "\u{301}",
    "\u{1F469}\u{200D}\u{1F467}", "\u{1F469}", "\u{1F44D}\u{1F3FD}", "\u{1F1F8}\u{1F1EA}", "\u{1F1F8}", "\u{600}1", "\u{93f}", "1",
];
const ODD_NAMES: &[&str] = &[
    "s_new", "0", "1", "2", "3", "4", "5", "(0,1)", "none", "(none,0)", "\u{e9}t\u{e9}", "\u{3b5}s", "->q", "*q", "eps_", "a,b", "(a", "b)", "a", "b", "c",
    "s\u{2080}", "s\u{2081}", "q|r", "-", "\u{1F600}", "((x", "y))", "epsilon", "10", "s_new_",
];

pub fn syms(r: &mut Rng, k: usize) -> Vec<String> {
    let mut v: Vec<String> = SYMS.iter().map(|s| s.to_string()).collect();
    if r.pct(12) {
        v = CLUSTER_SYMS.iter().map(|s| s.to_string()).collect();
        r.shuffle(&mut v);
    } else if r.pct(35) {
        v.extend(ODD_SYMS.iter().map(|s| s.to_string()));
        r.shuffle(&mut v);
    } else if r.pct(50) {
        v.truncate(k.max(1));
        r.shuffle(&mut v);
    }
    while v.len() < k {
        v.push(format!("y{}", v.len()));
    }
    v.truncate(k);
    v
}

pub fn names(r: &mut Rng, n: usize) -> Vec<String> {
    match r.below(6) {
        // names that become ambiguous when glued together with commas, and numbers
        5 => {
            let mut v: Vec<String> = ["a", "a,b", "a,b,c", "b", "b,c", "c", "b,c,d", "c,d", "d", "0", "1", "s_new", "2", "none", "none,b", "a,none"]
                .iter()
                .map(|s| s.to_string())
                .collect();
            if n > 16 {
                v.extend((0..n).map(|i| format!("p{i}")));
            }
            if r.pct(60) {
                // mostly the ambiguous ones
                let m = n.clamp(1, 9);
                r.shuffle(&mut v[..9]);
                if m < 9 {
                    v.truncate(n.max(1));
                }
            } else {
                r.shuffle(&mut v);
            }
            v.truncate(n);
            v
        }
        0 => {
            let mut v: Vec<String> = ODD_NAMES.iter().map(|s| s.to_string()).collect();
            r.shuffle(&mut v);
            let mut i = 0;
            while v.len() < n {
                v.push(format!("q{i}"));
                i += 1;
            }
            v.truncate(n);
            v
        }
        1 => (0..n).map(|i| format!("{i}")).collect(),
        2 => {
            let mut v: Vec<String> = (0..n).map(|i| format!("{}", i + 1)).collect();
            r.shuffle(&mut v);
            v
        }
        _ => (0..n).map(|i| format!("s{i}")).collect(),
    }
}

fn acc(r: &mut Rng, n: usize) -> Vec<bool> {
    let p = *r.pick(&[0, 10, 30, 50, 50, 80, 100]);
    let mut v: Vec<bool> = (0..n).map(|_| r.pct(p)).collect();
    if p == 10 && !v.iter().any(|x| *x) {
        let i = r.below(n);
        v[i] = true;
    }
    v
}

/// Renumber the states of `a` by a random permutation.
pub fn permute(r: &mut Rng, a: &A) -> A {
    let n = a.n();
    let mut p: Vec<usize> = (0..n).collect();
    r.shuffle(&mut p); // p[old] = new
    let mut b = a.clone();
    for q in 0..n {
        b.nm[p[q]] = a.nm[q].clone();
        b.acc[p[q]] = a.acc[q];
        b.tr[p[q]] = a.tr[q].iter().map(|c| c.iter().map(|t| p[*t]).collect()).collect();
        b.ep[p[q]] = a.ep[q].iter().map(|t| p[*t]).collect();
    }
    b.ini = p[a.ini];
    b
}

/// The same automaton listing its alphabet in another order.
pub fn permute_alphabet(r: &mut Rng, a: &A) -> A {
    let k = a.al.len();
    let mut p: Vec<usize> = (0..k).collect();
    r.shuffle(&mut p);
    let mut b = a.clone();
    b.al = p.iter().map(|i| a.al[*i].clone()).collect();
    for q in 0..a.n() {
        b.tr[q] = p.iter().map(|i| a.tr[q][*i].clone()).collect();
    }
    b
}

pub fn rename(r: &mut Rng, a: &A) -> A {
    let mut b = a.clone();
    b.nm = names(r, a.n());
    b
}

/// Split random states into copies: same language, many equivalent states.
pub fn split(r: &mut Rng, a: &A, extra: usize) -> A {
    let mut b = a.clone();
    let mut class: Vec<usize> = (0..a.n()).collect();
    for _ in 0..extra {
        let q = r.below(b.n());
        b.acc.push(b.acc[q]);
        b.tr.push(b.tr[q].clone());
        b.ep.push(b.ep[q].clone());
        b.nm.push(String::new());
        class.push(class[q]);
    }
    // redirect every move to a random copy of its target
    let n = b.n();
    for q in 0..n {
        for c in b.tr[q].iter_mut() {
            for t in c.iter_mut() {
                let same: Vec<usize> = (0..n).filter(|s| class[*s] == class[*t]).collect();
                *t = *r.pick(&same);
            }
        }
    }
    b.nm = names(r, n);
    permute(r, &b)
}

/// A random DFA over the given alphabet, from one of several shape families.
pub fn dfa(r: &mut Rng, n: usize, al: Vec<String>) -> A {
    let k = al.len();
    let mut tr = vec![vec![vec![0usize]; k]; n];
    let family = r.below(8);
    for q in 0..n {
        for a in 0..k {
            tr[q][a][0] = match family {
                0 | 1 => r.below(n),
                // chain / counter
                2 => {
                    if a == 0 {
                        (q + 1) % n
                    } else {
                        q
                    }
                }
                // chain into a sink
                3 => {
                    if a == 0 {
                        (q + 1).min(n - 1)
                    } else {
                        r.below(q + 1)
                    }
                }
                // only "downwards": unreachable states pointing into the reachable part
                4 => r.below(q + 1),
                // cycle with tail
                5 => {
                    if q + 1 < n {
                        q + 1
                    } else {
                        n / 3
                    }
                }
                // two separate halves
                6 => {
                    if q < n / 2 {
                        r.below((n / 2).max(1))
                    } else {
                        n / 2 + r.below(n - n / 2)
                    }
                }
                // few targets
                _ => r.below(2.min(n)),
            };
        }
    }
    let mut accv = acc(r, n);
    if family == 2 && r.pct(50) {
        let m = r.range(1, n);
        accv = (0..n).map(|q| q % m == 0).collect();
    }
    let a = A { dfa: true, al, nm: names(r, n), ini: 0, acc: accv, tr, ep: vec![vec![]; n] };
    let mut a = if r.pct(70) { permute(r, &a) } else { a };
    if r.pct(25) {
        a.ini = r.below(n);
    }
    a
}

pub fn nfa(r: &mut Rng, n: usize, al: Vec<String>, eps: bool) -> A {
    let k = al.len();
    let dens = *r.pick(&[8usize, 15, 25, 40]);
    let mut tr = vec![vec![vec![]; k]; n];
    let mut ep = vec![vec![]; n];
    let family = r.below(6);
    for q in 0..n {
        for a in 0..k {
            for t in 0..n {
                let on = match family {
                    0 | 1 | 2 => r.pct(dens),
                    // forward only
                    3 => t > q && r.pct(dens + 15),
                    // k-th symbol from the end
                    4 => {
                        (q == 0 && t == 0)
                            || (q == 0 && t == 1 && a == 0)
                            || (q > 0 && t == q + 1)
                    }
                    // a long cycle
                    _ => t == (q + 1) % n && r.pct(80),
                };
                if on {
                    tr[q][a].push(t);
                }
            }
        }
        if eps {
            for t in 0..n {
                if r.pct(dens.min(15)) {
                    ep[q].push(t);
                }
            }
        }
    }
    if eps && r.pct(30) {
        // an epsilon cycle or chain over a random sequence of states
        let m = if r.pct(50) { r.range(1, n.min(4)) } else { r.range(1, n) };
        let mut p: Vec<usize> = (0..n).collect();
        r.shuffle(&mut p);
        for i in 0..m {
            let (f, t) = (p[i], p[(i + 1) % m]);
            if (i + 1 < m || r.pct(60)) && !ep[f].contains(&t) {
                ep[f].push(t);
            }
        }
    }
    for row in tr.iter_mut() {
        for c in row.iter_mut() {
            if r.pct(40) {
                r.shuffle(c);
            }
        }
    }
    if r.pct(12) {
        // the same successor listed twice
        for q in 0..n {
            for c in tr[q].iter_mut().chain(std::iter::once(&mut ep[q])) {
                if !c.is_empty() && r.pct(30) {
                    let t = *r.pick(c);
                    let at = r.below(c.len() + 1);
                    c.insert(at, t);
                }
            }
        }
    }
    let mut accv = acc(r, n);
    if family == 4 {
        accv = (0..n).map(|q| q == n - 1).collect();
    }
    let a = A { dfa: false, al, nm: names(r, n), ini: 0, acc: accv, tr, ep };
    let mut a = if r.pct(70) { permute(r, &a) } else { a };
    if r.pct(20) {
        a.ini = r.below(n);
    }
    a
}

pub fn dfa_small(r: &mut Rng, maxn: usize, maxk: usize) -> A {
    let n = r.range(1, maxn);
    let k = r.range(1, maxk);
    let al = syms(r, k);
    dfa(r, n, al)
}
pub fn nfa_small(r: &mut Rng, maxn: usize, maxk: usize, eps: bool) -> A {
    let n = r.range(1, maxn);
    let k = if eps && r.pct(4) { 0 } else { r.range(1, maxk) };
    let al = syms(r, k);
    nfa(r, n, al, eps)
}

/// A DFA with many states and a long way between them.
pub fn big_dfa(r: &mut Rng, n: usize, k: usize) -> A {
    let al = syms(r, k);
    let (f, m) = (*r.pick(&[1usize, 7, 64]), r.range(1, n - 1));
    let mut tr = vec![vec![vec![0usize]; k]; n];
    for q in 0..n {
        for a in 0..k {
            tr[q][a][0] = match a {
                0 => (q + 1) % n,
                1 => (q * f + m) % n,
                _ => r.below(n),
            };
        }
    }
    let mut acc = vec![false; n];
    for _ in 0..r.range(1, 3) {
        acc[r.below(n)] = true;
    }
    let nm = names(r, n);
    let a = A { dfa: true, al, nm, ini: 0, acc, tr, ep: vec![vec![]; n] };
    if r.pct(50) {
        permute(r, &a)
    } else {
        a
    }
}
/// A DFA with many symbols of which only one, somewhere behind the others, leads on.
pub fn needle(r: &mut Rng, n: usize, k: usize) -> A {
    let al = syms(r, k);
    let mut a = dfa(r, n, al);
    let at = k - 1 - r.below(1 + k / 4);
    let back = r.below(n);
    for q in 0..n {
        for x in 0..k {
            a.tr[q][x][0] = if x == at { (q + 1) % n } else if x % 2 == 0 { q } else { back };
        }
    }
    a.ini = back;
    let odd = r.below(n);
    for q in 0..n {
        a.acc[q] = q == odd;
    }
    a
}
/// As an NFA, where symbols that lead nowhere have no moves.
pub fn needle_nfa(r: &mut Rng, n: usize, k: usize) -> A {
    let mut a = needle(r, n, k);
    a.dfa = false;
    for q in 0..n {
        for x in 0..k {
            if a.tr[q][x][0] == q && r.pct(70) {
                a.tr[q][x].clear();
            }
        }
    }
    a
}
/// A chain of n states on one symbol.
pub fn chain(r: &mut Rng, n: usize) -> A {
    let mut a = dfa(r, n, vec!["a".into()]);
    for q in 0..n {
        a.tr[q][0] = vec![(q + 1).min(n - 1)];
        a.acc[q] = q == n - 1;
    }
    a.ini = 0;
    if r.pct(50) {
        permute(r, &a)
    } else {
        a
    }
}
fn subsets(a: &A, limit: usize) -> usize {
    use std::collections::{BTreeSet, HashSet};
    let close = |s: BTreeSet<usize>| {
        let mut all = s.clone();
        let mut new: Vec<usize> = s.into_iter().collect();
        while let Some(q) = new.pop() {
            for t in &a.ep[q] {
                if all.insert(*t) {
                    new.push(*t);
                }
            }
        }
        all
    };
    let s0 = close([a.ini].into_iter().collect());
    let mut seen: HashSet<BTreeSet<usize>> = HashSet::from([s0.clone()]);
    let mut todo = vec![s0];
    while let Some(s) = todo.pop() {
        for x in 0..a.al.len() {
            let n = close(s.iter().flat_map(|q| a.tr[*q][x].iter().copied()).collect());
            if seen.insert(n.clone()) {
                todo.push(n);
            }
        }
        if seen.len() > limit {
            break;
        }
    }
    seen.len()
}
/// Two counters of different lengths that run through many pairs of states together.
pub fn counters(r: &mut Rng, n: usize, m: usize) -> (A, A) {
    let k = r.range(1, 2);
    let al = syms(r, k);
    let one = |r: &mut Rng, n: usize| {
        let mut acc = vec![false; n];
        for _ in 0..r.range(1, 2) {
            acc[r.below(n)] = true;
        }
        let tr = (0..n).map(|q| (0..k).map(|x| vec![if x == 0 { (q + 1) % n } else { q }]).collect()).collect();
        let nm = names(r, n);
        let a = A { dfa: true, al: al.clone(), nm, ini: 0, acc, tr, ep: vec![vec![]; n] };
        if r.pct(50) {
            permute(r, &a)
        } else {
            a
        }
    };
    let (a, b) = (one(r, n), one(r, m));
    let b = permute_alphabet(r, &b);
    if r.pct(50) {
        (a, b)
    } else {
        (b, a)
    }
}

/// An NFA with many states that can be in few sets of states.
pub fn big_nfa(r: &mut Rng, n: usize, k: usize, eps: bool, limit: usize) -> A {
    let mut extra = 3;
    let mut sparse = 6;
    let limit = limit.max(2 * n);
    loop {
        let al = syms(r, k);
        let mut tr = vec![vec![vec![]; k]; n];
        let mut ep = vec![vec![]; n];
        let round = r.pct(50);
        for q in 0..n {
            if q + 1 < n || round {
                tr[q][0].push((q + 1) % n);
            }
            if r.pct(extra) {
                tr[q][0].push(r.below(n));
            }
            for a in 1..k {
                match r.below(sparse) {
                    0 => tr[q][a].push(q),
                    1 => tr[q][a].push((q + 64) % n),
                    2 => tr[q][a].push(r.below(n)),
                    _ => {}
                }
            }
            if eps && r.below(2 * sparse) == 0 {
                ep[q].push((q + r.range(1, 3)) % n);
            }
        }
        let mut acc = vec![false; n];
        for _ in 0..r.range(1, 3) {
            acc[r.below(n)] = true;
        }
        let nm = names(r, n);
        let a = A { dfa: false, al, nm, ini: 0, acc, tr, ep };
        if subsets(&a, limit) <= limit {
            return if r.pct(50) { permute(r, &a) } else { a };
        }
        extra = 0;
        sparse *= 3;
    }
}

/// A DFA close to `a`: same language or differing in one spot, state order and names changed.
pub fn relative_dfa(r: &mut Rng, a: &A) -> A {
    let mut b = a.clone();
    if r.pct(50) {
        // a small difference hidden in one of many copies
        let e = r.range(1, 2 + a.n());
        b = split(r, &b, e);
    }
    match r.below(6) {
        0 | 1 => {
            let e = r.below(4);
            b = split(r, &b, e)
        }
        2 => {
            let q = r.below(b.n());
            b.acc[q] = !b.acc[q];
        }
        3 => {
            let q = r.below(b.n());
            let c = r.below(b.al.len());
            b.tr[q][c][0] = r.below(b.n());
        }
        4 => {
            // unreachable extra state
            let n = b.n();
            b.nm.push(format!("u{n}"));
            b.acc.push(r.pct(50));
            b.ep.push(vec![]);
            b.tr.push((0..b.al.len()).map(|_| vec![r.below(n + 1)]).collect());
        }
        _ => b.ini = r.below(b.n()),
    }
    let mut b = permute(r, &b);
    if r.pct(60) {
        b = permute_alphabet(r, &b);
    }
    if r.pct(50) {
        b = rename(r, &b);
    }
    if r.pct(10) {
        b = other_alphabet(r, &b);
    }
    b
}
pub fn relative_nfa(r: &mut Rng, a: &A) -> A {
    let mut b = a.clone();
    if r.pct(40) {
        let e = r.range(1, 2 + a.n() / 2);
        b = split(r, &b, e);
    }
    match r.below(6) {
        0 | 1 => {
            let e = r.below(4);
            b = split(r, &b, e)
        }
        2 => {
            let q = r.below(b.n());
            b.acc[q] = !b.acc[q];
        }
        3 if !b.al.is_empty() => {
            let q = r.below(b.n());
            let c = r.below(b.al.len());
            let t = r.below(b.n());
            if !b.tr[q][c].contains(&t) {
                b.tr[q][c].push(t);
            } else {
                b.tr[q][c].retain(|x| *x != t);
            }
        }
        4 => {
            let q = r.below(b.n());
            let t = r.below(b.n());
            if !b.ep[q].contains(&t) {
                b.ep[q].push(t);
            } else {
                b.ep[q].retain(|x| *x != t);
            }
        }
        _ => {
            // put an epsilon move in front of the initial state
            let n = b.n();
            b.nm.push(format!("u{n}"));
            b.acc.push(false);
            b.ep.push(vec![b.ini]);
            b.tr.push(vec![vec![]; b.al.len()]);
            b.ini = n;
        }
    }
    let mut b = permute(r, &b);
    if r.pct(60) {
        b = permute_alphabet(r, &b);
    }
    if r.pct(50) {
        b = rename(r, &b);
    }
    if r.pct(10) {
        b = other_alphabet(r, &b);
    }
    b
}

/// Replace, add or drop one symbol, or replace one by a symbol that is written alike.
pub fn other_alphabet(r: &mut Rng, a: &A) -> A {
    let mut b = a.clone();
    let k = b.al.len();
    match r.below(5) {
        3 | 4 if k > 0 => {
            let i = r.below(k);
            let old = b.al[i].clone();
            let next = b.al[(i + 1) % k].clone();
            let mut cs: Vec<char> = old.chars().collect();
            let new = match r.below(6) {
                0 => format!("{old}{next}"),
                1 => format!("{next}{old}"),
                2 => format!("{old}\u{301}"),
                3 => old.to_uppercase(),
                4 if cs.len() > 1 => {
                    cs.pop();
                    cs.into_iter().collect()
                }
                _ => format!("{old}{old}"),
            };
            if !b.al.contains(&new) && new != "eps" {
                b.al[i] = new;
            } else {
                b.al[i] = "new".into();
            }
        }
        0 if k > 0 => {
            let i = r.below(k);
            b.al[i] = "new".into();
        }
        1 if k > 1 => {
            let i = r.below(k);
            b.al.remove(i);
            for row in b.tr.iter_mut() {
                row.remove(i);
            }
        }
        _ => {
            let n = b.n();
            b.al.push("new".into());
            for q in 0..n {
                let t = r.below(n);
                b.tr[q].push(vec![t]);
            }
        }
    }
    b
}

/// A chain of epsilon moves through most of the states, from the initial state to an accepting one, with few other
/// moves: closures are as long as they get.
pub fn eps_chain(r: &mut Rng, n: usize, k: usize) -> A {
    let al = syms(r, k);
    let mut a = nfa(r, 2, al, true);
    let k = a.al.len();
    a.nm = names(r, n);
    a.ini = 0;
    a.acc = vec![false; n];
    a.tr = vec![vec![vec![]; k]; n];
    a.ep = (0..n).map(|q| if q + 1 < n { vec![q + 1] } else { vec![] }).collect();
    if r.pct(25) {
        a.ep[n - 1] = vec![r.below(n)];
    }
    a.acc[n - 1] = r.pct(70);
    for _ in 0..r.below(4) {
        if k > 0 {
            let (s, x, t) = (r.below(n), r.below(k), r.below(n));
            if !a.tr[s][x].contains(&t) {
                a.tr[s][x].push(t);
            }
        }
    }
    if r.pct(40) {
        // a move on a symbol out of the far end, and sometimes a gap it has to cross
        let x = r.below(k.max(1));
        if k > 0 {
            let t = r.below(n);
            a.tr[n - 1][x] = vec![t];
            if r.pct(50) {
                let m = r.below(n - 1);
                a.ep[m] = vec![];
                a.tr[m][x] = vec![m + 1];
            }
        }
    }
    permute(r, &a)
}

/// A word over the alphabet, sometimes with foreign symbols.
pub fn word(r: &mut Rng, al: &[String], maxlen: usize, foreign: usize) -> Vec<String> {
    let l = r.below(maxlen + 1);
    (0..l)
        .map(|_| {
            if al.is_empty() || r.pct(foreign) {
                match r.below(4) {
                    0 => "?".to_string(),
                    1 => String::new(),
                    2 if !al.is_empty() => format!("{0}{0}", r.pick(al)),
                    _ => "zz".to_string(),
                }
            } else {
                r.pick(al).clone()
            }
        })
        .collect()
}
