//! Suites over the core library: C01..C11, C15, C25.
use crate::gen::{self, Rng};
use crate::model::*;
use crate::rec;
use crate::Ctx;
use dandy::dfa::eval::DfaEvaluator;
use dandy::dfa::Dfa;
use dandy::nfa::eval::NfaEvaluator;
use dandy::nfa::Nfa;
use serde_json::{json, Value};
use unicode_segmentation::UnicodeSegmentation;

fn gr(s: &str) -> Vec<String> {
    s.graphemes(true).map(|g| g.to_string()).collect()
}
fn refs(w: &[String]) -> Vec<&str> {
    w.iter().map(|s| s.as_str()).collect()
}

/// Inputs of a suite: those generated from the specification, then seeded random ones.
pub fn dfas(c: &mut Ctx, small: usize, medium: usize) -> Vec<(String, A)> {
    let mut v = vec![];
    let mut i = 0;
    for a in c.gen.iter().filter(|a| a.dfa) {
        v.push((format!("spec/{i}"), a.clone()));
        i += 1;
    }
    for i in 0..small {
        v.push((format!("small/{i}"), gen::dfa_small(&mut c.rng, 6, 3)));
    }
    for i in 0..medium {
        let n = c.rng.range(7, 24);
        let k = c.rng.range(1, 4);
        let al = gen::syms(&mut c.rng, k);
        let mut a = gen::dfa(&mut c.rng, n, al);
        if c.rng.pct(40) {
            let small = gen::dfa_small(&mut c.rng, 5, 3);
            a = gen::split(&mut c.rng, &small, 12);
        }
        v.push((format!("medium/{i}"), a));
    }
    for i in 0..c.big(3) {
        let (n, k) = (c.rng.range(2, 4), many(&mut c.rng));
        let al = gen::syms(&mut c.rng, k);
        v.push((format!("wide/{i}"), gen::dfa(&mut c.rng, n, al)));
    }
    for i in 0..c.big(4) {
        let (n, k) = (c.rng.range(3, 5), *c.rng.pick(&[35usize, 66, 130]));
        v.push((format!("needle/{i}"), gen::needle(&mut c.rng, n, k)));
    }
    v
}
/// The size of an alphabet of many symbols.
fn many(r: &mut Rng) -> usize {
    *r.pick(&[9usize, 17, 33, 66, 130, 260])
}
pub fn nfas(c: &mut Ctx, small: usize, medium: usize, eps: bool) -> Vec<(String, A)> {
    let mut v = vec![];
    let mut i = 0;
    for a in c.gen.iter().filter(|a| !a.dfa && (eps || !a.has_eps())) {
        v.push((format!("spec/{i}"), a.clone()));
        i += 1;
    }
    for i in 0..small {
        let e = eps && c.rng.pct(75);
        v.push((format!("small/{i}"), gen::nfa_small(&mut c.rng, 6, 3, e)));
    }
    for i in 0..medium {
        let n = c.rng.range(6, 12);
        let k = c.rng.range(1, 3);
        let al = gen::syms(&mut c.rng, k);
        let e = eps && c.rng.pct(75);
        v.push((format!("medium/{i}"), gen::nfa(&mut c.rng, n, al, e)));
    }
    for i in 0..if eps { c.reps(12) } else { 0 } {
        let n = c.rng.range(4, 16);
        let k = c.rng.range(1, 2);
        v.push((format!("chain/{i}"), gen::eps_chain(&mut c.rng, n, k)));
    }
    for i in 0..c.big(3) {
        let (n, k) = (c.rng.range(2, 4), many(&mut c.rng));
        let al = gen::syms(&mut c.rng, k);
        let e = eps && c.rng.pct(75);
        v.push((format!("wide/{i}"), gen::nfa(&mut c.rng, n, al, e)));
    }
    for i in 0..c.big(3) {
        let (n, k) = (c.rng.range(3, 5), *c.rng.pick(&[35usize, 66, 130]));
        v.push((format!("needle/{i}"), gen::needle_nfa(&mut c.rng, n, k)));
    }
    v
}
/// DFAs without any symbol cannot be written down; they come from NFAs that have only epsilon moves.
fn empty_alphabet_dfa(r: &mut Rng) -> Option<Dfa> {
    let n = r.range(1, 4);
    let a = gen::nfa(r, n, vec![], true);
    let nfa = a.real_nfa()?;
    rec::quiet(|| nfa.to_dfa())
}

/// Start a trace holding real DFAs.
fn with_dfas(id: &str, ds: &[Option<Dfa>]) -> bool {
    rec::begin(id.to_string());
    for d in ds {
        match d {
            Some(d) => rec::note(json!({"op": "load", "v": odfa(d)})),
            None => {
                rec::drop_trace();
                return false;
            }
        }
    }
    true
}
fn with_nfas(id: &str, ds: &[Option<Nfa>]) -> bool {
    rec::begin(id.to_string());
    for d in ds {
        match d {
            Some(d) => rec::note(json!({"op": "load", "v": onfa(d)})),
            None => {
                rec::drop_trace();
                return false;
            }
        }
    }
    true
}

// ---------------------------------------------------------------- C01 / C02

fn qd(e: &DfaEvaluator) -> Value {
    json!({
        "acc": e.is_accepting(),
        "cur": e.current_state().map(|s| vec![s.name().to_string()]).unwrap_or_default(),
        "idx": e.current_state_idx() + 1,
    })
}
fn qn(e: &NfaEvaluator) -> Value {
    let mut names: Vec<String> = e.current_states().iter().map(|s| s.name().to_string()).collect();
    names.sort();
    json!({
        "acc": e.is_accepting(),
        "cur": names,
        "idx": ints(e.current_states_idx().iter()),
    })
}

/// A history of evaluator operations; `plan` comes from the specification's evaluator model or is random.
/// Each step: (evaluator, kind, word) with kind 0 = step, 1 = step_multiple, 2 = step_all, 3 = query.
type Plan = Vec<(usize, usize, Vec<usize>)>;

fn random_plan(r: &mut Rng, k: usize, len: usize) -> Plan {
    let mut n = 1;
    let mut p = vec![];
    let foreign = *r.pick(&[0usize, 0, 5, 15]);
    for _ in 0..len {
        let e = r.below(n);
        let kind = *r.pick(&[0, 0, 0, 1, 1, 2, 3]);
        let sym = |r: &mut Rng| if k == 0 || r.pct(foreign) { k } else { r.below(k) };
        let w: Vec<usize> = match kind {
            0 => vec![sym(r)],
            1 => {
                let l = r.below(5);
                (0..l).map(|_| sym(r)).collect()
            }
            _ => vec![],
        };
        if kind == 2 {
            if n + k > 12 {
                continue;
            }
            n += k;
        }
        p.push((e, kind, w));
    }
    p
}

fn sym_of(r: &mut Rng, al: &[String], i: usize) -> String {
    if i < al.len() {
        al[i].clone()
    } else {
        let cand = ["?", "", "zz", "\u{3b5}", "A", " "];
        let mut s = r.pick(&cand).to_string();
        if r.pct(40) && !al.is_empty() {
            s = format!("{}{}", r.pick(al), r.pick(al));
        }
        while al.contains(&s) {
            s.push('?');
        }
        s
    }
}

fn run_plan_dfa(r: &mut Rng, d: &Dfa, plan: &Plan) {
    let al: Vec<String> = d.alphabet().iter().map(|s| s.to_string()).collect();
    let Some(e0) = rec::call(json!({"op": "eval", "h": 1}), || {
        let e = d.evaluator();
        (ok(qd(&e)), e)
    }) else {
        return;
    };
    let mut evs = vec![e0];
    for (e, kind, w) in plan {
        let e = e % evs.len();
        let word: Vec<String> = w.iter().map(|i| sym_of(r, &al, *i)).collect();
        match kind {
            0 => {
                let mut ev = evs[e].clone();
                let got = rec::call(json!({"op": "step", "e": e + 1, "w": word}), || {
                    let s = ev.step(&word[0]).map(|s| s.name().to_string());
                    (json!({"k": "ok", "v": qd(&ev), "some": s.is_some(), "st": s.into_iter().collect::<Vec<_>>()}), ())
                });
                if got.is_none() {
                    return;
                }
                evs[e] = ev;
            }
            1 => {
                let mut ev = evs[e].clone();
                let got = rec::call(json!({"op": "step_multiple", "e": e + 1, "w": word}), || {
                    let s = ev.step_multiple(&refs(&word)).map(|s| s.name().to_string());
                    (json!({"k": "ok", "v": qd(&ev), "some": s.is_some(), "st": s.into_iter().collect::<Vec<_>>()}), ())
                });
                if got.is_none() {
                    return;
                }
                evs[e] = ev;
            }
            2 => {
                let Some(more) = rec::call(json!({"op": "step_all", "e": e + 1}), || {
                    let l = evs[e].step_all();
                    (ok(l.iter().map(qd).collect()), l)
                }) else {
                    return;
                };
                evs.extend(more);
            }
            _ => {
                if rec::call(json!({"op": "query", "e": e + 1}), || (ok(qd(&evs[e])), ())).is_none() {
                    return;
                }
            }
        }
    }
}
fn run_plan_nfa(r: &mut Rng, d: &Nfa, plan: &Plan) {
    let al: Vec<String> = d.alphabet().iter().map(|s| s.to_string()).collect();
    let Some(e0) = rec::call(json!({"op": "eval", "h": 1}), || {
        let e = d.evaluator();
        (ok(qn(&e)), e)
    }) else {
        return;
    };
    let mut evs = vec![e0];
    for (e, kind, w) in plan {
        let e = e % evs.len();
        let word: Vec<String> = w.iter().map(|i| sym_of(r, &al, *i)).collect();
        match kind {
            0 => {
                let mut ev = evs[e].clone();
                let got = rec::call(json!({"op": "step", "e": e + 1, "w": word}), || {
                    let s = ev.step(&word[0]).is_some();
                    (json!({"k": "ok", "v": qn(&ev), "some": s}), ())
                });
                if got.is_none() {
                    return;
                }
                evs[e] = ev;
            }
            1 => {
                let mut ev = evs[e].clone();
                let got = rec::call(json!({"op": "step_multiple", "e": e + 1, "w": word}), || {
                    let s = ev.step_multiple(&refs(&word)).is_some();
                    (json!({"k": "ok", "v": qn(&ev), "some": s}), ())
                });
                if got.is_none() {
                    return;
                }
                evs[e] = ev;
            }
            2 => {
                let Some(more) = rec::call(json!({"op": "step_all", "e": e + 1}), || {
                    let l = evs[e].step_all();
                    (ok(l.iter().map(qn).collect()), l)
                }) else {
                    return;
                };
                evs.extend(more);
            }
            _ => {
                if rec::call(json!({"op": "query", "e": e + 1}), || (ok(qn(&evs[e])), ())).is_none() {
                    return;
                }
            }
        }
    }
}

fn accept_events(r: &mut Rng, h: usize, al: &[String], n: usize, maxlen: usize, f: &dyn Fn(&[&str]) -> bool, g: &dyn Fn(&str) -> bool, only: &dyn Fn() -> bool) {
    let gc: Vec<usize> = al.iter().map(|s| gr(s).len()).collect();
    rec::call(json!({"op": "graphemes_only", "h": h, "gc": gc}), || (ok(json!(only())), ()));
    for i in 0..n {
        let foreign = *r.pick(&[0usize, 0, 10, 30]);
        let w = if i == 0 { vec![] } else { gen::word(r, al, maxlen, foreign) };
        rec::call(json!({"op": "accepts", "h": h, "w": w}), || (ok(json!(f(&refs(&w)))), ()));
        let s: String = w.concat();
        rec::call(json!({"op": "accepts_graphemes", "h": h, "w": gr(&s)}), || (ok(json!(g(&s))), ()));
    }
}

pub fn c01(c: &mut Ctx) {
    let plans = c.plans.clone();
    let (s, m) = c.size(900, 80);
    let ins = dfas(c, s, m);
    for (i, (id, a)) in ins.iter().enumerate() {
        let d = if i % 40 == 39 { empty_alphabet_dfa(&mut c.rng) } else { a.real_dfa() };
        if !with_dfas(id, &[d.clone()]) {
            continue;
        }
        let d = d.unwrap();
        let al: Vec<String> = d.alphabet().iter().map(|s| s.to_string()).collect();
        accept_events(&mut c.rng, 1, &al, 4, 12, &|w| d.accepts(w), &|s| d.accepts_graphemes(s), &|| d.graphemes_only());
        let len = c.rng.range(4, 14);
        let plan = random_plan(&mut c.rng, al.len(), len);
        run_plan_dfa(&mut c.rng, &d, &plan);
        rec::end();
    }
    // every behaviour of the evaluator model, on a few automata
    for (j, p) in plans.iter().enumerate() {
        let k = c.rng.range(2, 3);
        let n = c.rng.range(1, 4);
        let al = gen::syms(&mut c.rng, k);
        let a = gen::dfa(&mut c.rng, n, al);
        let d = a.real_dfa();
        if !with_dfas(&format!("plan/{j}"), &[d.clone()]) {
            continue;
        }
        run_plan_dfa(&mut c.rng, &d.unwrap(), p);
        rec::end();
    }
    // long words on big automata
    for j in 0..c.big(3) {
        let n = *c.rng.pick(&[70usize, 150, 300]);
        let al = gen::syms(&mut c.rng, 2);
        let a = gen::dfa(&mut c.rng, n, al);
        let d = a.real_dfa();
        if !with_dfas(&format!("big/{j}"), &[d.clone()]) {
            continue;
        }
        let d = d.unwrap();
        accept_events(&mut c.rng, 1, &a.al, 4, 400, &|w| d.accepts(w), &|s| d.accepts_graphemes(s), &|| d.graphemes_only());
        rec::end();
    }
}

pub fn c02(c: &mut Ctx) {
    let plans = c.plans.clone();
    let (s, m) = c.size(700, 60);
    let ins = nfas(c, s, m, true);
    for (id, a) in ins.iter() {
        let d = a.real_nfa();
        if !with_nfas(id, &[d.clone()]) {
            continue;
        }
        let d = d.unwrap();
        accept_events(&mut c.rng, 1, &a.al, 3, 10, &|w| d.accepts(w), &|s| d.accepts_graphemes(s), &|| d.graphemes_only());
        let len = c.rng.range(3, 10);
        let plan = random_plan(&mut c.rng, a.al.len(), len);
        run_plan_nfa(&mut c.rng, &d, &plan);
        rec::end();
    }
    for (j, p) in plans.iter().enumerate() {
        let k = c.rng.range(2, 3);
        let n = c.rng.range(1, 4);
        let al = gen::syms(&mut c.rng, k);
        let a = gen::nfa(&mut c.rng, n, al, true);
        let d = a.real_nfa();
        if !with_nfas(&format!("plan/{j}"), &[d.clone()]) {
            continue;
        }
        run_plan_nfa(&mut c.rng, &d.unwrap(), p);
        rec::end();
    }
    for j in 0..c.big(3) {
        let n = *c.rng.pick(&[40usize, 70, 140]);
        let al = gen::syms(&mut c.rng, 2);
        let a = gen::nfa(&mut c.rng, n, al, true);
        let d = a.real_nfa();
        if !with_nfas(&format!("big/{j}"), &[d.clone()]) {
            continue;
        }
        let d = d.unwrap();
        accept_events(&mut c.rng, 1, &a.al, 3, 60, &|w| d.accepts(w), &|s| d.accepts_graphemes(s), &|| d.graphemes_only());
        rec::end();
    }
}

pub fn c25(c: &mut Ctx) {
    let (s, m) = c.size(300, 60);
    let mut ins = nfas(c, s, m, true);
    for i in 0..c.big(4) {
        // long epsilon chains and cycles
        let n = *c.rng.pick(&[40usize, 90, 200]);
        let mut a = gen::nfa(&mut c.rng, 2, vec!["a".into()], true);
        a.nm = gen::names(&mut c.rng, n);
        a.acc = vec![false; n];
        a.tr = vec![vec![vec![]]; n];
        let wrap = c.rng.pct(50);
        a.ep = (0..n).map(|q| if q + 1 < n { vec![q + 1] } else if wrap { vec![0] } else { vec![] }).collect();
        a.ini = 0;
        let a = gen::permute(&mut c.rng, &a);
        ins.push((format!("chain/{i}"), a));
    }
    for (id, a) in ins.iter() {
        let d = a.real_nfa();
        if !with_nfas(id, &[d.clone()]) {
            continue;
        }
        let d = d.unwrap();
        let mut ss: Vec<usize> = (0..d.states().len().min(12)).collect();
        if d.states().len() > 12 {
            ss.push(d.states().len() - 1);
        }
        ss.push(d.states().len());
        ss.push(d.states().len() + 1 + c.rng.below(100));
        ss.push(usize::MAX);
        for s in ss {
            let s1 = if s == usize::MAX { 1_000_000_000 } else { s + 1 };
            rec::call(json!({"op": "closure", "h": 1, "s": s1}), || {
                (d.closure(s).map_or(none(), |v| ok(json!(ints(v.iter())))), ())
            });
        }
        rec::call(json!({"op": "has_eps", "h": 1}), || (ok(json!(d.has_epsilon_moves())), ()));
        rec::end();
    }
}

// ---------------------------------------------------------------- C03, C04

pub fn c03(c: &mut Ctx) {
    let (s, m) = c.size(1500, 100);
    let mut ins = nfas(c, s, m, true);
    for i in 0..c.big(3) {
        // exponential blow-up: the symbol n places from the end
        let n = c.rng.range(5, 7);
        let mut tr = vec![vec![vec![]; 2]; n];
        tr[0][0] = vec![0, 1];
        tr[0][1] = vec![0];
        for q in 1..n - 1 {
            tr[q][0] = vec![q + 1];
            tr[q][1] = vec![q + 1];
        }
        let a = A {
            dfa: false,
            al: vec!["a".into(), "b".into()],
            nm: gen::names(&mut c.rng, n),
            ini: 0,
            acc: (0..n).map(|q| q == n - 1).collect(),
            tr,
            ep: vec![vec![]; n],
        };
        let a = gen::permute(&mut c.rng, &a);
        ins.push((format!("blowup/{i}"), a));
    }
    for i in 0..c.big(6) {
        let n = *c.rng.pick(&[66usize, 70, 130, 140, 270]);
        let (k, e) = (c.rng.range(1, 2), c.rng.pct(50));
        ins.push((format!("big/{i}"), gen::big_nfa(&mut c.rng, n, k, e, 400)));
    }
    for (id, a) in ins.iter() {
        let d = a.real_nfa();
        if !with_nfas(id, &[d.clone()]) {
            continue;
        }
        let d = d.unwrap();
        rec::call(json!({"op": "to_dfa", "h": 1}), || (ok(odfa(&d.to_dfa())), ()));
        rec::end();
    }
}

pub fn c04(c: &mut Ctx) {
    let (s, m) = c.size(400, 100);
    let mut ins = dfas(c, s, m);
    for i in 0..c.big(3) {
        let n = *c.rng.pick(&[60usize, 130, 270]);
        let al = gen::syms(&mut c.rng, 2);
        ins.push((format!("big/{i}"), gen::dfa(&mut c.rng, n, al)));
    }
    for (i, (id, a)) in ins.iter().enumerate() {
        let d = if i % 50 == 49 { empty_alphabet_dfa(&mut c.rng) } else { a.real_dfa() };
        if !with_dfas(id, &[d.clone()]) {
            continue;
        }
        let d = d.unwrap();
        let via_into = c.rng.pct(50);
        let n = rec::call(json!({"op": "to_nfa", "h": 1}), || {
            let n: Nfa = if via_into { d.clone().into() } else { d.clone().to_nfa() };
            (ok(onfa(&n)), n)
        });
        if let Some(n) = n {
            if a.n() <= 60 {
                rec::call(json!({"op": "back_to_dfa", "h": 2}), || (ok(odfa(&n.to_dfa())), ()));
            }
        }
        rec::end();
    }
}

// ---------------------------------------------------------------- C05

fn classes_json(d: &Dfa) -> Value {
    let mut v: Vec<Vec<usize>> = d.state_equivalence_classes_idx().iter().map(|s| ints(s.iter())).collect();
    v.sort();
    let mut w: Vec<Vec<String>> = d
        .state_equivalence_classes()
        .iter()
        .map(|s| s.iter().map(|q| q.name().to_string()).collect())
        .collect();
    w.sort();
    json!({"k": "ok", "v": v, "names": w})
}

pub fn c05(c: &mut Ctx) {
    let (s, m) = c.size(900, 150);
    let mut ins = dfas(c, s, m);
    for i in 0..c.big(2) {
        let n = *c.rng.pick(&[40usize, 66]);
        let al = gen::syms(&mut c.rng, 2);
        ins.push((format!("big/{i}"), gen::dfa(&mut c.rng, n, al)));
    }
    for i in 0..c.big(2) {
        let n = *c.rng.pick(&[66usize, 130, 270]);
        let mut a = gen::big_dfa(&mut c.rng, n, 2);
        if c.rng.pct(50) {
            // a counter with equivalent states far apart
            for q in 0..n {
                a.acc[q] = q % (n / 2) == 0;
                a.tr[q][1][0] = q;
                a.tr[q][0][0] = (q + 1) % n;
            }
        }
        ins.push((format!("huge/{i}"), a));
    }
    // slow refinement: long chains that are only told apart at the end
    for i in 0..c.big(6) {
        let n = c.rng.range(8, 20);
        let mut a = gen::dfa(&mut c.rng, n, vec!["a".into(), "b".into()]);
        for q in 0..n {
            a.tr[q][0][0] = (q + 1).min(n - 1);
            a.tr[q][1][0] = if c.rng.pct(50) { q } else { c.rng.below(n) };
            a.acc[q] = q == n - 1;
        }
        a.ini = 0;
        let e = c.rng.below(6);
        let a = gen::split(&mut c.rng, &a, e);
        ins.push((format!("slow/{i}"), a));
    }
    for (i, (id, a)) in ins.iter().enumerate() {
        let d = if i % 40 == 39 { empty_alphabet_dfa(&mut c.rng) } else { a.real_dfa() };
        // the order hash sets are walked in differs from call to call: a few repetitions
        for rep in 0..c.reps(if a.n() > 3 { 3 } else { 2 }) {
            if !with_dfas(&format!("{id}/{rep}"), &[d.clone()]) {
                continue;
            }
            let d = d.clone().unwrap();
            rec::call(json!({"op": "classes", "h": 1}), || (classes_json(&d), ()));
            // the operation on a copy: the loaded one stays for the next operation
            rec::call(json!({"op": "minimize", "h": 1}), || {
                let mut x = d.clone();
                x.minimize();
                (ok(odfa(&x)), ())
            });
            rec::call(json!({"op": "merge", "h": 1}), || {
                let mut x = d.clone();
                x.merge_nondistinguishable_states();
                (ok(odfa(&x)), ())
            });
            rec::end();
        }
    }
}

// ---------------------------------------------------------------- C06, C07

/// Two DFAs of which at least one has many states, while few pairs of states are reachable together.
fn big_pair(c: &mut Ctx, i: usize) -> (String, A, A) {
    let n = *c.rng.pick(&[66usize, 130, 260, 300]);
    let k = c.rng.range(1, 2);
    let a = gen::big_dfa(&mut c.rng, n, k);
    let mut b = if c.rng.pct(30) {
        a.clone()
    } else {
        let m = c.rng.range(1, 3);
        gen::dfa(&mut c.rng, m, a.al.clone())
    };
    if b.n() == n && c.rng.pct(50) {
        let q = c.rng.below(n);
        b.acc[q] = !b.acc[q];
    }
    let b = gen::permute_alphabet(&mut c.rng, &b);
    if c.rng.pct(50) {
        (format!("big/{i}"), a, b)
    } else {
        (format!("big/{i}"), b, a)
    }
}
const OPS: [&str; 4] = ["union", "intersection", "difference", "symdiff"];

pub fn c06(c: &mut Ctx) {
    let (s, m) = c.size(1500, 40);
    let mut pairs = vec![];
    let gens: Vec<A> = c.gen.iter().filter(|a| a.dfa).cloned().collect();
    for i in 0..gens.len().min(c.reps(300)) {
        let x = c.rng.pick(&gens).clone();
        let y = c.rng.pick(&gens).clone();
        pairs.push((format!("spec/{i}"), x, y));
    }
    for i in 0..s {
        let a = gen::dfa_small(&mut c.rng, 5, 3);
        let b = if c.rng.pct(50) {
            gen::relative_dfa(&mut c.rng, &a)
        } else {
            let n = c.rng.range(1, 7);
            let b = gen::dfa(&mut c.rng, n, a.al.clone());
            let b = gen::permute_alphabet(&mut c.rng, &b);
            if c.rng.pct(12) {
                gen::other_alphabet(&mut c.rng, &b)
            } else {
                b
            }
        };
        pairs.push((format!("small/{i}"), a, b));
    }
    for i in 0..m {
        let n = c.rng.range(6, 12);
        let k = c.rng.range(2, 4);
        let al = gen::syms(&mut c.rng, k);
        let a = gen::dfa(&mut c.rng, n, al.clone());
        let n2 = c.rng.range(5, 10);
        let b = gen::dfa(&mut c.rng, n2, al);
        let b = gen::permute_alphabet(&mut c.rng, &b);
        pairs.push((format!("medium/{i}"), a, b));
    }
    for i in 0..c.big(6) {
        // alphabets of many symbols, listed in two orders
        let k = if i < 4 { c.rng.range(8, 20) } else { many(&mut c.rng) };
        let al = gen::syms(&mut c.rng, k);
        let a = gen::dfa(&mut c.rng, 3, al.clone());
        let b = gen::dfa(&mut c.rng, 3, al);
        let b = gen::permute_alphabet(&mut c.rng, &b);
        pairs.push((format!("wide/{i}"), a, b));
    }
    for i in 0..300 * c.reps(1) {
        // four to six symbols, listed in two orders
        let k = c.rng.range(4, 6);
        let al = gen::syms(&mut c.rng, k);
        let n = c.rng.range(1, 3);
        let a = gen::dfa(&mut c.rng, n, al.clone());
        let n = c.rng.range(1, 3);
        let b = gen::dfa(&mut c.rng, n, al);
        let b = gen::permute_alphabet(&mut c.rng, &b);
        pairs.push((format!("order/{i}"), a, b));
    }
    for i in 0..c.big(6) {
        pairs.push(big_pair(c, i));
    }
    for i in 0..c.big(8) {
        let (n, m) = (*c.rng.pick(&[65usize, 70, 101, 131]), c.rng.range(2, 3));
        let (a, b) = gen::counters(&mut c.rng, n, m);
        pairs.push((format!("count/{i}"), a, b));
    }
    for (i, (id, a, b)) in pairs.iter().enumerate() {
        let (da, db) = if i % 60 == 59 {
            (empty_alphabet_dfa(&mut c.rng), empty_alphabet_dfa(&mut c.rng))
        } else {
            (a.real_dfa(), b.real_dfa())
        };
        if !with_dfas(id, &[da.clone(), db.clone()]) {
            continue;
        }
        let (da, db) = (da.unwrap(), db.unwrap());
        for (j, op) in OPS.iter().enumerate() {
            if j > 0 && a.n() * b.n() > 40 && c.rng.pct(60) {
                continue;
            }
            rec::call(json!({"op": "dfa_op", "h": 1, "h2": 2, "name": op}), || {
                let r = match j {
                    0 => da.union(&db),
                    1 => da.intersection(&db),
                    2 => da.difference(&db),
                    _ => da.symmetric_difference(&db),
                };
                (r.map_or(none(), |d| ok(odfa(&d))), ())
            });
        }
        let f: Vec<bool> = (0..4).map(|_| c.rng.pct(50)).collect();
        rec::call(json!({"op": "dfa_product", "h": 1, "h2": 2, "f": f}), || {
            let r = da.product_construction(&db, |x, y| f[2 * x.is_accepting() as usize + y.is_accepting() as usize]);
            (r.map_or(none(), |d| ok(odfa(&d))), ())
        });
        rec::call(json!({"op": "same", "h": 1}), || (ok(odfa(&da)), ()));
        rec::call(json!({"op": "same", "h": 2}), || (ok(odfa(&db)), ()));
        let mut x = da.clone();
        rec::call(json!({"op": "invert", "h": 1}), || {
            x.invert();
            (ok(odfa(&x)), ())
        });
        rec::end();
    }
    // chains of operations: the names and alphabets of results meet again
    for i in 0..c.reps(40) {
        let k = c.rng.range(1, 3);
        let al = gen::syms(&mut c.rng, k);
        let mut objs = vec![];
        for _ in 0..3 {
            let n = c.rng.range(1, 3);
            let a = gen::dfa(&mut c.rng, n, al.clone());
            let a = gen::permute_alphabet(&mut c.rng, &a);
            objs.push(a.real_dfa());
        }
        if !with_dfas(&format!("chain/{i}"), &objs) {
            continue;
        }
        let mut objs: Vec<Dfa> = objs.into_iter().flatten().collect();
        for _ in 0..4 {
            let (x, y) = (c.rng.below(objs.len()), c.rng.below(objs.len()));
            if objs[x].states().len() * objs[y].states().len() > 80 {
                continue;
            }
            let j = c.rng.below(4);
            let got = rec::call(json!({"op": "dfa_op", "h": x + 1, "h2": y + 1, "name": OPS[j], "keep": true}), || {
                let r = match j {
                    0 => objs[x].union(&objs[y]),
                    1 => objs[x].intersection(&objs[y]),
                    2 => objs[x].difference(&objs[y]),
                    _ => objs[x].symmetric_difference(&objs[y]),
                };
                (r.as_ref().map_or(none(), |d| ok(odfa(d))), r)
            });
            match got.flatten() {
                Some(d) => objs.push(d),
                None => break,
            }
        }
        rec::end();
    }
}

pub fn c07(c: &mut Ctx) {
    let (s, m) = c.size(1400, 40);
    let mut pairs = vec![];
    let gens: Vec<A> = c.gen.iter().filter(|a| !a.dfa).cloned().collect();
    for i in 0..gens.len().min(c.reps(300)) {
        let x = c.rng.pick(&gens).clone();
        let y = c.rng.pick(&gens).clone();
        pairs.push((format!("spec/{i}"), x, y));
    }
    for i in 0..s {
        let e = c.rng.pct(60);
        let a = gen::nfa_small(&mut c.rng, 4, 3, e);
        let b = if c.rng.pct(40) {
            gen::relative_nfa(&mut c.rng, &a)
        } else {
            let n = c.rng.range(1, 4);
            let e = c.rng.pct(60);
            let b = gen::nfa(&mut c.rng, n, a.al.clone(), e);
            let b = gen::permute_alphabet(&mut c.rng, &b);
            if c.rng.pct(12) {
                gen::other_alphabet(&mut c.rng, &b)
            } else {
                b
            }
        };
        pairs.push((format!("small/{i}"), a, b));
    }
    for i in 0..m {
        let n = c.rng.range(4, 7);
        let k = c.rng.range(2, 3);
        let al = gen::syms(&mut c.rng, k);
        let a = gen::nfa(&mut c.rng, n, al.clone(), true);
        let n2 = c.rng.range(3, 6);
        let b = gen::nfa(&mut c.rng, n2, al, true);
        let b = gen::permute_alphabet(&mut c.rng, &b);
        pairs.push((format!("medium/{i}"), a, b));
    }
    for i in 0..c.big(6) {
        let k = if i < 4 { c.rng.range(8, 20) } else { many(&mut c.rng) };
        let al = gen::syms(&mut c.rng, k);
        let a = gen::nfa(&mut c.rng, 2, al.clone(), true);
        let b = gen::nfa(&mut c.rng, 3, al, true);
        let b = gen::permute_alphabet(&mut c.rng, &b);
        pairs.push((format!("wide/{i}"), a, b));
    }
    for i in 0..200 * c.reps(1) {
        let k = c.rng.range(4, 6);
        let al = gen::syms(&mut c.rng, k);
        let n = c.rng.range(1, 3);
        let a = gen::nfa(&mut c.rng, n, al.clone(), i % 2 == 0);
        let n = c.rng.range(1, 3);
        let b = gen::nfa(&mut c.rng, n, al, i % 3 == 0);
        let b = gen::permute_alphabet(&mut c.rng, &b);
        pairs.push((format!("order/{i}"), a, b));
    }
    for i in 0..c.big(4) {
        let n = *c.rng.pick(&[66usize, 130, 260]);
        let k = c.rng.range(1, 2);
        let a = gen::big_nfa(&mut c.rng, n, k, i % 2 == 0, 120);
        let b = gen::nfa(&mut c.rng, 2, a.al.clone(), true);
        let b = gen::permute_alphabet(&mut c.rng, &b);
        pairs.push(if c.rng.pct(50) { (format!("big/{i}"), a, b) } else { (format!("big/{i}"), b, a) });
    }
    for i in 0..c.big(6) {
        let (n, m) = (*c.rng.pick(&[65usize, 70, 101, 131]), c.rng.range(2, 3));
        let (mut a, mut b) = gen::counters(&mut c.rng, n, m);
        a.dfa = false;
        b.dfa = false;
        pairs.push((format!("count/{i}"), a, b));
    }
    for (id, a, b) in pairs.iter() {
        let (da, db) = (a.real_nfa(), b.real_nfa());
        if !with_nfas(id, &[da.clone(), db.clone()]) {
            continue;
        }
        let (da, db) = (da.unwrap(), db.unwrap());
        rec::call(json!({"op": "nfa_union", "h": 1, "h2": 2}), || match da.clone().union(db.clone()) {
            Ok(n) => (ok(onfa(&n)), ()),
            Err((x, y)) => (json!({"k": "refused", "a": onfa(&x), "b": onfa(&y)}), ()),
        });
        rec::call(json!({"op": "nfa_intersection", "h": 1, "h2": 2}), || {
            (da.intersection(&db).map_or(none(), |n| ok(onfa(&n))), ())
        });
        let conj = c.rng.pct(40);
        rec::call(json!({"op": "nfa_product", "h": 1, "h2": 2, "conj": conj}), || {
            let r = da.product_construction(&db, |x, y| {
                let x = x.map_or(false, |s| s.is_accepting());
                let y = y.map_or(false, |s| s.is_accepting());
                if conj {
                    x && y
                } else {
                    x || y
                }
            });
            (r.map_or(none(), |n| ok(onfa(&n))), ())
        });
        rec::call(json!({"op": "same", "h": 1}), || (ok(onfa(&da)), ()));
        rec::call(json!({"op": "same", "h": 2}), || (ok(onfa(&db)), ()));
        rec::end();
    }
}

// ---------------------------------------------------------------- C08

pub fn c08(c: &mut Ctx) {
    let (s, m) = c.size(2600, 100);
    let dgens: Vec<A> = c.gen.iter().filter(|a| a.dfa).cloned().collect();
    let ngens: Vec<A> = c.gen.iter().filter(|a| !a.dfa).cloned().collect();
    let mut dp = vec![];
    let mut np = vec![];
    for i in 0..c.reps(700).min(dgens.len() * 2) {
        dp.push((format!("spec/{i}"), c.rng.pick(&dgens).clone(), c.rng.pick(&dgens).clone()));
    }
    for i in 0..c.reps(700).min(ngens.len() * 2) {
        np.push((format!("spec/{i}"), c.rng.pick(&ngens).clone(), c.rng.pick(&ngens).clone()));
    }
    for i in 0..s + m {
        let (n, k) = if i < s { (6, 3) } else { (16, 3) };
        let a = gen::dfa_small(&mut c.rng, n, k);
        let b = gen::relative_dfa(&mut c.rng, &a);
        dp.push((format!("rel/{i}"), a, b));
        let e = c.rng.pct(70);
        let a = gen::nfa_small(&mut c.rng, if i < s { 5 } else { 8 }, 3, e);
        let b = gen::relative_nfa(&mut c.rng, &a);
        np.push((format!("rel/{i}"), a, b));
    }
    for i in 0..c.big(6) {
        // equal up to a long word: counters with one accepting state more
        let n = c.rng.range(20, 60);
        let al: Vec<String> = vec!["a".into(), "b".into()];
        let tr: Vec<Vec<Vec<usize>>> = (0..n).map(|q| vec![vec![(q + 1).min(n - 1)], vec![0]]).collect();
        let a = A { dfa: true, al, nm: gen::names(&mut c.rng, n), ini: 0, acc: vec![false; n], tr, ep: vec![vec![]; n] };
        let mut b = a.clone();
        if c.rng.pct(70) {
            b.acc[n - 1] = true;
        }
        let b = gen::permute(&mut c.rng, &b);
        let b = gen::permute_alphabet(&mut c.rng, &b);
        let mut na = a.clone();
        na.dfa = false;
        let mut nb = b.clone();
        nb.dfa = false;
        dp.push((format!("long/{i}"), a, b));
        np.push((format!("long/{i}"), na, nb));
    }
    for i in 0..c.big(8) {
        let k = if i % 3 < 2 { c.rng.range(6, 20) } else { many(&mut c.rng) };
        let al = gen::syms(&mut c.rng, k);
        let a = gen::dfa(&mut c.rng, 3, al);
        let a = if i % 2 == 0 {
            let n = c.rng.range(2, 4);
            gen::needle(&mut c.rng, n, k.max(30))
        } else {
            a
        };
        let b = gen::relative_dfa(&mut c.rng, &a);
        let mut na = a.clone();
        na.dfa = false;
        let mut nb = b.clone();
        nb.dfa = false;
        dp.push((format!("wide/{i}"), a, b));
        np.push((format!("wide/{i}"), na, nb));
    }
    for i in 0..c.big(8) {
        // counters: equivalent only if nothing is ever accepted or everything is
        let (n, m) = (*c.rng.pick(&[65usize, 70, 101, 131]), c.rng.range(2, 3));
        let (mut a, mut b) = gen::counters(&mut c.rng, n, m);
        if c.rng.pct(60) {
            for x in [&mut a, &mut b] {
                x.acc.iter_mut().for_each(|f| *f = false);
            }
            if c.rng.pct(60) {
                let q = c.rng.below(n);
                let x = if a.n() == n { &mut a } else { &mut b };
                x.acc[q] = true;
            }
        }
        let (mut na, mut nb) = (a.clone(), b.clone());
        na.dfa = false;
        nb.dfa = false;
        dp.push((format!("count/{i}"), a, b));
        np.push((format!("count/{i}"), na, nb));
    }
    for i in 0..c.big(8) {
        dp.push(big_pair(c, i));
        let n = *c.rng.pick(&[66usize, 130, 260]);
        let k = c.rng.range(1, 2);
        let a = gen::big_nfa(&mut c.rng, n, k, i % 2 == 0, 300);
        let mut b = a.clone();
        match c.rng.below(3) {
            0 => {
                let q = c.rng.below(n);
                b.acc[q] = !b.acc[q];
            }
            1 => {
                let q = c.rng.below(n);
                let x = c.rng.below(b.al.len());
                b.tr[q][x].clear();
            }
            _ => {}
        }
        let b = gen::permute(&mut c.rng, &b);
        let b = gen::permute_alphabet(&mut c.rng, &b);
        np.push((format!("big/{i}"), a, b));
    }
    for (i, (id, a, b)) in dp.iter().enumerate() {
        let (da, db) = if i % 60 == 59 {
            (empty_alphabet_dfa(&mut c.rng), empty_alphabet_dfa(&mut c.rng))
        } else {
            (a.real_dfa(), b.real_dfa())
        };
        if !with_dfas(&format!("dfa/{id}"), &[da.clone(), db.clone()]) {
            continue;
        }
        let (da, db) = (da.unwrap(), db.unwrap());
        rec::call(json!({"op": "equiv", "h": 1, "h2": 2}), || (ok(json!(da.equivalent_to(&db))), ()));
        rec::call(json!({"op": "equiv", "h": 2, "h2": 1}), || (ok(json!(db.equivalent_to(&da))), ()));
        rec::end();
    }
    for (id, a, b) in np.iter() {
        let (da, db) = (a.real_nfa(), b.real_nfa());
        if !with_nfas(&format!("nfa/{id}"), &[da.clone(), db.clone()]) {
            continue;
        }
        let (da, db) = (da.unwrap(), db.unwrap());
        rec::call(json!({"op": "equiv", "h": 1, "h2": 2}), || (ok(json!(da.equivalent_to(&db))), ()));
        rec::call(json!({"op": "equiv", "h": 2, "h2": 1}), || (ok(json!(db.equivalent_to(&da))), ()));
        rec::end();
    }
}

// ---------------------------------------------------------------- C09, C10

pub fn c09(c: &mut Ctx) {
    let (s, m) = c.size(1500, 120);
    let mut ins = nfas(c, s, m, true);
    for i in 0..c.big(30) {
        // regular expressions bring another family of epsilon shapes
        let e = crate::rx::random_source(&mut c.rng, 3, false);
        let text: String = e.concat();
        if let Some(Ok(rx)) = rec::quiet(|| dandy::parser::regex(&text).map_err(|_| ())) {
            if let Some(n) = rec::quiet(|| rx.to_nfa()) {
                if n.states().len() <= 24 {
                    if let Some(v) = rec::quiet(|| onfa(&n)) {
                        ins.push((format!("regex/{i}"), A::from_json(&v)));
                    }
                }
            }
        }
    }
    for i in 0..c.big(4) {
        let n = *c.rng.pick(&[66usize, 130]);
        let k = c.rng.range(1, 2);
        ins.push((format!("big/{i}"), gen::big_nfa(&mut c.rng, n, k, true, 200)));
    }
    for (id, a) in ins.iter() {
        let d = a.real_nfa();
        for rep in 0..c.reps(2) {
            if !with_nfas(&format!("{id}/{rep}"), &[d.clone()]) {
                continue;
            }
            let d = d.clone().unwrap();
            rec::call(json!({"op": "rm_eps", "h": 1}), || {
                let mut x = d.clone();
                x.remove_epsilon_moves();
                (ok(onfa(&x)), ())
            });
            rec::call(json!({"op": "optimize", "h": 1}), || {
                let mut x = d.clone();
                x.optimize();
                (ok(onfa(&x)), ())
            });
            rec::end();
        }
    }
}

pub fn c10(c: &mut Ctx) {
    let (s, m) = c.size(300, 60);
    let mut ds = dfas(c, s, m);
    let mut ns = nfas(c, s, m, true);
    for i in 0..c.big(4) {
        let n = *c.rng.pick(&[70usize, 140, 280]);
        let mut a = gen::dfa(&mut c.rng, n, vec!["a".into(), "b".into()]);
        // a sparse graph: about half of it unreachable
        for q in 0..n {
            if c.rng.pct(70) {
                for x in 0..2 {
                    a.tr[q][x][0] = if c.rng.pct(50) { q } else { (q * 7 + 3 + x) % n };
                }
            }
        }
        let mut na = a.clone();
        na.dfa = false;
        ds.push((format!("big/{i}"), a));
        ns.push((format!("big/{i}"), na));
    }
    for i in 0..c.big(4) {
        let n = *c.rng.pick(&[70usize, 105, 135, 260]);
        let n = if i == 0 { 260 } else { n };
        let a = gen::chain(&mut c.rng, n);
        let mut na = a.clone();
        na.dfa = false;
        ds.push((format!("chain/{i}"), a));
        ns.push((format!("chain/{i}"), na));
    }
    for (i, (id, a)) in ds.iter().enumerate() {
        let d = if i % 50 == 49 { empty_alphabet_dfa(&mut c.rng) } else { a.real_dfa() };
        if !with_dfas(&format!("dfa/{id}"), &[d.clone()]) {
            continue;
        }
        let d = d.unwrap();
        rec::call(json!({"op": "reach", "h": 1}), || {
            let nm = |v: Vec<&dandy::dfa::DfaState>| v.iter().map(|s| s.name().to_string()).collect::<Vec<_>>();
            (
                json!({"k": "ok", "r": ints(d.reachable_state_idx().iter()), "u": ints(d.unreachable_state_idx().iter()),
                "rn": nm(d.reachable_states()), "un": nm(d.unreachable_states()), "has": d.has_reachable_accepting_state()}),
                (),
            )
        });
        let mut x = d.clone();
        rec::call(json!({"op": "rm_unreach", "h": 1}), || {
            x.remove_unreachable_states();
            (ok(odfa(&x)), ())
        });
        rec::end();
    }
    for (id, a) in ns.iter() {
        let d = a.real_nfa();
        if !with_nfas(&format!("nfa/{id}"), &[d.clone()]) {
            continue;
        }
        let d = d.unwrap();
        rec::call(json!({"op": "reach", "h": 1}), || {
            let nm = |v: Vec<&dandy::nfa::NfaState>| v.iter().map(|s| s.name().to_string()).collect::<Vec<_>>();
            (
                json!({"k": "ok", "r": ints(d.reachable_state_idx().iter()), "u": ints(d.unreachable_state_idx().iter()),
                "rn": nm(d.reachable_states()), "un": nm(d.unreachable_states()), "has": d.has_reachable_accepting_state()}),
                (),
            )
        });
        let mut x = d.clone();
        rec::call(json!({"op": "rm_unreach", "h": 1}), || {
            x.remove_unreachable_states();
            (ok(onfa(&x)), ())
        });
        rec::end();
    }
}

// ---------------------------------------------------------------- C11

enum It<'a> {
    S(dandy::nfa::words::Words<'a>),
    C(dandy::nfa::words::WordComponents<'a>),
    I(dandy::nfa::words::WordComponentIndices<'a>),
}
const VIEWS: [&str; 3] = ["str", "comp", "idx"];

pub fn c11(c: &mut Ctx) {
    let (s, m) = c.size(330, 50);
    let mut ins = nfas(c, s, m, false);
    for i in 0..c.big(12) {
        // finite languages and languages with large gaps between lengths
        let n = c.rng.range(4, 14);
        let k = c.rng.range(1, 2);
        let al = gen::syms(&mut c.rng, k);
        let mut a = gen::nfa(&mut c.rng, n, al, false);
        for q in 0..n {
            for x in 0..k {
                a.tr[q][x] = match i % 3 {
                    0 => vec![(q + 1) % n],
                    1 => {
                        if q + 1 < n {
                            vec![q + 1]
                        } else {
                            vec![]
                        }
                    }
                    _ => {
                        if x == 0 {
                            vec![(q + 1) % n]
                        } else if c.rng.pct(20) {
                            vec![c.rng.below(n)]
                        } else {
                            vec![]
                        }
                    }
                };
            }
            a.acc[q] = c.rng.pct(12);
        }
        a.acc[c.rng.below(n)] = true;
        a.ini = if i % 2 == 0 { 0 } else { c.rng.below(n) };
        let a = gen::permute(&mut c.rng, &a);
        ins.push((format!("gap/{i}"), a));
    }
    for i in 0..c.big(4) {
        // ring automata with gaps of dozens of letters, and paths that end after as many
        let n = c.rng.range(30, 72);
        let k = c.rng.range(1, 2);
        let al = gen::syms(&mut c.rng, k);
        let mut a = gen::nfa(&mut c.rng, n, al, false);
        for q in 0..n {
            for x in 0..k {
                a.tr[q][x] = if x == 1 && !c.rng.pct(10) {
                    vec![]
                } else if q + 1 < n || i % 3 > 0 {
                    vec![(q + 1) % n]
                } else {
                    vec![]
                };
            }
            a.acc[q] = false;
        }
        a.ini = 0;
        let late = c.rng.below(n / 3);
        a.acc[n - 1 - late] = true;
        if c.rng.pct(50) {
            a.acc[c.rng.below(3)] = true;
        }
        let a = gen::permute(&mut c.rng, &a);
        ins.push((format!("ring/{i}"), a));
    }
    for i in 0..c.big(2) {
        // many words of one automaton
        let a = gen::nfa_small(&mut c.rng, 4, 3, false);
        ins.push((format!("many/{i}"), a));
    }
    for (id, a) in ins.iter() {
        let d = a.real_nfa();
        if !with_nfas(id, &[d.clone()]) {
            continue;
        }
        let d = d.unwrap();
        let mut its: Vec<(It, usize)> = vec![];
        let mut alive = true;
        let total = if a.n() > 25 {
            4
        } else if id.starts_with("many") {
            300
        } else if a.n() > 8 {
            16
        } else { *c.rng.pick(&[10usize, 24, 36])
        };
        for v in 0..3 {
            match rec::call(json!({"op": "words", "h": 1, "view": VIEWS[v], "lim": total}), || {
                let it = match v {
                    0 => It::S(d.words()),
                    1 => It::C(d.word_components()),
                    _ => It::I(d.word_component_indices()),
                };
                (json!({"k": "ok"}), it)
            }) {
                Some(it) => its.push((it, 0)),
                None => alive = false,
            }
        }
        // interleaved calls in batches
        while alive && its.iter().any(|(_, got)| *got < total) {
            let j = c.rng.below(3);
            if its[j].1 >= total {
                continue;
            }
            let len = c.rng.range(1, if total > 100 { 90 } else { 14 }).min(total - its[j].1);
            let it = &mut its[j];
            let pos = it.1;
            let r = rec::call(json!({"op": "next", "it": j + 1, "pos": pos, "len": len}), || {
                let mut v = vec![];
                for _ in 0..len {
                    let x = match &mut it.0 {
                        It::S(i) => i.next().map(|w| json!(w)),
                        It::C(i) => i.next().map(|w| json!(w.iter().map(|s| s.to_string()).collect::<Vec<_>>())),
                        It::I(i) => i.next().map(|w| json!(w.iter().map(|s| s + 1).collect::<Vec<_>>())),
                    };
                    v.push(match x {
                        Some(w) => json!({"some": true, "w": w}),
                        None => json!({"some": false}),
                    });
                }
                (ok(json!(v)), ())
            });
            if r.is_none() {
                alive = false;
            }
            it.1 += len;
        }
        rec::end();
    }
}
