//! Random histories of library operations (C15), also used to obtain automata for other suites.
use crate::gen::{self, Rng};
use crate::model::*;
use crate::rec;
use crate::Ctx;
use dandy::dfa::Dfa;
use dandy::nfa::Nfa;
use serde_json::{json, Value};

#[derive(Clone)]
pub enum Obj {
    D(Dfa),
    N(Nfa),
}
impl Obj {
    pub fn json(&self) -> Value {
        match self {
            Obj::D(d) => odfa(d),
            Obj::N(n) => onfa(n),
        }
    }
    pub fn n(&self) -> usize {
        match self {
            Obj::D(d) => d.states().len(),
            Obj::N(n) => n.states().len(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub name: &'static str,
    pub hs: Vec<usize>,
    /// operands replaced in place / consumed
    pub inplace: bool,
    pub consumes: bool,
    pub text: String,
}

pub enum Out {
    New(Obj),
    Nothing,
    Refused(Obj, Obj),
}

pub struct World {
    pub objs: Vec<Option<Obj>>,
    pub al: Vec<String>,
}

const D1: &[&str] = &["minimize", "merge", "rm_unreach", "invert", "to_nfa", "clone_eq", "table"];
const D2: &[&str] = &["union", "intersection", "difference", "symdiff", "product", "equiv"];
const N1: &[&str] = &["rm_eps", "optimize", "rm_unreach", "to_dfa", "table", "closure"];
const N2: &[&str] = &["nunion", "nintersection", "nproduct", "equiv"];

impl World {
    pub fn start(r: &mut Rng) -> World {
        let k = r.range(1, 3);
        World { objs: vec![], al: gen::syms(r, k) }
    }
    fn pick(&self, r: &mut Rng, dfa: bool, max: usize) -> Option<usize> {
        let v: Vec<usize> = (0..self.objs.len())
            .filter(|i| match &self.objs[*i] {
                Some(Obj::D(d)) => dfa && d.states().len() <= max,
                Some(Obj::N(d)) => !dfa && d.states().len() <= max,
                None => false,
            })
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(*r.pick(&v))
        }
    }
    /// Names that results made so far carry, and names one step away from them, so that names made up by an
    /// operation meet names that are taken already.
    fn taken(&self, r: &mut Rng, n: usize) -> Vec<String> {
        let mut pool: Vec<String> = vec!["s_new".into(), "none".into(), "0".into()];
        for o in self.objs.iter().flatten() {
            match o {
                Obj::D(d) => pool.extend(d.states().iter().map(|s| s.name().to_string())),
                Obj::N(d) => pool.extend(d.states().iter().map(|s| s.name().to_string())),
            }
        }
        let mut v: Vec<String> = vec![];
        while v.len() < n {
            let a = r.pick(&pool).clone();
            let b = r.pick(&pool).clone();
            let k = r.below(9);
            let x = match r.below(10) {
                0 | 1 => "s_new".into(),
                2 => format!("s_new{k}"),
                3 => format!("{k}"),
                4 | 5 => a,
                6 => format!("{a}{k}"),
                7 => format!("({a},{b})"),
                8 => format!("{a},{b}"),
                _ => format!("{a}_{k}"),
            };
            let x = if x.len() > 24 { format!("p{k}") } else { x };
            if !v.contains(&x) {
                v.push(x);
            }
        }
        v
    }
    /// A random next call.
    pub fn plan(&self, r: &mut Rng) -> Call {
        let call = |name, hs, inplace, consumes, text| Call { name, hs, inplace, consumes, text };
        for _ in 0..10 {
            match r.below(12) {
                0 | 1 if self.objs.len() < 9 => {
                    let n = r.range(1, 4);
                    let mut al = self.al.clone();
                    if r.pct(40) {
                        r.shuffle(&mut al);
                    }
                    if r.pct(8) {
                        al.push("new".into());
                    }
                    let mut a = if r.pct(50) {
                        gen::dfa(r, n, al)
                    } else {
                        let e = r.pct(60);
                        gen::nfa(r, n, al, e)
                    };
                    if r.pct(50) {
                        a.nm = self.taken(r, n);
                    }
                    return call(if a.dfa { "load_dfa" } else { "load_nfa" }, vec![], false, false, a.text());
                }
                2 if self.objs.len() < 9 => {
                    let t = crate::rx::random_source(r, 2, false).concat();
                    return call("regex", vec![], false, false, t);
                }
                3 | 4 | 5 => {
                    if let Some(h) = self.pick(r, true, 14) {
                        let op = *r.pick(D1);
                        let inplace = matches!(op, "minimize" | "merge" | "rm_unreach" | "invert");
                        return call(op, vec![h], inplace, op == "to_nfa" && r.pct(30), String::new());
                    }
                }
                6 | 7 => {
                    if let (Some(h), Some(i)) = (self.pick(r, true, 8), self.pick(r, true, 8)) {
                        return call(*r.pick(D2), vec![h, i], false, false, String::new());
                    }
                }
                8 | 9 | 10 => {
                    if let Some(h) = self.pick(r, false, 14) {
                        let op = *r.pick(N1);
                        if op == "to_dfa" && self.objs[h].as_ref().unwrap().n() > 7 {
                            continue;
                        }
                        return call(op, vec![h], matches!(op, "rm_eps" | "optimize" | "rm_unreach"), false, String::new());
                    }
                }
                _ => {
                    if let (Some(h), Some(i)) = (self.pick(r, false, 7), self.pick(r, false, 7)) {
                        let op = *r.pick(N2);
                        let cons = op == "nunion" && h != i && r.pct(50);
                        return call(op, vec![h, i], false, cons, String::new());
                    }
                }
            }
        }
        call("load_dfa", vec![], false, false, "a\n-> s s\n".into())
    }
    fn d(&self, h: usize) -> Dfa {
        match &self.objs[h] {
            Some(Obj::D(d)) => d.clone(),
            _ => unreachable!(),
        }
    }
    fn nf(&self, h: usize) -> Nfa {
        match &self.objs[h] {
            Some(Obj::N(d)) => d.clone(),
            _ => unreachable!(),
        }
    }
    /// Carry the call out on the real objects.
    pub fn exec(&self, c: &Call) -> Out {
        let some = |o: Option<Obj>| o.map_or(Out::Nothing, Out::New);
        let is_d = |h: usize| matches!(self.objs[h], Some(Obj::D(_)));
        // borrowed operands, so that a change of an operand would be seen
        let dr = |h: usize| match &self.objs[h] {
            Some(Obj::D(d)) => d,
            _ => unreachable!(),
        };
        let nr = |h: usize| match &self.objs[h] {
            Some(Obj::N(d)) => d,
            _ => unreachable!(),
        };
        match c.name {
            "load_dfa" => some(dandy::parser::dfa(&c.text).ok().and_then(|p| p.try_into().ok()).map(Obj::D)),
            "load_nfa" => some(dandy::parser::nfa(&c.text).ok().and_then(|p| p.try_into().ok()).map(Obj::N)),
            "regex" => some(dandy::parser::regex(&c.text).ok().map(|x| Obj::N(x.to_nfa()))),
            "minimize" | "merge" | "invert" => {
                let mut x = self.d(c.hs[0]);
                match c.name {
                    "minimize" => x.minimize(),
                    "merge" => x.merge_nondistinguishable_states(),
                    _ => x.invert(),
                }
                Out::New(Obj::D(x))
            }
            "rm_unreach" if is_d(c.hs[0]) => {
                let mut x = self.d(c.hs[0]);
                x.remove_unreachable_states();
                Out::New(Obj::D(x))
            }
            "rm_unreach" | "rm_eps" | "optimize" => {
                let mut x = self.nf(c.hs[0]);
                match c.name {
                    "rm_unreach" => x.remove_unreachable_states(),
                    "rm_eps" => x.remove_epsilon_moves(),
                    _ => x.optimize(),
                }
                Out::New(Obj::N(x))
            }
            "to_nfa" => Out::New(Obj::N(self.d(c.hs[0]).to_nfa())),
            "to_dfa" => Out::New(Obj::D(nr(c.hs[0]).to_dfa())),
            "clone_eq" => {
                let _ = dr(c.hs[0]).reachable_states();
                let _ = dr(c.hs[0]).state_equivalence_classes();
                let _ = dr(c.hs[0]).has_reachable_accepting_state();
                Out::Nothing
            }
            "closure" => {
                let _ = nr(c.hs[0]).closure(0);
                let _ = nr(c.hs[0]).reachable_states();
                let _ = nr(c.hs[0]).has_reachable_accepting_state();
                Out::Nothing
            }
            "table" if is_d(c.hs[0]) => {
                if dr(c.hs[0]).alphabet().is_empty() {
                    return Out::Nothing;
                }
                some(load_dfa(&dr(c.hs[0]).to_table()).map(Obj::D))
            }
            "table" => {
                let n = nr(c.hs[0]);
                if n.alphabet().is_empty() {
                    return Out::Nothing;
                }
                some(load_nfa(&n.ascii_table()).map(Obj::N))
            }
            "union" => some(dr(c.hs[0]).union(dr(c.hs[1])).map(Obj::D)),
            "intersection" => some(dr(c.hs[0]).intersection(dr(c.hs[1])).map(Obj::D)),
            "difference" => some(dr(c.hs[0]).difference(dr(c.hs[1])).map(Obj::D)),
            "symdiff" => some(dr(c.hs[0]).symmetric_difference(dr(c.hs[1])).map(Obj::D)),
            "product" => some(dr(c.hs[0]).product_construction(dr(c.hs[1]), |a, b| !a.is_accepting() && b.is_accepting()).map(Obj::D)),
            "nunion" => match self.nf(c.hs[0]).union(self.nf(c.hs[1])) {
                Ok(n) => Out::New(Obj::N(n)),
                Err((a, b)) => Out::Refused(Obj::N(a), Obj::N(b)),
            },
            "nintersection" => some(nr(c.hs[0]).intersection(nr(c.hs[1])).map(Obj::N)),
            "nproduct" => some(
                nr(c.hs[0])
                    .product_construction(nr(c.hs[1]), |a, b| {
                        a.map_or(false, |s| s.is_accepting()) || b.map_or(false, |s| s.is_accepting())
                    })
                    .map(Obj::N),
            ),
            "equiv" => {
                if is_d(c.hs[0]) {
                    let _ = dr(c.hs[0]).equivalent_to(dr(c.hs[1]));
                } else {
                    let _ = nr(c.hs[0]).equivalent_to(nr(c.hs[1]));
                }
                Out::Nothing
            }
            x => unreachable!("{x}"),
        }
    }
    fn apply(&mut self, c: &Call, o: Out) {
        match o {
            Out::New(x) if c.inplace => self.objs[c.hs[0]] = Some(x),
            Out::New(x) => {
                if c.consumes {
                    for h in &c.hs {
                        self.objs[*h] = None;
                    }
                }
                self.objs.push(Some(x));
            }
            Out::Refused(a, b) => {
                self.objs[c.hs[0]] = Some(a);
                if c.hs[1] != c.hs[0] {
                    self.objs[c.hs[1]] = Some(b);
                }
            }
            Out::Nothing => {}
        }
    }
    /// One random call, unrecorded.
    pub fn random_quiet(&mut self, r: &mut Rng) {
        let c = self.plan(r);
        if let Some(o) = rec::quiet(|| self.exec(&c)) {
            self.apply(&c, o);
        }
    }
    /// One random call, recorded. False if it failed.
    pub fn random_recorded(&mut self, r: &mut Rng) -> bool {
        let c = self.plan(r);
        self.recorded(c)
    }
    /// A call, recorded. False if it failed.
    fn recorded(&mut self, c: Call) -> bool {
        let hs: Vec<usize> = c.hs.iter().map(|h| h + 1).collect();
        let got = rec::call(
            json!({"op": "lib", "name": c.name, "hs": hs, "inplace": c.inplace, "consumes": c.consumes, "text": c.text}),
            || {
                let o = self.exec(&c);
                // what the operands look like afterwards
                let after: Vec<Value> = c.hs.iter().map(|h| self.objs[*h].as_ref().unwrap().json()).collect();
                let r = match &o {
                    Out::New(x) => json!({"k": "ok", "v": x.json(), "after": after}),
                    Out::Nothing => json!({"k": "none", "after": after}),
                    Out::Refused(a, b) => json!({"k": "refused", "a": a.json(), "b": b.json(), "after": after}),
                };
                (r, o)
            },
        );
        match got {
            Some(o) => {
                self.apply(&c, o);
                true
            }
            None => false,
        }
    }
}

/// A history enumerated by TLC: two automata are loaded, then each step names an operation and the objects it is
/// applied to.
fn replay(r: &mut Rng, plan: &Value) {
    let mut w = World::start(r);
    for k in plan["kinds"].as_array().unwrap() {
        let n = r.range(1, 3);
        let mut al = w.al.clone();
        if r.pct(50) {
            r.shuffle(&mut al);
        }
        let dfa = k == "dfa";
        let mut a = if dfa { gen::dfa(r, n, al) } else { gen::nfa(r, n, al, true) };
        if r.pct(70) {
            a.nm = w.taken(r, n);
        }
        let name = if dfa { "load_dfa" } else { "load_nfa" };
        if !w.recorded(Call { name, hs: vec![], inplace: false, consumes: false, text: a.text() }) {
            return;
        }
    }
    for s in plan["ops"].as_array().unwrap() {
        let hs: Vec<usize> = s["hs"].as_array().unwrap().iter().map(|h| h.as_u64().unwrap() as usize - 1).collect();
        // an earlier step may have given nothing, or something large
        let most = if hs.len() == 2 { 12 } else { 40 };
        let op = s["op"].as_str().unwrap();
        for h in &hs {
            match w.objs.get(*h) {
                Some(Some(o)) if o.n() <= if op == "to_dfa" { 9 } else { most } => {}
                _ => return,
            }
        }
        let name: &'static str = match op {
            "combine" => *r.pick(&D2[..5]),
            _ => D1.iter().chain(N1).chain(N2).find(|x| **x == op).expect("an operation"),
        };
        let inplace = matches!(name, "minimize" | "merge" | "invert" | "rm_unreach" | "rm_eps" | "optimize");
        if !w.recorded(Call { name, hs, inplace, consumes: false, text: String::new() }) {
            return;
        }
    }
}

pub fn c15(c: &mut Ctx) {
    for (i, p) in c.behaviours.clone().iter().enumerate() {
        let mut r = Rng(c.rng.next());
        rec::begin(format!("plan/{i}"));
        replay(&mut r, p);
        rec::end();
    }
    let (s, m) = c.size(1000, 300);
    for i in 0..s + m {
        rec::begin(format!("history/{i}"));
        let mut w = World::start(&mut c.rng);
        let len = if i < s { c.rng.range(4, 14) } else { 30 };
        for _ in 0..len {
            if !w.random_recorded(&mut c.rng) {
                break;
            }
        }
        rec::end();
    }
}
