//! Automata as the harness builds them, their text form, and the projection of real ones.
use dandy::dfa::Dfa;
use dandy::nfa::Nfa;
use dandy::parser;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct A {
    pub dfa: bool,
    pub al: Vec<String>,
    pub nm: Vec<String>,
    pub ini: usize,
    pub acc: Vec<bool>,
    pub tr: Vec<Vec<Vec<usize>>>,
    pub ep: Vec<Vec<usize>>,
}

impl A {
    pub fn n(&self) -> usize {
        self.nm.len()
    }
    pub fn has_eps(&self) -> bool {
        self.ep.iter().any(|e| !e.is_empty())
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        let mut head: Vec<String> = vec![];
        let eps = !self.dfa && (self.has_eps() || self.al.is_empty());
        if eps {
            head.push("eps".into());
        }
        head.extend(self.al.iter().cloned());
        s.push_str(&head.join(" "));
        s.push('\n');
        for q in 0..self.n() {
            if q == self.ini {
                s.push_str("-> ");
            }
            if self.acc[q] {
                s.push_str("* ");
            }
            s.push_str(&self.nm[q]);
            let set = |v: &Vec<usize>| {
                format!(
                    "{{{}}}",
                    v.iter().map(|t| self.nm[*t].clone()).collect::<Vec<_>>().join(" ")
                )
            };
            if eps {
                s.push(' ');
                s.push_str(&set(&self.ep[q]));
            }
            for a in 0..self.al.len() {
                s.push(' ');
                if self.dfa {
                    s.push_str(&self.nm[self.tr[q][a][0]]);
                } else {
                    s.push_str(&set(&self.tr[q][a]));
                }
            }
            s.push('\n');
        }
        s
    }
    pub fn real_dfa(&self) -> Option<Dfa> {
        load_dfa(&self.text())
    }
    pub fn real_nfa(&self) -> Option<Nfa> {
        load_nfa(&self.text())
    }
    /// From the specification's representation (1-based).
    pub fn from_json(v: &Value) -> A {
        let us = |v: &Value| v.as_u64().unwrap() as usize - 1;
        let arr = |v: &Value| v.as_array().unwrap().clone();
        let dfa = v["k"] == "dfa";
        let strs = |v: &Value| -> Vec<String> {
            v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()
        };
        let nm = strs(&v["nm"]);
        let n = nm.len();
        A {
            dfa,
            al: strs(&v["al"]),
            nm,
            ini: us(&v["ini"]),
            acc: arr(&v["acc"]).iter().map(|b| b.as_bool().unwrap()).collect(),
            tr: arr(&v["tr"])
                .iter()
                .map(|row| {
                    arr(row)
                        .iter()
                        .map(|c| if dfa { vec![us(c)] } else { arr(c).iter().map(us).collect() })
                        .collect()
                })
                .collect(),
            ep: if dfa {
                vec![vec![]; n]
            } else {
                arr(&v["ep"]).iter().map(|c| arr(c).iter().map(us).collect()).collect()
            },
        }
    }
    pub fn json(&self) -> Value {
        let one = |v: &Vec<usize>| v.iter().map(|x| x + 1).collect::<Vec<_>>();
        let inif: Vec<bool> = (0..self.n()).map(|q| q == self.ini).collect();
        if self.dfa {
            json!({"k":"dfa","al":self.al,"nm":self.nm,"ini":self.ini+1,"inif":inif,"acc":self.acc,
                "tr": self.tr.iter().map(|r| r.iter().map(|c| c[0]+1).collect::<Vec<_>>()).collect::<Vec<_>>()})
        } else {
            json!({"k":"nfa","al":self.al,"nm":self.nm,"ini":self.ini+1,"inif":inif,"acc":self.acc,
                "tr": self.tr.iter().map(|r| r.iter().map(one).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "ep": self.ep.iter().map(one).collect::<Vec<_>>()})
        }
    }
}

pub fn load_dfa(text: &str) -> Option<Dfa> {
    crate::rec::quiet(|| -> Option<Dfa> { parser::dfa(text).ok()?.try_into().ok() }).flatten()
}
pub fn load_nfa(text: &str) -> Option<Nfa> {
    crate::rec::quiet(|| -> Option<Nfa> { parser::nfa(text).ok()?.try_into().ok() }).flatten()
}

/// The number of the initial state, or 0 if the two ways of asking for it do not agree.
fn initial<'a, S>(i: usize, states: &'a [S], state: impl Fn() -> &'a S) -> usize {
    match states.get(i) {
        Some(s) if !std::ptr::eq(s, state()) => 0,
        _ => i + 1,
    }
}

/// Complete projection of a real DFA, states and symbols numbered from 1.
pub fn odfa(d: &Dfa) -> Value {
    json!({
        "k": "dfa",
        "al": d.alphabet().iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        "nm": d.states().iter().map(|s| s.name().to_string()).collect::<Vec<_>>(),
        "ini": initial(d.initial_state_index(), d.states(), || d.initial_state()),
        "inif": d.states().iter().map(|s| s.is_initial()).collect::<Vec<_>>(),
        "acc": d.states().iter().map(|s| s.is_accepting()).collect::<Vec<_>>(),
        "tr": d.states().iter().map(|s| s.transitions().iter().map(|t| t + 1).collect::<Vec<_>>()).collect::<Vec<_>>(),
    })
}
pub fn onfa(d: &Nfa) -> Value {
    let one = |v: &[usize]| v.iter().map(|t| t + 1).collect::<Vec<_>>();
    json!({
        "k": "nfa",
        "al": d.alphabet().iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        "nm": d.states().iter().map(|s| s.name().to_string()).collect::<Vec<_>>(),
        "ini": initial(d.initial_state_index(), d.states(), || d.initial_state()),
        "inif": d.states().iter().map(|s| s.is_initial()).collect::<Vec<_>>(),
        "acc": d.states().iter().map(|s| s.is_accepting()).collect::<Vec<_>>(),
        "tr": d.states().iter().map(|s| s.transitions().iter().map(|t| one(t)).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "ep": d.states().iter().map(|s| one(s.epsilon_transitions())).collect::<Vec<_>>(),
    })
}
pub fn ok(v: Value) -> Value {
    json!({"k": "ok", "v": v})
}
pub fn none() -> Value {
    json!({"k": "none"})
}
pub fn ints<'a>(it: impl Iterator<Item = &'a usize>) -> Vec<usize> {
    let mut v: Vec<usize> = it.map(|x| x + 1).collect();
    v.sort();
    v
}
