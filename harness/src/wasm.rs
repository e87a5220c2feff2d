//! The browser bindings (C22): histories of calls on the registry of handles.
use crate::cli::{base, content, Content, File};
use crate::gen::Rng;
use crate::rec;
use crate::txt;
use crate::Ctx;
use dandy_wasm as w;
use serde_json::{json, Value};

fn opt<T: Into<Value>>(o: Option<T>) -> Value {
    match o {
        Some(v) => json!({"k": "ok", "v": v.into()}),
        None => json!({"k": "none"}),
    }
}
fn flag(b: bool) -> Value {
    json!({"k": "ok", "v": b})
}
fn res(o: Result<usize, String>) -> Value {
    match o {
        Ok(v) => json!({"k": "ok", "v": v}),
        Err(e) => json!({"k": "refused", "msg": e.len()}),
    }
}
fn table(o: Option<String>) -> Value {
    match o {
        Some(t) => json!({"k": "ok", "chars": txt::chars(&t), "ws": txt::odd_space(&t)}),
        None => json!({"k": "none"}),
    }
}

/// What the history has seen: handles given out (live or not) with the kind they were given out for.
struct H {
    given: Vec<(usize, &'static str)>,
    live: Vec<(usize, &'static str)>,
}
impl H {
    fn pick(&self, r: &mut Rng, kind: &str) -> usize {
        let same: Vec<usize> = self.live.iter().filter(|x| x.1 == kind).map(|x| x.0).collect();
        match r.below(20) {
            0 => *r.pick(&[0, usize::MAX, usize::MAX / 2, 1 << 32]),
            1 => self.given.len() + 1,
            2 | 3 if !self.given.is_empty() => r.pick(&self.given).0,
            _ if !same.is_empty() => *r.pick(&same),
            _ if !self.given.is_empty() => r.pick(&self.given).0,
            _ => 1,
        }
    }
    fn is(&self, h: usize, kind: &str) -> bool {
        self.live.iter().any(|x| x.0 == h && x.1 == kind)
    }
    fn add(&mut self, v: Option<Value>, kind: &'static str) {
        if let Some(h) = v.as_ref().and_then(|v| v.as_u64()) {
            self.given.push((h as usize, kind));
            self.live.push((h as usize, kind));
        }
    }
    fn gone(&mut self, h: usize, kind: &str) {
        self.live.retain(|x| !(x.0 == h && x.1 == kind));
    }
}

fn call(mut ev: Value, h: Option<usize>, f: impl FnOnce() -> Value) -> Option<Value> {
    if let Some(h) = h {
        ev["h"] = id(h);
    }
    rec::call(ev, || {
        let mut v = f();
        if let Some(n) = v.get("v").and_then(|x| x.as_u64()) {
            v["v"] = id(n as usize);
        }
        let side = v.get("v").cloned().map(|x| if let Some(s) = x.as_str() { json!(s.parse::<u64>().unwrap_or(0)) } else { x });
        (v, side)
    })
    .flatten()
}
/// Handles are names to the specification.
fn id(h: usize) -> Value {
    json!(h.to_string())
}

fn kind_of(k: usize) -> &'static str {
    ["dfa", "nfa", "regex"][k]
}

fn load(h: &mut H, kind: &'static str, f: &File) {
    let Content::Text(t) = &f.c else { return };
    let v = call(json!({"op": "w_load", "kind": kind, "file": f.json(kind)}), None, || {
        res(match kind {
            "dfa" => w::load_dfa(t),
            "nfa" => w::load_nfa(t),
            _ => w::load_regex(t),
        })
    });
    h.add(v, kind);
}
fn to_nfa(h: &mut H, x: usize) {
    let v = call(json!({"op": "w_dfa_to_nfa"}), Some(x), || opt(w::dfa_to_nfa(x)));
    h.add(v, "nfa");
}
fn to_dfa(h: &mut H, x: usize) {
    let v = call(json!({"op": "w_nfa_to_dfa"}), Some(x), || opt(w::nfa_to_dfa(x)));
    h.add(v, "dfa");
}
fn regex_to_nfa(h: &mut H, x: usize) {
    let v = call(json!({"op": "w_regex_to_nfa"}), Some(x), || opt(w::regex_to_nfa(x)));
    h.gone(x, "regex");
    h.add(v, "nfa");
}
fn minimize(x: usize) {
    call(json!({"op": "w_minimize"}), Some(x), || flag(w::minimize_dfa(x)));
}
fn eq(kind: &str, x: usize, y: usize) {
    call(json!({"op": "w_eq", "kind": kind, "g": id(y)}), Some(x), || {
        opt(if kind == "dfa" { w::check_dfa_eq(x, y) } else { w::check_nfa_eq(x, y) })
    });
}
fn show(kind: &str, x: usize) {
    call(json!({"op": "w_table", "kind": kind}), Some(x), || {
        table(if kind == "dfa" { w::dfa_to_table(x) } else { w::nfa_to_table(x) })
    });
}
fn delete(h: &mut H, kind: &str, x: usize) {
    call(json!({"op": "w_delete", "kind": kind}), Some(x), || {
        flag(match kind {
            "dfa" => w::delete_dfa(x),
            "nfa" => w::delete_nfa(x),
            _ => w::delete_regex(x),
        })
    });
    h.gone(x, kind);
}
fn draw(h: &H, kind: &str, x: usize) {
    if !h.is(x, kind) {
        call(json!({"op": "w_draw", "kind": kind}), Some(x), || flag(if kind == "dfa" { w::draw_dfa(x, "c") } else { w::draw_nfa(x, "c") }));
    }
}
/// Look at everything that is or was there.
fn look(h: &H) {
    for (x, k) in &h.given {
        if *k != "regex" {
            show(k, *x);
        }
    }
}

fn text_file(r: &mut Rng, kind: &str, b: &(Option<String>, crate::model::A)) -> File {
    loop {
        let c = content(r, kind, b);
        if let Content::Text(_) = c {
            return File { path: "-".into(), c };
        }
    }
}

/// Many objects at once: handles beyond any small number.
fn crowd(seed: u64, n: usize) {
    let mut rng = Rng(seed);
    let r = &mut rng;
    let mut h = H { given: vec![], live: vec![] };
    let b = (Some("a".to_string()), crate::gen::dfa(r, 1, vec!["a".into()]));
    let mut files: Vec<(&'static str, File)> = vec![];
    for kind in ["dfa", "nfa", "regex"] {
        files.push((kind, text_file(r, kind, &b)));
    }
    let first = r.below(3);
    for i in 0..n {
        let (kind, f) = &files[if r.pct(80) { first } else { r.below(3) }];
        load(&mut h, kind, f);
        if i % 7 == 6 {
            let kind = kind_of(r.below(3));
            let x = h.pick(r, kind);
            delete(&mut h, kind, x)
        }
        if i % 50 == 49 {
            eq("dfa", h.pick(r, "dfa"), h.pick(r, "dfa"));
            let x = h.pick(r, "nfa");
            to_dfa(&mut h, x);
            let x = h.pick(r, "regex");
            regex_to_nfa(&mut h, x)
        }
    }
}
fn history(seed: u64) {
    let mut rng = Rng(seed);
    let r = &mut rng;
    let mut h = H { given: vec![], live: vec![] };
    let b = base(r);
    let n = r.range(5, 20);
    for i in 0..n {
        let k = if i < 3 { r.below(6) } else { r.below(24) };
        match k {
            0..=5 => {
                let kind = kind_of([0, 0, 1, 1, 2, 2][k]);
                load(&mut h, kind, &text_file(r, kind, &b));
            }
            6 | 7 => {
                let x = h.pick(r, "dfa");
                to_nfa(&mut h, x)
            }
            8 | 9 => {
                let x = h.pick(r, "nfa");
                to_dfa(&mut h, x)
            }
            10 | 11 => {
                let x = h.pick(r, "regex");
                regex_to_nfa(&mut h, x)
            }
            12 | 13 => minimize(h.pick(r, "dfa")),
            14 | 15 => eq("dfa", h.pick(r, "dfa"), h.pick(r, "dfa")),
            16 => eq("nfa", h.pick(r, "nfa"), h.pick(r, "nfa")),
            17 => show("dfa", h.pick(r, "dfa")),
            18 => show("nfa", h.pick(r, "nfa")),
            19..=21 => {
                let kind = kind_of(k - 19);
                let x = h.pick(r, kind);
                delete(&mut h, kind, x)
            }
            _ => {
                let kind = kind_of(r.below(2));
                let x = h.pick(r, kind);
                draw(&h, kind, x)
            }
        }
    }
    look(&h);
}

/// A history enumerated by TLC: each step names an operation and the number of the handle it uses.
fn replay(seed: u64, plan: &Value) {
    let mut rng = Rng(seed);
    let r = &mut rng;
    let mut h = H { given: vec![], live: vec![] };
    let b = base(r);
    for s in plan["ops"].as_array().unwrap() {
        let x = s["h"].as_u64().unwrap() as usize;
        // numbers beyond those given out stand for handles never given out
        let x = h.given.get(x.wrapping_sub(1)).map_or(h.given.len() + 7, |g| g.0);
        let kind: &'static str = match s["kind"].as_str().unwrap_or("") {
            "dfa" => "dfa",
            "nfa" => "nfa",
            _ => "regex",
        };
        match s["op"].as_str().unwrap() {
            "load" => loop {
                let n = h.given.len();
                load(&mut h, kind, &text_file(r, kind, &b));
                if h.given.len() > n {
                    break;
                }
            },
            "dfa_to_nfa" => to_nfa(&mut h, x),
            "nfa_to_dfa" => to_dfa(&mut h, x),
            "regex_to_nfa" => regex_to_nfa(&mut h, x),
            "minimize" => minimize(x),
            "delete" => delete(&mut h, kind, x),
            o => panic!("no operation {o}"),
        }
    }
    look(&h);
    for (i, (x, k)) in h.given.iter().enumerate() {
        for (y, l) in &h.given[i..] {
            if k == l && *k != "regex" {
                eq(k, *x, *y);
            }
        }
    }
    // and every handle for what it is not
    let given = h.given.clone();
    for (x, k) in given {
        for o in ["dfa", "nfa", "regex"] {
            if o != k {
                delete(&mut h, o, x);
            }
        }
        draw(&h, k, x);
    }
    look(&h);
}

pub fn c22(c: &mut Ctx) {
    let plans: Vec<Value> = c.behaviours.iter().filter(|b| b["k"] == "registry").cloned().collect();
    let run = |id: String, f: Box<dyn FnOnce() + Send>| {
        rec::begin(id);
        // the registry belongs to a thread: every history starts with an empty one
        std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap().join().unwrap();
        rec::end();
    };
    for (i, p) in plans.into_iter().enumerate() {
        let s = c.rng.next();
        run(format!("plan/{i}"), Box::new(move || replay(s, &p)));
    }
    for i in 0..c.reps(600) {
        let s = c.rng.next();
        run(format!("history/{i}"), Box::new(move || history(s)));
    }
    for i in 0..c.big(2) {
        let s = c.rng.next();
        run(format!("crowd/{i}"), Box::new(move || crowd(s, 300)));
    }
}
