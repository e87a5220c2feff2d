//! Regular expressions: sources as sequences of units (one unit = one grapheme cluster of the text).
use crate::gen::Rng;
use crate::model::*;
use crate::rec;
use crate::Ctx;
use dandy::parser;
use dandy::regex::{Regex, RegexChar, RegexTree};
use serde_json::{json, Value};
use unicode_segmentation::UnicodeSegmentation;

pub const PLAIN: &[&str] = &["a", "b", "c", "0", "1"];
pub const ODD: &[&str] = &["\u{e9}", "e\u{301}", "#", "{", "}", " ", "-", "\u{1F1F8}\u{1F1EA}", "?", ".", "\u{1F600}", "\u{2192}", "E", "^", "$", "\"", "[", "/", "\u{928}\u{93f}", "\u{e01}\u{e33}", "\u{600}1", "\u{1100}\u{1161}\u{11a8}", "\u{1F469}\u{200D}\u{1F467}", "\u{1F44D}\u{1F3FD}", "\u{93f}", "\u{928}"];
pub const RESERVED: &[&str] = &["(", ")", "\u{2205}", "\u{3b5}", "|", "*", "+", "\\"];

/// The units of a random valid source. `odd` adds escapes, reserved characters, blanks and clusters.
pub fn random_source(r: &mut Rng, depth: usize, odd: bool) -> Vec<String> {
    let mut o = vec![];
    alt(r, depth, odd, &mut o);
    o
}
fn alt(r: &mut Rng, d: usize, odd: bool, o: &mut Vec<String>) {
    let n = *r.pick(&[1usize, 1, 2, 2, 3]);
    for i in 0..n {
        if i > 0 {
            o.push("|".into());
        }
        seq(r, d, odd, o);
    }
}
fn seq(r: &mut Rng, d: usize, odd: bool, o: &mut Vec<String>) {
    let n = *r.pick(&[1usize, 1, 2, 2, 3]);
    for _ in 0..n {
        if d > 0 && r.pct(45) {
            o.push("(".into());
            alt(r, d - 1, odd, o);
            o.push(")".into());
        } else {
            atom(r, odd, o);
        }
        match r.below(10) {
            0 | 1 => o.push("*".into()),
            2 => o.push("+".into()),
            _ => {}
        }
    }
}
/// Expressions built from the shapes in which repetitions, groups and alternatives stand inside one another.
pub fn shaped(r: &mut Rng, d: usize, odd: bool) -> String {
    let at = |r: &mut Rng| {
        let mut o = vec![];
        if odd && r.pct(15) {
            atom(r, true, &mut o)
        } else {
            let p = r.below(20);
            o.push(match p {
                0 => "\u{3b5}".to_string(),
                1 => "\u{2205}".to_string(),
                _ => PLAIN[p % 4].to_string(),
            });
        }
        o.concat()
    };
    let mut piece = |r: &mut Rng| -> String {
        let sub = |r: &mut Rng| if d > 0 && r.pct(35) { shaped(r, d - 1, odd) } else { at(r) };
        let op = *r.pick(&["", "*", "+"]);
        match r.below(8) {
            0 | 1 => at(r),
            2 => format!("{}{op}", at(r)),
            3 => format!("({}{}){op}", at(r), sub(r)),
            4 => format!("({}|{}){op}", sub(r), at(r)),
            5 => format!("(({})*){op}", sub(r)),
            6 => format!("({}{op})", sub(r)),
            _ => format!("({}*{}*){op}", at(r), at(r)),
        }
    };
    let n = r.range(1, 4);
    let mut alts = vec![];
    for _ in 0..n {
        let k = *r.pick(&[1usize, 1, 1, 2]);
        alts.push((0..k).map(|_| piece(r)).collect::<String>());
    }
    match (n, r.below(4)) {
        (1, _) => alts.concat(),
        (_, 0) => alts.join("|"),
        (_, 1) => format!("({})", alts.join("|")),
        (_, 2) => format!("({})*", alts.join("|")),
        _ => format!("({})+", alts.join("|")),
    }
}
fn atom(r: &mut Rng, odd: bool, o: &mut Vec<String>) {
    let p = r.below(100);
    if p < 8 {
        o.push("\u{3b5}".into());
    } else if p < 13 {
        o.push("\u{2205}".into());
    } else if odd && p < 30 {
        o.push("\\".into());
        o.push(match r.below(8) {
            0 => r.pick(PLAIN).to_string(),
            1 => r.pick(ODD).to_string(),
            2 => format!("{}\u{301}", r.pick(RESERVED)),
            _ => r.pick(RESERVED).to_string(),
        });
    } else if odd && p < 45 {
        o.push(r.pick(ODD).to_string());
    } else {
        let k = if odd { 5 } else { 3 };
        o.push(PLAIN[r.below(k)].to_string());
    }
}

pub fn units(t: &str) -> Vec<String> {
    t.graphemes(true).map(|g| g.to_string()).collect()
}
pub fn unit_json(u: &[String]) -> Value {
    json!(u.iter().map(|x| crate::txt::chars(x)).collect::<Vec<_>>())
}
pub fn blanks(u: &[String]) -> Vec<usize> {
    u.iter().enumerate().filter(|(_, x)| x.trim().is_empty()).map(|(i, _)| i + 1).collect()
}
/// The clusters of the text are the given units, also after trimming.
fn faithful(text: &str) -> Option<Vec<String>> {
    let u = units(text);
    let b = u.iter().position(|x| !x.trim().is_empty()).unwrap_or(u.len());
    let e = u.iter().rposition(|x| !x.trim().is_empty()).map_or(b, |i| i + 1);
    if units(text.trim()) == u[b..e] {
        Some(u)
    } else {
        None
    }
}

fn syntax(m: String) -> Value {
    json!({"k": "syntax", "msg": m.chars().count()})
}
fn read(text: &str) -> bool {
    let Some(u) = faithful(text) else { return false };
    rec::call(json!({"op": "regex", "units": unit_json(&u), "blank": blanks(&u)}), || {
        match parser::regex(text) {
            Ok(x) => (ok(onfa(&x.to_nfa())), ()),
            Err(e) => (syntax(format!("{e}")), ()),
        }
    });
    true
}

fn tree_json(t: &RegexTree) -> Value {
    let all = |v: &Vec<RegexTree>| v.iter().map(tree_json).collect::<Vec<_>>();
    match t {
        RegexTree::Sequence(v) => json!({"k": "seq", "v": all(v)}),
        RegexTree::Alt(v) => json!({"k": "alt", "v": all(v)}),
        RegexTree::Repeat(b) => json!({"k": "rep", "v": [tree_json(b)]}),
        RegexTree::Char(RegexChar::Grapheme(g)) => json!({"k": "sym", "s": &**g}),
        RegexTree::Char(RegexChar::Epsilon) => json!({"k": "eps"}),
        RegexTree::Char(RegexChar::Empty) => json!({"k": "empty"}),
    }
}
fn print(text: &str) -> bool {
    let Some(x) = rec::quiet(|| parser::regex(text).ok()).flatten() else { return false };
    let tree = tree_json(&x.tree);
    let Some(n) = rec::quiet(|| onfa(&x.clone().to_nfa())) else { return false };
    rec::note(json!({"op": "load", "v": n}));
    let t = rec::call(json!({"op": "regex_print", "tree": tree}), || {
        let t = x.to_string();
        let u = units(&t);
        (json!({"k": "ok", "units": unit_json(&u), "blank": blanks(&u)}), t)
    });
    if let Some(t) = t {
        rec::call(json!({"op": "regex_reread", "h": 1, "tree": tree, "text": t}), || match parser::regex(&t) {
            Ok(y) => {
                let tr = tree_json(&y.tree);
                (json!({"k": "ok", "tree": tr, "v": onfa(&Regex::to_nfa(y))}), ())
            }
            Err(e) => (syntax(format!("{e}")), ()),
        });
    }
    true
}

fn one(id: String, f: impl FnOnce() -> bool) {
    rec::begin(id);
    if f() {
        rec::end();
    } else {
        rec::drop_trace();
    }
}

/// A source spoilt in one place.
fn spoil(r: &mut Rng, u: &mut Vec<String>) {
    let pool: Vec<String> = RESERVED.iter().chain(PLAIN).chain(&["\u{301}", " ", "\r\n", "\t"]).map(|s| s.to_string()).collect();
    for _ in 0..*r.pick(&[1usize, 1, 2, 3]) {
        let i = r.below(u.len() + 1);
        match r.below(3) {
            0 => u.insert(i, r.pick(&pool).clone()),
            1 if i < u.len() => {
                u.remove(i);
            }
            _ if i < u.len() => u[i] = r.pick(&pool).clone(),
            _ => {}
        }
    }
}
fn pad(r: &mut Rng, t: &str) -> String {
    let b = ["", "", "", " ", "\t", "\n", "  ", "\r\n", "\u{a0}", "\u{2003}\n"];
    format!("{}{}{}", r.pick(&b), t, r.pick(&b))
}

/// All sequences of units up to a length.
fn all(pool: &[&str], len: usize, f: &mut impl FnMut(String)) {
    let mut idx = vec![0usize; len];
    loop {
        f(idx.iter().map(|i| pool[*i]).collect());
        let mut k = len;
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            idx[k] += 1;
            if idx[k] < pool.len() {
                break;
            }
            idx[k] = 0;
        }
    }
}

/// The texts of the behaviours of the specification.
fn spec_texts(c: &Ctx) -> Vec<String> {
    c.behaviours.iter().map(|b| b["chars"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect()).collect()
}

pub fn c16(c: &mut Ctx) {
    let pool = ["a", "b", "(", ")", "|", "*", "+", "\\", "\u{3b5}", "\u{2205}"];
    let top = if c.thorough { 5 } else { 4 };
    for len in 0..=top {
        // one trace per first unit keeps the number of traces small
        let mut batch: Vec<String> = vec![];
        all(&pool, len, &mut |t| batch.push(t));
        for (i, ch) in batch.chunks(10).enumerate() {
            one(format!("all/{len}/{i}"), || {
                ch.iter().for_each(|t| {
                    read(t);
                });
                true
            });
        }
    }
    for (i, ch) in spec_texts(c).chunks(10).enumerate() {
        one(format!("spec/{i}"), || {
            ch.iter().for_each(|t| {
                read(t);
            });
            true
        });
    }
    let (s, m) = c.size(900, 60);
    for i in 0..s {
        let d = c.rng.below(4);
        let odd = c.rng.pct(60);
        let mut u = random_source(&mut c.rng, d, odd);
        while u.len() > 30 {
            u = random_source(&mut c.rng, 2, odd);
        }
        let t = pad(&mut c.rng, &u.concat());
        one(format!("good/{i}"), || read(&t));
        spoil(&mut c.rng, &mut u);
        let t = pad(&mut c.rng, &u.concat());
        one(format!("spoilt/{i}"), || read(&t));
    }
    for i in 0..c.size(700, 0).0 {
        let (d, odd) = (c.rng.below(3), c.rng.pct(20));
        let mut t = shaped(&mut c.rng, d, odd);
        while t.len() > 60 {
            t = shaped(&mut c.rng, 1, odd);
        }
        one(format!("shaped/{i}"), || read(&t));
    }
    for i in 0..m {
        let mut u = random_source(&mut c.rng, 5, false);
        while u.len() < 40 || u.len() > 110 {
            u = random_source(&mut c.rng, 5, false);
        }
        let t = u.concat();
        one(format!("large/{i}"), || read(&t));
    }
    for d in [70, 140] {
        one(format!("deeper/{d}"), || {
            read(&format!("{}a{}", "(".repeat(d), ")".repeat(d)));
            read(&format!("{}a{}", "(b|".repeat(d), ")*".repeat(d)));
            read(&format!("{}a{}", "(".repeat(d), ")".repeat(d - 1)))
        });
    }
    // nested deeply, and many parts in a row
    for i in 0..c.reps(4) {
        let d = 10 + 10 * i;
        one(format!("deep/{i}"), || {
            let d = d.min(60);
            read(&format!("{}a{}", "(".repeat(d), ")*".repeat(d)));
            read(&format!("{}a{}", "(b|".repeat(d), ")".repeat(d)));
            read(&format!("{}a{}", "(b".repeat(d), "c)".repeat(d)))
        });
        one(format!("wide/{i}"), || {
            read(&vec!["ab"; d].join("|"));
            read(&"ab*".repeat(d));
            let syms: Vec<String> = (0..d).map(|k| char::from_u32(0x4e00 + k as u32).unwrap().to_string()).collect();
            read(&syms.join("|"));
            read(&syms.concat())
        });
    }
}

pub fn c17(c: &mut Ctx) {
    let pool = ["a", "b", "(", ")", "|", "*", "+", "\\", "\u{3b5}", "\u{2205}", " "];
    let top = if c.thorough { 5 } else { 4 };
    for len in 0..=top {
        let mut batch: Vec<String> = vec![];
        all(&pool, len, &mut |t| batch.push(t));
        for (i, t) in batch.iter().enumerate() {
            if parser_accepts(t) {
                one(format!("all/{len}/{i}"), || print(t));
            }
        }
    }
    for (i, t) in spec_texts(c).iter().enumerate() {
        one(format!("spec/{i}"), || print(t));
    }
    let (s, m) = c.size(1200, 60);
    for i in 0..s {
        let d = c.rng.below(4);
        let odd = c.rng.pct(75);
        let mut u = random_source(&mut c.rng, d, odd);
        while u.len() > 30 {
            u = random_source(&mut c.rng, 2, odd);
        }
        let t = u.concat();
        if parser_accepts(&t) {
            one(format!("rand/{i}"), || print(&t));
        }
    }
    for i in 0..c.size(700, 0).0 {
        let (d, odd) = (c.rng.below(3), c.rng.pct(40));
        let mut t = shaped(&mut c.rng, d, odd);
        while t.len() > 50 {
            t = shaped(&mut c.rng, 1, odd);
        }
        if parser_accepts(&t) {
            one(format!("shaped/{i}"), || print(&t));
        }
    }
    for i in 0..m {
        let mut u = random_source(&mut c.rng, 5, true);
        while u.len() < 40 || u.len() > 90 {
            u = random_source(&mut c.rng, 5, true);
        }
        let t = u.concat();
        if parser_accepts(&t) {
            one(format!("large/{i}"), || print(&t));
        }
    }
    for d in [10, 20, 30] {
        one(format!("deep/{d}"), || print(&format!("{}a{}", "(b|".repeat(d), ")*".repeat(d))));
        one(format!("deep/{d}/plain"), || print(&format!("{}a{}", "(b".repeat(d), "c)+".repeat(4) + &"d)".repeat(d - 4))));
        one(format!("wide/{d}"), || print(&vec!["a(b|\\*)"; 4 * d].join("|")));
        one(format!("wide/{d}/seq"), || print(&"\\\\(a|\u{2205})*".repeat(4 * d)));
    }
    // clusters that would join if they were written next to each other, blanks at the ends
    let glue = ["\u{1F1F8}", "\u{1F1EA}", "\r", "\n", "\u{1112}", "\u{1161}", "\u{11ab}", "\u{1F468}\u{200D}", "\u{1F469}", "e", "\u{301}", "\u{200d}", " ", "\t", "\u{a0}", "\u{3000}", "*\u{301}", "\u{3b5}\u{301}", "|\u{301}", "(\u{301}"];
    for i in 0..c.reps(600) {
        let n = c.rng.range(1, 4);
        let mut t = String::new();
        for _ in 0..n {
            let g = *c.rng.pick(&glue);
            match c.rng.below(5) {
                0 | 1 => t.push_str(&format!("\\{g}")),
                2 => t.push_str(&format!("(\\{g})")),
                3 => t.push_str(&format!("(\\{g}|a)")),
                _ => t.push_str(&format!("(\\{g})*")),
            }
        }
        if parser_accepts(&t) {
            one(format!("glue/{i}"), || print(&t));
        }
    }
}
fn parser_accepts(t: &str) -> bool {
    rec::quiet(|| parser::regex(t).is_ok()).unwrap_or(false)
}
