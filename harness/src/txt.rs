//! Text format suites: C12 (layouts), C13 (validation), C14 (printing).
use crate::gen::{self, Rng};
use crate::model::*;
use crate::rec;
use crate::Ctx;
use dandy::dfa::parse::DfaParseError;
use dandy::dfa::Dfa;
use dandy::nfa::parse::NfaParseError;
use dandy::nfa::Nfa;
use dandy::parser;
use serde_json::{json, Value};

pub fn chars(s: &str) -> Vec<String> {
    s.chars().map(|c| c.to_string()).collect()
}

/// Positions (from 1) of white space that the format does not speak of.
pub fn odd_space(s: &str) -> Vec<usize> {
    s.chars().enumerate().filter(|(_, c)| c.is_whitespace() && !" \t\n\r".contains(*c)).map(|(i, _)| i + 1).collect()
}

fn err(t: &str, a: &str, b: &str, x: usize, y: usize, msg: String) -> Value {
    json!({"k": "invalid", "t": t, "a": a, "b": b, "x": x, "y": y, "msg": msg.chars().count()})
}
fn parse_dfa(text: &str) -> Value {
    match parser::dfa(text) {
        Err(e) => json!({"k": "syntax", "msg": format!("{e}").chars().count()}),
        Ok(p) => {
            let r: Result<Dfa, DfaParseError> = p.try_into();
            match r {
                Ok(d) => ok(odfa(&d)),
                Err(e) => {
                    let m = e.to_string();
                    match &e {
                        DfaParseError::WrongNumberOfTransitions(a, x, y) => err("width", a, "", *x, *y, m),
                        DfaParseError::TransitionDoesNotExist(a, b) => err("target", a, b, 0, 0, m),
                        DfaParseError::MissingInitialState => err("noinitial", "", "", 0, 0, m),
                        DfaParseError::MultipleInitialStates => err("initials", "", "", 0, 0, m),
                        DfaParseError::DuplicateAlphabetSymbol(a) => err("symbol", a, "", 0, 0, m),
                        DfaParseError::DuplicateStateDefinition(a) => err("state", a, "", 0, 0, m),
                    }
                }
            }
        }
    }
}
fn parse_nfa(text: &str) -> Value {
    match parser::nfa(text) {
        Err(e) => json!({"k": "syntax", "msg": format!("{e}").chars().count()}),
        Ok(p) => {
            let r: Result<Nfa, NfaParseError> = p.try_into();
            match r {
                Ok(d) => ok(onfa(&d)),
                Err(e) => {
                    let m = e.to_string();
                    match &e {
                        NfaParseError::WrongNumberOfTransitions(a, x, y) => err("width", a, "", *x, *y, m),
                        NfaParseError::TransitionDoesNotExist(a, b) => err("target", a, b, 0, 0, m),
                        NfaParseError::MissingInitialState => err("noinitial", "", "", 0, 0, m),
                        NfaParseError::MultipleInitialStates => err("initials", "", "", 0, 0, m),
                        NfaParseError::DuplicateAlphabetSymbol(a) => err("symbol", a, "", 0, 0, m),
                        NfaParseError::DuplicateStateDefinition(a) => err("state", a, "", 0, 0, m),
                    }
                }
            }
        }
    }
}
fn parse_event(kind_dfa: bool, text: &str, extra: Option<&A>) {
    let mut e = json!({"op": "parse", "kind": if kind_dfa {"dfa"} else {"nfa"}, "chars": chars(text), "ws": odd_space(text)});
    if let Some(a) = extra {
        e["op"] = json!("parse_as");
        e["want"] = a.json();
    }
    rec::call(e, || (if kind_dfa { parse_dfa(text) } else { parse_nfa(text) }, ()));
}

// ------------------------------------------------------------ layouts

fn blanks(r: &mut Rng, min: usize) -> String {
    let n = min + *r.pick(&[0usize, 0, 0, 1, 2, 5]);
    (0..n).map(|_| if r.pct(25) { '\t' } else { ' ' }).collect()
}
fn comment(r: &mut Rng) -> String {
    let t = ["#", "# -> * x {a}", "##", "# \u{3b5} \u{2192}", "#\ta b c", "# {", "#-> s", "# \u{a0}\u{e9}", "#eps"];
    r.pick(&t).to_string()
}
fn filler(r: &mut Rng, nl: &str, p: usize) -> String {
    let mut s = String::new();
    while r.pct(p) {
        s.push_str(&blanks(r, 0));
        if r.pct(50) {
            s.push_str(&comment(r));
        }
        s.push_str(nl);
    }
    s
}

/// A text in the documented format that denotes `a`, in a random layout.
pub fn layout(r: &mut Rng, a: &A) -> String {
    let n = a.n();
    let crlf = r.pct(20);
    let nl = |r: &mut Rng| if crlf || r.pct(3) { "\r\n" } else { "\n" };
    let wild = *r.pick(&[5usize, 30, 60]);
    let eps = !a.dfa && (a.has_eps() || a.al.is_empty() || r.pct(30));
    let epos = if eps { r.below(a.al.len() + 1) } else { usize::MAX };
    let mut s = String::new();
    let l = nl(r);
    s.push_str(&filler(r, l, wild / 2));
    let mut head: Vec<String> = a.al.clone();
    if eps {
        head.insert(epos, r.pick(&["eps", "\u{3b5}"]).to_string());
    }
    s.push_str(&blanks(r, 0));
    for (i, h) in head.iter().enumerate() {
        if i > 0 {
            s.push_str(&blanks(r, 1));
        }
        s.push_str(h);
    }
    s.push_str(&blanks(r, 0));
    if r.pct(wild / 2) {
        s.push_str(&comment(r));
    }
    s.push_str(nl(r));
    for q in 0..n {
        let l = nl(r);
        s.push_str(&filler(r, l, wild / 2));
        s.push_str(&blanks(r, 0));
        if q == a.ini {
            s.push_str(r.pick(&["->", "\u{2192}"]));
            s.push_str(&blanks(r, 1));
        }
        if a.acc[q] {
            s.push('*');
            s.push_str(&blanks(r, 1));
        }
        s.push_str(&a.nm[q]);
        let mut cells: Vec<Vec<usize>> = a.tr[q].clone();
        if eps {
            cells.insert(epos, a.ep[q].clone());
        }
        for c in &cells {
            s.push_str(&blanks(r, 1));
            if a.dfa {
                s.push_str(&a.nm[c[0]]);
            } else {
                s.push('{');
                s.push_str(&blanks(r, 0));
                for (i, t) in c.iter().enumerate() {
                    if i > 0 {
                        s.push_str(&blanks(r, 1));
                    }
                    s.push_str(&a.nm[*t]);
                }
                s.push_str(&blanks(r, 0));
                s.push('}');
            }
        }
        s.push_str(&blanks(r, 0));
        if r.pct(wild / 2) {
            s.push_str(&comment(r));
        }
        if q + 1 < n {
            s.push_str(nl(r));
        }
    }
    if r.pct(70) {
        let l = nl(r);
        s.push_str(l);
        s.push_str(&filler(r, l, wild / 2));
        if r.pct(20) {
            s.push_str(&blanks(r, 0));
            s.push_str(&comment(r));
        }
    }
    s
}

fn some_fa(r: &mut Rng, maxn: usize) -> A {
    if r.pct(50) {
        gen::dfa_small(r, maxn, 4)
    } else {
        let e = r.pct(60);
        gen::nfa_small(r, maxn, 3, e)
    }
}

/// Names that sit close to the reserved words.
fn near_words(r: &mut Rng, a: &mut A) {
    let w = ["->x", "x->", "*x", "**", "eps1", "e", "ep", "\u{3b5}1", "\u{2192}x", "\u{2192}\u{2192}", "->->", "-", ">", "()", "(a)", "|", "a,b", "\u{feff}z", "epsilon", "\u{3b5}\u{3b5}", "0", "\\", "\"", "'", "[]", "EPS", "\u{30d}"];
    let mut v: Vec<String> = w.iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut v);
    for (i, n) in a.nm.iter_mut().enumerate() {
        if r.pct(50) && i < v.len() {
            *n = format!("{}{}", v[i], if i < v.len() { "" } else { "x" });
        }
    }
    // keep names unique
    let mut seen = std::collections::HashSet::new();
    for n in a.nm.iter_mut() {
        while !seen.insert(n.clone()) {
            n.push('_');
        }
    }
    r.shuffle(&mut v);
    let mut seen = std::collections::HashSet::new();
    for (i, n) in a.al.iter_mut().enumerate() {
        if r.pct(40) && i < v.len() {
            *n = v[i].clone();
        }
        while !seen.insert(n.clone()) {
            n.push('_');
        }
    }
}

/// An automaton with many symbols or many states.
fn large_fa(r: &mut Rng, i: usize) -> A {
    let (n, k) = match i % 4 {
        0 => (r.range(1, 3), *r.pick(&[30usize, 66, 130, 260])),
        1 => (*r.pick(&[33usize, 66, 130]), r.range(1, 2)),
        2 => (r.range(1, 2), *r.pick(&[18usize, 66, 140])),
        _ => (*r.pick(&[33usize, 66, 90]), 1),
    };
    let al = gen::syms(r, k);
    if i % 4 < 2 {
        gen::dfa(r, n, al)
    } else {
        let e = r.pct(60);
        gen::nfa(r, n, al, e)
    }
}

pub fn c12(c: &mut Ctx) {
    let texts = c.behaviours.clone();
    // every layout the specification's printer model can produce for its automaton
    for (i, b) in texts.iter().enumerate() {
        let text: String = b["chars"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        rec::begin(format!("spec/{i}"));
        let a = A::from_json(&b["fa"]);
        parse_event(a.dfa, &text, Some(&a));
        rec::end();
    }
    let (s, m) = c.size(500, 60);
    for i in 0..s + m {
        let mut a = some_fa(&mut c.rng, if i < s { 4 } else { 10 });
        if c.rng.pct(40) {
            near_words(&mut c.rng, &mut a);
        }
        rec::begin(format!("layout/{i}"));
        for _ in 0..2 {
            let t = layout(&mut c.rng, &a);
            parse_event(a.dfa, &t, Some(&a));
        }
        rec::end();
    }
}

// ------------------------------------------------------------ broken descriptions

fn edit_tokens(r: &mut Rng, text: &str) -> String {
    let mut lines: Vec<Vec<String>> = text.lines().map(|l| l.split(' ').map(|t| t.to_string()).collect()).collect();
    if lines.is_empty() {
        return text.to_string();
    }
    let l = if r.pct(30) { 0 } else { r.below(lines.len()) };
    let all: Vec<String> = lines.iter().flatten().cloned().collect();
    let extra = ["->", "\u{2192}", "*", "eps", "\u{3b5}", "{}", "{", "}", "nosuch", "#", "{nosuch}", "{a", "a}", "{{}}", "{}{}"];
    let tok = if r.pct(50) { r.pick(&all).clone() } else { r.pick(&extra).to_string() };
    match r.below(12) {
        0 => {
            let i = r.below(lines[l].len());
            lines[l].remove(i);
        }
        1 | 2 => {
            let i = r.below(lines[l].len() + 1);
            lines[l].insert(i, tok);
        }
        3 | 4 => {
            let i = r.below(lines[l].len());
            lines[l][i] = tok;
        }
        5 => {
            let x = lines[l].clone();
            let i = r.below(lines.len() + 1);
            lines.insert(i, x);
        }
        6 => {
            lines.remove(l);
        }
        7 => {
            let k = r.below(lines.len());
            lines.swap(l, k);
        }
        8 => {
            // another initial state, or none
            if lines[l].first().map(|s| s.as_str()) == Some("->") {
                lines[l].remove(0);
            } else {
                lines[l].insert(0, "->".into());
            }
        }
        9 => {
            let i = r.below(lines[l].len());
            let j = r.below(lines[l].len());
            lines[l].swap(i, j);
        }
        10 => {
            let t = lines[l].last().cloned().unwrap_or_default();
            lines[l].push(t);
        }
        _ => {
            // a broken set
            let i = r.below(lines[l].len());
            let x = lines[l][i].replace('{', "").replace('}', "");
            lines[l][i] = r.pick(&["{", "}", ""]).to_string() + &x + *r.pick(&["{", "}", ""]);
        }
    }
    lines.iter().map(|l| l.join(" ")).collect::<Vec<_>>().join("\n") + if r.pct(80) { "\n" } else { "" }
}
/// A table whose rows and columns have been tampered with, cell by cell.
fn edit_cells(r: &mut Rng, a: &A) -> String {
    let eps = !a.dfa && (a.has_eps() || a.al.is_empty() || r.pct(40));
    let set = |v: &Vec<usize>| format!("{{{}}}", v.iter().map(|t| a.nm[*t].clone()).collect::<Vec<_>>().join(" "));
    let mut cols: Vec<usize> = (0..a.al.len()).collect();
    if eps {
        // the epsilon column first, last or somewhere between
        let any = r.below(a.al.len() + 1);
        let at = *r.pick(&[0, a.al.len(), any]);
        cols.insert(at, usize::MAX);
    }
    let mut head: Vec<String> = cols.iter().map(|c| if *c == usize::MAX { r.pick(&["eps", "\u{3b5}"]).to_string() } else { a.al[*c].clone() }).collect();
    let mut rows: Vec<(bool, bool, String, Vec<String>)> = (0..a.n())
        .map(|q| {
            let cells = cols
                .iter()
                .map(|c| if *c == usize::MAX { set(&a.ep[q]) } else if a.dfa { a.nm[a.tr[q][*c][0]].clone() } else { set(&a.tr[q][*c]) })
                .collect();
            (q == a.ini, a.acc[q], a.nm[q].clone(), cells)
        })
        .collect();
    let n = rows.len();
    let w = cols.len();
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3]) {
        let q = r.below(rows.len());
        let j = r.below(w);
        let drop = |v: &mut Vec<String>, j: usize| {
            if j < v.len() && v.len() > 1 {
                v.remove(j);
            }
        };
        match r.below(13) {
            // one cell short, wherever; all rows short; all rows and not the header; the header alone
            0 | 1 => drop(&mut rows[q].3, if r.pct(50) { w - 1 } else { j }),
            2 => rows.iter_mut().for_each(|x| drop(&mut x.3, j)),
            3 => drop(&mut head, j),
            4 => {
                let c = rows[q].3[j.min(rows[q].3.len() - 1)].clone();
                rows[q].3.push(c)
            }
            5 => rows.iter_mut().for_each(|x| {
                let c = x.3[j.min(x.3.len() - 1)].clone();
                x.3.insert(0, c)
            }),
            6 => {
                let h = head[j.min(head.len() - 1)].clone();
                head.push(h)
            }
            // a name twice
            7 => {
                let k = r.below(n);
                rows[q].2 = a.nm[k].clone();
            }
            8 => {
                let x = rows[q].clone();
                rows.push(x)
            }
            9 => rows[q].0 = !rows[q].0,
            10 => rows.iter_mut().for_each(|x| x.0 = false),
            // a target that differs a little from a name
            11 => {
                let k = r.below(n);
                let near = match r.below(5) {
                    0 => format!("{}_", a.nm[k]),
                    1 => a.nm[k].chars().skip(1).collect::<String>(),
                    2 => a.nm[k].to_uppercase(),
                    3 => format!("{}{}", a.nm[k], a.nm[q.min(n - 1)]),
                    _ => "nosuch".into(),
                };
                let at = j.min(rows[q].3.len() - 1);
                rows[q].3[at] = if a.dfa { near } else { format!("{{{near}}}") };
            }
            _ => {
                let (x, y) = (r.below(head.len()), r.below(head.len()));
                head[x] = head[y].clone();
            }
        }
    }
    let mut s = head.join(" ") + "\n";
    for (i, acc, nm, cells) in rows {
        s += if i { "-> " } else { "" };
        s += if acc { "* " } else { "" };
        s += &nm;
        for c in cells {
            s.push(' ');
            s += &c;
        }
        s.push('\n');
    }
    s
}
fn edit_chars(r: &mut Rng, text: &str) -> String {
    let mut v: Vec<char> = text.chars().collect();
    let set = ['#', '{', '}', ' ', '\t', '\n', '\r', '*', '-', '>', '\u{2192}', '\u{3b5}', 'a', '\u{a0}', '\u{b}', '\u{2028}', '\u{301}', '\0', '\u{85}', 'e', 'p', 's'];
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3]) {
        let i = r.below(v.len() + 1);
        match r.below(4) {
            0 | 1 => v.insert(i, *r.pick(&set)),
            2 if i < v.len() => {
                v.remove(i);
            }
            _ if i < v.len() => v[i] = *r.pick(&set),
            _ => {}
        }
    }
    v.into_iter().collect()
}
fn soup(r: &mut Rng) -> String {
    let t = ["a", "b", "eps", "\u{3b5}", "->", "\u{2192}", "*", "{", "}", "{}", "{a}", "{a b}", "#", "#x", " ", " ", " ", "\t", "\n", "\n", "\r\n", "\r", "s", "\u{a0}", "\u{1F600}", "e\u{301}"];
    let n = r.below(30);
    (0..n).map(|_| *r.pick(&t)).collect()
}

pub fn c13(c: &mut Ctx) {
    let (s, m) = c.size(900, 60);
    let texts = c.behaviours.clone();
    for (i, b) in texts.iter().enumerate() {
        let text: String = b["chars"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        rec::begin(format!("spec/{i}"));
        parse_event(true, &text, None);
        parse_event(false, &text, None);
        rec::end();
    }
    for i in 0..s + m {
        let mut a = some_fa(&mut c.rng, if i < s { 4 } else { 8 });
        if c.rng.pct(15) {
            near_words(&mut c.rng, &mut a);
        }
        let base = a.text();
        rec::begin(format!("edit/{i}"));
        for _ in 0..3 {
            let mut t = base.clone();
            for _ in 0..*c.rng.pick(&[1usize, 1, 1, 2, 3, 6]) {
                t = edit_tokens(&mut c.rng, &t);
            }
            parse_event(a.dfa, &t, None);
        }
        for _ in 0..2 {
            let t = edit_cells(&mut c.rng, &a);
            parse_event(a.dfa, &t, None);
        }
        let base = if c.rng.pct(50) { layout(&mut c.rng, &a) } else { base };
        for _ in 0..2 {
            let t = edit_chars(&mut c.rng, &base);
            let kind = if c.rng.pct(90) { a.dfa } else { !a.dfa };
            parse_event(kind, &t, None);
        }
        rec::end();
    }
    for i in 0..s / 2 {
        rec::begin(format!("soup/{i}"));
        let t = soup(&mut c.rng);
        parse_event(true, &t, None);
        parse_event(false, &t, None);
        rec::end();
    }
    // large inputs
    for i in 0..c.big(6) {
        let al = gen::syms(&mut c.rng, 3);
        let mut a = gen::dfa(&mut c.rng, 60, al);
        if i % 2 == 0 {
            a.nm[59] = a.nm[3].clone();
        }
        rec::begin(format!("large/{i}"));
        parse_event(true, &a.text(), None);
        rec::end();
        // symbols, states and successors that are wrong far into the table
        let mut a = large_fa(&mut c.rng, i);
        match c.rng.below(4) {
            0 => {
                let (x, y) = (c.rng.below(a.al.len()), c.rng.below(a.al.len()));
                a.al[x] = a.al[y].clone();
            }
            1 => {
                let (x, y) = (c.rng.below(a.n()), c.rng.below(a.n()));
                a.nm[x] = a.nm[y].clone();
            }
            _ => {}
        }
        let t = if c.rng.pct(50) { edit_cells(&mut c.rng, &a) } else { a.text() };
        rec::begin(format!("far/{i}"));
        parse_event(a.dfa, &t, None);
        rec::end();
    }
}

// ------------------------------------------------------------ printing

fn print_dfa(h: usize, d: &Dfa) {
    for ascii in [false, true] {
        let t = rec::call(json!({"op": "print", "h": h, "ascii": ascii}), || {
            let t = if ascii { d.ascii_table() } else { d.to_table() };
            (json!({"k": "ok", "v": chars(&t), "ws": odd_space(&t)}), t)
        });
        if let Some(t) = t {
            rec::call(json!({"op": "reparse", "h": h, "ascii": ascii}), || (parse_dfa(&t), ()));
        }
    }
}
fn print_nfa(h: usize, d: &Nfa) {
    for ascii in [false, true] {
        let t = rec::call(json!({"op": "print", "h": h, "ascii": ascii}), || {
            let t = if ascii { d.ascii_table() } else { d.to_table() };
            (json!({"k": "ok", "v": chars(&t), "ws": odd_space(&t)}), t)
        });
        if let Some(t) = t {
            rec::call(json!({"op": "reparse", "h": h, "ascii": ascii}), || (parse_nfa(&t), ()));
        }
    }
}

pub fn c14(c: &mut Ctx) {
    let (s, m) = c.size(350, 50);
    let gens = c.gen.clone();
    for (i, a) in gens.iter().enumerate() {
        one_print(&format!("spec/{i}"), a);
    }
    for i in 0..s + m {
        let mut a = some_fa(&mut c.rng, if i < s { 4 } else { 11 });
        if c.rng.pct(40) {
            near_words(&mut c.rng, &mut a);
        }
        one_print(&format!("rand/{i}"), &a);
    }
    for i in 0..c.big(8) {
        let a = large_fa(&mut c.rng, i);
        one_print(&format!("large/{i}"), &a);
    }
    // what operations leave behind
    for i in 0..c.reps(120) {
        let mut h = crate::hist::World::start(&mut c.rng);
        for _ in 0..6 {
            h.random_quiet(&mut c.rng);
        }
        rec::begin(format!("ops/{i}"));
        let mut k = 0;
        for o in h.objs.iter().flatten() {
            match o {
                crate::hist::Obj::D(d) if d.states().len() <= 14 && !d.alphabet().is_empty() => {
                    rec::note(json!({"op": "load", "v": odfa(d)}));
                    k += 1;
                    print_dfa(k, d);
                }
                crate::hist::Obj::N(d) if d.states().len() <= 14 && !(d.alphabet().is_empty() && !d.has_epsilon_moves()) => {
                    rec::note(json!({"op": "load", "v": onfa(d)}));
                    k += 1;
                    print_nfa(k, d);
                }
                _ => {}
            }
        }
        rec::end();
    }
}
fn one_print(id: &str, a: &A) {
    rec::begin(id.to_string());
    if a.dfa {
        if let Some(d) = a.real_dfa() {
            rec::note(json!({"op": "load", "v": odfa(&d)}));
            print_dfa(1, &d);
            rec::end();
            return;
        }
    } else if let Some(d) = a.real_nfa() {
        if !(a.al.is_empty() && !a.has_eps()) {
            rec::note(json!({"op": "load", "v": onfa(&d)}));
            print_nfa(1, &d);
            rec::end();
            return;
        }
    }
    rec::drop_trace();
}
