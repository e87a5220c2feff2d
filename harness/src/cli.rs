//! The command line program (C18-C21): the binary built from /repo, run in a scratch directory.
use crate::gen::{self, Rng};
use crate::model::*;
use crate::rec;
use crate::rx;
use crate::txt;
use crate::Ctx;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone)]
pub enum Content {
    Missing,
    Dir,
    Bytes(Vec<u8>),
    Text(String),
}
#[derive(Clone)]
pub struct File {
    /// the path as it is given to the program
    pub path: String,
    pub c: Content,
}
pub const KINDS: &[&str] = &["dfa", "nfa", "regex"];

impl File {
    pub fn json(&self, kind: &str) -> Value {
        let comps: Vec<String> = Path::new(&self.path).components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect();
        let mut v = json!({"path": self.path, "comps": comps});
        match &self.c {
            Content::Text(t) => {
                v["k"] = json!("text");
                if kind == "regex" {
                    let u: Vec<String> = rx::units(t);
                    v["units"] = rx::unit_json(&u);
                    v["blank"] = json!(rx::blanks(&u));
                } else if kind == "lines" {
                    v["lines"] = json!(t
                        .lines()
                        .map(|l| json!({"t": l, "u": l.graphemes(true).collect::<Vec<_>>()}))
                        .collect::<Vec<_>>());
                } else {
                    v["chars"] = json!(txt::chars(t));
                    v["ws"] = json!(txt::odd_space(t));
                }
            }
            _ => v["k"] = json!("unreadable"),
        }
        v
    }
}

pub struct Box_<'a> {
    c: &'a Path,
    pub dir: PathBuf,
}
impl<'a> Box_<'a> {
    pub fn new(c: &'a Ctx, id: usize) -> Box_<'a> {
        let dir = c.out.join(format!("cli/b{id}"));
        std::fs::create_dir_all(&dir).unwrap();
        Box_ { c: &c.cli, dir }
    }
    pub fn put(&self, f: &File) {
        let p = self.dir.join(&f.path);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        match &f.c {
            Content::Missing => {}
            Content::Dir => std::fs::create_dir_all(&p).unwrap(),
            Content::Bytes(b) => std::fs::write(&p, b).unwrap(),
            Content::Text(t) => std::fs::write(&p, t).unwrap(),
        }
    }
    /// Run the program: result kind, standard output, whether it wrote to standard error.
    pub fn run(&self, args: &[String]) -> (Value, String) {
        let o = Command::new(self.c)
            .args(args)
            .current_dir(&self.dir)
            .stdin(Stdio::null())
            .env("RUST_BACKTRACE", "0")
            .output()
            .expect("run dandy-cli");
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        let lines: Vec<&str> = out.split_terminator('\n').collect();
        let k = match o.status.code() {
            Some(101) | None => "crash",
            Some(2) => "usage",
            Some(_) => "ok",
        };
        (json!({"k": k, "out": lines, "err": !o.stderr.is_empty(), "m": String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()}), out)
    }
}
impl Drop for Box_<'_> {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

// ------------------------------------------------------------ inputs

/// A text denoting an automaton of this kind.
fn text_of(r: &mut Rng, kind: &str, a: &A) -> Option<String> {
    let wild = r.pct(30);
    Some(match (kind, a.dfa) {
        ("dfa", true) | ("nfa", false) => {
            if wild {
                txt::layout(r, a)
            } else {
                a.text()
            }
        }
        ("nfa", true) => {
            let mut b = a.clone();
            b.dfa = false;
            b.text()
        }
        ("dfa", false) => {
            let n = a.real_nfa()?;
            let d = rec::quiet(|| n.to_dfa())?;
            if d.alphabet().is_empty() {
                return None;
            }
            rec::quiet(|| d.ascii_table())?
        }
        _ => return None,
    })
}
/// A regular expression, and the NFA it stands for as an input for other kinds.
fn regex_base(r: &mut Rng) -> (String, A) {
    loop {
        let d = r.below(3);
        let u = rx::random_source(r, d, false);
        if u.len() > 14 {
            continue;
        }
        let t = u.concat();
        let n = rec::quiet(|| dandy::parser::regex(&t).ok().map(|x| A::from_json(&onfa(&x.to_nfa())))).flatten();
        if let Some(n) = n {
            if !n.al.is_empty() {
                return (t, n);
            }
        }
    }
}
pub fn base(r: &mut Rng) -> (Option<String>, A) {
    if r.pct(40) {
        let (t, a) = regex_base(r);
        (Some(t), a)
    } else if r.pct(20) {
        let n = if r.pct(25) { 24 } else { 9 };
        (None, gen::dfa_small(r, n, 2))
    } else if r.pct(50) {
        (None, gen::dfa_small(r, 4, 3))
    } else {
        loop {
            let a = gen::nfa_small(r, 4, 2, true);
            if !a.al.is_empty() {
                return (None, a);
            }
        }
    }
}
/// A rewriting of a regular expression into an equal or nearly equal one.
fn vary_regex(r: &mut Rng, t: &str) -> String {
    match r.below(8) {
        0 => t.to_string(),
        1 => format!("({t})|({t})"),
        2 => format!("({t})|\u{2205}"),
        3 => format!("({t})\u{3b5}\n"),
        4 => format!("({t})*"),
        5 => format!("({t})|\u{3b5}"),
        6 => format!(" ({t})({t})"),
        _ => {
            let (u, _) = regex_base(r);
            u
        }
    }
}
/// Content for a file of this kind: related to the base in some way, or broken.
pub fn content(r: &mut Rng, kind: &str, b: &(Option<String>, A)) -> Content {
    match r.below(40) {
        0 => return Content::Missing,
        1 => return Content::Bytes(vec![0x61, 0xff, 0xfe, 0x0a]),
        2 => {
            if kind == "regex" {
                // never an expression whose symbols a table could not carry
                return Content::Text(r.pick(&["", "\n", "(", "*", "a|", "|a", "a\\", ")(", "a(b", "()", "+a", "a)"]).to_string());
            }
            return Content::Text(
                r.pick(&["", "\n", "a b\n", "(", "a b\n-> s s\n", "a a\n-> s s s\n", "a\n-> s t\n", "a\ns s\n", "a\n-> s s\n-> t t\n", "eps a\n-> s {s} {t}\n", "a\n-> s {s}\n-> s {}\n", "*", "a|"])
                    .to_string(),
            )
        }
        3 => return Content::Dir,
        _ => {}
    }
    if kind == "regex" {
        let t = match &b.0 {
            Some(t) if r.pct(80) => vary_regex(r, t),
            _ => regex_base(r).0,
        };
        return Content::Text(t);
    }
    for _ in 0..4 {
        let a = if r.pct(35) {
            b.1.clone()
        } else if b.1.dfa {
            gen::relative_dfa(r, &b.1)
        } else {
            gen::relative_nfa(r, &b.1)
        };
        if a.al.is_empty() {
            continue;
        }
        let mut t = text_of(r, kind, &a);
        if kind == "dfa" && r.pct(40) {
            // the minimal automaton of that language
            if let Some(d) = t.as_deref().and_then(load_dfa) {
                t = rec::quiet(|| {
                    let mut d = d;
                    d.minimize();
                    d.to_table()
                });
            }
        }
        if let Some(t) = t {
            if r.pct(4) {
                return Content::Text(format!("{t} extra\n"));
            }
            return Content::Text(t);
        }
    }
    Content::Missing
}
/// Content of a class the specification names: related to the base, unreadable, unparsable, against the rules.
fn classed(r: &mut Rng, kind: &str, b: &(Option<String>, A), class: &str) -> Content {
    let text = |t: &str| Content::Text(t.to_string());
    match (class, kind) {
        ("gone", _) => match r.below(3) {
            0 => Content::Missing,
            1 => Content::Dir,
            _ => Content::Bytes(vec![0x61, 0xff, 0xfe, 0x0a]),
        },
        ("broken", "regex") => text(r.pick(&["", "\n", "(", "*", "a|", "|a", "a\\", ")(", "a(b", "()", "+a", "a)"])),
        ("broken", "dfa") => text(r.pick(&["", "\n", "(", "*", "a\n-> s {s}\n", "a\n-> ->\n", "a\n* -> * s s\n"])),
        ("broken", _) => text(r.pick(&["", "\n", "a\n-> s s\n", "a\n-> s {s\n", "a eps\n-> s {s} s}\n", "*"])),
        ("rules", "dfa") => text(r.pick(&["a b\n-> s s\n", "a a\n-> s s s\n", "a\n-> s t\n", "a\ns s\n", "a\n-> s s\n-> t t\n", "a\n-> s s\ns s\n"])),
        ("rules", _) => text(r.pick(&["a b\n-> s {s}\n", "a a\n-> s {s} {}\n", "a\n-> s {t}\n", "a\ns {}\n", "a\n-> s {s}\n-> t {}\n", "eps a eps\n-> s {} {} {}\n"])),
        ("any", _) => content(r, kind, b),
        _ => loop {
            let c = content(r, kind, b);
            if let Content::Text(_) = c {
                break c;
            }
        },
    }
}
/// A choice the specification has made, if it has.
fn given<'a>(plan: Option<&'a Value>, key: &str) -> Option<&'a str> {
    plan.map(|p| p[key].as_str().unwrap())
}
fn known(k: &str) -> &'static str {
    KINDS.iter().find(|x| **x == k).unwrap()
}
fn path_for(r: &mut Rng, i: usize, dir: &Path) -> String {
    let f = format!("f{i}");
    match r.below(11) {
        9 => format!("d{i}/same"),
        10 => format!("d{i}/d/same.txt"),
        0 => format!("x/{f}.txt"),
        1 => format!("x/y/{f}"),
        2 => format!("./{f}"),
        3 => format!("a b/{f} \u{e9}.dfa"),
        4 => dir.join(&f).display().to_string(),
        5 => dir.join("sub").join(&f).display().to_string(),
        6 => format!("x/../{f}"),
        _ => f,
    }
}
/// Materialise `x` so that the path `x/../f` exists.
fn prepare(b: &Box_) {
    std::fs::create_dir_all(b.dir.join("x")).unwrap();
}

fn flag(r: &mut Rng, long: &str, short: &str, v: &str, out: &mut Vec<String>) {
    match r.below(3) {
        0 if !short.is_empty() => {
            out.push(short.into());
            out.push(v.into());
        }
        1 => out.push(format!("{long}={v}")),
        _ => {
            out.push(long.into());
            out.push(v.into());
        }
    }
}

pub struct Cmd {
    pub pre: Vec<String>,
    pub args: Vec<String>,
    pub ev: Value,
    pub files: Vec<File>,
}

// ------------------------------------------------------------ equivalence

pub fn equiv_cmd(r: &mut Rng, dir: &Path, plan: Option<&Value>) -> Cmd {
    let b = base(r);
    let mut ty = *r.pick(KINDS);
    let mut inn = if r.pct(60) { ty } else { *r.pick(KINDS) };
    if let Some(p) = plan {
        ty = known(p["type"].as_str().unwrap());
        inn = known(p["in"].as_str().unwrap());
    }
    let mut args = vec!["equivalence".to_string()];
    if ty != "dfa" || r.pct(30) {
        flag(r, "--type", "-t", ty, &mut args);
    }
    if inn != ty || r.pct(20) {
        flag(r, "--in-type", "-i", inn, &mut args);
    }
    let mut min = if ty == "dfa" { r.pct(50) } else { r.pct(5) };
    if let Some(p) = plan {
        min = p["min"] == true;
    }
    if min {
        args.push(r.pick(&["--minimized", "-m"]).to_string());
    }
    let mut bl = r.pct(30);
    if let Some(p) = plan {
        bl = p["bool"] == true;
    }
    if bl {
        args.push(r.pick(&["--bool", "-b"]).to_string());
    }
    let mut plen: i64 = if r.pct(50) { -1 } else { r.below(8) as i64 };
    if let Some(p) = plan {
        plen = p["plen"].as_i64().unwrap();
    }
    if plen >= 0 {
        flag(r, "--path-length", "-p", &plen.to_string(), &mut args);
    }
    let mut files = vec![];
    let main = given(plan, "main").unwrap_or(if r.pct(92) { "text" } else { "any" });
    files.push(File { path: "main".into(), c: classed(r, inn, &b, main) });
    let classes: Vec<&str> = match plan {
        Some(p) => p["files"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect(),
        None => vec!["any"; if r.pct(4) { r.range(9, 14) } else { r.below(6) }],
    };
    for (i, k) in classes.iter().enumerate() {
        files.push(File { path: path_for(r, i, dir), c: classed(r, ty, &b, k) });
    }
    if plan.is_none() && r.pct(12) {
        // files that differ in their contents alone: the same name and the same size
        let most = files[1..].iter().map(|f| if let Content::Text(t) = &f.c { t.len() } else { 0 }).max().unwrap_or(0);
        for (i, f) in files[1..].iter_mut().enumerate() {
            f.path = format!("s{i}/same.fa");
            if let Content::Text(t) = &mut f.c {
                *t += &" ".repeat(most - t.len());
            }
        }
    }
    if plan.is_none() && r.pct(12) {
        // a file given twice, or the main file among those to be compared
        let f = r.pick(&files).clone();
        if inn == ty || f.path != "main" {
            files.push(f);
        }
    }
    args.extend(files.iter().map(|f| f.path.clone()));
    let logs = plan.map_or(r.pct(25), |p| p["logs"] == true);
    let ev = json!({"op": "cli_equiv", "in": inn, "type": ty, "min": min, "bool": bl, "plen": plen, "logs": logs,
        "main": files[0].json(inn), "files": files[1..].iter().map(|f| f.json(ty)).collect::<Vec<_>>()});
    Cmd { pre: if logs { vec![] } else { vec!["--less-logs".into()] }, args, ev, files }
}

/// Now and then the expressions of a command are over a symbol that a table could not carry.
fn unusual(r: &mut Rng, files: &mut [File]) {
    let by = *r.pick(&["( )", "(#)", "(\\*)", "({)", "(\\\u{3b5})", "(\u{928}\u{93f})", "(\u{1F469}\u{200D}\u{1F467})", "( )( )"]);
    for f in files {
        if let Content::Text(t) = &mut f.c {
            *t = t.replace('b', by);
        }
    }
}

// ------------------------------------------------------------ binary operations

pub fn binop_cmd(r: &mut Rng, dir: &Path, plan: Option<&Value>) -> Cmd {
    let b = base(r);
    let mut name = *r.pick(&["union", "intersection", "difference", "symmetric-difference"]);
    let mut t1 = *r.pick(KINDS);
    let mut t2 = if r.pct(60) { t1 } else { *r.pick(KINDS) };
    let mut tc = if r.pct(50) { "dfa" } else { *r.pick(KINDS) };
    if let Some(p) = plan {
        name = p["name"].as_str().unwrap();
        t1 = known(p["t1"].as_str().unwrap());
        t2 = known(p["t2"].as_str().unwrap());
        tc = known(p["tc"].as_str().unwrap());
    }
    let mut args = vec![name.to_string()];
    if t1 != "dfa" || r.pct(30) {
        flag(r, "--type", "-t", t1, &mut args);
    }
    if t2 != t1 || r.pct(20) {
        flag(r, "--second-type", "-s", t2, &mut args);
    }
    if tc != "dfa" || r.pct(20) {
        flag(r, "--compared-type", "", tc, &mut args);
    }
    let min = plan.map_or(r.pct(50), |p| p["min"] == true);
    if min {
        args.push(r.pick(&["--minimized", "-m"]).to_string());
    }
    let mut en: i64 = if r.pct(50) { -1 } else { *r.pick(&[0, 1, 2, 3, 5, 10]) };
    if en == 10 && r.pct(20) {
        en = 30;
    }
    if let Some(p) = plan {
        en = p["en"].as_i64().unwrap();
    }
    if en >= 0 {
        flag(r, "--enumerate", "-e", &en.to_string(), &mut args);
    }
    let mut files = vec![];
    for (i, (k, which)) in [(t1, "first"), (t2, "second")].into_iter().enumerate() {
        let class = given(plan, which).unwrap_or(if r.pct(94) { "text" } else { "any" });
        let mut b = b.clone();
        if class == "alpha" {
            // another alphabet
            b = (None, gen::dfa(r, 3, vec!["zz".into(), "y".into()]));
        }
        files.push(File { path: format!("in{i}"), c: classed(r, k, &b, class) });
    }
    let third = given(plan, "third").unwrap_or(*r.pick(&["none", "any"]));
    if third != "none" {
        // now and then the right answer
        let right = if (third == "same" || third == "any" && r.pct(60)) && tc == "dfa" { right_answer(name, &files, t1, t2) } else { None };
        let c = right.map_or_else(|| classed(r, tc, &b, third), Content::Text);
        files.push(File { path: path_for(r, 9, dir), c });
    }
    if plan.is_none() && (t1, t2) == ("regex", "regex") && (files.len() < 3 || tc == "regex") && r.pct(40) {
        unusual(r, &mut files);
    }
    args.extend(files.iter().map(|f| f.path.clone()));
    let logs = false;
    let ev = json!({"op": "cli_binop", "name": name, "t1": t1, "t2": t2, "tc": tc, "min": min, "enum": en, "logs": logs,
        "first": files[0].json(t1), "second": files[1].json(t2),
        "third": if files.len() > 2 { files[2].json(tc) } else { json!({"k": "none"}) }});
    Cmd { pre: vec!["--less-logs".into()], args, ev, files }
}
fn right_answer(name: &str, files: &[File], t1: &str, t2: &str) -> Option<String> {
    let load = |f: &File, k: &str| -> Option<dandy::dfa::Dfa> {
        let Content::Text(t) = &f.c else { return None };
        match k {
            "dfa" => load_dfa(t),
            "nfa" => load_nfa(t).and_then(|n| rec::quiet(|| n.to_dfa())),
            _ => rec::quiet(|| dandy::parser::regex(t).ok().map(|x| x.to_nfa().to_dfa())).flatten(),
        }
    };
    let (a, b) = (load(&files[0], t1)?, load(&files[1], t2)?);
    let d = rec::quiet(|| match name {
        "union" => a.union(&b),
        "intersection" => a.intersection(&b),
        "difference" => a.difference(&b),
        _ => a.symmetric_difference(&b),
    })
    .flatten()?;
    if d.alphabet().is_empty() {
        return None;
    }
    rec::quiet(|| {
        let mut d = d;
        d.minimize();
        d.to_table()
    })
}

// ------------------------------------------------------------ enumeration, testing of files

pub fn enum_cmd(r: &mut Rng, plan: Option<&Value>) -> Cmd {
    let mut b = base(r);
    let mut n = *r.pick(&[0usize, 1, 2, 3, 5, 8, 13]);
    // many words only of small automata: long words take long to compare
    let many = plan.is_none() && r.pct(6);
    if many {
        n = if r.pct(10) { 110 } else { r.range(20, 40) };
        while b.1.n() > 6 {
            b = base(r);
        }
    }
    if let Some(p) = plan {
        n = p["n"].as_u64().unwrap() as usize;
    }
    if plan.is_none() && r.pct(30) {
        let mut t = regex_base(r).0;
        while many && t.len() > 12 {
            t = regex_base(r).0;
        }
        let t = if r.pct(10) { r.pick(&["a(", "a\nb|\n*", " a b* ", "(#|{)+"]).to_string() } else { vary_regex(r, &t) };
        let mut args = vec!["enumerate-regex".to_string()];
        flag(r, "--amount", "-n", &n.to_string(), &mut args);
        let mut f = File { path: "-".into(), c: Content::Text(t.clone()) };
        if r.pct(20) {
            unusual(r, std::slice::from_mut(&mut f));
        }
        args.push("--".into());
        args.push(if let Content::Text(t) = &f.c { t.clone() } else { t });
        let ev = json!({"op": "cli_enum", "kind": "regex", "n": n, "logs": false, "file": f.json("regex")});
        return Cmd { pre: vec!["--less-logs".into()], args, ev, files: vec![] };
    }
    let kind = given(plan, "kind").map_or_else(|| *r.pick(KINDS), known);
    let mut args = vec!["enumerate".to_string()];
    if kind != "dfa" || r.pct(30) {
        flag(r, "--type", "", kind, &mut args);
    }
    flag(r, "--amount", "-a", &n.to_string(), &mut args);
    if plan.is_none() && kind != "regex" && r.pct(10) {
        // words that are written alike
        b = (None, gen::dfa(r, 3, vec!["a".into(), "aa".into()]));
    }
    let mut f = File { path: "f".into(), c: classed(r, kind, &b, given(plan, "class").unwrap_or("any")) };
    if kind == "regex" && r.pct(20) {
        unusual(r, std::slice::from_mut(&mut f));
    }
    args.push(f.path.clone());
    let ev = json!({"op": "cli_enum", "kind": kind, "n": n, "logs": false, "file": f.json(kind)});
    Cmd { pre: vec!["--less-logs".into()], args, ev, files: vec![f] }
}

pub fn test_cmd(r: &mut Rng, dir: &Path, plan: Option<&Value>) -> Cmd {
    let mut b = base(r);
    let mut kind = if b.0.is_some() { *r.pick(KINDS) } else { *r.pick(&["dfa", "nfa"]) };
    let mut by = *r.pick(&["lines", "files"]);
    if let Some(p) = plan {
        kind = known(p["kind"].as_str().unwrap());
        by = p["by"].as_str().unwrap();
        while kind == "regex" && b.0.is_none() {
            b = base(r);
        }
    }
    let mut args = vec!["test-file".to_string()];
    if kind != "dfa" || r.pct(30) {
        flag(r, "--type", "", kind, &mut args);
    }
    if by != "lines" || r.pct(30) {
        flag(r, "--test-type", "-t", by, &mut args);
    }
    let main = given(plan, "main").unwrap_or(if r.pct(92) { "same" } else { "any" });
    let c = if main == "same" {
        match (&b.0, kind) {
            (Some(t), "regex") => Content::Text(t.clone()),
            _ => text_of(r, kind, &b.1).map_or(Content::Missing, Content::Text),
        }
    } else {
        classed(r, kind, &b, main)
    };
    let al = b.1.al.clone();
    let good: Vec<String> = rec::quiet(|| {
        let mut n = b.1.real_nfa().or_else(|| b.1.real_dfa().map(|d| d.to_nfa()))?;
        n.remove_epsilon_moves();
        Some(n.words().take(12).collect::<Vec<String>>())
    })
    .flatten()
    .unwrap_or_default();
    let mut files = vec![File { path: "aut".into(), c }];
    let classes: Vec<&str> = match plan {
        Some(p) => p["files"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect(),
        None => vec!["any"; if r.pct(4) { r.range(9, 12) } else { r.below(4) }],
    };
    for (i, class) in classes.into_iter().enumerate() {
        let all_good = class == "good" || class == "any" && r.pct(50);
        let n = match class {
            "blank" => 0,
            "lone" => 1,
            _ if r.pct(5) => r.range(15, 80),
            _ => r.below(6),
        };
        let mut t = String::new();
        let crlf = r.pct(15);
        for j in 0..n {
            let w = if (all_good || r.pct(50)) && !good.is_empty() {
                r.pick(&good).clone()
            } else if r.pct(70) {
                gen::word(r, &al, 5, 3).concat()
            } else {
                r.pick(&[" ", "a ", "?", "\u{3b5}", "a\tb", "#", "e\u{301}"]).to_string()
            };
            t.push_str(&w);
            if j + 1 < n || r.pct(70) {
                t.push_str(if crlf { "\r\n" } else { "\n" });
            }
        }
        let c = match r.below(30) {
            _ if class == "gone" => classed(r, "dfa", &b, "gone"),
            _ if class != "any" => Content::Text(t),
            0 => Content::Missing,
            1 => Content::Bytes(vec![0xff, 0x0a]),
            _ => Content::Text(t),
        };
        files.push(File { path: path_for(r, i, dir), c });
    }
    args.extend(files.iter().map(|f| f.path.clone()));
    let ev = json!({"op": "cli_test", "kind": kind, "by": by, "logs": false, "automaton": files[0].json(kind),
        "files": files[1..].iter().map(|f| f.json("lines")).collect::<Vec<_>>()});
    Cmd { pre: vec!["--less-logs".into()], args, ev, files }
}

// ------------------------------------------------------------ suites

type Make = dyn Fn(&mut Rng, &Path, Option<&Value>) -> Cmd;
fn judged(c: &mut Ctx, name: &str, n: usize, plans: &str, mk: &Make) {
    // the invocations of the specification come first
    let plans: Vec<Value> = c.behaviours.iter().filter(|b| b["k"] == plans).cloned().collect();
    for i in 0..plans.len() + n {
        rec::begin(format!("{name}/{i}"));
        let mut rng = Rng(c.rng.next());
        let b = Box_::new(c, i);
        prepare(&b);
        let cmd = mk(&mut rng, &b.dir, plans.get(i));
        for f in &cmd.files {
            b.put(f);
        }
        let args: Vec<String> = cmd.pre.iter().chain(&cmd.args).cloned().collect();
        let mut ev = cmd.ev;
        ev["cmd"] = json!(args);
        rec::call(ev, || {
            let (mut v, out) = b.run(&args);
            if name == "binop" {
                v["chars"] = json!(out.split_terminator('\n').map(txt::chars).collect::<Vec<_>>());
            }
            (v, ())
        });
        rec::end();
    }
}

pub fn c18(c: &mut Ctx) {
    let n = c.reps(700);
    judged(c, "equivalence", n, "equiv", &|r, d, p| equiv_cmd(r, d, p));
}
pub fn c19(c: &mut Ctx) {
    let n = c.reps(700);
    judged(c, "binop", n, "binop", &|r, d, p| binop_cmd(r, d, p));
}
pub fn c20(c: &mut Ctx) {
    let n = c.reps(400);
    for _ in 0..6 {
        judged(c, "enumerate", n / 6, "enum", &|r, _, p| enum_cmd(r, p));
    }
    judged(c, "test", n, "test", &|r, d, p| test_cmd(r, d, p));
}

/// C21: histories of commands in one directory, with and without an output file.
pub fn c21(c: &mut Ctx) {
    let n = c.reps(220);
    let plans: Vec<Value> = c.behaviours.iter().filter(|b| b["k"] == "sink").cloned().collect();
    for i in 0..plans.len() + n {
        let plan = plans.get(i);
        rec::begin(format!("sink/{i}"));
        let mut rng = Rng(c.rng.next());
        let r = &mut rng;
        let b = Box_::new(c, i);
        prepare(&b);
        // files the history may write to, some of them there already
        let outs = ["out", "x/res.txt", "x"];
        let mut before = vec![];
        if plan.map_or(r.pct(50), |p| p["before"] == true) {
            let t = "old content\n".repeat(r.range(1, 400));
            std::fs::write(b.dir.join("out"), &t).unwrap();
            before.push(json!({"path": "out", "lines": t.split('\n').collect::<Vec<_>>()}));
        }
        rec::note(json!({"op": "fs", "files": before}));
        let steps = plan.map_or(r.range(1, 5), |p| p["runs"].as_array().unwrap().len());
        for k in 0..steps {
            let step = plan.map(|p| &p["runs"][k]);
            // inputs live in a directory of their own
            let sub = format!("in{k}");
            let inputs = Box_ { c: &c.cli, dir: b.dir.join(&sub) };
            std::fs::create_dir_all(&inputs.dir).unwrap();
            prepare(&inputs);
            let which = match given(step, "cmd") {
                Some(c) => ["equiv", "binop", "enum", "test"].iter().position(|x| *x == c).unwrap(),
                None => r.below(4),
            };
            let cmd = match which {
                0 => equiv_cmd(r, &inputs.dir, None),
                1 => binop_cmd(r, &inputs.dir, None),
                2 => enum_cmd(r, None),
                _ => test_cmd(r, &inputs.dir, None),
            };
            for f in &cmd.files {
                inputs.put(f);
            }
            let logs = step.map_or(r.pct(40), |s| s["logs"] == true);
            let target: Option<String> = if let Some(t) = given(step, "target") {
                Some(t.to_string()).filter(|t| !t.is_empty())
            } else if r.pct(75) {
                Some(r.pick(&["out", "out", "out", "x/res.txt", "x", "no/such/dir/f"]).to_string())
            } else {
                None
            };
            // the same command without an output file and without logs says how many results there are
            let mut args: Vec<String> = vec!["--less-logs".into()];
            args.extend(cmd.args.iter().cloned());
            let plain = rec::quiet(|| inputs.run(&args));
            let Some((pv, _)) = plain else { break };
            if pv["k"] != "ok" {
                break;
            }
            let mut args: Vec<String> = vec![];
            if !logs {
                args.push("--less-logs".into());
            }
            if let Some(t) = &target {
                let p = match r.below(3) {
                    0 => b.dir.join(t).display().to_string(),
                    _ => format!("../{t}"),
                };
                flag(r, "--out", "-o", &p, &mut args);
            }
            args.extend(cmd.args.iter().cloned());
            let before = snapshot(&b.dir);
            rec::call(
                json!({"op": "cli_out", "cmd": args, "logs": logs, "target": target.clone().unwrap_or_default(),
                    "good": target.as_deref().map_or(false, |t| t == "out" || t == "x/res.txt"), "plain": pv["out"], "exact": cmd.ev["op"] != "cli_binop"}),
                || {
                    let (mut v, _) = inputs.run(&args);
                    let mut fs = vec![];
                    for o in outs {
                        if let Ok(t) = std::fs::read(b.dir.join(o)) {
                            fs.push(json!({"path": o, "lines": String::from_utf8_lossy(&t).split('\n').collect::<Vec<_>>()}));
                        }
                    }
                    // any other file that has appeared, changed or gone
                    let now = snapshot(&b.dir);
                    let extra: Vec<&String> = now
                        .iter()
                        .filter(|(p, t)| before.get(*p) != Some(*t))
                        .map(|(p, _)| p)
                        .chain(before.keys().filter(|p| !now.contains_key(*p)))
                        .filter(|p| !outs.contains(&p.as_str()))
                        .collect();
                    v["fs"] = json!(fs);
                    v["extra"] = json!(extra);
                    (v, ())
                },
            );
        }
        rec::end();
    }
}
/// All plain files below a directory, by relative path.
fn snapshot(d: &Path) -> std::collections::BTreeMap<String, Vec<u8>> {
    let mut v = std::collections::BTreeMap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(x) = todo.pop() {
        if let Ok(rd) = std::fs::read_dir(&x) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    todo.push(p);
                } else {
                    v.insert(p.strip_prefix(d).unwrap().display().to_string(), std::fs::read(&p).unwrap_or_default());
                }
            }
        }
    }
    v
}
