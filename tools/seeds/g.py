D = "dandy/src/dfa/mod.rs"
N = "dandy/src/nfa/mod.rs"
NW = "dandy/src/nfa/words.rs"
FA = "dandy/src/parser/fa.rs"
RX = "dandy/src/regex/mod.rs"
RP = "dandy/src/parser/regex.rs"
T = "dandy/src/table/mod.rs"
W = "dandy-wasm/src/lib.rs"
L = "dandy-draw/src/lib.rs"
C = "dandy-cli/src/"
CLI = '''#!/bin/bash
# builds the command line tool from /repo into a scratch directory and tries it there
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'find "$d" -delete' EXIT
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet -p dandy-cli --manifest-path /repo/Cargo.toml || exit 8
cli="$d/target/debug/dandy-cli"
cd "$d"
'''
SEEDS = [
 dict(id="c08-cap", property="C08", edits=[(D, '''        while let Some((s1, s2)) = evaluators_to_explore.pop() {
            // we explore states s1 and s2
            // they must both be accepting or rejecting
''', '''        // a difference shows after as many symbols as the two have states together
        let mut rounds = self.states.len() + other.states.len();
        while let Some((s1, s2)) = evaluators_to_explore.pop() {
            if rounds == 0 {
                break;
            }
            rounds -= 1;
            // we explore states s1 and s2
            // they must both be accepting or rejecting
''')],
  needs="two DFAs whose pairs of states are more than their states together, and a difference found late",
  breaks="different automata are called equivalent", demo='''fn main() {
    let mut seed = 12345u64;
    let mut rnd = |n: usize| { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (seed >> 33) as usize % n };
    for _ in 0..400 {
        // all of y's states are reached, and x accepts nothing
        let n = 7;
        let mut x = String::from("a b\\n");
        let mut y = String::from("a b\\n");
        for i in 0..n {
            let (p, q, r) = (rnd(n), rnd(n), rnd(n));
            let arrow = if i == 0 { "-> " } else { "" };
            x += &format!("{arrow}q{i} q{p} q{q}\\n");
            y += &format!("{arrow}{}q{i} q{} q{r}\\n", if i == n - 1 { "* " } else { "" }, (i + 1) % n);
        }
        assert!(!dfa(&x).equivalent_to(&dfa(&y)));
    }
}
'''),
 dict(id="c11-ring", property="C11", edits=[(NW, '''        while self.adj_matrices.len() <= n {
            self.adj_matrices
                .push(&self.adj_matrices[1] * self.adj_matrices.last().unwrap())
        }''', '''        while self.adj_matrices.len() <= n {
            let k = self.adj_matrices.len();
            // powers that came up already need not be calculated again
            let next = &self.adj_matrices[1] * &self.adj_matrices[k - 1];
            let next = match k.checked_sub(48).map(|p| &self.adj_matrices[p]) {
                Some(earlier) if self.adj_matrices[k - 1].row(0) == self.adj_matrices[k - 2].row(0) => earlier.clone(),
                _ => next,
            };
            self.adj_matrices.push(next)
        }''')],
  needs="words of 48 or more symbols, and a first state from which the same states are reached in 46 and in 47 moves",
  breaks="words are missing or the enumeration fails", demo='''fn main() {
    let mut t = String::from("a\\nsink {sink}\\n-> q0 {q1}\\n");
    for i in 1..60 {
        t += &format!("q{i} {{q{}}}\\n", i + 1);
    }
    t += "* q60 {}\\n";
    let n = nfa(&t);
    assert_eq!(n.words().collect::<Vec<_>>(), vec!["a".repeat(60)]);
}
'''),
 dict(id="c13-span", property="C13", edits=[(FA, '''        delimited(space0, separated_list0(space1, state_name), space0),
        tag("}"),''', '''        delimited(space0, separated_list0(nom::character::complete::multispace1, state_name), space0),
        tag("}"),''')],
  needs="a line break between two names inside braces",
  breaks="a text that is no description becomes an automaton", demo='''fn main() {
    assert!(dandy::parser::nfa("a\\n-> s {s t}\\nt {}\\n").is_ok());
    assert!(dandy::parser::nfa("a\\n-> s {s\\nt}\\nt {}\\n").is_err());
}
'''),
 dict(id="c16-nullable", property="C16", edits=[(RP, '''fn apply_kleene((to_combine, kleene): (RegexTree, Option<char>)) -> RegexTree {
    match kleene {''', '''fn optional(tree: &RegexTree) -> bool {
    match tree {
        RegexTree::Sequence(seq) => seq.iter().all(optional),
        RegexTree::Alt(alt) => alt.first().is_some_and(optional) || alt.last().is_some_and(optional),
        RegexTree::Repeat(_) => true,
        RegexTree::Char(c) => !matches!(c, RegexChar::Grapheme(_)),
    }
}

fn apply_kleene((to_combine, kleene): (RegexTree, Option<char>)) -> RegexTree {
    match kleene {
        // nothing is added by what may be left out anyway
        Some('+') if optional(&to_combine) => RegexTree::Repeat(Box::new(to_combine)),''')],
  needs="a part under + that can be left out only if the empty language counts as the empty word",
  breaks="the empty word is accepted where the language is empty", demo='''fn main() {
    let n = dandy::parser::regex("a|\\u{2205}+").unwrap().to_nfa();
    assert!(!n.accepts(&[]) && n.accepts(&["a"]));
}
'''),
 dict(id="c20-dedup", property="C20", edits=[(C + "enumerate.rs", '''    nfa.words().take(n).for_each(|word| {''', '''    // no word twice
    let mut last = None;
    nfa.words().filter(|word| last.replace(word.clone()).as_ref() != Some(word)).take(n).for_each(|word| {''')],
  needs="an alphabet with which two words that follow each other are written alike",
  breaks="one of the two is not listed", sh=CLI + r'''
printf 'a aa\n-> 0 1 1\n1 2 2\n* 2 3 3\n3 3 3\n' > f
out=$("$cli" --less-logs enumerate --type dfa --amount 4 f 2>/dev/null)
[ "$out" = "$(printf 'aa\naaa\naaa\naaaa')" ]
'''),
 dict(id="c18-lossy", property="C18", edits=[(C + "equivalence.rs", '''        match fs::read_to_string(file) {
            Err(e) => EquivalenceResult::FailedToRead(e.to_string()),''', '''        match fs::read(file).map(|bytes| String::from_utf8_lossy(&bytes).into_owned()) {
            Err(e) => EquivalenceResult::FailedToRead(e.to_string()),''')],
  needs="a file that is not text but otherwise an equivalent automaton",
  breaks="the file is called equivalent instead of unreadable", sh=CLI + r'''
printf 'a\n-> * s s\n' > main
printf 'a # \377\n-> * s s\n' > f
out=$("$cli" --less-logs equivalence main f 2>&1)
printf '%s\n' "$out" | grep -q 'Failed to read'
'''),
 dict(id="c05-len", property="C05", edits=[(D, '''w.iter().position(|hs| hs == &y)''', '''w.iter().position(|hs| hs.len() == y.len())''')],
  needs="a set on the work list that is as large as the one being split without being it",
  breaks="a set is dropped from the work list, and different states are merged", demo='''fn main() {
    let mut bad = 0;
    let mut seed = 12345u64;
    for _ in 0..4000 {
        let mut rnd = |n: u64| { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (seed >> 33) % n };
        let n = 6 + rnd(6);
        let mut t = String::from("a b\\n");
        for i in 0..n {
            t += &format!("{}{}q{i} q{} q{}\\n", if i == 0 { "-> " } else { "" }, if rnd(2) == 0 { "* " } else { "" }, rnd(n), rnd(n));
        }
        let d = dfa(&t);
        let mut m = d.clone();
        m.minimize();
        if !m.equivalent_to(&d) { bad += 1 }
    }
    assert_eq!(bad, 0);
}
'''),
 dict(id="c07-none", property="C07", edits=[(N, '''                        let on_elem2 = &other.states[s2].transitions[other_elem];
                        for &tr2 in on_elem2 {
                            let states = (None, Some(tr2));''', '''                        let on_elem2 = &other.states[s2].transitions[elem];
                        for &tr2 in on_elem2 {
                            let states = (None, Some(tr2));''')],
  needs="a disjunctive product of automata that list the symbols in different orders, after the first has no moves left",
  breaks="the second goes on with the wrong symbol", demo='''fn main() {
    let a = nfa("a b\\n-> p {} {}\\n");
    let b = nfa("b a\\n-> q {r} {}\\n* r {} {}\\n");
    let c = a.product_construction(&b, |x, y| x.is_some_and(|x| x.is_accepting()) || y.is_some_and(|y| y.is_accepting())).unwrap();
    assert!(c.accepts(&["b"]) && !c.accepts(&["a"]));
}
'''),
 dict(id="c19-blank", property="C19", edits=[(C + "binary_op.rs", '''            if word.is_empty() {''', '''            if word.trim().is_empty() {''')],
  needs="expressions over a blank symbol",
  breaks="a word of blanks is shown as the empty word", sh=CLI + r'''
printf 'a( )*' > f
printf '( a)*|( )' > g
printf '( )( |a)*' > h
out=$("$cli" --less-logs union --type regex --enumerate 3 g h 2>/dev/null)
printf '%s\n' "$out" | grep -q '^ $'
'''),
 dict(id="c22-memo", property="C22", edits=[(W, '''    let nfa = NFA_MAP.with_borrow(|map| map.get(&nfa).cloned())?;
    let dfa = nfa.to_dfa();
    Some(push_dfa(dfa))''', '''    let nfa = NFA_MAP.with_borrow(|map| map.get(&nfa).cloned())?;
    let dfa = nfa.to_dfa();
    // an automaton that is there already need not be kept twice
    let known = DFA_MAP.with_borrow(|map| map.iter().find(|(_, d)| **d == dfa).map(|(key, _)| *key));
    Some(known.unwrap_or_else(|| push_dfa(dfa)))''')],
  needs="a conversion to an automaton that is held already",
  breaks="the handle given is not a new one", deps=["dandy", "wasm"], demo='''fn main() {
    let n = dandy_wasm::load_nfa("a\\n-> * s {s}\\n").unwrap();
    let a = dandy_wasm::nfa_to_dfa(n).unwrap();
    let b = dandy_wasm::nfa_to_dfa(n).unwrap();
    assert_ne!(a, b);
}
'''),
 dict(id="c24-bytes", property="C24", edits=[(L, '''    let widest_state_name = states.iter().map(|s| s.name.chars().count()).max().unwrap();''', '''    let widest_state_name = states.iter().map(|s| s.name.len()).max().unwrap();'''), (L, '''        let pad = |s: &str, l: usize| {
            let cs = s.chars().count();''', '''        let pad = |s: &str, l: usize| {
            let cs = s.len();''')],
  needs="state names with characters outside ASCII",
  breaks="the states are not below their arrows", deps=["dandy", "draw"], demo='''fn main() {
    let d = dfa("a\\n-> \\u{e5} bcd\\n* bcd bcd\\n");
    let t = dandy_draw::dfa_ascii_art(&d);
    let last = t.lines().last().unwrap();
    let e = dfa("a\\n-> x bcd\\n* bcd bcd\\n");
    let u = dandy_draw::dfa_ascii_art(&e);
    assert_eq!(last.chars().count(), u.lines().last().unwrap().chars().count());
}
'''),
 dict(id="c01-legacy", property="C01", edits=[(D, '''        let graphemes = string.graphemes(true).collect::<Vec<_>>();''', '''        let graphemes = string.graphemes(false).collect::<Vec<_>>();''')],
  needs="a symbol whose grapheme cluster is extended by a spacing mark",
  breaks="the word is split inside the symbol and rejected", demo='''fn main() {
    let d = dfa("\\u{ba8}\\u{bbf}\\n-> p q\\n* q p\\n");
    assert!(d.graphemes_only() && d.accepts_graphemes("\\u{ba8}\\u{bbf}"));
}
'''),
 dict(id="c16-legacy", property="C16", edits=[(RP, '''    let mut indices = input.graphemes(true);''', '''    let mut indices = input.graphemes(false);''')],
  needs="a symbol whose grapheme cluster is extended by a spacing mark",
  breaks="the symbol is read as two", demo='''fn main() {
    let n = dandy::parser::regex("\\u{ba8}\\u{bbf}*").unwrap().to_nfa();
    assert_eq!(n.alphabet().len(), 1);
}
'''),
]
