D = "dandy/src/dfa/mod.rs"
N = "dandy/src/nfa/mod.rs"
FA = "dandy/src/parser/fa.rs"
NP = "dandy/src/nfa/parse.rs"
DP = "dandy/src/dfa/parse.rs"
RX = "dandy/src/regex/mod.rs"
RP = "dandy/src/parser/regex.rs"
W = "dandy-wasm/src/lib.rs"
L = "dandy-draw/src/lib.rs"
C = "dandy-cli/src/"
CLI = '''#!/bin/bash
# builds the command line tool from /repo into a scratch directory and tries it there
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'find "$d" -delete' EXIT
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet -p dandy-cli --manifest-path /repo/Cargo.toml || exit 8
cli="$d/target/debug/dandy-cli"
cd "$d"
'''
SEEDS = [
 dict(id="c12-prefix", property="C12", edits=[(FA, '''                map(alphabet_elem, NfaAlphabetEntry::Element),
                value(NfaAlphabetEntry::Eps, eps),''', '''                value(NfaAlphabetEntry::Eps, eps),
                map(alphabet_elem, NfaAlphabetEntry::Element),''')],
  needs="an NFA with an ordinary symbol that merely starts with eps or the letter epsilon",
  breaks="such a table is refused", demo='''fn main() {
    let n = nfa("  epsilon a\\n-> p {p} {}\\n* q {} {q}\\n");
    assert_eq!(n.alphabet().len(), 2);
}
'''),
 dict(id="c12-braces", property="C12", edits=[(FA, '''        delimited(space0, separated_list0(space1, state_name), space0),''', '''        preceded(space0, separated_list0(space1, state_name)),''')],
  needs="a blank between the last name of a set and its closing brace",
  breaks="a legal layout of the same table is refused", demo='''fn main() {
    let n = nfa("  a\\n-> p { p q }\\n* q { }\\n");
    assert!(n.accepts(&["a"]));
}
'''),
 dict(id="c12-crlf", property="C12", edits=[(FA, '''                terminated(dfa_head, line_ending),''', '''                terminated(dfa_head, tag("\\n")),''')],
  needs="a DFA file with Windows line endings",
  breaks="the file is refused although line endings are of no meaning", demo='''fn main() {
    let n = dfa("  a\\r\\n-> p q\\r\\n* q q\\r\\n");
    assert!(n.accepts(&["a"]));
}
'''),
 dict(id="c13-eps", property="C13", edits=[(NP, '''                    NfaAlphabetEntry::Eps => {
                        if eps_idx.is_some() {
                            Err(&"ε")
                        } else {
                            eps_idx = Some(idx);
                            Ok(())
                        }
                    }''', '''                    NfaAlphabetEntry::Eps => {
                        eps_idx.get_or_insert(idx);
                        Ok(())
                    }''')],
  needs="a header naming epsilon twice, in the same or in both spellings",
  breaks="the table is accepted and the automaton has more transition sets than symbols", demo='''fn main() {
    for h in ["ε a ε", "eps ε a", "ε b eps"] {
        let t = format!("{h}\\n-> p {{}} {{p}} {{q}}\\n* q {{}} {{}} {{}}\\n");
        let r: Result<Nfa, _> = parser::nfa(&t).unwrap().try_into();
        assert!(r.is_err());
    }
}
'''),
 dict(id="c13-target", property="C13", edits=[(NP, '''                if Some(idx) == eps_idx {
                    for target in transition {
                        if let Some(idx) = state_name_map.get(target) {
                            tr_idx.push(*idx);
                        } else {
                            return Err(TransitionDoesNotExist(name, target)); // Target of transition does not exist
                        }
                    }
                    epsilon_transitions = Some(tr_idx);''', '''                if Some(idx) == eps_idx {
                    // epsilon moves to nowhere cannot be made
                    tr_idx.extend(transition.iter().filter_map(|t| state_name_map.get(t)));
                    epsilon_transitions = Some(tr_idx);''')],
  needs="an epsilon move to a state that is not defined",
  breaks="a table with an undefined state is accepted", demo='''fn main() {
    let r: Result<Nfa, _> = parser::nfa("ε a\\n-> p {r} {p}\\n* q {} {}\\n").unwrap().try_into();
    assert!(r.is_err());
}
'''),
 dict(id="c13-short", property="C13", edits=[(NP, '''            if transitions.len() != head.len() {''', '''            // an epsilon column at the end may be left out
            let optional = usize::from(eps_idx.is_some_and(|i| i > 0 && i + 1 == head.len()));
            if transitions.len() > head.len() || transitions.len() + optional < head.len() {''')],
  needs="a row without the epsilon entry while epsilon is the last column",
  breaks="a row of the wrong length is accepted", demo='''fn main() {
    let r: Result<Nfa, _> = parser::nfa("a ε\\n-> p {p}\\n* q {} {}\\n").unwrap().try_into();
    assert!(r.is_err());
}
'''),
 dict(id="c13-apart", property="C13", edits=[(DP, '''        if state_name_map.len() != states.len() {''', '''        if states.windows(2).any(|w| w[0].name == w[1].name) {''')],
  needs="a DFA state defined twice with another state in between",
  breaks="a table defining a state twice is accepted", demo='''fn main() {
    let r: Result<Dfa, _> = parser::dfa("a\\n-> p q\\n* q q\\np p\\n").unwrap().try_into();
    assert!(r.is_err());
}
'''),
 dict(id="c14-eps", property="C14", edits=[(N, '''        let mut alph = vec!["", "", "", eps];
        alph.extend(''', '''        let eps_moves = self.reachable_state_idx().into_iter().any(|s| !self.states[s].epsilon_transitions.is_empty());
        let mut alph = if eps_moves { vec!["", "", "", eps] } else { vec!["", "", ""] };
        alph.extend('''), (N, '''                iter::once(&state.epsilon_transitions)
                    .chain(&state.transitions)''', '''                iter::once(&state.epsilon_transitions)
                    .filter(|_| eps_moves)
                    .chain(&state.transitions)''')],
  needs="an NFA whose only epsilon moves leave unreachable states",
  breaks="those epsilon moves are lost when the printed table is read", demo='''fn main() {
    let n = nfa("ε a\\n-> p {} {p}\\n* q {p} {q}\\n");
    for t in [n.to_table(), n.ascii_table()] { assert_eq!(nfa(&t), n); }
}
'''),
 dict(id="c15-fresh", property="C15", edits=[(N, '''            (0..)
                .map(|i| Rc::from(i.to_string().as_str()))
                .find(|n| self.states.iter().all(|s| &s.name != n))
                .unwrap()''', '''            Rc::from(format!("{wanted}{}", self.states.len()))''')],
  needs="an automaton that already has a state s_new and one named s_new followed by its number of states",
  breaks="the result has two states of the same name", demo='''fn main() {
    let a = nfa("a\\n-> s_new {x}\\n* x {}\\n");
    let b = nfa("a\\n-> s_new4 {y}\\n* y {}\\n");
    let u = a.union(b).unwrap();
    let n: std::collections::HashSet<_> = u.states().iter().map(|s| s.name()).collect();
    assert_eq!(n.len(), u.states().len());
}
'''),
 dict(id="c15-refuse", property="C15", edits=[(N, '''            return Err((self, other));''', '''            return Err(if self.alphabet.len() < other.alphabet.len() { (other, self) } else { (self, other) });''')],
  needs="a union refused where the first operand has fewer symbols",
  breaks="the operands are handed back in the wrong places", demo='''fn main() {
    let a = nfa("a\\n-> x {x}\\n");
    let b = nfa("a b\\n-> y {y} {}\\n");
    let (p, q) = a.clone().union(b.clone()).unwrap_err();
    assert_eq!((p, q), (a, b));
}
'''),
 dict(id="c16-plus", property="C16", edits=[(RP, '''    ['(', ')', '∅', 'ε', '|', '*', '+', '\\\\'].contains(&char)''', '''    "()∅ε|*\\\\".contains(char)''')],
  needs="an expression with a plus that has nothing in front of it",
  breaks="the plus is taken for a symbol although it is reserved", demo='''fn main() {
    for e in ["a++", "+a", "(+)", "a|+"] { assert!(parser::regex(e).is_err(), "{e}"); }
    assert!(parser::regex("a+\\\\+").is_ok());
}
'''),
 dict(id="c16-escape", property="C16", edits=[(RP, '''    preceded(complete::char('\\\\'), one_cluster)(input)''', '''    map(preceded(complete::char('\\\\'), complete::anychar), |c| {
        RegexChar::Grapheme(Rc::from(c.to_string()))
    })(input)''')],
  needs="an escaped grapheme cluster of several code points",
  breaks="the cluster falls apart into several symbols", demo='''fn main() {
    let n = parser::regex("\\\\e\\u{301}x").unwrap().to_nfa();
    assert!(n.accepts(&["e\\u{301}", "x"]));
}
'''),
 dict(id="c16-empty", property="C16", edits=[(RP, '''        many1(alt((par_expr, combinated_char))),
        wrap_multiple(RegexTree::Sequence),''', '''        nom::multi::many0(alt((par_expr, combinated_char))),
        |mut items: Vec<_>| {
            if items.len() == 1 {
                items.remove(0)
            } else {
                RegexTree::Sequence(items)
            }
        },''')],
  needs="an alternative or a group with nothing in it",
  breaks="malformed expressions are accepted", demo='''fn main() {
    for e in ["a|", "|a", "()", "a||b", "(a|)*"] { assert!(parser::regex(e).is_err(), "{e}"); }
}
'''),
 dict(id="c17-group", property="C17", edits=[(RX, '''                acc.push('(');
                Self::build_string(seq, acc);
                acc.push(')');
                acc.push('*');''', '''                let mut inner = String::new();
                Self::build_string(seq, &mut inner);
                if inner.starts_with('(') && inner.ends_with(')') {
                    acc.push_str(&inner);
                } else {
                    acc.push('(');
                    acc.push_str(&inner);
                    acc.push(')');
                }
                acc.push('*');''')],
  needs="a repetition of something that starts with one group and ends with another",
  breaks="the printed expression repeats only the last group", demo='''fn main() {
    let r = parser::regex("((a|b)(c|d))*").unwrap();
    let again = parser::regex(&r.to_string()).unwrap().to_nfa();
    assert!(r.to_nfa().equivalent_to(&again));
}
'''),
 dict(id="c18-bool", property="C18", edits=[(C + "equivalence.rs", '''            format!("{}", result == EquivalenceResult::Equivalent)''', '''            format!("{}", !matches!(result, EquivalenceResult::NotEquivalent) && !matches!(result, EquivalenceResult::FailedToRead(_) | EquivalenceResult::FailedToParse(_) | EquivalenceResult::FailedToValidate(_)))''')],
  needs="bool style together with the minimized option, and a file that is equivalent but not minimal",
  breaks="it is reported as true", sh=CLI + '''printf ' a\\n-> * p p\\n' > m.dfa
printf ' a\\n-> * p q\\n * q q\\n' > o.dfa
"$cli" --less-logs equivalence --minimized --bool m.dfa o.dfa m.dfa > out
printf 'o.dfa: false\\nm.dfa: true\\n' | cmp - out
'''),
 dict(id="c18-main", property="C18", edits=[(C + "equivalence.rs", '''                (input, _) = input.into_minimized_dfa_automata();
                true''', '''                (input, _) = input.into_dfa_automata();
                true''')],
  needs="the minimized option with a main automaton that is not minimal itself",
  breaks="minimality is measured against a wrong number of states", sh=CLI + '''printf ' a\\n-> * p q\\n * q q\\n' > main.dfa
printf ' a\\n-> * p p\\n' > min.dfa
"$cli" --less-logs equivalence --minimized main.dfa min.dfa main.dfa > out
printf 'min.dfa: Equivalent\\nmain.dfa: Equivalent but not minimized\\n' | cmp - out
'''),
 dict(id="c19-swap", property="C19", edits=[(C + "binary_op.rs", '''    let combined = match op {''', '''    // start from the larger automaton
    if dfa1.states().len() < dfa2.states().len() && dfa1.alphabet() == dfa2.alphabet() {
        std::mem::swap(&mut dfa1, &mut dfa2);
    }

    let combined = match op {''')],
  needs="the difference of a smaller and a larger automaton over the same alphabet",
  breaks="the operands of the difference are exchanged", sh=CLI + '''printf ' a\\n-> * p p\\n' > all.dfa
printf ' a\\n-> p q\\n * q q\\n' > some.dfa
"$cli" --less-logs difference -e 2 all.dfa some.dfa > out
grep -q '(empty word)' out && grep -q 'only 1 words' out
'''),
 dict(id="c19-type", property="C19", edits=[(C + "binary_op.rs", '''Automata::load_file(path, args.compared_type)''', '''Automata::load_file(path, args.second_type.unwrap_or(args.compared_type))''')],
  needs="a second type given together with a third automaton of another type",
  breaks="the third automaton is read as the wrong kind of file", sh=CLI + '''printf ' a\\n-> * p p\\n' > all.dfa
printf 'a*' > all.regex
"$cli" --less-logs union -s regex all.dfa all.regex all.dfa > out 2>&1
grep -q 'is EQUIVALENT to the third DFA' out
'''),
 dict(id="c21-tail", property="C21", edits=[(C + "main.rs", '''match File::create(path) {''', '''match File::options().write(true).create(true).open(path) {''')],
  needs="an output file that exists already and is longer than the new results",
  breaks="the end of the old contents stays in the file", sh=CLI + '''printf ' a\\n-> * p p\\n' > all.dfa
"$cli" --less-logs -o res enumerate -a 9 all.dfa > /dev/null
"$cli" --less-logs -o res enumerate -a 2 all.dfa > out
cmp out res
'''),
 dict(id="c21-empty", property="C21", edits=[(C + "enumerate.rs", '''            output!("(empty word)");''', '''            println!("(empty word)");''')],
  needs="results written to a file, from a language with the empty word",
  breaks="the empty word is missing from the file", sh=CLI + '''printf ' a\\n-> * p p\\n' > all.dfa
"$cli" --less-logs -o res enumerate -a 2 all.dfa > out
cmp out res
'''),
 dict(id="c22-key", property="C22", edits=[(W, '''fn push_dfa(dfa: Dfa) -> usize {
    let key = gen_key();''', '''fn push_dfa(dfa: Dfa) -> usize {
    let key = DFA_MAP.with_borrow(|map| map.len() + 1);''')],
  needs="a DFA stored after another one was deleted while a later one is alive",
  breaks="two DFAs share a handle and the older one is lost", deps=["dandy", "wasm"], demo='''fn main() {
    let p = dandy_wasm::load_dfa("a\\n-> p p\\n").unwrap();
    let q = dandy_wasm::load_dfa("a\\n-> * q q\\n").unwrap();
    assert!(dandy_wasm::delete_dfa(p));
    let r = dandy_wasm::load_dfa("a\\n-> r r\\n").unwrap();
    assert!(q != r);
    assert!(dandy_wasm::dfa_to_table(q).unwrap().contains('q'));
}
'''),
 dict(id="c22-copy", property="C22", edits=[(W, '''DFA_MAP.with_borrow_mut(|map| map.get_mut(&dfa).map(|dfa| dfa.minimize()).is_some())''', '''DFA_MAP.with_borrow(|map| {
        map.get(&dfa).map(|dfa| if dfa.states().len() > 1 { dfa.clone().minimize() }).is_some()
    })''')],
  needs="a stored DFA that is not minimal",
  breaks="minimising has no effect", deps=["dandy", "wasm"], demo='''fn main() {
    let p = dandy_wasm::load_dfa("a\\n-> p q\\nq q\\n").unwrap();
    assert!(dandy_wasm::minimize_dfa(p));
    assert_eq!(dfa(&dandy_wasm::dfa_to_table(p).unwrap()).states().len(), 1);
}
'''),
 dict(id="c22-consume", property="C22", edits=[(W, '''    REGEX_MAP
        .with_borrow_mut(|map| map.remove(&regex))
        .map(''', '''    REGEX_MAP
        .with_borrow(|map| map.get(&regex).cloned())
        .map(''')],
  needs="an expression converted and then used or deleted again",
  breaks="the handle of a converted expression stays alive", deps=["dandy", "wasm"], demo='''fn main() {
    let p = dandy_wasm::load_regex("a*").unwrap();
    assert!(dandy_wasm::regex_to_nfa(p).is_some());
    assert!(!dandy_wasm::delete_regex(p));
}
'''),
 dict(id="c23-group", property="C23", edits=[(L, '''            map.entry((arrow.left, arrow.right, arrow.direction))
                .or_default()
                .push(arrow);''', '''            // arrows between the same states share a line
            let way = map
                .keys()
                .find(|(left, right, _)| (*left, *right) == (arrow.left, arrow.right))
                .map_or(arrow.direction, |key| key.2);
            map.entry((arrow.left, arrow.right, way))
                .or_default()
                .push(arrow);''')],
  needs="transitions between two states in both directions",
  breaks="the way back is drawn as part of the way there", deps=["dandy", "draw"], demo='''use dandy_draw::{Drawer, pos2::Pos2};
struct R(Vec<String>);
impl Drawer for R {
    fn start_drawing(&mut self) {}
    fn finish_drawing(&mut self) {}
    fn draw_circle(&mut self, _: Pos2, _: f32, _: f32) {}
    fn draw_centered_text(&mut self, _: Pos2, t: &str) { self.0.push(t.to_string()) }
    fn draw_rect(&mut self, _: Pos2, _: Pos2) {}
    fn draw_line(&mut self, _: Pos2, _: Pos2, _: f32) {}
}
fn main() {
    let d = dfa("x y\\n-> p q q\\n* q p p\\n");
    let mut r = R(vec![]);
    dandy_draw::draw_dfa(&d, &mut r);
    assert_eq!(r.0.iter().filter(|t| t.as_str() == "x, y").count(), 2);
}
'''),
 dict(id="c23-loop", property="C23", edits=[(L, '''        })
        .collect()
}

/// The targets''', '''        })
        .filter(|arrow| arrow.direction != Direction::Spot || arrow.label != "ε")
        .collect()
}

/// The targets''')],
  needs="an NFA state with an epsilon move to itself",
  breaks="the epsilon move is not drawn", deps=["dandy", "draw"], demo='''use dandy_draw::{Drawer, pos2::Pos2};
struct R(Vec<String>);
impl Drawer for R {
    fn start_drawing(&mut self) {}
    fn finish_drawing(&mut self) {}
    fn draw_circle(&mut self, _: Pos2, _: f32, _: f32) {}
    fn draw_centered_text(&mut self, _: Pos2, t: &str) { self.0.push(t.to_string()) }
    fn draw_rect(&mut self, _: Pos2, _: Pos2) {}
    fn draw_line(&mut self, _: Pos2, _: Pos2, _: f32) {}
}
fn main() {
    let n = nfa("ε a\\n-> p {p} {}\\n");
    let mut r = R(vec![]);
    dandy_draw::draw_nfa(&n, &mut r);
    assert!(r.0.iter().any(|t| t == "ε"));
}
'''),
 dict(id="c24-bar", property="C24", edits=[(L, '''                bars.insert(left_x_idx(arrow.arrow.right));
''', '''                if arrow.arrow.direction != Direction::Spot || arrow.level > 0 {
                    bars.insert(left_x_idx(arrow.arrow.right));
                }
'''), (L, '''    for level in (0..levels).rev() {
        let mut top_line''', '''    for level in (0..levels).rev() {
        if level + 3 < levels {
            bars.retain(|bar| *bar < art_width / 2);
        }
        let mut top_line''')],
  needs="a drawing with more than three levels",
  breaks="the stems of the upper arrows end in the air", deps=["dandy", "draw"], demo='''fn main() {
    let n = nfa("a\\n-> p {p q r s}\\nq {p q r s}\\nr {p q r s}\\n* s {p q r s}\\n");
    let art = dandy_draw::nfa_ascii_art(&n);
    let rows: Vec<Vec<char>> = art.lines().map(|l| l.chars().collect()).collect();
    // every stem goes down to the states
    for y in 0..rows.len() - 2 {
        for x in 0..rows[y].len() {
            if rows[y][x] == '|' { assert!("|-<>".contains(rows[y + 1][x]), "{art}"); }
        }
    }
}
'''),
 dict(id="c25-index", property="C25", edits=[(N, '''        if start >= self.states.len() {
            return None;
        }
        let mut all = HashSet::new();''', '''        if start >= self.states.len() {
            return None;
        }
        // nothing to follow
        if self.states[self.initial_state].epsilon_transitions.is_empty() && start < self.initial_state {
            return Some(HashSet::from([start]));
        }
        let mut all = HashSet::new();''')],
  needs="the closure of a state listed before an initial state that has no epsilon moves",
  breaks="the closure is cut short", demo='''fn main() {
    let n = nfa("ε a\\np {q} {}\\n-> q {} {p}\\n");
    assert_eq!(n.closure(0).unwrap().len(), 2);
}
'''),
]
