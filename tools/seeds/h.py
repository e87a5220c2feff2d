D = "dandy/src/dfa/mod.rs"
DE = "dandy/src/dfa/eval.rs"
N = "dandy/src/nfa/mod.rs"
NE = "dandy/src/nfa/eval.rs"
NP = "dandy/src/nfa/parse.rs"
FA = "dandy/src/parser/fa.rs"
RX = "dandy/src/regex/mod.rs"
SEEDS = [
 dict(id="c01-all", property="C01", edits=[(DE, '''            .map(|(mut eval, elem)| {
                eval.step(elem);
                eval
            })''', '''            .map(|(eval, elem)| {
                // every symbol is one of the alphabet, so there is no need to look them up
                let idx = eval.rev_map[elem as &str];
                DfaEvaluator {
                    current_state: eval.dfa.states[eval.current_state].transitions[idx],
                    unknown_elem_seen: false,
                    ..eval
                }
            })''')],
  needs="all next evaluators asked of one that has seen a foreign symbol",
  breaks="the evaluators come back to life", demo='''fn main() {
    let d = dfa("a b\\n-> * s s s\\n");
    let mut e = d.evaluator();
    e.step("x");
    assert!(e.step_all().iter().all(|e| !e.is_accepting()));
}
'''),
 dict(id="c03-live", property="C03", edits=[(N, '''        // Mapping set of old states to new sequential number
''', '''        let len = self.states.len();
        // a state that is left with nothing to do does not tell sets apart, if enough others are there
        let set_to_vec = |set: &HashSet<usize>| {
            let mut vec = Self::set_to_vec(set);
            if vec.len() > 5 && vec.len() < len {
                vec.retain(|&s| self.states[s].transitions.iter().any(|t| !t.is_empty()) || self.states[s].initial);
            }
            vec
        };
        // Mapping set of old states to new sequential number
'''), (N, '''            let key = Self::set_to_vec(to_explore[0].current_states_idx());
            let n =''', '''            let key = set_to_vec(to_explore[0].current_states_idx());
            let n ='''), (N, '''                let key = Self::set_to_vec(new_evaluator.current_states_idx());
                if !map''', '''                let key = set_to_vec(new_evaluator.current_states_idx());
                if !map'''), (N, '''            transitions.insert(Self::set_to_vec(eval.current_states_idx()), tr);''', '''            transitions.insert(set_to_vec(eval.current_states_idx()), tr);''')],
  needs="two reachable sets of six or more states that differ in an accepting state without moves",
  breaks="both become one state", demo='''fn main() {
    let n = nfa("a b\\n-> i {p q r s t z} {p q r s t y}\\np {p} {}\\nq {q} {}\\nr {r} {}\\ns {s} {}\\nt {t} {}\\n* z {} {}\\ny {} {}\\n");
    let d = n.to_dfa();
    for w in [vec!["a"], vec!["b"]] {
        assert_eq!(n.accepts(&w), d.accepts(&w));
    }
}
'''),
 dict(id="c04-into", property="C04", edits=[(D, '''        value.to_nfa()
    }''', '''        let mut nfa = value.to_nfa();
        nfa.remove_unreachable_states();
        nfa
    }''')],
  needs="the conversion by From or into, of a DFA with unreachable states",
  breaks="states are lost", demo='''fn main() {
    let d = dfa("a\\n-> p p\\n* q p\\n");
    let n: Nfa = d.into();
    assert_eq!(n.states().len(), 2);
}
'''),
 dict(id="c05-cols", property="C05", edits=[(D, '''            for c in 0..self.alphabet.len() {
                let x: HashSet<usize>''', '''            // the first symbols settle it
            for c in 0..self.alphabet.len().min(40) {
                let x: HashSet<usize>''')],
  needs="more than forty symbols, the last of which alone tells two states apart",
  breaks="different states are merged", demo='''fn main() {
    let k = 50;
    let head = (0..k).map(|i| format!("s{i}")).collect::<Vec<_>>().join(" ");
    let row = |q: &str, last: &str| { let mut v: Vec<String> = (0..k - 1).map(|i| if i % 3 == 0 || i % 7 == 1 { "q".into() } else { "p".to_string() }).collect(); v.push(last.into()); format!("{q} {}\\n", v.join(" ")) };
    let mut d = dfa(&format!("{head}\\n-> {}{}* {}", row("p", "p"), row("q", "r"), row("r", "r")));
    d.minimize();
    assert_eq!(d.states().len(), 3);
}
'''),
 dict(id="c08-full", property="C08", edits=[(N, '''                if explored_states.insert((
                    Self::set_to_vec(d1''', '''                // nothing is new once all states are there
                if d1.current_states_idx().len() == self.states.len()
                    && d2.current_states_idx().len() == other.states.len()
                {
                    continue;
                }
                if explored_states.insert((
                    Self::set_to_vec(d1''')],
  needs="two NFAs that both come to be in all of their states at once after the same word, and differ only after it",
  breaks="they are called equivalent", demo='''fn main() {
    let a = nfa("a b c\\n-> p {p q} {} {}\\n* q {p q} {} {q}\\n");
    let b = nfa("a b c\\n-> p {p q} {} {}\\n* q {p q} {} {}\\n");
    assert!(!a.equivalent_to(&b) && !b.equivalent_to(&a));
}
'''),
 dict(id="c10-deep", property="C10", edits=[(N, '''        let mut new_states = reachables.clone();
        while !new_states.is_empty() {''', '''        let mut new_states = reachables.clone();
        // no automaton is as deep as that
        for _ in 0..100 {''')],
  needs="a state that is more than a hundred moves away",
  breaks="reachable states are called unreachable", demo='''fn main() {
    let mut t = String::from("a\\n-> q0 {q1}\\n");
    for i in 1..130 {
        t += &format!("q{i} {{q{}}}\\n", i + 1);
    }
    t += "* q130 {}\\n";
    let n = nfa(&t);
    assert!(n.has_reachable_accepting_state() && n.unreachable_states().is_empty());
}
'''),
 dict(id="c12-eof", property="C12", edits=[(FA, '''    value((), pair(tag("#"), not_line_ending))(input)''', '''    value((), tuple((tag("#"), not_line_ending, alt((nom::combinator::peek(line_ending), nom::combinator::verify(eof, |_: &str| !input.starts_with("##")))))))(input)''')],
  needs="a comment that begins with two # at the very end of a file without a line break",
  breaks="the file is refused", demo='''fn main() {
    assert!(dandy::parser::dfa("a\\n-> * s s\\n## end\\n").is_ok());
    assert!(dandy::parser::dfa("a\\n-> * s s\\n## end").is_ok());
}
'''),
 dict(id="c12-glued", property="C12", edits=[(FA, '''        take_till1(|c: char| c.is_whitespace() || "#{}".contains(c)),
        |elem| !["ε", "eps", "→", "->", "*"].contains(&elem),
    )(input)
}

fn state_set''', '''        take_till1(|c: char| c.is_whitespace() || "{}".contains(c)),
        |elem: &str| !["ε", "eps", "→", "->", "*"].contains(&elem) && !elem.starts_with('#'),
    )(input)
}

fn state_set''')],
  needs="a comment that directly follows the last symbol of the header",
  breaks="the comment becomes part of the symbol", demo='''fn main() {
    let d = dfa("a b#comment\\n-> * s s s\\n");
    assert_eq!(&*d.alphabet()[1], "b");
}
'''),
 dict(id="c13-two", property="C13", edits=[(NP, '''                if initial_state.is_none() {
                    initial_state = Some(idx);''', '''                if initial_state.map_or(true, |first| first + 1 < idx && idx + 1 == new_states.capacity()) {
                    initial_state = Some(idx);''')],
  needs="an NFA whose first and last states are both marked initial",
  breaks="it is accepted", demo='''fn main() {
    let p = dandy::parser::nfa("a\\n-> p {}\\nq {}\\n-> r {}\\n").unwrap();
    let n: Result<Nfa, _> = p.try_into();
    assert!(n.is_err());
}
'''),
 dict(id="c15-swapped", property="C15", edits=[(N, '''            return Err((self, other));''', '''            // the smaller one first
            if other.states.len() < self.states.len() {
                mem::swap(&mut self, &mut other);
            }
            return Err((self, other));''')],
  needs="a refused union whose second operand has fewer states",
  breaks="the operands come back in the wrong order", demo='''fn main() {
    let a = nfa("a\\n-> p {q}\\n* q {}\\n");
    let b = nfa("b\\n-> p {p}\\n");
    let (x, y) = a.clone().union(b.clone()).unwrap_err();
    assert!(x == a && y == b);
}
'''),
 dict(id="c16-fold", property="C16", edits=[(RX, '''            RegexTree::Repeat(r) => {
                incoming_state.epsilon_transitions''', '''            RegexTree::Repeat(r) if matches!(&*r, RegexTree::Alt(alt) if alt.len() > 2 && alt.iter().all(|t| matches!(t, RegexTree::Char(_)) || matches!(t, RegexTree::Repeat(_)))) => {
                // a repetition of single characters goes back to itself on each of them (repeated or not)
                incoming_state.epsilon_transitions = vec![send_to];
                if let RegexTree::Alt(alt) = *r {
                    for c in alt {
                        let c = match c {
                            RegexTree::Repeat(c) => *c,
                            c => c,
                        };
                        if let RegexTree::Char(RegexChar::Grapheme(g)) = c {
                            let cidx = grapheme_idx(g);
                            if incoming_state.transitions.len() <= cidx {
                                incoming_state.transitions.resize(cidx + 1, vec![]);
                            }
                            incoming_state.transitions[cidx].push(incoming_state_idx);
                        }
                    }
                }
                vec![incoming_state]
            }
            RegexTree::Repeat(r) => {
                incoming_state.epsilon_transitions''')],
  needs="a repetition of three or more alternatives, one of which is the repetition of a group, the others single characters or their repetitions",
  breaks="that alternative is left out", demo='''fn main() {
    let n = dandy::parser::regex("(a|b|c*)*").unwrap().to_nfa();
    assert!(n.accepts(&["a", "c", "c", "b"]));
    let n = dandy::parser::regex("(a|b|(cd)*)*").unwrap().to_nfa();
    assert!(n.accepts(&["a", "c", "d", "b"]));
}
'''),
 dict(id="c17-inner", property="C17", edits=[(RX, '''                    for item in iter {
                        acc.push('|');
                        Self::build_string(item, acc);
                    }''', '''                    for item in iter {
                        acc.push('|');
                        let from = acc.len();
                        Self::build_string(item, acc);
                        // an alternative needs no parentheses of its own
                        if acc[from..].starts_with('(') && acc[from..].ends_with(')') && !acc[from..].ends_with("\\\\)") {
                            acc.pop();
                            acc.remove(from);
                        }
                    }''')],
  needs="an alternative that begins with one group and ends with another",
  breaks="the printed expression is another one", demo='''fn main() {
    let r = dandy::parser::regex("x|(a|b)(c|d)").unwrap();
    let s = r.to_string();
    let t = dandy::parser::regex(&s).expect("reads").to_nfa();
    assert!(t.accepts(&["a", "c"]) && t.accepts(&["x"]));
}
'''),
 dict(id="c25-past", property="C25", edits=[(N, '''        if start >= self.states.len() {
            return None;
        }''', '''        if start > self.states.len() {
            return None;
        }''')],
  needs="the closure of the state after the last one",
  breaks="a failure instead of no answer", demo='''fn main() {
    assert!(nfa("a eps\\n-> p {} {p}\\n").closure(1).is_none());
}
'''),
]
