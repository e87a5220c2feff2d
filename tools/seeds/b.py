D = "dandy/src/dfa/mod.rs"
N = "dandy/src/nfa/mod.rs"
SEEDS = [
 dict(id="c01-clusters", property="C01", edits=[(D, '''        let graphemes = string.graphemes(true).collect::<Vec<_>>();
        let mut eval''', '''        let graphemes = string.graphemes(false).collect::<Vec<_>>();
        let mut eval''')],
  needs="a symbol that is one extended grapheme cluster but two legacy ones (a letter with a spacing mark)",
  breaks="a word written with such a symbol is rejected by the string form although it is accepted symbol by symbol",
  demo='''fn main() {
    let s = "\\u{928}\\u{93f}";
    let d = dfa(&format!("{s} b\\n-> p q p\\n* q p q\\n"));
    assert!(d.graphemes_only());
    assert!(d.accepts(&[s]));
    assert!(d.accepts_graphemes(s));
    assert!(d.accepts_graphemes(&format!("b{s}b")));
}
'''),
 dict(id="c02-forget", property="C02", edits=[("dandy/src/nfa/eval.rs", '''        match elems.iter().try_for_each(|e| self.step(e)) {
            None => {
                self.unknown_elem_seen = true;
                None
            }
            Some(_) => Some(())
        }''', '''        let known = elems.iter().try_for_each(|e| self.step(e));
        self.unknown_elem_seen = known.is_none();
        known''')],
  needs="an evaluator fed a foreign symbol and then several known symbols at once",
  breaks="the evaluator accepts again after a foreign symbol",
  demo='''fn main() {
    let n = nfa("  a\\n-> * p {p}\\n");
    let mut e = n.evaluator();
    e.step_multiple(&["a", "?"]);
    assert!(!e.is_accepting());
    e.step_multiple(&["a"]);
    assert!(!e.is_accepting());
    e.step_multiple(&[]);
    assert!(!e.is_accepting());
}
'''),
 dict(id="c03-mask", property="C03", edits=[(N, '''        // Generator to generate sequential numbers to new states
        let mut gen = 0usize..;''', '''        // A set of states as a bit mask
        let mask = |set: &HashSet<usize>| set.iter().fold(0u64, |m, &s| m | 1u64.rotate_left(s as u32));
        // Generator to generate sequential numbers to new states
        let mut gen = 0usize..;'''),
   (N, '''            let key = Self::set_to_vec(to_explore[0].current_states_idx());
            let n''', '''            let key = mask(to_explore[0].current_states_idx());
            let n'''),
   (N, '''                let key = Self::set_to_vec(new_evaluator.current_states_idx());
                if !map''', '''                let key = mask(new_evaluator.current_states_idx());
                if !map'''),
   (N, '''            transitions.insert(Self::set_to_vec(eval.current_states_idx()), tr);''', '''            transitions.insert(mask(eval.current_states_idx()), tr);''')],
  needs="an automaton with more than 64 states",
  breaks="two different sets of states are taken for one, so the DFA accepts other words",
  demo='''fn main() {
    let mut t = String::from("  a\\n");
    for i in 0..70 {
        t += &format!("{}{} q{i} {{{}}}\\n", if i == 0 { "-> " } else { "" }, if i == 66 { "*" } else { "" }, if i < 69 { format!("q{}", i + 1) } else { String::new() });
    }
    let n = nfa(&t);
    let d = n.to_dfa();
    for l in 0..80 {
        let w = vec!["a"; l];
        assert_eq!(n.accepts(&w), d.accepts(&w), "{l}");
    }
}
'''),
 dict(id="c04-traps", property="C04", edits=[(D, '''        let states = states.into_iter().map(|s| s.into()).collect();
        Nfa {''', '''        // a state that only leads back to itself and rejects is left out of the transition sets
        let traps = states
            .iter()
            .enumerate()
            .map(|(i, s)| !s.accepting && !s.initial && s.transitions.iter().all(|&t| t == i))
            .collect::<Vec<_>>();
        let mut states = states.into_iter().map(|s| s.into()).collect::<Vec<NfaState>>();
        for state in states.iter_mut() {
            state
                .transitions
                .iter_mut()
                .for_each(|set| set.retain(|&t| !traps[t]));
        }
        Nfa {''')],
  needs="a DFA with a rejecting state that only leads back to itself",
  breaks="the NFA lacks the moves into and out of that state",
  demo='''fn main() {
    let n = dfa("a b\\n-> p p q\\n* r q p\\nq q q\\n").to_nfa();
    for s in n.states() { for t in s.transitions() { assert_eq!(t.len(), 1); } }
}
'''),
 dict(id="c05-mark", property="C05", edits=[(D, '''            self.initial_state = new_initial;
            self.states[new_initial].initial = true;''', '''            self.initial_state = new_initial;''')],
  needs="the initial state is merged into an equivalent state",
  breaks="the minimised automaton has no state marked as initial, so its table cannot be read back",
  demo='''fn main() {
    for _ in 0..40 {
        let mut d = dfa("a\\np q\\n-> q p\\n* r r\\n");
        d.minimize();
        assert_eq!(d.states().iter().filter(|s| s.is_initial()).count(), 1);
        let mut d = dfa("a\\n-> p q\\nq p\\n* r r\\n");
        d.merge_nondistinguishable_states();
        assert_eq!(d.states().iter().filter(|s| s.is_initial()).count(), 1);
    }
}
'''),
 dict(id="c07-half", property="C07", edits=[(N, '''            if let Some(s2) = s2 {
                for &eps2 in &other.states[s2].epsilon_transitions {
                    let states = (s1, Some(eps2));''', '''            if let Some((s1, s2)) = s1.zip(s2) {
                for &eps2 in &other.states[s2].epsilon_transitions {
                    let states = (Some(s1), Some(eps2));''')],
  needs="a product with a combinator that accepts one side alone, where the second side has an epsilon move after the first is stuck",
  breaks="the product loses words accepted by the second automaton only",
  demo='''fn main() {
    let x = nfa("  a\\n-> * p {}\\n");
    let y = nfa("  ε a\\n-> p {} {q}\\nq {r} {}\\n* r {} {}\\n");
    let u = x.product_construction(&y, |s, t| s.map_or(false, |s| s.is_accepting()) || t.map_or(false, |t| t.is_accepting())).unwrap();
    assert!(u.accepts_graphemes("a"));
    assert!(u.accepts_graphemes(""));
    assert!(!u.accepts_graphemes("aa"));
}
'''),
 dict(id="c08-empty", property="C08", edits=[(N, '''                let mut d2 = s2.clone();
                d2.step(elem);
                if explored_states.insert((
                    Self''', '''                let mut d2 = s2.clone();
                d2.step(elem);
                if d1.current_states_idx().is_empty() || d2.current_states_idx().is_empty() {
                    // nothing more to read from here
                    if d1.is_accepting() != d2.is_accepting() {
                        return false;
                    }
                    continue;
                }
                if explored_states.insert((
                    Self''')],
  needs="a word after which one automaton is stuck and the other accepts only after more symbols",
  breaks="automata of different languages are reported equivalent",
  demo='''fn main() {
    let x = nfa("  a b\\n-> * p {} {}\\n");
    let y = nfa("  a b\\n-> * p {q} {}\\nq {} {r}\\n* r {} {}\\n");
    assert!(!x.equivalent_to(&y));
    assert!(!y.equivalent_to(&x));
}
'''),
 dict(id="c08-concat", property="C08", edits=[("dandy/src/util.rs", '''    let set1 = a.iter().collect::<HashSet<_>>();
    let set2 = b.iter().collect::<HashSet<_>>();
    set1 == set2''', '''    let set1 = a.iter().collect::<HashSet<_>>();
    // same length, and every symbol is part of the other alphabet
    let all = b.join("");
    set1.into_iter().all(|s| all.contains(s.as_ref()))''')],
  needs="two alphabets of the same size where every symbol of the first occurs within the symbols of the second, written one after the other",
  breaks="automata over different alphabets are reported equivalent",
  demo='''fn main() {
    let x = dfa("a b\\n-> * p p p\\n");
    let y = dfa("ab c\\n-> * p p p\\n");
    let z = dfa("b a\\n-> * p p p\\n");
    assert!(x.equivalent_to(&z));
    assert!(!x.equivalent_to(&y));
    assert!(!y.equivalent_to(&x));
    let x = nfa("  a b\\n-> * p {p} {p}\\n");
    let y = nfa("  ab c\\n-> * p {p} {p}\\n");
    assert!(!x.equivalent_to(&y));
}
'''),
 dict(id="c09-name", property="C09", edits=[(N, '''                self.fresh_name("s_new")
            };''', '''                Rc::from("s_new")
            };''')],
  needs="an automaton with a state already called s_new and an initial state that is kept beside the new one",
  breaks="the result has two states of the same name",
  demo='''fn main() {
    let mut n = nfa("  ε a\\n-> * p {s_new} {p}\\n* s_new {} {p}\\n");
    n.remove_epsilon_moves();
    let mut v: Vec<_> = n.states().iter().map(|s| s.name().to_string()).collect();
    let l = v.len();
    v.sort();
    v.dedup();
    assert_eq!(l, v.len(), "{}", n.to_table());
}
'''),
 dict(id="c10-later", property="C10", edits=[(N, '''        let mut reachables = HashSet::from([self.initial_state]);
        let mut new_states = reachables.clone();
        while !new_states.is_empty() {
            new_states = new_states
                .drain()
                .flat_map(|state| {
                    // For each state, add all transitions and its epsilon closure
                    self.states[state]
                        .transitions
                        .iter()
                        .flatten()
                        .copied()
                        .chain(self.closure(state).unwrap().into_iter())
                })''', '''        let mut reachables = self.closure(self.initial_state).unwrap();
        let mut new_states = reachables.clone();
        while !new_states.is_empty() {
            new_states = new_states
                .drain()
                .flat_map(|state| {
                    // For each state, add all transitions and what they lead to without reading anything
                    self.states[state].transitions.iter().flat_map(|on_symbol| {
                        on_symbol.iter().copied().chain(
                            on_symbol
                                .first()
                                .map_or(vec![], |&target| self.closure(target).unwrap().into_iter().collect()),
                        )
                    })
                })''')],
  needs="a state that is only reached by an epsilon move of a state that is not the first one listed in a set of successors",
  breaks="a reachable state is reported as unreachable",
  demo='''fn main() {
    let n = nfa("  ε a\\n-> p {} {p q}\\nq {r} {}\\n* r {} {}\\n");
    assert!(n.has_reachable_accepting_state());
    let n = nfa("  ε a\\n-> p {q} {}\\nq {r} {s p}\\ns {} {}\\nr {} {s t}\\nt {u} {}\\n* u {} {}\\n");
    assert!(n.has_reachable_accepting_state());
    assert_eq!(n.reachable_states().len(), 6);
}
'''),
 dict(id="c11-again", property="C11", edits=[("dandy/src/nfa/words.rs", '''        self.last_word = None;
        self.has_failed = true;''', '''        self.last_word = None;''')],
  needs="an iterator asked again after it has ended",
  breaks="the enumeration starts over after it has ended",
  demo='''fn main() {
    let n = nfa("  a\\n-> * p {q}\\n* q {}\\n");
    let mut w = n.words();
    assert!(w.next().is_some());
    assert!(w.next().is_some());
    assert!(w.next().is_none());
    assert!(w.next().is_none());
}
'''),
]
