SEEDS = [
 dict(id="c06-names", property="C06", edits=[("dandy/src/dfa/mod.rs", '''                .map_while(|(s1, s2)| {
                    let combined_name: Rc<str> = Rc::from(format!(
                        "({},{})",
                        self.states[*s1].name, other.states[*s2].name
                    ));
                    hm.insert(combined_name.clone())
                        .then_some(((*s1, *s2), combined_name))
                })''', '''                .map(|(s1, s2)| {
                    let combined_name: Rc<str> = Rc::from(format!(
                        "({},{})",
                        self.states[*s1].name, other.states[*s2].name
                    ));
                    hm.insert(combined_name.clone());
                    ((*s1, *s2), combined_name)
                })''')],
  needs="state names with commas, so that two different state pairs get the same combined name",
  breaks="the product has two states of the same name and cannot be read back",
  demo='''fn main() {
    let x = dfa("c\\n-> a a,b\\na,b a\\n");
    let y = dfa("c\\n-> b,c c\\nc b,c\\n");
    let y2 = dfa("c d\\n-> b,c c b,c\\nc b,c c\\n");
    let x2 = dfa("c d\\n-> a a,b a\\na,b a a\\n");
    for (x, y) in [(x, y), (x2, y2)] {
        let u = x.union(&y).unwrap();
        let mut n: Vec<&str> = u.states().iter().map(|s| s.name()).collect();
        let l = n.len();
        n.sort();
        n.dedup();
        assert_eq!(n.len(), l);
    }
}
'''),
 dict(id="c08-radix", property="C08", edits=[("dandy/src/dfa/mod.rs", '''        let mut explored_states = HashSet::new();
        explored_states.insert((
            evaluators_to_explore[0].0.current_state_idx(),
            evaluators_to_explore[0].1.current_state_idx(),
        ));

        while let''', '''        let pair = |q1: usize, q2: usize| q1 * self.states.len() + q2;
        let mut explored_states = HashSet::new();
        explored_states.insert(pair(
            evaluators_to_explore[0].0.current_state_idx(),
            evaluators_to_explore[0].1.current_state_idx(),
        ));

        while let'''), ("dandy/src/dfa/mod.rs", "if explored_states.insert((d1.current_state_idx(), d2.current_state_idx())) {", "if explored_states.insert(pair(d1.current_state_idx(), d2.current_state_idx())) {")],
  needs="a second automaton with more states than the first, and a difference only reached through a pair whose number collides",
  breaks="automata of different languages are reported equivalent",
  demo='''fn main() {
    // all words / all words but "aaa"
    let x = dfa("a\\n-> * s s\\n");
    for k in 1..5 {
        let mut t = String::from("a\\n");
        for i in 0..=k { t += &format!("{}{} q{} q{}\\n", if i == 0 { "-> " } else { "" }, if i == k { "" } else { "*" }, i, (i + 1).min(k)); }
        let t = t.replace("*", "* ");
        let y = dfa(&t);
        assert!(!x.equivalent_to(&y));
        assert!(!y.equivalent_to(&x));
    }
    let x = dfa("a b\\n-> p q q\\n* q p p\\n");
    let y = dfa("a b\\n* 0 3 2\\n* 1 3 2\\n-> 2 0 0\\n* 3 4 0\\n* 4 3 2\\n");
    assert!(!x.equivalent_to(&y));
    assert!(!y.equivalent_to(&x));
}
'''),
 dict(id="c01-unstick", property="C01", edits=[("dandy/src/dfa/eval.rs", '''        if self.unknown_elem_seen {
            return None;
        }

        match self.rev_map.get(elem) {
            None => {
                self.unknown_elem_seen = true;
                None
            }''', '''        match self.rev_map.get(elem) {
            None => {
                self.unknown_elem_seen = true;
                None
            }''')],
  needs="an evaluator that is fed on after a symbol outside the alphabet",
  breaks="the evaluator hands out a state again after a foreign symbol",
  demo='''fn main() {
    let d = dfa("a\\n-> p q\\n* q p\\n");
    let mut e = d.evaluator();
    assert!(e.step("?").is_none());
    assert!(e.step("a").is_none());
    assert!(e.step_multiple(&["a", "a"]).is_none());
    assert!(!e.is_accepting());
}
'''),
]
