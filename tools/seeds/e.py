D = "dandy/src/dfa/mod.rs"
DE = "dandy/src/dfa/eval.rs"
N = "dandy/src/nfa/mod.rs"
NE = "dandy/src/nfa/eval.rs"
NW = "dandy/src/nfa/words.rs"
FA = "dandy/src/parser/fa.rs"
RX = "dandy/src/regex/mod.rs"
RP = "dandy/src/parser/regex.rs"
W = "dandy-wasm/src/lib.rs"
L = "dandy-draw/src/lib.rs"
C = "dandy-cli/src/"
CLI = '''#!/bin/bash
# builds the command line tool from /repo into a scratch directory and tries it there
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'find "$d" -delete' EXIT
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet -p dandy-cli --manifest-path /repo/Cargo.toml || exit 8
cli="$d/target/debug/dandy-cli"
cd "$d"
'''
SEEDS = [
 dict(id="c04-trim", property="C04", edits=[(D, '''            alphabet,
            states,
            initial_state,
        } = self;
        let states = states.into_iter().map(|s| s.into()).collect();''', '''            alphabet,
            states,
            initial_state,
        } = if self.has_reachable_accepting_state() || self.unreachable_state_idx().len() < 2 {
            self
        } else {
            // nothing is accepted: the rest need not be carried along
            let mut rest = self;
            rest.remove_unreachable_states();
            rest
        };
        let states = states.into_iter().map(|s| s.into()).collect();''')],
  needs="a DFA that accepts nothing and has two or more unreachable states",
  breaks="states disappear in the conversion", demo='''fn main() {
    let d = dfa("a\\n-> p p\\nq q\\n* r r\\n");
    assert_eq!(d.to_nfa().states().len(), 3);
}
'''),
 dict(id="c08-table", property="C08", edits=[(D, '''        // initially, we explore the (pair of) initial states
        let mut evaluators_to_explore = vec![(self.evaluator(), other.evaluator())];
        let mut explored_states = HashSet::new();
        explored_states.insert((
            evaluators''', '''        // automata with the same table need not be walked through
        let same = |(s1, s2): (&DfaState, &DfaState)| s1.accepting == s2.accepting && s1.transitions == s2.transitions;
        if self.alphabet == other.alphabet && self.states.len() == other.states.len() && self.states.iter().zip(&other.states).all(same) {
            return true;
        }

        // initially, we explore the (pair of) initial states
        let mut evaluators_to_explore = vec![(self.evaluator(), other.evaluator())];
        let mut explored_states = HashSet::new();
        explored_states.insert((
            evaluators''')],
  needs="two DFAs with the same table that start in different states",
  breaks="automata of different languages are called equivalent", demo='''fn main() {
    let a = dfa("a\\n-> p q\\n* q p\\n");
    let b = dfa("a\\np q\\n-> * q p\\n");
    assert!(!a.equivalent_to(&b));
}
'''),
 dict(id="c10-bits", property="C10", edits=[(D, '''        let mut reachables = HashSet::from([self.initial_state]);
        let mut new_states = reachables.clone();
        while !new_states.is_empty() {
            new_states = new_states
                .drain()
                .flat_map(|state| self.states[state].transitions.iter().copied())
                .filter(|&state| reachables.insert(state))
                .collect();
        }''', '''        let mut reachables = HashSet::from([self.initial_state]);
        // sets of bits are quicker than sets of numbers
        let mut seen = 1u128.rotate_left(self.initial_state as u32);
        let mut new_states = vec![self.initial_state];
        while let Some(state) = new_states.pop() {
            for &next in &self.states[state].transitions {
                let bit = 1u128.rotate_left(next as u32);
                if seen & bit == 0 {
                    seen |= bit;
                    reachables.insert(next);
                    new_states.push(next);
                }
            }
        }''')],
  needs="more than 128 states",
  breaks="reachable states are reported as unreachable", demo='''fn main() {
    let mut t = String::from("a\\n");
    for i in 0..150 { t += &format!("{}s{} s{}\\n", if i == 0 { "-> " } else { "" }, i, (i + 1) % 150); }
    assert_eq!(dfa(&t).reachable_state_idx().len(), 150);
}
'''),
 dict(id="c11-long", property="C11", edits=[(NW, '''        while num_cec < self.nfa.states.len() {''', '''        // longer gaps do not come up
        while num_cec < self.nfa.states.len().min(32) {''')],
  needs="a gap of 32 or more between the lengths of two words",
  breaks="the enumeration ends although there are more words", demo='''fn main() {
    let mut t = String::from("a\\n");
    for i in 0..40 { t += &format!("{}s{} {{s{}}}\\n", if i == 0 { "-> * " } else { "" }, i, (i + 1) % 40); }
    assert_eq!(nfa(&t).words().take(3).count(), 3);
}
'''),
 dict(id="c14-col", property="C14", edits=[(N, '''        let mut alph = vec!["", "", "", eps];
        alph.extend(self.alphabet.iter().map(|s| s as &str));
        table.push_row(alph);
''', '''        // no column for epsilon moves if nothing can come of them
        let reachable = self.reachable_state_idx();
        let silent = self.alphabet.is_empty() || reachable.iter().any(|s| !self.states[*s].epsilon_transitions.is_empty());
        let mut alph = vec!["", "", ""];
        if silent {
            alph.push(eps);
        }
        alph.extend(self.alphabet.iter().map(|s| s as &str));
        table.push_row(alph);
'''), (N, '''                iter::once(&state.epsilon_transitions)
                    .chain(&state.transitions)
                    .map(|trans| {''', '''                silent.then_some(&state.epsilon_transitions).into_iter()
                    .chain(&state.transitions)
                    .map(|trans| {''')],
  needs="an NFA in which only unreachable states have epsilon moves",
  breaks="the printed table lacks moves", demo='''fn main() {
    let n = nfa("ε a\\n-> p {} {p}\\nq {p} {}\\n");
    let m = nfa(&n.to_table());
    assert!(m.has_epsilon_moves());
}
'''),
 dict(id="c18-min", property="C18", edits=[(C + "automata.rs", '''if minimized && dfa1.states().len() != dfa2.states().len() {''', '''if minimized && dfa1.states().len() < dfa2.reachable_states().len() {''')],
  needs="minimal DFAs demanded and an equivalent file that is minimal but for unreachable states",
  breaks="the file is reported as minimal", sh=CLI + '''printf ' a\\n-> p q\\n * q r\\nr r\\n' > one.dfa
printf ' a\\n-> p q\\n * q r\\nr r\\ns p\\n' > two.dfa
"$cli" --less-logs equivalence --minimized one.dfa two.dfa > out
grep -q 'Equivalent but not minimized' out
'''),
 dict(id="c19-third", property="C19", edits=[(C + "binary_op.rs", '''        let result = match Automata::Dfa(combined).test_equivalence(compare_to, false) {''', '''        // comparing with something small is quicker
        let (compare_to, _) = compare_to.prepare_to_compare_with(crate::automata::AutomataType::Dfa);
        let states = combined.reachable_states().len();
        let result = match Automata::Dfa(combined).test_equivalence(compare_to, args.minimized && states == 1) {''')],
  needs="minimisation asked for, a result with a single state, and a third file that is equivalent but larger",
  breaks="the third file is reported as not equivalent", sh=CLI + '''printf ' a\\n-> p q\\n * q p\\n' > odd.dfa
printf ' a\\n-> * p q\\n q p\\n' > even.dfa
printf ' a\\n-> * p q\\n * q p\\n' > all.dfa
"$cli" --less-logs union --minimized odd.dfa even.dfa all.dfa > out
! grep -q 'NOT EQUIVALENT' out
'''),
 dict(id="c22-mini", property="C22", edits=[(W, '''    DFA_MAP.with_borrow_mut(|map| map.get_mut(&dfa).map(|dfa| dfa.minimize()).is_some())''', '''    // equal automata are minimised together
    DFA_MAP.with_borrow_mut(|map| {
        let Some(old) = map.get(&dfa).cloned() else {
            return false;
        };
        map.values_mut().filter(|d| **d == old).for_each(Dfa::minimize);
        true
    })''')],
  needs="two handles for equal DFAs that are not minimal, one of which is minimised",
  breaks="the automaton of the other handle is changed", deps=["dandy", "wasm"], demo='''use dandy_wasm::*;
fn main() {
    let t = " a\\n-> p q\\nq p\\n";
    let (g, h) = (load_dfa(t).unwrap(), load_dfa(t).unwrap());
    let before = dfa_to_table(h);
    assert!(minimize_dfa(g));
    assert_eq!(dfa_to_table(h), before);
}
'''),
 dict(id="c23-text", property="C23", edits=[(L, '''            .draw_centered_text((pos + self.offset) * self.scale, text)''', '''            .draw_centered_text(pos * self.scale + self.offset, text)''')],
  needs="a scale other than 1 together with an offset",
  breaks="names and labels are not where they belong", deps=["dandy", "draw"], demo='''use dandy_draw::{*, pos2::Pos2};
#[derive(Default)] struct P(Vec<(i64, i64)>, Vec<(i64, i64)>);
impl Drawer for P {
    fn start_drawing(&mut self) {}
    fn finish_drawing(&mut self) {}
    fn draw_circle(&mut self, p: Pos2, _: f32, _: f32) { self.1.push((p.x as i64, p.y as i64)); }
    fn draw_centered_text(&mut self, p: Pos2, _: &str) { self.0.push((p.x as i64, p.y as i64)); }
    fn draw_rect(&mut self, _: Pos2, _: Pos2) {}
    fn draw_line(&mut self, _: Pos2, _: Pos2, _: f32) {}
}
fn main() {
    let mut p = P::default();
    draw_dfa_with_opts(&dfa("a\\n-> p p\\n"), &mut p, DrawOptions::default().with_x_scale(2.0).with_x_offset(40.0));
    assert!(p.0.contains(&p.1[0]));
}
'''),
 dict(id="c24-sort", property="C24", edits=[(L, '''            labels: arrows.into_iter().map(|arrow| arrow.label).collect(),''', '''            labels: {
                let mut labels: Vec<&str> = arrows.into_iter().map(|arrow| arrow.label).collect();
                labels.sort();
                labels
            },''')],
  needs="an alphabet that is not sorted and two symbols that lead from one state to another",
  breaks="the symbols are not in the order of the alphabet", deps=["dandy", "draw"], demo='''fn main() {
    let a = dandy_draw::nfa_ascii_art(&nfa("b a\\n-> p {some_long_name} {some_long_name}\\nsome_long_name {} {}\\n"));
    assert!(a.contains("b, a"), "{a}");
}
'''),
 dict(id="c20-space", property="C20", edits=[(C + "enumerate.rs", '''        if word.is_empty() {
            output!("(empty word)");''', '''        if word.trim().is_empty() {
            output!("(empty word)");''')],
  needs="a word of nothing but blanks",
  breaks="the word is given out as the empty word", sh=CLI + '''"$cli" --less-logs enumerate-regex -n 1 '( )' > out
! grep -q 'empty word' out
'''),
 dict(id="c21-late", property="C21", edits=[(C + "main.rs", '''    if let Err(e) = result {
        eprintln!("{e}");
    }''', '''    if let Err(e) = result {
        eprintln!("{e}");
        if let Some(f) = out_file.as_mut() {
            // nothing half done in the file
            let _ = f.set_len(0);
        }
    }''')],
  needs="a command that fails after it has given some results, such as a comparison with a third file that cannot be read",
  breaks="results the terminal shows are not in the file", sh=CLI + '''printf ' a\\n-> p q\\n * q p\\n' > odd.dfa
"$cli" --less-logs -o out union odd.dfa odd.dfa missing.dfa > term
cmp out term
'''),
]
