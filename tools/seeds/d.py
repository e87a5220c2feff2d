D = "dandy/src/dfa/mod.rs"
DE = "dandy/src/dfa/eval.rs"
N = "dandy/src/nfa/mod.rs"
NE = "dandy/src/nfa/eval.rs"
FA = "dandy/src/parser/fa.rs"
NP = "dandy/src/nfa/parse.rs"
DP = "dandy/src/dfa/parse.rs"
RX = "dandy/src/regex/mod.rs"
RP = "dandy/src/parser/regex.rs"
W = "dandy-wasm/src/lib.rs"
L = "dandy-draw/src/lib.rs"
C = "dandy-cli/src/"
CLI = '''#!/bin/bash
# builds the command line tool from /repo into a scratch directory and tries it there
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'find "$d" -delete' EXIT
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet -p dandy-cli --manifest-path /repo/Cargo.toml || exit 8
cli="$d/target/debug/dandy-cli"
cd "$d"
'''
SEEDS = [
 dict(id="c01-sink", property="C01", edits=[(DE, '''        match elems.iter().try_for_each(|e| self.step(e).map(|_| ())) {''', '''        // nothing leads out of a sink, so there is no need to read on
        let sink = |s: &Self| s.dfa.states[s.current_state].transitions.iter().all(|t| *t == s.current_state);
        match elems.iter().take_while(|_| self.unknown_elem_seen || !sink(self)).collect::<Vec<_>>().iter().try_for_each(|e| self.step(e).map(|_| ())) {''')],
  needs="a word with a foreign symbol given in one go while the automaton already is in an accepting sink",
  breaks="the word is accepted", demo='''fn main() {
    let d = dfa(" a\\n-> p q\\n* q q\\n");
    let mut e = d.evaluator();
    e.step("a");
    e.step_multiple(&["a", "z", "a"]);
    assert!(!e.is_accepting());
    assert!(e.current_state().is_none());
}
'''),
 dict(id="c02-rounds", property="C02", edits=[(NE, '''        let mut updated = true;
        let mut to_push = HashSet::new();
        while updated {''', '''        let mut updated = true;
        let mut to_push = HashSet::new();
        let mut rounds = self.nfa.states.len() / 2 + 2;
        while updated && rounds > 0 {
            rounds -= 1;''')],
  needs="a chain of epsilon moves through more than half of the states, from a single state on",
  breaks="the states at the end of the chain are not reached", demo='''fn main() {
    let n = nfa("ε a\\n-> 0 {1} {}\\n1 {2} {}\\n2 {3} {}\\n3 {4} {}\\n4 {5} {}\\n5 {6} {}\\n6 {7} {}\\n* 7 {} {}\\n");
    assert!(n.accepts(&[]));
}
'''),
 dict(id="c03-sum", property="C03", edits=[(N, '''        // Mapping set of old states to new sequential number
        let mut map = HashMap::new();''', '''        // Sets of states are known by their size, the sums of their members and of their squares, which is quicker to compare
        let digest = |set: &HashSet<usize>| vec![set.len(), set.iter().sum::<usize>(), set.iter().map(|s| s * s).sum()];
        // Mapping set of old states to new sequential number
        let mut map = HashMap::new();'''),
   (N, '''            let key = Self::set_to_vec(to_explore[0].current_states_idx());
            let n = gen''', '''            let key = digest(to_explore[0].current_states_idx());
            let n = gen'''),
   (N, '''                let key = Self::set_to_vec(new_evaluator.current_states_idx());''', '''                let key = digest(new_evaluator.current_states_idx());'''),
   (N, '''            transitions.insert(Self::set_to_vec(eval.current_states_idx()), tr);''', '''            transitions.insert(digest(eval.current_states_idx()), tr);''')],
  needs="an NFA that can be in {0, 4, 5} and in {1, 2, 6} (or other sets of equal size, sum and sum of squares)",
  breaks="two different sets of states are taken for one", demo='''fn main() {
    let n = nfa(" a b\\n-> 0 {0 4 5} {1 2 6}\\n1 {} {}\\n2 {} {}\\n3 {} {}\\n4 {} {}\\n* 5 {} {}\\n6 {} {}\\n");
    let d = n.to_dfa();
    for w in [vec![], vec!["a"], vec!["b"], vec!["a", "a"], vec!["a", "b"], vec!["b", "a"]] { assert_eq!(d.accepts(&w), n.accepts(&w), "{w:?}"); }
}
'''),
 dict(id="c06-wide", property="C06", edits=[(D, '''                let states = (d1.current_state_idx(), d2.current_state_idx());
                transition_list.push(states);
                if explored_states.insert(states) {''', '''                let states = (d1.current_state_idx(), d2.current_state_idx());
                transition_list.push(states);
                explored_states.insert(states);
                if seen.insert((states.0 as u32) << 6 | states.1 as u32) {'''),
   (D, '''        explored_states.insert((q1, q2));

        // maps (q1, q2) to accepting?''', '''        explored_states.insert((q1, q2));
        // pairs that were explored, as single numbers
        let mut seen = HashSet::from([(q1 as u32) << 6 | q2 as u32]);

        // maps (q1, q2) to accepting?''')],
  needs="a second operand with more than 64 states",
  breaks="pairs of states are taken for one another and some are never explored", demo='''fn main() {
    let mut t = String::from("a\\n");
    for i in 0..80 { t += &format!("{}{}s{} s{}\\n", if i == 0 { "-> " } else { "" }, if i == 79 { "* " } else { "" }, i, (i + 1) % 80); }
    let a = dfa("a\\n-> * p q\\nq r\\nr p\\n");
    let b = dfa(&t);
    let u = a.union(&b).unwrap();
    for n in 0..300 { let w = vec!["a"; n]; assert_eq!(u.accepts(&w), a.accepts(&w) || b.accepts(&w)); }
}
'''),
 dict(id="c07-dead", property="C07", edits=[(N, '''                    (Some(s1), None) => {''', '''                    (Some(_), None) if self.states.iter().all(|s| s.epsilon_transitions.is_empty()) && !other.has_epsilon_moves() && s2.is_none() && s1 == Some(q1) => {
                        // back at the start with nothing left to follow
                    }

                    (Some(s1), None) => {''')],
  needs="a product with a disjunctive combinator where the first automaton comes back to its initial state after the second has died",
  breaks="words of the first automaton are lost", demo='''fn main() {
    let a = nfa("a b\\n-> p {p} {q}\\n* q {p} {q}\\n");
    let b = nfa("a b\\n-> x {} {x}\\n");
    let u = a.product_construction(&b, |s, t| s.is_some_and(|s| s.is_accepting()) || t.is_some_and(|t| t.is_accepting())).unwrap();
    for w in [vec!["b"], vec!["a", "b"], vec!["a", "a", "b"], vec!["b", "a", "a", "b"]] { assert_eq!(u.accepts(&w), a.accepts(&w)); }
}
'''),
 dict(id="c09-via", property="C09", edits=[(N, '''        let init_closure = closures[self.initial_state]
            .iter()
            .copied()
            .filter(|x| !dead_states.contains(x))
            .collect::<HashSet<_>>();''', '''        let init_closure = closures[self.initial_state]
            .iter()
            .copied()
            .filter(|x| !dead_states.contains(x))
            // what the initial state reads itself it need not read again
            .filter(|x| *x == self.initial_state || self.states[*x].accepting
                || self.states[*x].transitions != self.states[self.initial_state].transitions)
            .filter(|x| *x == self.initial_state || !self.states[*x].accepting || self.states[*x].transitions.iter().any(|t| !t.is_empty()))
            .collect::<HashSet<_>>();''')],
  needs="an epsilon move from the initial state to an accepting state without moves, so that the empty word is accepted",
  breaks="the empty word is lost", demo='''fn main() {
    let mut n = nfa("ε a\\n-> p {q} {r}\\n* q {} {}\\n* r {} {r}\\n");
    n.remove_epsilon_moves();
    assert!(n.accepts(&[]) && n.accepts(&["a"]));
}
'''),
 dict(id="c12-tab", property="C12", edits=[(FA, '''                opt(terminated(accepting, space1)),
                terminated(state_name, space1),
                separated_list1(space1, state_set),''', '''                opt(terminated(accepting, many1(tag(" ")))),
                terminated(state_name, space1),
                separated_list1(space1, state_set),''')],
  needs="an accepting state of an NFA whose star is followed by a tab",
  breaks="a legal layout of the table is refused", demo='''fn main() {
    let n = nfa(" a\\n-> p {q}\\n*\\tq {}\\n");
    assert!(n.accepts(&["a"]));
}
'''),
 dict(id="c13-wide", property="C13", edits=[(DP, '''            if transitions.len() != head.len() {''', '''            if transitions.len() < head.len() {''')],
  needs="a DFA row with more successors than there are symbols",
  breaks="the row is accepted", demo='''fn main() {
    let r: Result<Dfa, _> = parser::dfa(" a\\n-> p q\\n* q q p\\n").unwrap().try_into();
    assert!(r.is_err());
}
'''),
 dict(id="c13-lines", property="C13", edits=[(FA, '''        delimited(space0, separated_list0(space1, state_name), space0),''', '''        delimited(multispace0, separated_list0(multispace1, state_name), multispace0),'''),
   (FA, '''use nom::character::complete::{line_ending, not_line_ending, space0, space1};''', '''use nom::character::complete::{line_ending, multispace0, multispace1, not_line_ending, space0, space1};''')],
  needs="a set of states that goes over two lines",
  breaks="text that is not in the format becomes an automaton", demo='''fn main() {
    assert!(parser::nfa(" a\\n-> p {p\\nq}\\n* q {}\\n").is_err());
}
'''),
 dict(id="c14-ascii", property="C14", edits=[(N, '''        self.gen_table("eps", "->")''', '''        self.to_table().replace('ε', "eps").replace('→', "->")''')],
  needs="a state or symbol whose name has the arrow or the epsilon sign in it",
  breaks="the table in ASCII has other names than the automaton", demo='''fn main() {
    let n = nfa("a\\n-> p→q {p→q}\\n* q {}\\n");
    let m = nfa(&n.ascii_table());
    assert_eq!(m.states()[0].name(), "p→q");
}
'''),
 dict(id="c15-half", property="C15", edits=[(N, '''            let mut iter = 1..;
            self.states.iter_mut().for_each(|state| {''', '''            let mut iter = a_states + 1..;
            self.states.iter_mut().skip(a_states).for_each(|state| {''')],
  needs="two NFAs with a name in common, the first of which has a state named like a number just above its number of states",
  breaks="the union has two states of the same name", demo='''fn main() {
    let a = nfa("a\\n-> x {4}\\n* 4 {}\\n");
    let b = nfa("a\\n-> x {y}\\n* y {}\\n");
    let u = a.union(b).unwrap();
    let n: std::collections::HashSet<_> = u.states().iter().map(|s| s.name()).collect();
    assert_eq!(n.len(), u.states().len());
}
'''),
 dict(id="c16-double", property="C16", edits=[(RP, '''        map(regex_char, RegexTree::Char).and(opt(one_of("+*"))),
        apply_kleene,''', '''        map(regex_char, RegexTree::Char).and(map(many0(one_of("+*")), |k| {
            // a** is a*, and so is a+*
            if k.contains(&'*') { Some('*') } else { k.first().copied() }
        })),
        apply_kleene,'''), (RP, '''use nom::multi::{many1, separated_list1};''', '''use nom::multi::{many0, many1, separated_list1};''')],
  needs="two repetition signs one after the other",
  breaks="a text that is not in the grammar is accepted", demo='''fn main() {
    assert!(parser::regex("a**").is_err());
    assert!(parser::regex("ab+*c").is_err());
}
'''),
 dict(id="c17-single", property="C17", edits=[(RX, '''            RegexTree::Repeat(seq) => {
                acc.push('(');
                Self::build_string(seq, acc);
                acc.push(')');
                acc.push('*');
            }''', '''            RegexTree::Repeat(seq) => {
                let mut inner = String::new();
                Self::build_string(seq, &mut inner);
                // no brackets around single symbols or where there are brackets already
                if inner.graphemes(true).count() == 1 || (inner.starts_with('(') && inner.ends_with(')')) {
                    acc.push_str(&inner);
                } else {
                    acc.push('(');
                    acc.push_str(&inner);
                    acc.push(')');
                }
                acc.push('*');
            }''')],
  needs="a repeated sequence that begins and ends with alternatives",
  breaks="only the last part is repeated in the printed expression", demo='''fn main() {
    let r = parser::regex("((a|b)c(d|e))*").unwrap();
    let s = parser::regex(&r.to_string()).unwrap();
    assert!(r.to_nfa().equivalent_to(&s.to_nfa()));
}
'''),
 dict(id="c18-sizes", property="C18", edits=[(C + "automata.rs", '''                if dfa1.equivalent_to(dfa2) {
                    if minimized && dfa1.states().len() != dfa2.states().len() {''', '''                if minimized && dfa2.states().len() < dfa1.states().len() {
                    // fewer states than the minimal automaton has
                    NotMinimized
                } else if dfa1.equivalent_to(dfa2) {
                    if minimized && dfa1.states().len() != dfa2.states().len() {''')],
  needs="minimal DFAs demanded and a file with a smaller automaton that is not equivalent",
  breaks="the file is reported as equivalent but not minimal", sh=CLI + '''printf ' a\\n-> p q\\n * q r\\nr r\\n' > one.dfa
printf ' a\\n-> * p p\\n' > all.dfa
"$cli" --less-logs equivalence --minimized one.dfa all.dfa > out
grep -q 'all.dfa: Not Equivalent' out
'''),
 dict(id="c19-min", property="C19", edits=[(C + "binary_op.rs", '''        combined.minimize();
        log!(''', '''        combined.remove_unreachable_states();
        if combined.has_reachable_accepting_state() {
            combined.minimize();
        }
        log!(''')],
  needs="minimisation asked for and an empty result with more than one reachable pair of states",
  breaks="the printed DFA is not minimal", sh=CLI + '''printf ' a\\n-> p q\\n * q p\\n' > odd.dfa
printf ' a\\n-> * p q\\n q p\\n' > even.dfa
"$cli" --less-logs intersection --minimized odd.dfa even.dfa > out
[ "$(grep -c '[^ ]' out)" = 2 ]
'''),
 dict(id="c20-trim", property="C20", edits=[(C + "enumerate.rs", '''            output!("{word}");''', '''            output!("{}", word.trim_end());''')],
  needs="an expression whose words end in a blank",
  breaks="the blank is missing in the printed word", sh=CLI + '''"$cli" --less-logs enumerate-regex -n 1 'a( )' > out
[ "$(head -c 2 out)" = "a " ]
'''),
 dict(id="c22-same", property="C22", edits=[(W, '''    NFA_MAP.with_borrow(|map| {
        Option::zip(map.get(&nfa1), map.get(&nfa2))''', '''    if nfa1 == nfa2 {
        return Some(true);
    }
    NFA_MAP.with_borrow(|map| {
        Option::zip(map.get(&nfa1), map.get(&nfa2))''')],
  needs="an NFA that was deleted compared with itself",
  breaks="an answer is given for a handle that is not alive", deps=["dandy", "wasm"], demo='''use dandy_wasm::*;
fn main() {
    let h = load_nfa(" a\\n-> p {p}\\n").unwrap();
    assert_eq!(check_nfa_eq(h, h), Some(true));
    delete_nfa(h);
    assert_eq!(check_nfa_eq(h, h), None);
}
'''),
 dict(id="c22-reset", property="C22", edits=[(W, '''pub fn delete_nfa(nfa: usize) -> bool {
    NFA_MAP.with_borrow_mut(|map| map.remove(&nfa).is_some())
}''', '''pub fn delete_nfa(nfa: usize) -> bool {
    let deleted = NFA_MAP.with_borrow_mut(|map| map.remove(&nfa).is_some());
    let empty = NFA_MAP.with_borrow(HashMap::is_empty) && DFA_MAP.with_borrow(HashMap::is_empty);
    if deleted && empty && REGEX_MAP.with_borrow(HashMap::is_empty) {
        // nobody holds a key any more
        KEYGEN.set(1..);
    }
    deleted
}''')],
  needs="the last living object, an NFA, is deleted and something is loaded afterwards",
  breaks="a handle is handed out again", deps=["dandy", "wasm"], demo='''use dandy_wasm::*;
fn main() {
    let h = load_nfa(" a\\n-> p {p}\\n").unwrap();
    assert!(delete_nfa(h));
    assert_ne!(load_nfa(" a\\n-> p {p}\\n").unwrap(), h);
}
'''),
 dict(id="c23-floor", property="C23", edits=[(L, '''        let line_height = opts.floor_height * (levels - arrow.level) as f32;''', '''        // what is higher up is drawn at the top
        let line_height = opts.floor_height * (levels.saturating_sub(arrow.level.min(11))) as f32;''')],
  needs="an automaton whose arrows take more than twelve levels",
  breaks="arrows are drawn over one another", deps=["dandy", "draw"], demo='''use dandy_draw::{*, pos2::Pos2};
#[derive(Default)] struct P(Vec<(i64, i64)>);
impl Drawer for P {
    fn start_drawing(&mut self) {}
    fn finish_drawing(&mut self) {}
    fn draw_circle(&mut self, _: Pos2, _: f32, _: f32) {}
    fn draw_centered_text(&mut self, p: Pos2, _: &str) { self.0.push((p.x as i64, p.y as i64)); }
    fn draw_rect(&mut self, _: Pos2, _: Pos2) {}
    fn draw_line(&mut self, _: Pos2, _: Pos2, _: f32) {}
}
fn main() {
    let mut t = String::from("a\\n");
    for i in 0..8 { t += &format!("{}s{} {{s0 s1 s2 s3 s4 s5 s6 s7}}\\n", if i == 0 { "-> " } else { "" }, i); }
    let mut p = P::default();
    draw_nfa(&nfa(&t), &mut p);
    let n = p.0.len();
    p.0.sort();
    p.0.dedup();
    assert_eq!(p.0.len(), n);
}
'''),
 dict(id="c24-wide", property="C24", edits=[(L, '''                for x in leftmost..=rightmost {
                    unsafe { top_line.as_bytes_mut()[x] = b'-' }
                }''', '''                let dashes = "-".repeat(99);
                let end = rightmost.min(leftmost + dashes.len());
                top_line.replace_range(leftmost..=end.max(leftmost + 1), &dashes[..=(end.max(leftmost + 1) - leftmost).min(98)]);''')],
  needs="an arrow over more than a hundred columns",
  breaks="the drawing has gaps", deps=["dandy", "draw"], demo='''fn main() {
    let mut t = String::from("a\\n");
    for i in 0..20 { t += &format!("{}s{} {{{}}}\\n", if i == 0 { "-> " } else { "" }, i, if i == 0 { "s19" } else { "" }); }
    let a = dandy_draw::nfa_ascii_art(&nfa(&t));
    let w = a.lines().last().unwrap().find("s19").unwrap();
    assert!(a.lines().next().unwrap().trim().len() > w - 12);
}
'''),
 dict(id="c24-pad", property="C24", edits=[(L, '''    let widest_state_name = states.iter().map(|s| s.name.chars().count()).max().unwrap();''', '''    let widest_state_name = states.iter().map(|s| s.name.chars().count()).take(32).max().unwrap();''')],
  needs="more than 32 states, the widest name among the later ones",
  breaks="the columns do not line up", deps=["dandy", "draw"], demo='''fn main() {
    let mut t = String::from("a\\n");
    for i in 0..40 { t += &format!("{}{} {{{}}}\\n", if i == 0 { "-> " } else { "" }, if i == 35 { "wide".to_string() } else { i.to_string() }, if i == 0 { "39" } else { "" }); }
    let a = dandy_draw::nfa_ascii_art(&nfa(&t));
    let l = a.lines().last().unwrap();
    let x = l.find("( ").unwrap();
    let boxes = l.matches("(  ").count();
    assert_eq!(boxes, 40);
    assert_eq!((l.trim_end().len() + 1 - x) % 40, 0);
}
'''),
 dict(id="c25-depth", property="C25", edits=[(N, '''        let mut all = HashSet::new();
        all.insert(start);
        let mut new = vec![start];
        while !new.is_empty() {''', '''        let mut all = HashSet::new();
        all.insert(start);
        let mut new = vec![start];
        let mut depth = 0u8;
        while !new.is_empty() && depth < 32 {
            depth += 1;''')],
  needs="a state more than 32 epsilon moves away",
  breaks="the closure stops short", demo='''fn main() {
    let mut t = String::from("ε a\\n");
    for i in 0..40 { t += &format!("{}s{} {{{}}} {{}}\\n", if i == 0 { "-> " } else { "" }, i, if i < 39 { format!("s{}", i + 1) } else { String::new() }); }
    assert_eq!(nfa(&t).closure(0).unwrap().len(), 40);
}
'''),
]
