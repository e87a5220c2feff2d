D = "dandy/src/dfa/mod.rs"
DE = "dandy/src/dfa/eval.rs"
DP = "dandy/src/dfa/parse.rs"
N = "dandy/src/nfa/mod.rs"
NE = "dandy/src/nfa/eval.rs"
NW = "dandy/src/nfa/words.rs"
FA = "dandy/src/parser/fa.rs"
RX = "dandy/src/regex/mod.rs"
RP = "dandy/src/parser/regex.rs"
W = "dandy-wasm/src/lib.rs"
L = "dandy-draw/src/lib.rs"
C = "dandy-cli/src/"
CLI = '''#!/bin/bash
# builds the command line tool from /repo into a scratch directory and tries it there
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'find "$d" -delete' EXIT
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet -p dandy-cli --manifest-path /repo/Cargo.toml || exit 8
cli="$d/target/debug/dandy-cli"
cd "$d"
'''
SEEDS = [
 dict(id="c01-search", property="C01", edits=[(DE, '''        match self.rev_map.get(elem) {
            None => {
                self.unknown_elem_seen = true;
                None
            }
            Some(&idx) => {
                self''', '''        // large alphabets in order are searched, which spares the hashing
        let alphabet = &self.dfa.alphabet;
        let sorted = alphabet.len() >= 40 && alphabet.first() < alphabet.last();
        let found = if sorted {
            alphabet.binary_search_by(|s| (s as &str).cmp(elem)).ok()
        } else {
            self.rev_map.get(elem).copied()
        };
        match found {
            None => {
                self.unknown_elem_seen = true;
                None
            }
            Some(idx) => {
                self''')],
  needs="an alphabet of forty or more symbols that is not sorted although its first symbol is smaller than its last one",
  breaks="symbols of the alphabet are treated as foreign", demo='''fn main() {
    let syms: Vec<char> = ('0'..='9').chain('A'..='Z').rev().chain('a'..='z').collect();
    let head: Vec<String> = syms.iter().map(|c| c.to_string()).collect();
    let d = dfa(&format!("0x {} zz\\n-> * p {}\\n", head.join(" "), vec!["p"; head.len() + 2].join(" ")));
    assert!(d.accepts_graphemes(&head.concat()));
}
'''),
 dict(id="c13-dup", property="C13", edits=[(DP, '''            let mut alphabet = HashSet::new();
            head.iter()
                .try_for_each(|c| alphabet.insert(c).then_some(()).ok_or(c))
                .map_err(|d| DuplicateAlphabetSymbol(d))?;''', '''            let mut alphabet = head.clone();
            alphabet.sort_by_key(|c| c.len());
            if let Some(d) = alphabet.windows(2).find(|d| d[0] == d[1]) {
                return Err(DuplicateAlphabetSymbol(d[0]));
            }''')],
  needs="a DFA header naming a symbol twice with another symbol of the same length in between",
  breaks="a table naming a symbol twice is accepted", demo='''fn main() {
    let t = "a b a\\n-> p p p p\\n";
    assert!(Dfa::try_from(parser::dfa(t).unwrap()).is_err());
}
'''),
 dict(id="c16-depth", property="C16", edits=[(RP, '''fn par_expr(input: &str) -> IResult<&str, RegexTree> {
    map(''', '''fn par_expr(input: &str) -> IResult<&str, RegexTree> {
    // more groups than this in a row are not an expression anybody wrote
    if input.starts_with("((((((((((((((((((((((((((((((((((((((((((((((((((((((((((((((((") {
        return fail(input);
    }
    map(''')],
  needs="64 or more opening parentheses in a row",
  breaks="an expression of the grammar is refused", demo='''fn main() {
    let t = format!("{}a{}", "(".repeat(100), ")".repeat(100));
    let n = parser::regex(&t).unwrap().to_nfa();
    assert!(n.accepts_graphemes("a"));
}
'''),
 dict(id="c18-cache", property="C18", edits=[(C + "equivalence.rs", '''        .map(|path| (path, tester.test_equivalence(path)))
        .collect::<Vec<_>>();''', '''        .scan(std::collections::HashMap::new(), |seen, path| {
            // a file that is given again need not be read again
            let key = (path.file_name(), path.metadata().map(|m| m.len()).unwrap_or_default());
            let result = match seen.remove(&key) {
                Some(result) => result,
                None => tester.test_equivalence(path),
            };
            seen.insert(key, result.clone());
            Some((path, result))
        })
        .collect::<Vec<_>>();'''),
   ],
  needs="two files of the same name and size in different directories, of which only one is equivalent",
  breaks="the second file gets the verdict of the first", sh=CLI + r'''
mkdir p q
printf 'a\n-> * s s\n' > main
printf 'a\n-> * s s\n' > p/f
printf 'a b\n-> s s s' > q/f
[ "$(stat -c %s p/f)" = "$(stat -c %s q/f)" ] || printf ' %.0s' $(seq $(( $(stat -c %s q/f) - $(stat -c %s p/f) ))) >> p/f
out=$("$cli" --less-logs equivalence main p/f q/f 2>&1)
[ "$(printf '%s\n' "$out" | grep -c ': Equivalent$')" = 1 ] || exit 1
printf '%s\n' "$out" | grep -q 'Not Equivalent' || exit 1
'''),
 dict(id="c20-chunk", property="C20", edits=[(C + "enumerate.rs", '''    nfa.words().take(n).for_each(|word| {''', '''    // a page of words at a time
    let page = 32;
    let pages = (0..n.div_ceil(page)).flat_map(|i| {
        let end = n.min((i + 1) * page);
        nfa.words().skip(i * page).take(if end == n { n - i * page } else { page - i.min(1) })
    });
    pages.for_each(|word| {''')],
  needs="more than 64 words asked for",
  breaks="a word is missing after the second page", sh=CLI + r'''
printf 'a*' > f
[ "$("$cli" --less-logs enumerate --type regex -a 100 f | grep -c .)" = 100 ] || exit 1
'''),
 dict(id="c22-wrap", property="C22", edits=[(W, '''    static KEYGEN: RefCell<RangeFrom<usize>> = RefCell::from(1usize..);''', '''    static KEYGEN: RefCell<std::iter::Cycle<std::ops::RangeInclusive<usize>>> = RefCell::from((1usize..=255).cycle());''')],
  needs="more than 255 objects loaded in one session",
  breaks="a handle is handed out again while its object may be alive", deps=["dandy", "wasm"], demo='''use dandy_wasm::*;
fn main() {
    let mut seen = std::collections::HashSet::new();
    for _ in 0..300 {
        assert!(seen.insert(load_dfa("a\\n-> p p\\n").unwrap()));
    }
}
'''),
 dict(id="c23-cut", property="C23", edits=[(L, '''        Cow::Owned(self.labels.join(", "))''', '''        // an arrow has room for so many symbols
        Cow::Owned(self.labels.iter().take(24).copied().collect::<Vec<_>>().join(", "))''')],
  needs="more than 24 symbols that lead from one state to another",
  breaks="symbols are missing on an arrow", deps=["dandy", "draw"], demo='''use dandy_draw::{*, pos2::Pos2};
#[derive(Default)] struct P(Vec<String>);
impl Drawer for P {
    fn start_drawing(&mut self) {}
    fn finish_drawing(&mut self) {}
    fn draw_circle(&mut self, _: Pos2, _: f32, _: f32) {}
    fn draw_centered_text(&mut self, _: Pos2, s: &str) { self.0.push(s.into()); }
    fn draw_rect(&mut self, _: Pos2, _: Pos2) {}
    fn draw_line(&mut self, _: Pos2, _: Pos2, _: f32) {}
}
fn main() {
    let mut p = P::default();
    let head = (0..30).map(|i| format!("s{i}")).collect::<Vec<_>>();
    draw_dfa(&dfa(&format!("{}\\n-> p {}\\n", head.join(" "), vec!["p"; 30].join(" "))), &mut p);
    assert!(p.0.contains(&head.join(", ")));
}
'''),
 dict(id="c14-head", property="C14", edits=[("dandy/src/table/mod.rs", '''        if row.len() > self.row_len.len() {
            self.row_len.resize(row.len(), 0);
        }''', '''        if self.row_len.len() < row.len().min(64) {
            self.row_len.resize(row.len().min(64), 0);
        }''')],
  needs="an automaton with more than sixty symbols",
  breaks="the columns after the sixtieth symbol are not printed", demo='''fn main() {
    let head = (0..70).map(|i| format!("s{i}")).collect::<Vec<_>>().join(" ");
    let row = vec!["p"; 70].join(" ");
    let d = dfa(&format!("{head}\\n-> p {row}\\n"));
    let t = d.to_table();
    let e = dfa(&t);
    assert_eq!(e.alphabet().len(), 70);
}
'''),
]
