#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the anchors stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "DFA evaluation: accepts exactly the words that drive it to an accepting state",
  "For every DFA and every sequence of symbols, the one-shot acceptance question, the grapheme-string acceptance question and every way of feeding an evaluator (one symbol at a time, several at once, stepping over all symbols) give the answer of running the transition table from the initial state. A symbol outside the alphabet makes the evaluation reject, and no later input can make it accept again. The evaluator reports the state it is in for as long as no foreign symbol was read, and reports no state afterwards.",
  ["inputs", "histories"],
  "all complete DFAs, all words over alphabet and foreign symbols (single and multi-grapheme), all interleavings of step, multi-step, step-over-all-symbols and queries on one evaluator",
  "tests run three hand-written automata on a handful of words, feed evaluators only through accepts, and never continue an evaluator after a foreign symbol",
  ["dandy/src/dfa/eval.rs", "dandy/src/dfa/mod.rs"],
  [("step / step_multiple / step_all", "dandy/src/dfa/eval.rs DfaEvaluator"), ("accepts, accepts_graphemes, graphemes_only", "dandy/src/dfa/mod.rs Dfa")],
  [("current_state", "state index the evaluator is in", "dandy/src/dfa/eval.rs"), ("unknown elem flag", "a foreign symbol was read", "dandy/src/dfa/eval.rs")],
  ["DfaEvaluator::{step,step_multiple,step_all,is_accepting,current_state,current_state_idx}", "Dfa::{accepts,accepts_graphemes}"])
p("C02", "NFA evaluation: accepts exactly the words with an accepting run",
  "For every NFA, with or without epsilon moves, and every sequence of symbols, the acceptance questions and an evaluator fed in any chunking agree with the existence of a run, epsilon moves included, from the initial state to an accepting state. As long as only symbols of the alphabet were read, the set of current states an evaluator reports is exactly the epsilon-closed set of states reachable on the input read so far. A symbol outside the alphabet makes the evaluation reject, and no later input can make it accept again.",
  ["inputs", "histories"],
  "all NFAs with epsilon cycles, self loops, several accepting states and empty transition sets; all words; all interleavings of evaluator operations",
  "tests try a few automata and words; set-valued state after partial input and after foreign symbols is never looked at",
  ["dandy/src/nfa/eval.rs", "dandy/src/nfa/mod.rs"],
  [("step / step_multiple / step_all / include_closure", "dandy/src/nfa/eval.rs NfaEvaluator"), ("accepts, accepts_graphemes, closure", "dandy/src/nfa/mod.rs Nfa")],
  [("current_states", "set of active states", "dandy/src/nfa/eval.rs")],
  ["NfaEvaluator::{step,step_multiple,step_all,is_accepting,current_states_idx}", "Nfa::{accepts,accepts_graphemes}"])
p("C03", "Determinisation keeps the language and yields a complete, reachable DFA",
  "Converting any NFA, with or without epsilon moves, to a DFA gives an automaton over the same alphabet in the same order that accepts exactly the same words. The result has one successor per state and symbol, every one of its states is reachable from its initial state, and it never has more states than there are sets of states the original can be in.",
  ["inputs"], "all NFAs, including ones with an empty alphabet, no accepting state, epsilon cycles, unreachable states or exponential blow-up",
  "property tests compare a few random conversions with the library's own equivalence check; completeness, reachability and the state set are not asserted",
  ["dandy/src/nfa/mod.rs"], [("subset construction", "dandy/src/nfa/mod.rs Nfa::to_dfa"), ("epsilon closure", "dandy/src/nfa/mod.rs Nfa::closure")], None, ["Nfa::to_dfa"])
p("C04", "Viewing a DFA as an NFA changes nothing",
  "Converting any DFA to an NFA keeps alphabet, states in order, names, accepting and initial markings, and gives each state exactly its one successor per symbol and no epsilon moves. The language is unchanged, and converting there and back again gives an equivalent DFA.",
  ["inputs"], "all DFAs", "no test checks the structure of the converted automaton, only equivalence through the library's own check on a few random samples",
  ["dandy/src/dfa/mod.rs"], [("From<Dfa> for Nfa, From<DfaState> for NfaState, to_nfa", "dandy/src/dfa/mod.rs")], None, ["Dfa::to_nfa"])
p("C05", "Minimisation keeps the language and leaves no redundant state",
  "Minimising any DFA keeps its alphabet and language, and the result has exactly one state per class of words the language distinguishes: all its states are reachable and no two of them are equivalent. Merging non-distinguishable states keeps the language and leaves no two equivalent states, and the reported equivalence classes are a partition of all states in which two states share a class exactly when they accept the same continuations.",
  ["inputs"], "all DFAs, including ones with unreachable states, all or no states accepting, a single state or an empty alphabet; any initial state index",
  "tests check that a few random minimised automata are equivalent by the library's own check; a minimiser that merges too little passes, and hash-ordered refinement makes each run different",
  ["dandy/src/dfa/mod.rs"],
  [("partition refinement", "dandy/src/dfa/mod.rs Dfa::state_equivalence_classes_idx"), ("merge", "dandy/src/dfa/mod.rs Dfa::merge_nondistinguishable_states"), ("minimize", "dandy/src/dfa/mod.rs Dfa::minimize"), ("transition remapping", "dandy/src/dfa/mod.rs remap_transitions")],
  None, ["Dfa::{minimize,merge_nondistinguishable_states,state_equivalence_classes,state_equivalence_classes_idx}"])
p("C06", "DFA boolean operations compute the boolean combination of the languages",
  "Union, intersection, difference, symmetric difference and the general product of two DFAs accept exactly the words for which the corresponding boolean combination of the operands' verdicts holds, whatever the order in which the two alphabets list the same symbols; inversion accepts exactly the words over the alphabet that were rejected. The operation is refused exactly when the two alphabets differ as sets. The result uses the first operand's alphabet in its order and is complete, and the operands of a product are unchanged.",
  ["inputs"], "all pairs of DFAs, equal, permuted and different alphabets, all sixteen boolean combinators, repeated application",
  "tests cover one or two operations on fixed automata with identically ordered alphabets",
  ["dandy/src/dfa/mod.rs", "dandy/src/util.rs"],
  [("product construction", "dandy/src/dfa/mod.rs Dfa::product_construction"), ("invert", "dandy/src/dfa/mod.rs Dfa::invert"), ("alphabet comparison", "dandy/src/util.rs alphabet_equal")], None,
  ["Dfa::{union,intersection,difference,symmetric_difference,product_construction,invert}"])
p("C07", "NFA union, intersection and product combine the languages exactly",
  "The union of two NFAs accepts exactly the words accepted by at least one of them and the intersection exactly the words accepted by both, with or without epsilon moves and whatever the order in which the two alphabets list the same symbols; the general product does the same for a disjunctive or conjunctive combinator. The operation is refused exactly when the alphabets differ as sets, in which case a consuming operation hands both operands back unchanged. The result uses the first operand's alphabet in its order.",
  ["inputs"], "all pairs of NFAs with epsilon moves, dead ends, shared state names, equal, permuted and different alphabets",
  "tests compare union and intersection on a few random regular expressions over identically ordered alphabets using the library's own equivalence check",
  ["dandy/src/nfa/mod.rs", "dandy/src/util.rs"],
  [("union", "dandy/src/nfa/mod.rs Nfa::union"), ("product construction", "dandy/src/nfa/mod.rs Nfa::product_construction"), ("intersection", "dandy/src/nfa/mod.rs Nfa::intersection")], None,
  ["Nfa::{union,intersection,product_construction}"])
p("C08", "The equivalence check decides language equality",
  "Two automata of the same kind are reported equivalent exactly when their alphabets are equal as sets and they accept the same words; the order of the alphabets, state names, unreachable states, the way the automaton was obtained and the order of the two arguments do not matter.",
  ["inputs"], "all pairs of DFAs and all pairs of NFAs, including pairs that differ only on a long word, from an unreachable part, or in alphabet",
  "tests have a few positive and negative pairs; a wrong answer needs a particular distinguishing word or a particular exploration order",
  ["dandy/src/dfa/mod.rs", "dandy/src/nfa/mod.rs", "dandy/src/util.rs"],
  [("pairwise exploration", "dandy/src/dfa/mod.rs Dfa::equivalent_to, dandy/src/nfa/mod.rs Nfa::equivalent_to"), ("alphabet_equal", "dandy/src/util.rs")], None,
  ["Dfa::equivalent_to", "Nfa::equivalent_to"])
p("C09", "Removing epsilon moves and optimising keep the language",
  "Removing the epsilon moves of any NFA leaves no epsilon move and keeps the alphabet and the accepted words; if there were any, it also leaves no dead state, that is no state that is neither initial nor accepting and has only moves to other dead states, or none. Optimising an NFA does the same after dropping its unreachable states, and keeps the alphabet and the accepted words too.",
  ["inputs"], "all NFAs: epsilon cycles, chains and self loops, epsilon moves into the initial state, initial state at any index, unreachable or dead parts",
  "tests go through random regular expressions, whose automata have only the epsilon shapes of one construction",
  ["dandy/src/nfa/mod.rs"],
  [("remove_epsilon_moves", "dandy/src/nfa/mod.rs Nfa::remove_epsilon_moves"), ("optimize", "dandy/src/nfa/mod.rs Nfa::optimize"), ("remap_transitions", "dandy/src/nfa/mod.rs")], None,
  ["Nfa::{remove_epsilon_moves,optimize,has_epsilon_moves}"])
p("C10", "Reachability queries and removal of unreachable states are exact",
  "The reachable states reported for a DFA or an NFA are exactly those that some path, epsilon moves included, leads to from the initial state, the unreachable states are exactly the others, and the automaton is reported to have a reachable accepting state exactly when it accepts some word. Removing unreachable states leaves exactly the reachable ones, with their names, order, markings and moves between them, and keeps the language.",
  ["inputs"], "all automata; initial state at any index; unreachable parts that point into the reachable part or come before it in state order",
  "tests use one hand-written automaton per kind; index remapping only goes wrong for particular positions of removed states",
  ["dandy/src/dfa/mod.rs", "dandy/src/nfa/mod.rs"],
  [("reachable_state_idx / unreachable_state_idx / remove_unreachable_states / has_reachable_accepting_state", "dandy/src/dfa/mod.rs and dandy/src/nfa/mod.rs"), ("remap_transitions", "dandy/src/dfa/mod.rs and dandy/src/nfa/mod.rs")], None,
  ["{Dfa,Nfa}::{reachable_states,unreachable_states,reachable_state_idx,unreachable_state_idx,remove_unreachable_states,has_reachable_accepting_state}"])
p("C11", "Word enumeration lists exactly the language, shortest first, without repeats",
  "For an NFA without epsilon moves, enumerating words yields exactly the accepted words, each once, ordered by length and then by the order of the alphabet. The enumeration ends exactly when the language is finite and exhausted, and stays ended; for an infinite language it goes on forever. The string, symbol and index views of the enumeration agree element by element.",
  ["inputs", "histories"], "all epsilon-free NFAs: finite and infinite languages, empty language, gaps of any length between word lengths, dead ends, unreachable states, any initial index; any number of calls, also after the end",
  "tests enumerate a few fixed languages and a bounded prefix of random ones; gaps between lengths, behaviour after the end and dead branches are not reached",
  ["dandy/src/nfa/words.rs", "dandy/src/nfa/mod.rs"],
  [("cross-section enumeration with boolean matrices", "dandy/src/nfa/words.rs WordComponentIndices"), ("views", "dandy/src/nfa/words.rs Words, WordComponents")],
  [("S stack / current word / n", "position in the enumeration", "dandy/src/nfa/words.rs WordComponentIndices")], ["Nfa::{words,word_components,word_component_indices}"])
p("C12", "Text format: an automaton description denotes the automaton it lists",
  "Every textual table that follows the documented format, in any layout of blanks, comments, arrows, star markers and braces it allows, is accepted and denotes exactly the listed automaton: alphabet in header order, states in row order with their names, markings and successors. No layout choice changes the denoted automaton.",
  ["inputs"], "all well-formed DFA and NFA tables: any names and symbols the format can carry, any number of rows and columns, blank and comment lines, tabs, both spellings of arrow and epsilon",
  "tests parse a few fixed tables; each further layout and name shape is a new input",
  ["dandy/src/parser/fa.rs", "dandy/src/parser/mod.rs", "dandy/src/dfa/parse.rs", "dandy/src/nfa/parse.rs"],
  [("table grammar", "dandy/src/parser/fa.rs full_fa, head, nfa_line, dfa_line"), ("lexical rules", "dandy/src/parser/mod.rs"), ("conversion", "dandy/src/dfa/parse.rs, dandy/src/nfa/parse.rs TryFrom")], None,
  ["dandy::parser::{dfa,nfa}", "TryFrom<ParsedDfa> for Dfa", "TryFrom<ParsedNfa> for Nfa"])
p("C13", "Only consistent automaton descriptions become automata",
  "A description is turned into an automaton exactly when it has one initial state, unique symbols, unique state names, rows as wide as the header, only defined successor states and, for DFAs, no epsilon symbol; any text is either rejected with a description of the problem or becomes an automaton, and never makes the program fail. A rejection names a rule the description really violates.",
  ["inputs"], "all texts; all syntactically correct descriptions with any combination of violations at any position",
  "one or two fixed texts per error kind; combinations and positions are not covered",
  ["dandy/src/dfa/parse.rs", "dandy/src/nfa/parse.rs", "dandy/src/parser/fa.rs"],
  [("validation", "dandy/src/dfa/parse.rs TryFrom<ParsedDfa>, dandy/src/nfa/parse.rs TryFrom<ParsedNfa>"), ("grammar", "dandy/src/parser/fa.rs")], None,
  ["dandy::parser::{dfa,nfa}", "DfaParseError, NfaParseError"])
p("C14", "Printed tables read back as the same automaton",
  "For every automaton whose names and symbols the text format can carry, both the Unicode and the ASCII table print every state with its markings and every transition, and reading the printed table back gives an automaton with the same alphabet, state names, markings and transitions. This also holds for automata produced by any sequence of library operations.",
  ["inputs", "histories"], "all DFAs and NFAs with representable names and a non-empty alphabet, also results of conversions, products, minimisation and regular expressions",
  "a property test prints and re-reads automata of one random shape; names made by the library itself (products, unions, generated states) are not covered",
  ["dandy/src/dfa/mod.rs", "dandy/src/nfa/mod.rs", "dandy/src/table/mod.rs", "dandy/src/parser/fa.rs"],
  [("gen_table / to_table / ascii_table", "dandy/src/dfa/mod.rs, dandy/src/nfa/mod.rs"), ("column layout", "dandy/src/table/mod.rs Table::to_string"), ("name generation", "product_construction, union, to_dfa, StateCounter")], None,
  ["{Dfa,Nfa}::{to_table,ascii_table}"])
p("C15", "Every sequence of operations leaves well-formed automata",
  "After any sequence of library operations (parsing, conversion, minimisation, boolean operations, removal of states or epsilon moves, union, regular expressions), every automaton held has unique state names, unique symbols, exactly one state marked initial which is the one evaluation starts from, one successor entry per symbol and state, and only successors that exist. Operations that do not consume their input leave it unchanged, and no operation fails on a well-formed automaton.",
  ["histories"], "all finite histories of operations starting from any parsed automata and regular expressions",
  "tests apply one or two operations in a row; later operations rely on invariants that earlier ones may break only for particular shapes",
  ["dandy/src/dfa/mod.rs", "dandy/src/nfa/mod.rs", "dandy/src/regex/mod.rs"],
  [("all constructors and in-place operations", "dandy/src/dfa/mod.rs, dandy/src/nfa/mod.rs, dandy/src/regex/mod.rs"), ("remap_transitions", "dandy/src/dfa/mod.rs, dandy/src/nfa/mod.rs")],
  [("states / alphabet / initial_state", "representation of an automaton", "Dfa, Nfa")], ["{Dfa,Nfa}::{states,alphabet,initial_state,initial_state_index}"])
p("C16", "A regular expression denotes the language its grammar gives it",
  "A text is accepted as a regular expression exactly when it follows the documented grammar, with alternation binding weaker than concatenation and concatenation weaker than repetition, and the automaton built from it accepts exactly the denoted words. The automaton's alphabet lists the symbols of the expression in order of first occurrence.",
  ["inputs"], "all texts; all regular expressions with nested repetition, alternation, grouping, escapes, empty word and empty language, multi-byte symbols",
  "tests match a few fixed expressions, random ones only against the library's own conversions",
  ["dandy/src/parser/regex.rs", "dandy/src/regex/mod.rs"],
  [("grammar", "dandy/src/parser/regex.rs full_regex"), ("Thompson construction", "dandy/src/regex/mod.rs Regex::to_nfa, RegexTree")], None, ["dandy::parser::regex", "Regex::to_nfa"])
p("C17", "A printed regular expression reads back with the same language",
  "Printing any parsed regular expression gives a text that is again a regular expression, denotes the same language and has the same symbols; escapes, grouping, blanks and the empty word and empty language survive printing.",
  ["inputs"], "all parsed regular expressions, including escaped special and blank symbols at any position",
  "a property test covers random trees over a few plain letters; reserved, escaped, multi-byte and blank symbols are not generated",
  ["dandy/src/regex/mod.rs", "dandy/src/parser/regex.rs"], [("printer", "dandy/src/regex/mod.rs Regex::to_string, RegexTree::to_string"), ("parser", "dandy/src/parser/regex.rs")], None, ["Regex::to_string"])
p("C18", "The command line reports the true equivalence verdict for every file pair",
  "The equivalence command prints one verdict per given file, in order, saying whether that file's automaton is equivalent to the first file's, whatever mixture of automaton kind, minimisation and output style was chosen; a file that cannot be read, parsed or validated is reported as such and never counted as equivalent. Each line names its file, shortened to the requested number of trailing path components, and where minimal DFAs are demanded an equivalent DFA passes exactly if it is minimal.",
  ["inputs", "configurations"], "all lists of files of each kind, valid and invalid, all combinations of the command's options",
  "there are no tests of the command line program",
  ["dandy-cli/src/equivalence.rs", "dandy-cli/src/automata.rs", "dandy-cli/src/main.rs"],
  [("equivalence", "dandy-cli/src/equivalence.rs"), ("loading", "dandy-cli/src/automata.rs")], None, ["process stdout of the equivalence command"])
p("C19", "The command line's binary operations produce the combined automaton",
  "The union, intersection, difference and symmetric difference commands print a DFA whose language is that combination of the two files' languages, minimal if minimisation was asked for, followed by the requested number of its first words and by the true verdict on its equivalence with a third file where these were asked for. Operands that cannot be loaded, or whose alphabets differ, are reported on the error stream instead of a result.",
  ["inputs", "configurations"], "all pairs of input files, all operations, automaton kinds, output styles and the completion, minimisation and comparison options",
  "there are no tests of the command line program",
  ["dandy-cli/src/binary_op.rs", "dandy-cli/src/automata.rs", "dandy-cli/src/main.rs"],
  [("binary_op", "dandy-cli/src/binary_op.rs"), ("conversions between kinds", "dandy-cli/src/automata.rs")], None, ["process stdout of the binary-op command"])
p("C20", "The command line enumerates and tests words faithfully",
  "The enumerate command prints exactly the first requested number of accepted words in enumeration order, or all of them if there are fewer, for every automaton kind. The test-file command prints for every line of every given file whether the automaton accepts it and how many do, or, where whole files are judged, whether all lines of the file are accepted.",
  ["inputs", "configurations"], "all automata and regular expressions, all limits, all test files",
  "there are no tests of the command line program",
  ["dandy-cli/src/enumerate.rs", "dandy-cli/src/test_files.rs", "dandy-cli/src/automata.rs"], [("enumerate", "dandy-cli/src/enumerate.rs"), ("test_files", "dandy-cli/src/test_files.rs")], None, ["process stdout"])
p("C21", "Results sent to a file are the same as results sent to the terminal",
  "For every command, with an output file given the file afterwards holds exactly the results the command prints without one, line for line, and nothing of any earlier content; what is not a result is not in the file. Without an output file no file is written.",
  ["configurations", "inputs"], "all commands, options and inputs, output files that exist already or not",
  "there are no tests of the command line program",
  ["dandy-cli/src/main.rs"], [("result sink", "dandy-cli/src/main.rs")], None, ["the output file and process stdout"])
p("C22", "Browser bindings: handles always refer to the object they were given for",
  "In any history of loads, conversions, checks and deletions through the browser bindings, every handle handed out is new, stays bound to the same object until that object is deleted or consumed, and is rejected in every later use after that, also where the operation expects another kind of object. Every answer given for a handle is the one the bound automaton or expression warrants, and deleting reports whether something was deleted.",
  ["histories"], "all histories of load, convert, minimise, print, compare and delete calls, with valid, stale, foreign-kind and made-up handles",
  "there are no tests of the bindings; stale and reused handles need multi-step histories",
  ["dandy-wasm/src/lib.rs"], [("object tables and key counter", "dandy-wasm/src/lib.rs")], [("tables of live automata", "handle -> object", "dandy-wasm/src/lib.rs thread-local/static maps")], ["the exported functions"])
p("C23", "Drawings show every state and transition of the automaton, once",
  "A drawing of an automaton shows each state exactly once, in order and apart from each other, with its name, a double circle exactly if it is accepting and an entry arrow exactly if it is initial. For every ordered pair of states joined by a transition it shows exactly one arrow in the right direction, labelled with exactly the symbols (and epsilon) that lead from the one to the other, and two arrows at the same height overlap at most where one ends and the other begins. Drawing never fails.",
  ["inputs"], "all DFAs and NFAs: self loops, parallel transitions, unreachable states, initial state at any index, any number of states",
  "there are no tests of drawing",
  ["dandy-draw/src/lib.rs"], [("placement of nodes and transitions", "dandy-draw/src/lib.rs")], None, ["Drawer callbacks", "ascii_art output"])
p("C24", "Text drawings never fail and show every state and every arrow",
  "For every automaton the text drawing can be made, and its last line shows the states in order with their names, accepting ones in double brackets. For every ordered pair of different states joined by a transition, and every state with a transition to itself, there is exactly one arrow in the right direction between the columns of the two states, two arrows in the same row overlap at most where one ends and the other begins, and between two different states the symbols of an arrow, in alphabet order and then epsilon, are written below it as far as there is room between its ends.",
  ["inputs"], "all DFAs and NFAs: long and non-ASCII names and symbols, many symbols on one arrow, many states, any initial state",
  "there are no tests of drawing",
  ["dandy-draw/src/lib.rs"], [("ascii_art", "dandy-draw/src/lib.rs"), ("placement", "dandy-draw/src/lib.rs place_arrows, group_arrows")], None, ["dfa_ascii_art, nfa_ascii_art"])
p("C25", "The epsilon closure of a state is exact",
  "The epsilon closure reported for a state of an NFA is exactly the set of states reachable from it by zero or more epsilon moves; for a state number that does not exist no closure is reported.",
  ["inputs"], "all NFAs, all states and out-of-range numbers, epsilon cycles and long chains", "one fixed automaton",
  ["dandy/src/nfa/mod.rs"], [("closure", "dandy/src/nfa/mod.rs Nfa::closure")], None, ["Nfa::closure"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
