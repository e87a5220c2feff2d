--------------------------------- MODULE Wasm ---------------------------------
(***************************************************************************)
(* The registry behind the browser bindings.                               *)
(*                                                                         *)
(*   reg   the live handles: handle -> object                              *)
(*   used  every handle ever given out                                     *)
(*                                                                         *)
(* An object is [k, exact |-> TRUE, a] when the automaton is known, or     *)
(* [k, exact |-> FALSE, m, min, reach] when only its machine is determined *)
(* (min: it is a minimal DFA; reach: all its states are reachable) until   *)
(* its table is looked at.  A regular expression is [k |-> "regex", m].    *)
(***************************************************************************)
EXTENDS Cli

VARIABLES reg, used
wasmvars == <<reg, used>>
WasmInit == reg = <<>> /\ used = {}

Live(kind, h) == h \in DOMAIN reg /\ reg[h].k = kind
MachOf(o) == IF o.k # "regex" /\ o.exact THEN Mach(o.a) ELSE o.m

\* a new handle r.v for object o
Issue(o, r) ==
  /\ Ok(r) /\ r.v \notin used
  /\ reg' = [h \in DOMAIN reg \cup {r.v} |-> IF h = r.v THEN o ELSE reg[h]]
  /\ used' = used \cup {r.v}
Nothing(r) == r.k = "none" /\ UNCHANGED wasmvars

WLoad(kind, f, r) ==
  LET x == TLCEval(LoadFile(kind, f))
  IN CASE x.k = "ok" ->
            Issue(IF kind = "regex" THEN [k |-> "regex", m |-> x.m]
                  ELSE [k |-> kind, exact |-> TRUE, a |-> x.a], r)
       [] x.k = "any" -> FALSE      \* not among the inputs
       [] OTHER -> r.k = "refused" /\ r.msg > 0 /\ UNCHANGED wasmvars

\* the handle of an expression is used up by turning it into an NFA
WRegexToNfa(h, r) ==
  IF Live("regex", h)
  THEN /\ Ok(r) /\ r.v \notin used
       /\ reg' = [g \in (DOMAIN reg \ {h}) \cup {r.v} |->
                    IF g = r.v THEN [k |-> "nfa", exact |-> FALSE, m |-> reg[h].m, min |-> FALSE, reach |-> FALSE]
                    ELSE reg[g]]
       /\ used' = used \cup {r.v}
  ELSE Nothing(r)

WDfaToNfa(h, r) ==
  IF Live("dfa", h)
  THEN LET o == reg[h]
       IN Issue(IF o.exact THEN [k |-> "nfa", exact |-> TRUE, a |-> AsNfa(o.a)] ELSE [o EXCEPT !.k = "nfa", !.min = FALSE], r)
  ELSE Nothing(r)
WNfaToDfa(h, r) ==
  IF Live("nfa", h)
  THEN Issue([k |-> "dfa", exact |-> FALSE, m |-> MachOf(reg[h]), min |-> FALSE, reach |-> TRUE], r)
  ELSE Nothing(r)

WMinimise(h, r) ==
  /\ Ok(r) /\ r.v = Live("dfa", h)
  /\ reg' = IF Live("dfa", h)
            THEN [reg EXCEPT ![h] = [k |-> "dfa", exact |-> FALSE, m |-> MachOf(@), min |-> TRUE, reach |-> TRUE]]
            ELSE reg
  /\ UNCHANGED used

WEq(kind, h, g, r) ==
  /\ IF Live(kind, h) /\ Live(kind, g)
     THEN Ok(r) /\ r.v = SameLangM(MachOf(reg[h]), MachOf(reg[g]))
     ELSE r.k = "none"
  /\ UNCHANGED wasmvars

\* an automaton without symbols has no table in the format: its table is not looked at
WTable(kind, h, r) ==
  IF ~Live(kind, h) THEN Nothing(r)
  ELSE LET o == reg[h]
           t == TLCEval(Fa(kind = "dfa", r.chars, r.ws))
           A == TLCEval(Denotes(t))
       IN /\ Ok(r)
          /\ IF (IF o.exact THEN o.a.al ELSE o.m.al) = <<>> THEN UNCHANGED wasmvars
             ELSE /\ t.k = "table"
                  /\ Consistent(t)
                  /\ IF o.exact THEN SameStructure(o.a, A) /\ UNCHANGED wasmvars
                     ELSE /\ A.al = o.m.al
                          /\ SameLangM(o.m, Mach(A))
                          /\ o.min => NoTwoEquivalent(A)
                          /\ o.reach => AllReachable(A)
                          /\ reg' = [reg EXCEPT ![h] = [k |-> kind, exact |-> TRUE, a |-> A]]
                          /\ UNCHANGED used

WDelete(kind, h, r) ==
  /\ Ok(r) /\ r.v = Live(kind, h)
  /\ reg' = IF Live(kind, h) THEN [g \in DOMAIN reg \ {h} |-> reg[g]] ELSE reg
  /\ UNCHANGED used

\* drawing needs a browser: only handles that are not live can be tried
WDraw(kind, h, r) == ~Live(kind, h) /\ Ok(r) /\ r.v = FALSE /\ UNCHANGED wasmvars
=============================================================================
