-------------------------------- MODULE Regex --------------------------------
(***************************************************************************)
(* Regular expressions: their grammar and the languages they denote.       *)
(*                                                                         *)
(* A source is a sequence of units, one per grapheme cluster of the text;  *)
(* a unit is given as the sequence of its characters, and becomes          *)
(* [s |-> its text, one |-> it is a single character, res |-> it starts    *)
(* with a reserved character].  A token is a record whose field t is one   *)
(* of ( ) | * + eps empty sym; sym carries its text in s.                  *)
(*                                                                         *)
(* A tree is a record: [k |-> "sym", s], [k |-> "eps"], [k |-> "empty"],   *)
(* [k |-> "seq", v], [k |-> "alt", v], [k |-> "rep", v] where v is the     *)
(* sequence of parts, and for rep the one part repeated.                   *)
(***************************************************************************)
EXTENDS Automata

ReservedChars == {"(", ")", "∅", "ε", "|", "*", "+", "\\"}

RECURSIVE Join(_, _)
Join(cs, i) == IF i > Len(cs) THEN "" ELSE cs[i] \o Join(cs, i + 1)
\* the units without those at either end that are white space; blank is the sequence of their positions
Trimmed(units, blank) ==
  LET ink == (1..Len(units)) \ Rng(blank)
  IN IF ink = {} THEN <<>>
     ELSE [i \in 1..(MaxOf(ink) - MinOf(ink) + 1) |->
             LET cs == units[i + MinOf(ink) - 1]
             IN [s |-> Join(cs, 1), one |-> Len(cs) = 1, res |-> cs[1] \in ReservedChars]]

(***************************************************************************)
(* Tokens.  A reserved character that has combining characters attached,   *)
(* unescaped, is not spoken of by the documentation: "odd".                *)
(***************************************************************************)
RECURSIVE Lex(_, _, _)
Lex(u, i, out) ==
  IF i > Len(u) THEN [k |-> "ok", v |-> out]
  ELSE IF ~u[i].one
       THEN IF u[i].res THEN [k |-> "odd"]
            ELSE Lex(u, i + 1, Append(out, [t |-> "sym", s |-> u[i].s]))
  ELSE CASE u[i].s = "\\" -> IF i = Len(u) THEN [k |-> "bad"]
                             ELSE Lex(u, i + 2, Append(out, [t |-> "sym", s |-> u[i + 1].s]))
         [] u[i].s = "ε" -> Lex(u, i + 1, Append(out, [t |-> "eps"]))
         [] u[i].s = "∅" -> Lex(u, i + 1, Append(out, [t |-> "empty"]))
         [] u[i].s \in ReservedChars \ {"\\", "ε", "∅"} -> Lex(u, i + 1, Append(out, [t |-> u[i].s]))
         [] OTHER -> Lex(u, i + 1, Append(out, [t |-> "sym", s |-> u[i].s]))

(***************************************************************************)
(* Grammar.  expr = seq { "|" seq };  seq = item { item };                 *)
(* item = ( "(" expr ")" | sym | eps | empty ) [ "*" | "+" ].              *)
(* Each operator returns [p |-> position after it, v |-> tree], p = 0 if   *)
(* there is none.                                                          *)
(***************************************************************************)
None == [p |-> 0]
At(T, p) == IF p <= Len(T) THEN T[p].t ELSE "end"
One(k, v) == IF Len(v) = 1 THEN v[1] ELSE [k |-> k, v |-> v]

RECURSIVE Expr(_, _), Alts(_, _, _), Items(_, _, _), Item(_, _)
Expr(T, p) == Alts(T, p, <<>>)
Alts(T, p, out) ==
  LET s == TLCEval(Items(T, p, <<>>))
  IN IF s.p = 0 THEN None
     ELSE IF At(T, s.p) = "|" THEN Alts(T, s.p + 1, Append(out, s.v))
     ELSE [p |-> s.p, v |-> One("alt", Append(out, s.v))]
Items(T, p, out) ==
  LET x == TLCEval(Item(T, p))
  IN IF x.p # 0 THEN Items(T, x.p, Append(out, x.v))
     ELSE IF out = <<>> THEN None
     ELSE [p |-> p, v |-> One("seq", out)]
Suffixed(T, p, v) ==
  CASE At(T, p) = "*" -> [p |-> p + 1, v |-> [k |-> "rep", v |-> <<v>>]]
    [] At(T, p) = "+" -> [p |-> p + 1, v |-> [k |-> "seq", v |-> <<v, [k |-> "rep", v |-> <<v>>]>>]]
    [] OTHER -> [p |-> p, v |-> v]
Item(T, p) ==
  CASE At(T, p) = "sym" -> Suffixed(T, p + 1, [k |-> "sym", s |-> T[p].s])
    [] At(T, p) \in {"eps", "empty"} -> Suffixed(T, p + 1, [k |-> At(T, p)])
    [] At(T, p) = "(" -> LET e == TLCEval(Expr(T, p + 1))
                         IN IF e.p = 0 THEN None
                            ELSE IF At(T, e.p) # ")" THEN None
                            ELSE Suffixed(T, e.p + 1, e.v)
    [] OTHER -> None

\* [k |-> "ok", v |-> tree], or k is "bad" (not an expression) or "odd" (not determined)
Parsed(units, blank) ==
  LET t == TLCEval(Lex(TLCEval(Trimmed(units, blank)), 1, <<>>))
  IN IF t.k # "ok" THEN t
     ELSE LET e == TLCEval(Expr(t.v, 1))
          IN IF e.p = Len(t.v) + 1 THEN [k |-> "ok", v |-> e.v] ELSE [k |-> "bad"]

(***************************************************************************)
(* Meaning: the position automaton of a tree.  A node is described by      *)
(*   nul  it denotes the empty word                                        *)
(*   fst, lst  the positions (occurrences of symbols) that words of it may *)
(*        start and end with                                               *)
(*   fol  pairs of positions that may follow each other                    *)
(*   sy   the symbols at its positions, which are numbered from base + 1   *)
(***************************************************************************)
Unit == [nul |-> TRUE, fst |-> {}, lst |-> {}, fol |-> {}, sy |-> <<>>]
Zero == [Unit EXCEPT !.nul = FALSE]
Then(x, y) ==
  [nul |-> x.nul /\ y.nul,
   fst |-> x.fst \cup (IF x.nul THEN y.fst ELSE {}),
   lst |-> y.lst \cup (IF y.nul THEN x.lst ELSE {}),
   fol |-> x.fol \cup y.fol \cup (x.lst \X y.fst),
   sy |-> x.sy \o y.sy]
Or(x, y) ==
  [nul |-> x.nul \/ y.nul, fst |-> x.fst \cup y.fst, lst |-> x.lst \cup y.lst,
   fol |-> x.fol \cup y.fol, sy |-> x.sy \o y.sy]
Star(x) == [x EXCEPT !.nul = TRUE, !.fol = @ \cup (x.lst \X x.fst)]

RECURSIVE Pos(_, _), PosAll(_, _, _, _)
Pos(t, base) ==
  CASE t.k = "eps" -> Unit
    [] t.k = "empty" -> Zero
    [] t.k = "sym" -> [nul |-> FALSE, fst |-> {base + 1}, lst |-> {base + 1}, fol |-> {}, sy |-> <<t.s>>]
    [] t.k = "rep" -> Star(Pos(t.v[1], base))
    [] t.k = "seq" -> PosAll(t, base, 1, Unit)
    [] t.k = "alt" -> PosAll(t, base, 1, Zero)
PosAll(t, base, i, acc) ==
  IF i > Len(t.v) THEN acc
  ELSE LET n == TLCEval(Pos(t.v[i], base + Len(acc.sy)))
       IN PosAll(t, base, i + 1, TLCEval(IF t.k = "seq" THEN Then(acc, n) ELSE Or(acc, n)))

\* symbols in order of first occurrence
RECURSIVE Firsts(_, _, _)
Firsts(s, i, out) ==
  IF i > Len(s) THEN out
  ELSE Firsts(s, i + 1, IF s[i] \in Rng(out) THEN out ELSE Append(out, s[i]))

\* the machine: state 1 is the start, state p + 1 position p
TreeMach(t) ==
  LET g == TLCEval(Pos(t, 0))
      al == TLCEval(Firsts(g.sy, 1, <<>>))
      n == Len(g.sy)
      nx == TLCEval([s \in 1..(n + 1) |-> IF s = 1 THEN g.fst ELSE {q \in 1..n : <<s - 1, q>> \in g.fol}])
  IN TLCEval([al |-> al, st |-> {1},
              acc |-> {p + 1 : p \in g.lst} \cup (IF g.nul THEN {1} ELSE {}),
              d |-> [s \in 1..(n + 1) |-> [a \in 1..Len(al) |->
                       {q + 1 : q \in {p \in nx[s] : g.sy[p] = al[a]}}]]])
=============================================================================
