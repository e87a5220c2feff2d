---------------------------- MODULE Expressions ----------------------------
(***************************************************************************)
(* Expressions built up step by step, as a stack of trees (C16, C17).       *)
(*                                                                         *)
(* Every tree is held against four views of it: its words by definition,   *)
(* the position automaton (TreeMach, which judges the code), the automaton  *)
(* with epsilon moves the library builds (Built), and its printed form read *)
(* back by the grammar, with as few parentheses as possible, with some more *)
(* than needed, and the way the library prints it.                         *)
(* With Emit the printed forms go to the library.                          *)
(***************************************************************************)
EXTENDS Regex, Json
CONSTANTS Leaves, Ops, Len_, Emit

VARIABLES stack, made
vars == <<stack, made>>

Leaf(x) == IF x \in {"eps", "empty"} THEN [k |-> x] ELSE [k |-> "sym", s |-> x]
Top(n) == SubSeq(stack, Len(stack) - n + 1, Len(stack))
Below(n) == SubSeq(stack, 1, Len(stack) - n)
Init == stack = <<>> /\ made = 0
Push == \E x \in Leaves : stack' = Append(stack, Leaf(x))
Wrap == Len(stack) >= 1 /\ stack' = Append(Below(1), [k |-> "rep", v |-> Top(1)])
Plus == Len(stack) >= 1 /\ stack' = Append(Below(1), [k |-> "seq", v |-> <<Top(1)[1], [k |-> "rep", v |-> Top(1)]>>])
Glue(k, n) == Len(stack) >= n /\ stack' = Append(Below(n), [k |-> k, v |-> Top(n)])
Next == /\ made < Ops /\ made' = made + 1
        /\ Push \/ Wrap \/ Plus \/ (\E n \in 2..3 : Glue("seq", n)) \/ (\E n \in 2..3 : Glue("alt", n))
        \* what is on the stack can still be put together
        /\ Len(stack') <= Ops - made' + 1 + (Ops - made')
Spec == Init /\ [][Next]_vars
Whole == Len(stack) = 1
T == stack[1]

(* words by definition *)
RECURSIVE In(_, _)
In(t, w) ==
  CASE t.k = "eps" -> w = <<>>
    [] t.k = "empty" -> FALSE
    [] t.k = "sym" -> w = <<t.s>>
    [] t.k = "alt" -> \E i \in DOMAIN t.v : In(t.v[i], w)
    [] t.k = "rep" -> w = <<>> \/ \E i \in 1..Len(w) : In(t.v[1], SubSeq(w, 1, i)) /\ In(t, SubSeq(w, i + 1, Len(w)))
    [] t.k = "seq" -> IF t.v = <<>> THEN w = <<>>
                      ELSE \E i \in 0..Len(w) : /\ In(t.v[1], SubSeq(w, 1, i))
                                                /\ In([k |-> "seq", v |-> Tail(t.v)], SubSeq(w, i + 1, Len(w)))
Symbols == Leaves \ {"eps", "empty"}
WordsOver == UNION {[1..n -> Symbols] : n \in 0..Len_}
Meaning == Whole => LET m == TreeMach(T) IN \A w \in WordsOver : AcceptsM(m, w) = In(T, w)

(* the library's automaton: a state in front of every node, told where to go on to; states are numbered as *)
(* they are made, and one is made between the parts of a sequence                                         *)
St0(e, x, to) == [e |-> e, x |-> x, to |-> to]   \* epsilon moves; a move on the symbol x to the state to, if x # ""
RECURSIVE Node(_, _, _), Parts(_, _, _, _, _, _)
\* the states made for t, the first of them numbered n, that goes on to state to
Node(t, n, to) ==
  CASE t.k = "sym" -> <<St0(<<>>, t.s, to)>>
    [] t.k = "eps" -> <<St0(<<to>>, "", 0)>>
    [] t.k = "empty" -> <<St0(<<>>, "", 0)>>
    [] t.k = "rep" -> <<St0(<<n + 1, to>>, "", 0)>> \o Node(t.v[1], n + 1, n)
    [] OTHER -> Parts(t, n, to, 1, <<>>, <<>>)
\* front: the epsilon moves of the node's own state; rest: the states after it
Parts(t, n, to, i, front, rest) ==
  IF i > Len(t.v) THEN <<St0(IF t.k = "seq" THEN <<n + 2>> ELSE front, "", 0)>> \o rest
  ELSE LET at == n + 1 + Len(rest)
       IN IF t.k = "alt" THEN Parts(t, n, to, i + 1, Append(front, at), rest \o Node(t.v[i], at, to))
          ELSE LET sub == Node(t.v[i], at + 1, at)      \* at is the state after the part
                   on == IF i = Len(t.v) THEN to ELSE at + 1 + Len(sub) + 1
               IN Parts(t, n, to, i + 1, front, rest \o <<St0(<<on>>, "", 0)>> \o sub)
RECURSIVE SymsOf(_, _, _)
SymsOf(q, i, out) == IF i > Len(q) THEN out
                     ELSE SymsOf(q, i + 1, IF q[i].x = "" \/ q[i].x \in Rng(out) THEN out ELSE Append(out, q[i].x))
Built(t) ==
  LET q == <<St0(<<>>, "", 0), St0(<<3>>, "", 0)>> \o Node(t, 3, 1)
      al == SymsOf(q, 1, <<>>)
      n == Len(q)
  IN [k |-> "nfa", al |-> al, nm |-> [i \in 1..n |-> ToString(i - 1)], ini |-> 2, inif |-> [i \in 1..n |-> i = 2],
      acc |-> [i \in 1..n |-> i = 1], ep |-> [i \in 1..n |-> q[i].e],
      tr |-> [i \in 1..n |-> [a \in 1..Len(al) |-> IF q[i].x = al[a] THEN <<q[i].to>> ELSE <<>>]]]
Construction == Whole => LET B == Built(T) IN WF(B) /\ B.al = TreeMach(T).al /\ SameLangM(TreeMach(T), Mach(B))

(* printing: lvl is how tightly the surroundings bind (0: alternatives may stand here, 1: a sequence, 2: an item) *)
Paren(q) == <<"(">> \o q \o <<")">>
Esc(x) == IF x \in ReservedChars THEN <<"\\", x>> ELSE <<x>>
RECURSIVE Print1(_, _, _), PrintAll(_, _, _, _, _)
Print1(t, lvl, how) ==
  CASE t.k = "sym" -> Esc(t.s)
    [] t.k = "eps" -> <<"ε">>
    [] t.k = "empty" -> <<"∅">>
    [] t.k = "rep" -> LET b == IF how = "library" THEN Paren(Print1(t.v[1], 0, how)) \o <<"*">>
                               ELSE Print1(t.v[1], 2, how) \o <<"*">>
                      IN IF (lvl = 2 /\ how # "library") \/ how = "more" THEN Paren(b) ELSE b
    [] t.k = "seq" -> LET b == PrintAll(t.v, 1, "", IF how = "library" THEN 1 ELSE 2, how)
                      IN IF how = "library" \/ (lvl < 2 /\ how = "fewest") THEN b ELSE Paren(b)
    [] t.k = "alt" -> LET b == PrintAll(t.v, 1, "|", 1, how)
                      IN IF lvl = 0 /\ how = "fewest" THEN b ELSE Paren(b)
\* an item of a sequence that is starred needs no parentheses there
PrintAll(v, i, sep, lvl, how) ==
  IF i > Len(v) THEN <<>>
  ELSE (IF i > 1 /\ sep # "" THEN <<sep>> ELSE <<>>)
       \o (IF sep = "" /\ v[i].k = "rep" /\ how = "fewest" THEN Print1(v[i], 1, how) ELSE Print1(v[i], lvl, how))
       \o PrintAll(v, i + 1, sep, lvl, how)
Hows == {"fewest", "more", "library"}
Units(q) == [i \in 1..Len(q) |-> <<q[i]>>]
Printing == Whole => \A h \in Hows :
  LET e == Parsed(Units(Print1(T, 0, h)), <<>>)
  IN e.k = "ok" /\ SameLangM(TreeMach(T), TreeMach(e.v))
Told == (Emit /\ Whole) => \A h \in Hows : PrintT("HIST " \o ToJson([k |-> "text", chars |-> Print1(T, 0, h)]))
=============================================================================
