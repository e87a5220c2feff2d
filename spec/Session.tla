------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Histories of operations on automata, and the names that states get.      *)
(*                                                                         *)
(* An object is its kind and the names of its states.  Every operation      *)
(* makes up names the way the library does: pairs of names written          *)
(* "(p,q)" unless two of them are spelled alike, then numbers; numbers      *)
(* after determinisation; "s_new", or the first free number, for a state    *)
(* that is added; 1, 2, ... when the names of a union clash.  Which states  *)
(* an operation leaves is not decided here: all of them, or only the        *)
(* initial one.  Whatever names the automata came with - the ones made up   *)
(* included - names stay unique.                                           *)
(*                                                                         *)
(* With Emit the histories are printed, to be replayed into the library.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Pool,    \* names automata come with
          Big,     \* most states of an operand
          Depth, Emit
VARIABLES objs,    \* [k, nm]
          last,    \* the object made or changed last
          log
vars == <<objs, last, log>>

Distinct(q) == \A i, j \in DOMAIN q : q[i] = q[j] => i = j
NumberFrom(n, k) == [i \in 1..n |-> ToString(i - 1 + k)]
Start == {<<a>> : a \in Pool} \cup {<<a, b>> : a, b \in Pool}
Starts == {q \in Start : Distinct(q)}

Fresh(nm, wanted) ==
  IF \A i \in DOMAIN nm : nm[i] # wanted THEN wanted
  ELSE LET free == {k \in 0..Len(nm) : \A i \in DOMAIN nm : nm[i] # ToString(k)}
       IN ToString(CHOOSE k \in free : \A l \in free : k <= l)
PairName(a, b) == "(" \o a \o "," \o b \o ")"
RECURSIVE Pairs(_, _, _, _)
\* the names of all pairs, "none" standing for no state
Pairs(x, y, i, j) == IF i > Len(x) THEN <<>>
                     ELSE IF j > Len(y) THEN Pairs(x, y, i + 1, 1) ELSE <<PairName(x[i], y[j])>> \o Pairs(x, y, i, j + 1)
Named(q) == IF Distinct(q) THEN q ELSE NumberFrom(Len(q), 0)
Product(x, y) == {Named(Pairs(x, y, 1, 1)), <<PairName(x[1], y[1])>>}
WithNone(x) == Append(x, "none")
\* the pair of none and none is not a state
ProductNone(x, y) == LET q == Pairs(WithNone(x), WithNone(y), 1, 1) IN {Named(SubSeq(q, 1, Len(q) - 1)), <<PairName(x[1], y[1])>>}
Left(nm) == {nm, <<nm[1]>>}
Union_(x, y) == LET q == x \o y
                    r == IF Distinct(q) THEN q ELSE NumberFrom(Len(q), 1)
                IN {Append(r, Fresh(r, "s_new"))}
\* a new initial state, the old one gone and its name taken over, or still there
NoEps(nm) == {Append(nm, Fresh(nm, "s_new")), Append(Tail(nm), nm[1]), nm}

\* operation |-> what it makes of the names
Unary(op, nm) ==
  CASE op \in {"minimize", "merge", "rm_unreach"} -> Left(nm)
    [] op \in {"invert", "to_nfa", "table"} -> {nm}
    [] op = "rm_eps" -> NoEps(nm)
    [] op = "optimize" -> UNION {Left(q) : q \in NoEps(nm)}
    [] op = "to_dfa" -> {NumberFrom(n, 0) : n \in 1..2}
Binary(op, x, y) ==
  CASE op \in {"combine", "nintersection"} -> Product(x, y)
    [] op = "nproduct" -> ProductNone(x, y)
    [] op = "nunion" -> Union_(x, y)
U(kind) == IF kind = "dfa" THEN {"minimize", "merge", "rm_unreach", "invert", "to_nfa", "table"}
           ELSE {"rm_eps", "optimize", "rm_unreach", "to_dfa", "table"}
B(kind) == IF kind = "dfa" THEN {"combine"} ELSE {"nunion", "nintersection", "nproduct"}
InPlace == {"minimize", "merge", "rm_unreach", "invert", "rm_eps", "optimize"}
Becomes(op, kind) == CASE op = "to_nfa" -> "nfa" [] op = "to_dfa" -> "dfa" [] OTHER -> kind

Init == /\ objs \in {<<[k |-> k1, nm |-> a], [k |-> k2, nm |-> b]>> : k1, k2 \in {"dfa", "nfa"}, a, b \in Starts}
        /\ objs[1].k = "dfa" \/ objs[2].k = "nfa"
        /\ last = 2
        /\ log = <<>>
Note(op, hs) == log' = Append(log, [op |-> op, hs |-> hs])
One == /\ Len(objs[last].nm) <= Big
       /\ \E op \in U(objs[last].k) :
            /\ Note(op, <<last>>)
            /\ \E q \in Unary(op, objs[last].nm) :
                 IF op \in InPlace THEN objs' = [objs EXCEPT ![last].nm = q] /\ last' = last
                 ELSE objs' = Append(objs, [k |-> Becomes(op, objs[last].k), nm |-> q]) /\ last' = Len(objs) + 1
Two == \E h \in DOMAIN objs : \E hs \in {<<last, h>>, <<h, last>>} :
         /\ objs[h].k = objs[last].k /\ Len(objs[h].nm) <= Big /\ Len(objs[last].nm) <= Big
         /\ \E op \in B(objs[h].k) :
              /\ Note(op, hs)
              /\ \E q \in Binary(op, objs[hs[1]].nm, objs[hs[2]].nm) :
                   objs' = Append(objs, [k |-> objs[h].k, nm |-> q]) /\ last' = Len(objs) + 1
\* the other of the two automata is taken up
Turn == Len(log) = 0 /\ last = 2 /\ last' = 1 /\ UNCHANGED <<objs, log>>
Step == Len(log) < Depth /\ (One \/ Two)
Spec == Init /\ [][Step \/ Turn]_vars

Unique == \A i \in DOMAIN objs : Distinct(objs[i].nm) /\ objs[i].nm # <<>>
\* operands of operations that make something new stay what they were
Others == [][\A i \in DOMAIN objs : objs'[i] # objs[i] => i = last]_vars
Told == Emit /\ Len(log) = Depth =>
  PrintT("HIST " \o ToJson([k |-> "session", kinds |-> <<objs[1].k, objs[2].k>>, ops |-> log]))
=============================================================================
