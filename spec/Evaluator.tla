----------------------------- MODULE Evaluator -----------------------------
(***************************************************************************)
(* Evaluators on one automaton.  Every evaluator carries the word it has    *)
(* read; what it is in must depend on that word alone, whatever the history *)
(* of steps, forks and questions that led to it, and however many other     *)
(* evaluators were fed in between.  The states an evaluator is in are kept  *)
(* by the transitions the way the code does it (successors of the current   *)
(* ones, then rounds of epsilon moves); the invariants say what they mean.  *)
(*                                                                         *)
(* With Emit the histories themselves are printed, to be replayed into the  *)
(* library on other automata.                                              *)
(***************************************************************************)
EXTENDS Automata, Shapes, Json

CONSTANTS Ms,      \* shapes
          Depth,   \* operations in a history
          Span,    \* longest word for several steps at once
          Width,   \* most evaluators
          Emit

VARIABLES M, ev, ops
vars == <<M, ev, ops>>

K == Len(M.al)
Foreign == K + 1
Words == UNION {[1..n -> 1..Foreign] : n \in 0..Span}

\* rounds of epsilon moves until nothing is added
RECURSIVE Rounds(_)
Rounds(S) == LET n == S \cup UNION {Eps(M, s) : s \in S} IN IF n = S THEN S ELSE Rounds(n)
One(e, a) == IF a = Foreign THEN [e EXCEPT !.dead = TRUE, !.w = Append(@, a)]
             ELSE [e EXCEPT !.st = Rounds(UNION {Suc(M, s, a) : s \in @}), !.w = Append(@, a)]
\* several steps stop at the first symbol that is not known, and so does a dead evaluator
RECURSIVE Several(_, _)
Several(e, w) == IF w = <<>> THEN e
                 ELSE IF Head(w) = Foreign THEN [e EXCEPT !.dead = TRUE, !.w = @ \o w]
                 ELSE Several(One(e, Head(w)), Tail(w))

Init == /\ M \in UNION {Shape(x) : x \in Ms}
        /\ ev = << [st |-> Rounds({M.ini}), dead |-> FALSE, w |-> <<>>] >>
        /\ ops = <<>>
Log(e, kind, w) == ops' = Append(ops, [e |-> e, kind |-> kind, w |-> w]) /\ UNCHANGED M
Step(e, a) == ev' = [ev EXCEPT ![e] = One(@, a)] /\ Log(e, 0, <<a>>)
Multi(e, w) == ev' = [ev EXCEPT ![e] = Several(@, w)] /\ Log(e, 1, w)
Fork(e) == Len(ev) + K <= Width /\ ev' = ev \o [a \in Sy(M) |-> One(ev[e], a)] /\ Log(e, 2, <<>>)
Ask(e) == ev' = ev /\ Log(e, 3, <<>>)
Next == /\ Len(ops) < Depth
        /\ \E e \in DOMAIN ev : \/ \E a \in 1..Foreign : Step(e, a)
                                \/ \E w \in Words : Multi(e, w)
                                \/ Fork(e)
                                \/ Ask(e)
Spec == Init /\ [][Next]_vars

Accepting(e) == ~e.dead /\ \E s \in e.st : M.acc[s]
Spelled(w) == [i \in 1..Len(w) |-> IF w[i] = Foreign THEN "nosuch" ELSE M.al[w[i]]]
DeadIffForeign == \A i \in DOMAIN ev : ev[i].dead = \E j \in 1..Len(ev[i].w) : ev[i].w[j] = Foreign
Meaning == \A i \in DOMAIN ev : ~ev[i].dead => LET m == Mach(M) IN ev[i].st = RunM(m, m.st, ev[i].w)
Verdict == \A i \in DOMAIN ev : Accepting(ev[i]) = Accepts(M, Spelled(ev[i].w))
Single == IsDfa(M) => \A i \in DOMAIN ev : Cardinality(ev[i].st) = 1
Closed == \A i \in DOMAIN ev : Closure(M, ev[i].st) = ev[i].st
\* only the evaluator that is fed changes, and what is dead stays dead
LastOp == ops[Len(ops)]
Apart == [][\A i \in DOMAIN ev : ev'[i] = ev[i] \/ LastOp'.e = i]_vars
Final == [][\A i \in DOMAIN ev : ev[i].dead => ev'[i].dead]_vars

Told == Emit /\ Len(ops) = Depth => PrintT("HIST " \o ToJson([k |-> "plan", ops |-> ops]))
=============================================================================
