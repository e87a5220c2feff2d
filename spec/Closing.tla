------------------------------- MODULE Closing -------------------------------
(***************************************************************************)
(* Epsilon closures (C25) as they are found: from one state on, one epsilon *)
(* move at a time, in any order.  What is found is the least set that has   *)
(* the state and is closed under epsilon moves - the answer of the library, *)
(* and the only one.                                                       *)
(***************************************************************************)
EXTENDS Library, Shapes
CONSTANT Of
VARIABLES M, from, seen, todo
vars == <<M, from, seen, todo, objs, evs, its>>

Init == /\ M \in UNION {Shape(w) : w \in Of} /\ from \in St(M)
        /\ seen = {from} /\ todo = {from} /\ objs = <<M>> /\ evs = <<>> /\ its = <<>>
Explore == /\ \E s \in todo : /\ seen' = seen \cup Eps(M, s)
                              /\ todo' = (todo \ {s}) \cup (Eps(M, s) \ seen)
           /\ UNCHANGED <<M, from>> /\ Pure
Answer(S) == ClosureOf(1, from, [k |-> "ok", v |-> Ints(S)]) /\ UNCHANGED <<M, from, seen, todo>>
Spec == Init /\ [][Explore]_vars /\ WF_vars(Explore)

Ends == todo = {}
ClosedUnder(S) == \A s \in S : Eps(M, s) \subseteq S
Sound == seen \subseteq Closure(M, {from}) /\ todo \subseteq seen
Found == Ends => /\ ClosedUnder(seen)
                 /\ \A S \in SUBSET St(M) : (from \in S /\ ClosedUnder(S)) => seen \subseteq S
                 /\ seen = {from} \/ HasEps(M)
Answered == Ends => \A S \in SUBSET St(M) : (ENABLED Answer(S)) = (S = seen)
Said == Ends => /\ (ENABLED HasEpsilon(1, [k |-> "ok", v |-> \E s \in St(M) : Eps(M, s) # {}]))
                /\ ~(ENABLED HasEpsilon(1, [k |-> "ok", v |-> \A s \in St(M) : Eps(M, s) = {}]))
                /\ \A s \in seen : Closure(M, {s}) \subseteq seen
Grows == [][seen \subseteq seen' /\ Cardinality(todo' \ todo) + Cardinality(seen) = Cardinality(seen')]_vars
Stops == <>Ends
=============================================================================
