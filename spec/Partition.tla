----------------------------- MODULE Partition -----------------------------
(***************************************************************************)
(* Minimisation (C05) as it is carried out: unreachable states go first,    *)
(* then a partition is refined by splitters taken from a worklist, then     *)
(* every class is merged into one of its members.  Which splitter is taken, *)
(* in which order its symbols are tried, which of two equally big halves is  *)
(* kept and which member survives are free.                                *)
(***************************************************************************)
EXTENDS Library, Shapes
CONSTANT Ms
VARIABLES D0, D,   \* the automaton given, and as it stands
          ph,      \* "prune", "split", "merge", "done"
          P, W,    \* the partition and the splitters to try
          cur, sy  \* the splitter under way and the symbols left for it
vars == <<D0, D, ph, P, W, cur, sy, objs, evs, its>>

Fin(X) == {s \in St(X) : X.acc[s]}
First(X) == {Fin(X), St(X) \ Fin(X)} \ {{}}
Init == /\ D0 \in UNION {Shape(x) : x \in Ms} /\ D = D0
        /\ ph = "prune" /\ P = {} /\ W = {} /\ cur = {} /\ sy = {} /\ LibInit
Prune == /\ ph = "prune" /\ ph' = "split"
         /\ \E X \in {D, Restrict(D, Reach(D))} :      \* merging alone leaves them in
              /\ D' = X /\ P' = First(X)
              /\ W' = IF Cardinality(First(X)) = 1 THEN {} ELSE First(X)
         /\ UNCHANGED <<D0, cur, sy>> /\ Pure
Take == /\ ph = "split" /\ sy = {}
        /\ \E A \in W : cur' = A /\ W' = W \ {A} /\ sy' = Sy(D)
        /\ UNCHANGED <<D0, D, ph, P>> /\ Pure
\* split every class that X cuts; the worklist gets both halves of a class it holds, the smaller one otherwise
Halves(Y, X) == {Y \cap X, Y \ X}
Cut(X) == {Y \in P : Y \cap X # {} /\ Y \ X # {}}
Smaller(Y, X) == {H \in Halves(Y, X) : \A G \in Halves(Y, X) : Cardinality(H) <= Cardinality(G)}
Split(c) ==
  /\ ph = "split" /\ c \in sy /\ sy' = sy \ {c}
  /\ LET X == {s \in St(D) : D.tr[s][c] \in cur}
         C == Cut(X)
     IN /\ P' = (P \ C) \cup UNION {Halves(Y, X) : Y \in C}
        /\ \E pick \in [C -> SUBSET St(D)] :
             /\ \A Y \in C : pick[Y] \in Smaller(Y, X)
             /\ W' = (W \ C) \cup UNION {IF Y \in W THEN Halves(Y, X) ELSE {pick[Y]} : Y \in C}
  /\ UNCHANGED <<D0, D, ph, cur>> /\ Pure
Stop == ph = "split" /\ sy = {} /\ W = {} /\ ph' = "merge" /\ UNCHANGED <<D0, D, P, W, cur, sy>> /\ Pure
Merge_ ==
  /\ ph = "merge" /\ ph' = "done"
  /\ \E rep \in [P -> St(D)] :
       /\ \A Y \in P : rep[Y] \in Y
       /\ LET of == [s \in St(D) |-> rep[CHOOSE Y \in P : s \in Y]]
              ini == of[D.ini]
              moved == [D EXCEPT !.tr = [s \in St(D) |-> [a \in Sy(D) |-> of[D.tr[s][a]]]], !.ini = ini, !.inif[ini] = TRUE]
              R == Restrict(moved, Rng(of))
          IN D' = [R EXCEPT !.inif = [i \in 1..N(R) |-> i = R.ini]]
  /\ UNCHANGED <<D0, P, W, cur, sy>> /\ Pure
Move == Prune \/ Take \/ (\E c \in sy : Split(c)) \/ Stop \/ Merge_
Spec == Init /\ [][Move]_vars

Partitions == ph = "split" => UNION P = St(D) /\ {} \notin P /\ \A X, Y \in P : X = Y \/ X \cap Y = {}
\* equivalent states are never parted
Coarse == ph \in {"split", "merge"} => \A C \in ClassesOf(Nerode(D)) : \E Y \in P : C \subseteq Y
Exact == ph = "merge" => P = ClassesOf(Nerode(D))
Finished == ph = "done" => /\ Merged(D0, D)
                           /\ (Reach(D) = St(D)) => Minimised(D0, D)
Unique == ph = "done" => N(D) >= Cardinality(ClassesOf(Nerode(Restrict(D0, Reach(D0)))))
=============================================================================
