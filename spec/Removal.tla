------------------------------ MODULE Removal ------------------------------
(***************************************************************************)
(* Getting rid of epsilon moves (C09) and of unreachable states (C10), and *)
(* joining two NFAs (C07), as they are carried out on one NFA: states are   *)
(* marked one at a time in any order, renamed, replaced and taken out, and  *)
(* the numbers of the others close up.  At every step what is left means    *)
(* the same.                                                               *)
(***************************************************************************)
EXTENDS Library, Shapes
CONSTANTS Ms, Bs,   \* shapes; Bs of the second one in a union
          Goals     \* \subseteq {"eps", "optimise", "reach", "union"}
VARIABLES M0, B, M, goal, ph, mark
vars == <<M0, B, M, goal, ph, mark, objs, evs, its>>
NoB == [k |-> "none"]

Init == /\ M0 \in UNION {Shape(x) : x \in Ms} /\ M = M0 /\ goal \in Goals
        /\ B \in IF goal = "union" THEN {X \in UNION {Shape(x) : x \in Bs} : Rng(X.al) = Rng(M.al)} ELSE {NoB}
        /\ ph = (CASE goal = "eps" -> "inline" [] goal = "union" -> "join" [] OTHER -> "reach")
        /\ mark = IF goal \in {"reach", "optimise"} THEN {M.ini} ELSE {}
        /\ LibInit
Keep == UNCHANGED <<M0, B, goal>> /\ Pure

(* marking what is reachable, one state at a time, and dropping the rest *)
Touch == /\ ph = "reach"
         /\ \E s \in mark : \E t \in (Eps(M, s) \cup UNION {Suc(M, s, a) : a \in Sy(M)}) \ mark : mark' = mark \cup {t}
         /\ UNCHANGED <<M, ph>> /\ Keep
Touched == /\ ph = "reach" /\ mark = UNION {{s} \cup Eps(M, s) \cup UNION {Suc(M, s, a) : a \in Sy(M)} : s \in mark}
           /\ M' = Restrict(M, mark) /\ mark' = {} /\ ph' = IF goal = "reach" THEN "done" ELSE "inline"
           /\ Keep

(* epsilon closures go into the moves *)
Inline == /\ ph = "inline"
          /\ IF ~HasEps(M) THEN ph' = "done" /\ M' = M
             ELSE LET cl == ClosureG(M)
                  IN /\ M' = [M EXCEPT !.tr = [s \in St(M) |-> [a \in Sy(M) |-> Ints(UNION {cl[t] : t \in Suc(M, s, a)})]],
                                       !.ep = [s \in St(M) |-> <<>>]] @@ [was |-> cl]
                     /\ ph' = "dead"
          /\ UNCHANGED mark /\ Keep
(* dead states are found one at a time *)
Useless(s, dead) == ~M.acc[s] /\ \A a \in Sy(M) : Suc(M, s, a) \subseteq dead
Die == /\ ph \in {"dead", "dead2"}
       /\ \E s \in St(M) \ mark : ~M.inif[s] /\ Useless(s, mark) /\ mark' = mark \cup {s}
       /\ UNCHANGED <<M, ph>> /\ Keep
NoMore == \A s \in St(M) \ mark : M.inif[s] \/ ~Useless(s, mark)
(* the initial state stands for its closure: it is replaced unless that is just itself *)
Initial == /\ ph = "dead" /\ NoMore
           /\ LET c == M.was[M.ini] \ mark
              IN IF Cardinality(c) <= 1 THEN ph' = "sweep" /\ UNCHANGED <<M, mark>>
                 ELSE /\ M' = [M EXCEPT !.inif[M.ini] = FALSE]
                      /\ mark' = IF Useless(M.ini, mark) THEN mark \cup {M.ini} ELSE mark
                      /\ ph' = "dead2"
           /\ Keep
FreshName(nms) == IF "s_new" \notin Rng(nms) THEN "s_new" ELSE ToString(MinOf({i \in 0..Len(nms) : ToString(i) \notin Rng(nms)}))
NewInitial == /\ ph = "dead2" /\ NoMore
              /\ LET c == M.was[M.ini] \ (mark \ {M.ini})
                     n == N(M) + 1
                 IN M' = [M EXCEPT !.nm = Append(@, IF M.ini \in mark THEN M.nm[M.ini] ELSE FreshName(M.nm)),
                                   !.ini = n, !.inif = Append(@, TRUE),
                                   !.acc = Append(@, \E s \in c : M.acc[s]),
                                   !.tr = Append(@, [a \in Sy(M) |-> Ints((UNION {Suc(M, s, a) : s \in c}) \ mark)]),
                                   !.ep = Append(@, <<>>)]
              /\ ph' = "sweep" /\ UNCHANGED mark /\ Keep
Sweep == /\ ph = "sweep" /\ ph' = "done" /\ mark' = {}
         /\ M' = Restrict([M EXCEPT !.tr = [s \in St(M) |-> [a \in Sy(M) |-> Ints(Suc(M, s, a) \ mark)]]], St(M) \ mark)
         /\ Keep

(* the union: both side by side under a new initial state *)
Unite == /\ ph = "join"
         /\ LET n == N(M)
                up(q) == [i \in 1..Len(q) |-> q[i] + n]
                all == M.nm \o B.nm
                nms == IF Inj(all) THEN all ELSE [i \in 1..Len(all) |-> ToString(i)]
            IN M' = [M EXCEPT !.nm = Append(nms, FreshName(nms)), !.ini = n + N(B) + 1,
                              !.inif = [i \in 1..(n + N(B) + 1) |-> i = n + N(B) + 1],
                              !.acc = Append(@ \o B.acc, FALSE),
                              !.tr = Append(@ \o [s \in St(B) |-> [a \in Sy(M) |-> up(B.tr[s][PosOf(B.al, M.al[a])])]],
                                            [a \in Sy(M) |-> <<>>]),
                              !.ep = Append(@ \o [s \in St(B) |-> up(B.ep[s])], <<M.ini, n + B.ini>>)]
         /\ ph' = "done" /\ UNCHANGED mark /\ Keep

Move == Touch \/ Touched \/ Inline \/ Die \/ Initial \/ NewInitial \/ Sweep \/ Unite
Spec == Init /\ [][Move]_vars

OnlyReached == ph = "reach" => mark \subseteq Reach(M)
ReachRight == (ph = "done" /\ goal = "reach") => Pruned(M0, M)
EpsRight == (ph = "done" /\ goal = "eps") => EpsRemoved(M0, M)
OptRight == (ph = "done" /\ goal = "optimise") => Optimised(M0, M)
UnionRight == (ph = "done" /\ goal = "union") => NfaCombined(M0, B, OpTable.union, M)
\* dead states never take part in accepting anything
DeadAreDead == ph \in {"dead", "dead2"} =>
  \A s \in mark : EmptyLangM([Mach(M) EXCEPT !.st = {s}])
=============================================================================
