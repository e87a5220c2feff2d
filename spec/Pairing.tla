------------------------------ MODULE Pairing ------------------------------
(***************************************************************************)
(* Two automata walked together.                                           *)
(*                                                                         *)
(*   "dfa"    the product of two DFAs under a truth table (C06)             *)
(*   "nfa"    the product of two NFAs, where one side may fall off (C07):   *)
(*            a pair holds 0 for a side that has no move left               *)
(*   "walk"   the comparison of two automata, which keeps no table but      *)
(*            stops at the first pair that disagrees (C08)                  *)
(*                                                                         *)
(* The second automaton may list the symbols the other way round.  The      *)
(* order in which discovered pairs are taken up is free.  A finished walk   *)
(* must give what Library asks for.                                        *)
(***************************************************************************)
EXTENDS Library, Shapes
CONSTANTS As, Bs,  \* shapes
          How,     \* "dfa", "nfa" or "walk"
          Fs       \* operations

VARIABLES A, B, op, num, open, row, erow, verdict
vars == <<A, B, op, num, open, row, erow, verdict, objs, evs, its>>

Turned(S) == S \cup {[M EXCEPT !.al = [i \in 1..Len(M.al) |-> M.al[Len(M.al) + 1 - i]]] : M \in S}
TurnedBs == Turned(UNION {Shape(x) : x \in Bs})

MA == Mach(A)
MB == Mach(B)
\* the symbol of B that is the symbol a of A
Other(a) == PosOf(B.al, A.al[a])
Start == IF How = "walk" THEN <<MA.st, MB.st>> ELSE <<A.ini, B.ini>>
Init == /\ A \in UNION {Shape(x) : x \in As} /\ B \in {X \in TurnedBs : Len(X.al) = Len(A.al)}
        /\ op \in Fs
        /\ num = <<Start>> /\ open = {1} /\ row = <<<<>>>> /\ erow = <<<<>>>> /\ verdict = "open"
        /\ LibInit

Side(M, s, a) == IF s = 0 THEN {} ELSE Suc(M, s, a)
SideEps(M, s) == IF s = 0 THEN {} ELSE Eps(M, s)
\* the pairs a pair leads to on a symbol of A
To(x, a) ==
  IF How = "walk" THEN {<<StepM(MA, x[1], a), StepM(MB, x[2], Other(a))>>}
  ELSE LET p == Side(A, x[1], a)
           q == Side(B, x[2], Other(a))
       IN IF p = {} /\ q = {} THEN {}
          ELSE (IF p = {} THEN {0} ELSE p) \X (IF q = {} THEN {0} ELSE q)
EpsTo(x) == IF How # "nfa" THEN {}
            ELSE {<<t, x[2]>> : t \in SideEps(A, x[1])} \cup {<<x[1], t>> : t \in SideEps(B, x[2])}
PairsOrder(S) == CHOOSE q \in [1..Cardinality(S) -> S] : Inj(q)
RECURSIVE Found(_, _)
Found(known, q) == IF q = <<>> THEN known
                   ELSE Found(IF Head(q) \in Rng(known) THEN known ELSE Append(known, Head(q)), Tail(q))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

SideAcc(M, s) == s # 0 /\ M.acc[s]
PairAcc(x) == IF How = "walk" THEN Bit(OpTable.symdiff, AccM(MA, x[1]), AccM(MB, x[2]))
              ELSE Bit(OpTable[op], SideAcc(A, x[1]), SideAcc(B, x[2]))
Expand(i) ==
  /\ verdict = "open"
  /\ IF How = "walk" /\ PairAcc(num[i])
     THEN verdict' = "different" /\ UNCHANGED <<num, open, row, erow>>
     ELSE LET q == [a \in Sy(A) |-> PairsOrder(To(num[i], a))]
              e == PairsOrder(EpsTo(num[i]))
              k == Found(num, Flat(q) \o e)
          IN /\ num' = k
             /\ open' = (open \ {i}) \cup ((Len(num) + 1)..Len(k))
             /\ row' = [j \in 1..Len(k) |-> IF j = i THEN [a \in Sy(A) |-> [n \in 1..Len(q[a]) |-> PosOf(k, q[a][n])]]
                                            ELSE IF j <= Len(num) THEN row[j] ELSE <<>>]
             /\ erow' = [j \in 1..Len(k) |-> IF j = i THEN [n \in 1..Len(e) |-> PosOf(k, e[n])]
                                             ELSE IF j <= Len(num) THEN erow[j] ELSE <<>>]
             /\ verdict' = IF open' = {} THEN "same" ELSE "open"
  /\ UNCHANGED <<A, B, op>> /\ Pure
Move == \E i \in open : Expand(i)
Spec == Init /\ [][Move]_vars

Base == [al |-> A.al, nm |-> [i \in 1..Len(num) |-> ToString(i - 1)], ini |-> 1,
         inif |-> [i \in 1..Len(num) |-> i = 1], acc |-> [i \in 1..Len(num) |-> PairAcc(num[i])]]
Table_ == IF How = "dfa" THEN Base @@ [k |-> "dfa", tr |-> [i \in 1..Len(num) |-> [a \in Sy(A) |-> row[i][a][1]]]]
          ELSE Base @@ [k |-> "nfa", tr |-> row, ep |-> erow]
Over == verdict # "open"

Bounded == Len(num) <= IF How = "dfa" THEN N(A) * N(B) ELSE IF How = "nfa" THEN (N(A) + 1) * (N(B) + 1)
                       ELSE Cardinality(ReachSubsets(MA)) * Cardinality(ReachSubsets(MB))
DfaRight == Over /\ How = "dfa" => Product(A, B, OpTable[op], [k |-> "ok", v |-> Table_])
NfaRight == Over /\ How = "nfa" => NfaCombined(A, B, OpTable[op], Table_)
WalkRight == Over /\ How = "walk" => (verdict = "same") = SameLang(A, B)
=============================================================================
