------------------------------- MODULE Subset -------------------------------
(***************************************************************************)
(* Determinisation (C03) as it is carried out: a worklist of state sets,    *)
(* numbered as they are discovered.  The order in which sets leave the      *)
(* worklist is free.  Whatever the order, the table that comes out is what  *)
(* Library asks of a determinised automaton.                               *)
(***************************************************************************)
EXTENDS Library, Shapes
CONSTANT Ms
VARIABLES M,      \* the automaton
          num,    \* the sets discovered, in the order of their numbers
          open,   \* numbers still to be expanded
          row     \* number -> its successors, <<>> while open
vars == <<M, num, open, row, objs, evs, its>>

Start == {M.ini}
Init == /\ M \in UNION {Shape(x) : x \in Ms}
        /\ num = <<Closure(M, {M.ini})>> /\ open = {1} /\ row = <<<<>>>>
        /\ LibInit
RECURSIVE Found(_, _)
\* number the sets of a sequence that are not numbered yet
Found(known, q) == IF q = <<>> THEN known
                   ELSE Found(IF Head(q) \in Rng(known) THEN known ELSE Append(known, Head(q)), Tail(q))
Expand(i) ==
  LET m == Mach(M)
      q == [a \in Sy(M) |-> StepM(m, num[i], a)]
      k == Found(num, q)
  IN /\ num' = k
     /\ open' = (open \ {i}) \cup ((Len(num) + 1)..Len(k))
     /\ row' = [j \in 1..Len(k) |-> IF j = i THEN [a \in Sy(M) |-> PosOf(k, q[a])]
                                    ELSE IF j <= Len(num) THEN row[j] ELSE <<>>]
     /\ UNCHANGED M /\ Pure
Move == \E i \in open : Expand(i)
Spec == Init /\ [][Move]_vars

Result_ == [k |-> "dfa", al |-> M.al, nm |-> [i \in 1..Len(num) |-> ToString(i - 1)], ini |-> 1,
            inif |-> [i \in 1..Len(num) |-> i = 1],
            acc |-> [i \in 1..Len(num) |-> \E s \in num[i] : M.acc[s]], tr |-> row]
Numbered == Inj(num) /\ open \subseteq 1..Len(num)
OnlyReachable == Rng(num) \subseteq ReachSubsets(Mach(M))
Right == open = {} => Determinised(M, Result_)
\* and there and back again
Back == open = {} => SameLang(AsNfa(Result_), M)
=============================================================================
