---------------------------- MODULE Enumeration ----------------------------
(***************************************************************************)
(* Word enumeration (C11) as it is carried out: the last word and a stack   *)
(* of the state sets behind its prefixes are enough to find the next one,   *)
(* by backing up to the last position that can be raised and completing     *)
(* from there as low as possible; when a length is used up the next one is  *)
(* tried, and after as many empty lengths as there are states it is over.   *)
(* Iterators are asked in any interleaving.                                *)
(***************************************************************************)
EXTENDS Automata, Shapes
CONSTANTS Ms, Its, Lim
VARIABLES M,
          it,  \* iterators: [last, stack, over, out]
          live, \* live[n + 1]: the states that accept some word of n symbols
          F    \* the words to expect
vars == <<M, it, live, F>>

Plain1 == {X \in UNION {Shape(w) : w \in Ms} : ~HasEps(X)}
New == [last |-> <<0>>, stack |-> <<>>, over |-> FALSE, out |-> <<>>]   \* <<0>>: no word yet
Init == /\ M \in Plain1 /\ it = [i \in 1..Its |-> New]
        /\ live = LiveUpTo(Mach(M), <<{s \in St(M) : M.acc[s]}>>, N(M) * (Lim + 2))
        /\ F = FirstWords(M, Lim)

MoveOf(S, a) == UNION {Suc(M, s, a) : s \in S}
Can(S, n) == S \cap live[n + 1] # {}
Top(st) == st[Len(st)]

RECURSIVE Complete(_, _, _, _)
\* the lowest word of n symbols from the top of the stack
Complete(st, n, i, w) ==
  IF i = n THEN [w |-> w, st |-> st]
  ELSE LET S == Top(st)
           a == MinOf({x \in Sy(M) : Can(MoveOf(S, x), n - i - 1)})
           nx == IF i # n - 1 THEN Append(st, MoveOf(S, a) \cap live[n - i]) ELSE st
       IN Complete(nx, n, i + 1, Append(w, a))
RECURSIVE Raise(_, _, _)
\* the next word of the same length, position i being the last that may still be raised
Raise(st, w, i) ==
  IF i = 0 THEN [w |-> <<0>>, st |-> st]
  ELSE LET n == Len(w)
           S == Top(st)
           up == {x \in Sy(M) : x > w[i] /\ Can(MoveOf(S, x), n - i)}
       IN IF up = {} THEN Raise(SubSeq(st, 1, Len(st) - 1), w, i - 1)
          ELSE LET b == MinOf(up)
                   head == Append(SubSeq(w, 1, i - 1), b)
               IN IF i = n THEN [w |-> head, st |-> st]
                  ELSE LET c == Complete(Append(st, MoveOf(S, b) \cap live[n - i + 1]), n - i, 0, <<>>)
                       IN [w |-> head \o c.w, st |-> c.st]
RECURSIVE Longer(_, _)
Longer(len, misses) ==
  IF misses = N(M) THEN [w |-> <<0>>, st |-> <<>>]
  ELSE IF Can({M.ini}, len) THEN Complete(<<{M.ini}>>, len, 0, <<>>)
  ELSE Longer(len + 1, misses + 1)

Ask(i) ==
  LET x == it[i]
      same == IF x.last = <<0>> THEN [w |-> <<0>>, st |-> <<>>] ELSE Raise(x.stack, x.last, Len(x.last))
      new == IF same.w # <<0>> THEN same ELSE Longer(IF x.last = <<0>> THEN 0 ELSE Len(x.last) + 1, 0)
  IN /\ Len(x.out) < Lim
     /\ it' = [it EXCEPT ![i] =
          IF x.over THEN [x EXCEPT !.out = Append(@, <<0>>)]
          ELSE [last |-> new.w, stack |-> new.st, over |-> new.w = <<0>>, out |-> Append(x.out, new.w)]]
     /\ UNCHANGED <<M, live, F>>
Next == \E i \in 1..Its : Ask(i)
Spec == Init /\ [][Next]_vars

\* what has been handed out are the first words, then nothing
InOrder == \A i \in 1..Its : \A j \in 1..Len(it[i].out) :
             it[i].out[j] = IF j <= Len(F) THEN F[j] ELSE <<0>>
\* the stack holds one set for every symbol of the word but the last
Height == \A i \in 1..Its : it[i].last \notin {<<0>>, <<>>} /\ ~it[i].over => Len(it[i].stack) = Len(it[i].last)
=============================================================================
