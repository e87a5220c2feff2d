------------------------------ MODULE Automata ------------------------------
(***************************************************************************)
(* What automata are and what they mean.                                   *)
(*                                                                         *)
(* An automaton is a record, with states and symbols numbered from 1:      *)
(*   k    "dfa" or "nfa"                                                   *)
(*   al   sequence of symbols (strings), the alphabet in order             *)
(*   nm   sequence of state names                                          *)
(*   ini  the state evaluation starts from                                 *)
(*   inif sequence of BOOLEAN: the state is marked initial                 *)
(*   acc  sequence of BOOLEAN: the state is marked accepting               *)
(*   tr   DFA: tr[s][a] is a state;  NFA: tr[s][a] is a sequence of states *)
(*   ep   NFA only: ep[s] is the sequence of epsilon successors            *)
(*                                                                         *)
(* The meaning of an automaton is given through its *machine*: start set,  *)
(* accepting set and the epsilon-closed successor sets.  Everything that   *)
(* is said about languages below is said about machines.                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Inj(s) == Cardinality(Rng(s)) = Len(s)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == MinOf(S) IN <<m>> \o SortedSeq(S \ {m})

IsDfa(M) == M.k = "dfa"
IsNfa(M) == M.k = "nfa"
N(M) == Len(M.nm)
St(M) == 1..Len(M.nm)
Sy(M) == 1..Len(M.al)

(***************************************************************************)
(* Well-formedness: the representation invariant of every automaton.       *)
(***************************************************************************)
WFBase(M) ==
  /\ Len(M.nm) >= 1
  /\ Len(M.acc) = Len(M.nm) /\ Len(M.inif) = Len(M.nm) /\ Len(M.tr) = Len(M.nm)
  /\ M.ini \in 1..Len(M.nm)
  /\ Inj(M.nm) /\ Inj(M.al)
  /\ \A s \in St(M) : M.inif[s] = (s = M.ini)
  /\ \A s \in St(M) : Len(M.tr[s]) = Len(M.al)
WF(M) ==
  /\ WFBase(M)
  /\ IF IsDfa(M)
     THEN \A s \in St(M) : \A a \in Sy(M) : M.tr[s][a] \in St(M)
     ELSE /\ Len(M.ep) = Len(M.nm)
          /\ \A s \in St(M) : Rng(M.ep[s]) \subseteq St(M)
          /\ \A s \in St(M) : \A a \in Sy(M) : Rng(M.tr[s][a]) \subseteq St(M)

\* Structural reading, uniform over both kinds: successor and epsilon sets.
Suc(M, s, a) == IF IsDfa(M) THEN {M.tr[s][a]} ELSE Rng(M.tr[s][a])
Eps(M, s) == IF IsDfa(M) THEN {} ELSE Rng(M.ep[s])
HasEps(M) == \E s \in St(M) : Eps(M, s) # {}

SameAlphabet(A, B) == Rng(A) = Rng(B)          \* as sets
PosOf(al, x) == CHOOSE i \in 1..Len(al) : al[i] = x
Known(M, x) == x \in Rng(M.al)

\* The same symbols, states, markings and successors; equal up to the order in which a set of
\* successors is listed.
SameStructure(X, Y) ==
  /\ X.k = Y.k /\ X.al = Y.al /\ X.nm = Y.nm /\ X.ini = Y.ini /\ X.inif = Y.inif /\ X.acc = Y.acc
  /\ \A s \in St(X) : Eps(X, s) = Eps(Y, s) /\ \A a \in Sy(X) : Suc(X, s, a) = Suc(Y, s, a)

(***************************************************************************)
(* Reachability and closures.                                              *)
(***************************************************************************)
RECURSIVE Lfp(_, _, _)
\* least set containing seen \cup front and closed under g (a function state -> set)
Lfp(g, seen, front) ==
  IF front = {} THEN seen
  ELSE LET nx == (UNION {g[s] : s \in front}) \ seen
       IN Lfp(g, seen \cup nx, nx)

EpsG(M) == TLCEval([s \in St(M) |-> Eps(M, s)])
Closure(M, S) == Lfp(EpsG(M), S, S)
ClosureG(M) == TLCEval(LET g == EpsG(M) IN [s \in St(M) |-> Lfp(g, {s}, {s})])
EdgeG(M) == TLCEval([s \in St(M) |-> Eps(M, s) \cup UNION {Suc(M, s, a) : a \in Sy(M)}])
ReachFrom(M, S) == Lfp(EdgeG(M), S, S)
Reach(M) == ReachFrom(M, {M.ini})

(***************************************************************************)
(* Machines.                                                               *)
(***************************************************************************)
Mach(M) ==
  LET cl == ClosureG(M)
      closed(S) == UNION {cl[s] : s \in S}
  IN TLCEval([ al  |-> M.al,
               st  |-> cl[M.ini],
               acc |-> {s \in St(M) : M.acc[s]},
               d   |-> [s \in St(M) |-> [a \in Sy(M) |-> closed(Suc(M, s, a))]] ])

StepM(m, S, a) == UNION {m.d[s][a] : s \in S}
AccM(m, S) == S \cap m.acc # {}

RECURSIVE RunM(_, _, _)
RunM(m, S, w) == IF w = <<>> THEN S ELSE RunM(m, StepM(m, S, Head(w)), Tail(w))

\* A word of symbols (strings) is accepted: all its symbols are known and a run exists.
KnownWord(al, w) == \A i \in 1..Len(w) : w[i] \in Rng(al)
IdxWord(al, w) == [i \in 1..Len(w) |-> PosOf(al, w[i])]
AcceptsM(m, w) == KnownWord(m.al, w) /\ AccM(m, RunM(m, m.st, IdxWord(m.al, w)))
Accepts(M, w) == AcceptsM(Mach(M), w)

(***************************************************************************)
(* Comparing languages: explore the reachable tuples of state sets.        *)
(***************************************************************************)
Perm(from, to) == [i \in 1..Len(from) |-> PosOf(to, from[i])]

RECURSIVE Pairs(_, _, _, _, _)
Pairs(m1, m2, p, seen, front) ==
  IF \E x \in front : AccM(m1, x[1]) # AccM(m2, x[2]) THEN FALSE
  ELSE LET nx == {<<StepM(m1, x[1], a), StepM(m2, x[2], p[a])>> :
                     x \in front, a \in 1..Len(m1.al)} \ seen
       IN IF nx = {} THEN TRUE ELSE Pairs(m1, m2, p, seen \cup nx, nx)

SameLangM(m1, m2) ==
  LET s == <<m1.st, m2.st>>
  IN SameAlphabet(m1.al, m2.al) /\ Pairs(m1, m2, TLCEval(Perm(m1.al, m2.al)), {s}, {s})
SameLang(M1, M2) == SameLangM(Mach(M1), Mach(M2))

\* R's language is f applied to the verdicts of A and B.
\* f is a sequence of four BOOLEANs indexed 1 + 2*[A accepts] + [B accepts].
Bit(f, x, y) == f[1 + (IF x THEN 2 ELSE 0) + (IF y THEN 1 ELSE 0)]
RECURSIVE Triples(_, _, _, _, _, _, _, _)
Triples(ma, mb, mr, pb, pr, f, seen, front) ==
  IF \E x \in front : Bit(f, AccM(ma, x[1]), AccM(mb, x[2])) # AccM(mr, x[3]) THEN FALSE
  ELSE LET nx == {<<StepM(ma, x[1], a), StepM(mb, x[2], pb[a]), StepM(mr, x[3], pr[a])>> :
                     x \in front, a \in 1..Len(ma.al)} \ seen
       IN IF nx = {} THEN TRUE ELSE Triples(ma, mb, mr, pb, pr, f, seen \cup nx, nx)

CombinesM(ma, mb, mr, f) ==
  LET s == <<ma.st, mb.st, mr.st>>
  IN /\ SameAlphabet(ma.al, mb.al) /\ SameAlphabet(ma.al, mr.al)
     /\ Triples(ma, mb, mr, TLCEval(Perm(ma.al, mb.al)), TLCEval(Perm(ma.al, mr.al)), f, {s}, {s})
Combines(A, B, R, f) == CombinesM(Mach(A), Mach(B), Mach(R), f)

OpTable == [union |-> <<FALSE, TRUE, TRUE, TRUE>>,
            intersection |-> <<FALSE, FALSE, FALSE, TRUE>>,
            difference |-> <<FALSE, FALSE, TRUE, FALSE>>,
            symdiff |-> <<FALSE, TRUE, TRUE, FALSE>>]

\* The deterministic machine of that combination: its states are the reachable pairs of state sets, numbered.
RECURSIVE ReachPairs(_, _, _, _, _)
ReachPairs(ma, mb, pb, seen, front) ==
  LET nx == {<<StepM(ma, x[1], a), StepM(mb, x[2], pb[a])>> : x \in front, a \in 1..Len(ma.al)} \ seen
  IN IF nx = {} THEN seen ELSE ReachPairs(ma, mb, pb, seen \cup nx, nx)
RECURSIVE Enlisted(_)
Enlisted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Enlisted(S \ {x})
CombinationM(ma, mb, f) ==
  LET pb == TLCEval(Perm(ma.al, mb.al))
      s == <<ma.st, mb.st>>
      R == TLCEval(Enlisted(ReachPairs(ma, mb, pb, {s}, {s})))
  IN TLCEval([al |-> ma.al,
              st |-> {PosOf(R, s)},
              acc |-> {i \in DOMAIN R : Bit(f, AccM(ma, R[i][1]), AccM(mb, R[i][2]))},
              d |-> [i \in DOMAIN R |-> [a \in 1..Len(ma.al) |->
                       {PosOf(R, <<StepM(ma, R[i][1], a), StepM(mb, R[i][2], pb[a])>>)}]]])

\* The same machine with its symbols in another order.
Reordered(m, p) == [m EXCEPT !.al = [i \in DOMAIN m.al |-> m.al[p[i]]],
                             !.d = [s \in DOMAIN m.d |-> [a \in DOMAIN m.al |-> m.d[s][p[a]]]]]
Orders(k) == IF k > 3 THEN {[i \in 1..k |-> i]} ELSE {p \in [1..k -> 1..k] : {p[i] : i \in 1..k} = 1..k}

\* The reachable state sets (subset construction), as a set of sets.
RECURSIVE Subsets(_, _, _)
Subsets(m, seen, front) ==
  LET nx == {StepM(m, x, a) : x \in front, a \in 1..Len(m.al)} \ seen
  IN IF nx = {} THEN seen ELSE Subsets(m, seen \cup nx, nx)
ReachSubsets(m) == Subsets(m, {m.st}, {m.st})

EmptyLangM(m) == \A S \in ReachSubsets(m) : ~AccM(m, S)

(***************************************************************************)
(* Residual (Nerode) equivalence of DFA states: coarsest stable partition. *)
(* A partition is a function state -> least member of its class.           *)
(***************************************************************************)
Refine(D, lab) ==
  LET sig == TLCEval([s \in St(D) |-> <<lab[s], [a \in Sy(D) |-> lab[D.tr[s][a]]]>>])
  IN TLCEval([s \in St(D) |-> MinOf({t \in 1..s : sig[t] = sig[s]})])
RECURSIVE Stable(_, _)
Stable(D, lab) == LET nx == Refine(D, lab) IN IF nx = lab THEN lab ELSE Stable(D, nx)
Nerode(D) == Stable(D, TLCEval([s \in St(D) |-> MinOf({t \in 1..s : D.acc[t] = D.acc[s]})]))
\* The partition as a set of sets of states
ClassesOf(lab) == {{s \in DOMAIN lab : lab[s] = r} : r \in Rng(lab)}
Distinguishable(D) == \A s \in St(D) : Nerode(D)[s] = s
NoTwoEquivalent(D) == LET lab == Nerode(D) IN \A s \in St(D) : lab[s] = s
AllReachable(M) == Reach(M) = St(M)
MinimalDfa(D) == AllReachable(D) /\ NoTwoEquivalent(D)

(***************************************************************************)
(* Dead states, as documented for the removal of epsilon moves: states     *)
(* neither initial nor accepting whose symbol moves all lead to dead ones. *)
(***************************************************************************)
RECURSIVE DeadFrom(_, _)
DeadFrom(M, dead) ==
  LET more == {s \in St(M) \ dead : /\ ~M.acc[s] /\ s # M.ini
                                    /\ \A a \in Sy(M) : Suc(M, s, a) \subseteq dead}
  IN IF more = {} THEN dead ELSE DeadFrom(M, dead \cup more)
Dead(M) == DeadFrom(M, {})

(***************************************************************************)
(* Words in length-lexicographic order.                                    *)
(***************************************************************************)
\* Live[k+1]: the states from which some word of length exactly k is accepted, k = 0..top
RECURSIVE LiveUpTo(_, _, _)
LiveUpTo(m, live, top) ==
  IF Len(live) > top THEN live
  ELSE LET l == live[Len(live)]
       IN LiveUpTo(m, Append(live, {s \in DOMAIN m.d : \E a \in 1..Len(m.al) : m.d[s][a] \cap l # {}}), top)

\* words of length k accepted from the set S in lexicographic order, at most lim of them;
\* live as above
RECURSIVE WordsFrom(_, _, _, _, _)
RECURSIVE WordsSym(_, _, _, _, _, _, _)
WordsFrom(m, live, S, k, lim) ==
  IF lim <= 0 \/ S \cap live[k + 1] = {} THEN <<>>
  ELSE IF k = 0 THEN << <<>> >>
  ELSE WordsSym(m, live, S, k, lim, 1, <<>>)
WordsSym(m, live, S, k, lim, a, out) ==
  IF a > Len(m.al) \/ Len(out) >= lim THEN out
  ELSE LET sub == WordsFrom(m, live, StepM(m, S, a), k - 1, lim - Len(out))
       IN WordsSym(m, live, S, k, lim, a + 1, out \o [i \in 1..Len(sub) |-> <<a>> \o sub[i]])

RECURSIVE Enum(_, _, _, _, _, _)
\* live is extended by one length at a time, so that an infinite language costs only the lengths used
Enum(m, live, k, top, lim, out) ==
  IF k > top \/ Len(out) >= lim THEN out
  ELSE Enum(m, TLCEval(LiveUpTo(m, live, k + 1)), k + 1, top, lim,
            TLCEval(out \o WordsFrom(m, live, m.st, k, lim - Len(out))))

\* The language is infinite iff some accepted word has a length in n..2n (pumping); an infinite
\* language then has a word in every window of n lengths, so lim words of length < n*(lim+2).
InfiniteM(m, n) ==
  LET live == LiveUpTo(m, <<m.acc>>, 2 * n)
  IN \E k \in n..(2 * n) : m.st \cap live[k + 1] # {}

\* the first lim accepted words (as symbol index sequences); all of them if there are fewer
FirstWordsM(m, n, lim) ==
  Enum(m, <<m.acc>>, 0, IF InfiniteM(m, n) THEN n * (lim + 2) ELSE n, lim, <<>>)
FirstWords(M, lim) == FirstWordsM(Mach(M), N(M), lim)

LexLess(u, v) == \E i \in 1..Len(u) : /\ u[i] < v[i]
                                      /\ \A j \in 1..(i - 1) : u[j] = v[j]
ShortLexLess(u, v) == Len(u) < Len(v) \/ (Len(u) = Len(v) /\ LexLess(u, v))
=============================================================================
