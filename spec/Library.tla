------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* The library as a transition system.                                     *)
(*                                                                         *)
(*   objs  the automata in the user's hands, by number                     *)
(*   evs   the running evaluators:  [h, st, dead]  where h is the automaton *)
(*         evaluated, st the set of states it can be in and dead is TRUE   *)
(*         once a symbol outside the alphabet was read                     *)
(*   its   the running word iterators: [h, view, pos, lim, w] with w the     *)
(*         first lim words of the automaton                                *)
(*                                                                         *)
(* One action per public operation.  The parameters of an action are the   *)
(* arguments of the operation and its result r, a record whose field k is  *)
(* "ok" (with the value in v), "none" (nothing returned), "refused", or    *)
(* "panic", "hang", "crash" when the operation did not return; no action    *)
(* admits the last three.  A result that is not determined uniquely (the   *)
(* numbering of states, say) is constrained by a relation.                 *)
(***************************************************************************)
EXTENDS Automata, FaFormat, Regex

VARIABLES objs, evs, its
libvars == <<objs, evs, its>>

LibInit == objs = <<>> /\ evs = <<>> /\ its = <<>>

Ok(r) == r.k = "ok"
Ints(S) == SortedSeq(S)
Pure == UNCHANGED libvars
\* a pure operation may add its result to the automata in hand
Result(keep, v) == /\ objs' = IF keep THEN Append(objs, v) ELSE objs
                   /\ UNCHANGED <<evs, its>>

IsWFDfa(v) == v.k = "dfa" /\ WF(v)
IsWFNfa(v) == v.k = "nfa" /\ WF(v)

(***************************************************************************)
(* Obtaining an automaton from outside.                                    *)
(***************************************************************************)
Load(v) == WF(v) /\ Result(TRUE, v)

(***************************************************************************)
(* Evaluation (C01, C02).                                                  *)
(***************************************************************************)
\* what an evaluator ev may report about itself
ReportOK(ev, v) ==
  LET M == objs[ev.h]
  IN IF ev.dead
     THEN v.acc = FALSE /\ (IsDfa(M) => v.cur = <<>>)
     ELSE /\ v.acc = (\E s \in ev.st : M.acc[s])
          /\ Len(v.cur) = Cardinality(ev.st)
          /\ Rng(v.cur) = {M.nm[s] : s \in ev.st}
          /\ IF IsDfa(M) THEN {v.idx} = ev.st ELSE v.idx = Ints(ev.st)

StartEv(h) == [h |-> h, st |-> Closure(objs[h], {objs[h].ini}), dead |-> FALSE]

\* reading the symbols w
RECURSIVE ReadOn(_, _, _, _, _)
ReadOn(M, cl, S, w, i) ==
  IF i > Len(w) THEN S
  ELSE ReadOn(M, cl, TLCEval(UNION {cl[t] : t \in UNION {Suc(M, s, PosOf(M.al, w[i])) : s \in S}}), w, i + 1)
Read(ev, w) ==
  LET M == objs[ev.h]
  IN IF ev.dead \/ ~KnownWord(M.al, w)
     THEN [ev EXCEPT !.st = {}, !.dead = TRUE]
     ELSE [ev EXCEPT !.st = ReadOn(M, ClosureG(M), @, w, 1)]

Evaluate(h, r) ==
  /\ Ok(r) /\ ReportOK(StartEv(h), r.v)
  /\ evs' = Append(evs, StartEv(h))
  /\ UNCHANGED <<objs, its>>

\* feeding one symbol or several: the return value says whether all was known so far, and for a DFA
\* which state it led to
Feed(e, w, r) ==
  LET n == Read(evs[e], w)
      M == objs[evs[e].h]
  IN /\ Ok(r) /\ ReportOK(n, r.v)
     /\ IF n.dead
        THEN evs[e].dead \/ r.some = FALSE
        ELSE r.some = TRUE
     /\ IsDfa(M) => /\ r.some = ~n.dead
                    /\ r.st = IF n.dead THEN <<>> ELSE <<M.nm[CHOOSE s \in n.st : TRUE]>>
     /\ evs' = [evs EXCEPT ![e] = n]
     /\ UNCHANGED <<objs, its>>

\* one evaluator per symbol, the original stays where it is
FeedAll(e, r) ==
  LET M == objs[evs[e].h]
      all == [a \in Sy(M) |-> Read(evs[e], <<M.al[a]>>)]
  IN /\ Ok(r) /\ Len(r.v) = Len(M.al)
     /\ \A a \in Sy(M) : ReportOK(all[a], r.v[a])
     /\ evs' = evs \o all
     /\ UNCHANGED <<objs, its>>

Query(e, r) == Ok(r) /\ ReportOK(evs[e], r.v) /\ Pure

AcceptsWord(h, w, r) ==
  /\ Ok(r)
  /\ r.v = LET n == Read(StartEv(h), w)
           IN ~n.dead /\ \E s \in n.st : objs[h].acc[s]
  /\ Pure

\* gc[a] is the number of grapheme clusters of symbol a
GraphemesOnly(h, gc, r) == Ok(r) /\ r.v = (\A a \in Sy(objs[h]) : gc[a] = 1) /\ Pure

(***************************************************************************)
(* Closures (C25).                                                         *)
(***************************************************************************)
ClosureOf(h, s, r) ==
  /\ IF s \in St(objs[h]) THEN Ok(r) /\ r.v = Ints(Closure(objs[h], {s})) ELSE r.k = "none"
  /\ Pure
HasEpsilon(h, r) == Ok(r) /\ r.v = HasEps(objs[h]) /\ Pure

(***************************************************************************)
(* Conversions (C03, C04).                                                 *)
(***************************************************************************)
Determinised(M, D) ==
  /\ IsWFDfa(D) /\ D.al = M.al
  /\ AllReachable(D)
  /\ SameLang(M, D)
  /\ N(D) <= Cardinality(ReachSubsets(Mach(M)))
ToDfa(h, keep, r) == Ok(r) /\ Determinised(objs[h], r.v) = TRUE /\ Result(keep, r.v)

AsNfa(D) == [k |-> "nfa", al |-> D.al, nm |-> D.nm, ini |-> D.ini, inif |-> D.inif, acc |-> D.acc,
             tr |-> [s \in St(D) |-> [a \in Sy(D) |-> <<D.tr[s][a]>>]],
             ep |-> [s \in St(D) |-> <<>>]]
ToNfa(h, keep, r) == Ok(r) /\ r.v = AsNfa(objs[h]) /\ Result(keep, r.v)
\* there and back again
RoundTrip(h, r) == Ok(r) /\ IsWFDfa(r.v) /\ r.v.al = objs[h].al /\ SameLang(objs[h], r.v) = TRUE /\ Pure

(***************************************************************************)
(* Minimisation (C05).                                                     *)
(***************************************************************************)
Minimised(D, R) == IsWFDfa(R) /\ R.al = D.al /\ SameLang(D, R) /\ MinimalDfa(R)
Merged(D, R) == IsWFDfa(R) /\ R.al = D.al /\ SameLang(D, R) /\ NoTwoEquivalent(R)
Minimise(h, keep, r) == Ok(r) /\ Minimised(objs[h], r.v) = TRUE /\ Result(keep, r.v)
Merge(h, keep, r) == Ok(r) /\ Merged(objs[h], r.v) = TRUE /\ Result(keep, r.v)
\* a list of classes is the partition of D's states into classes of equivalent ones
PartitionOf(D, cs, names) ==
  LET C == ClassesOf(Nerode(D))
  IN /\ Len(cs) = Cardinality(C) /\ {Rng(c) : c \in Rng(cs)} = C
     /\ \A c \in Rng(cs) : Inj(c)
     /\ Len(names) = Cardinality(C)
     /\ {Rng(c) : c \in Rng(names)} = {{D.nm[s] : s \in c} : c \in C}
Classes(h, r) == Ok(r) /\ PartitionOf(objs[h], r.v, r.names) = TRUE /\ Pure

(***************************************************************************)
(* Boolean operations on DFAs (C06).                                       *)
(***************************************************************************)
Product(A, B, f, r) ==
  IF SameAlphabet(A.al, B.al)
  THEN Ok(r) /\ IsWFDfa(r.v) /\ r.v.al = A.al /\ Combines(A, B, r.v, f) = TRUE
  ELSE r.k = "none"
DfaOp(h, h2, f, keep, r) ==
  Product(objs[h], objs[h2], f, r) /\ IF Ok(r) THEN Result(keep, r.v) ELSE Pure

Inverted(D, R) ==
  /\ IsWFDfa(R) /\ R.al = D.al
  /\ LET m == Mach(D) IN SameLangM([m EXCEPT !.acc = St(D) \ @], Mach(R))
Invert(h, keep, r) == Ok(r) /\ Inverted(objs[h], r.v) = TRUE /\ Result(keep, r.v)

\* an operand looked at again after an operation
Unchanged(h, r) == Ok(r) /\ r.v = objs[h] /\ Pure

(***************************************************************************)
(* Union, intersection, product of NFAs (C07).                             *)
(***************************************************************************)
NfaCombined(A, B, f, R) == IsWFNfa(R) /\ R.al = A.al /\ Combines(A, B, R, f)
NfaUnion(h, h2, keep, r) ==
  IF SameAlphabet(objs[h].al, objs[h2].al)
  THEN Ok(r) /\ NfaCombined(objs[h], objs[h2], OpTable.union, r.v) = TRUE /\ Result(keep, r.v)
  ELSE r.k = "refused" /\ r.a = objs[h] /\ r.b = objs[h2] /\ Pure
NfaOp(h, h2, f, keep, r) ==
  IF SameAlphabet(objs[h].al, objs[h2].al)
  THEN Ok(r) /\ NfaCombined(objs[h], objs[h2], f, r.v) = TRUE /\ Result(keep, r.v)
  ELSE r.k = "none" /\ Pure

(***************************************************************************)
(* Equivalence (C08).                                                      *)
(***************************************************************************)
Equiv(h, h2, r) == Ok(r) /\ (r.v = SameLang(objs[h], objs[h2])) = TRUE /\ Pure

(***************************************************************************)
(* Epsilon removal and optimisation (C09).                                 *)
(***************************************************************************)
EpsRemoved(M, R) ==
  /\ IsWFNfa(R) /\ R.al = M.al
  /\ ~HasEps(R)
  /\ SameLang(M, R)
  /\ HasEps(M) => Dead(R) = {}
RemoveEps(h, keep, r) == Ok(r) /\ EpsRemoved(objs[h], r.v) = TRUE /\ Result(keep, r.v)
\* optimising drops unreachable states first
Optimised(M, R) ==
  LET eps == \E s \in Reach(M) : Eps(M, s) # {}
  IN /\ IsWFNfa(R) /\ R.al = M.al /\ ~HasEps(R) /\ SameLang(M, R)
     /\ eps => Dead(R) = {}
Optimise(h, keep, r) == Ok(r) /\ Optimised(objs[h], r.v) = TRUE /\ Result(keep, r.v)

(***************************************************************************)
(* Reachability (C10).                                                     *)
(***************************************************************************)
ReachReport(M, r) ==
  LET R == Reach(M)
  IN /\ r.r = Ints(R) /\ r.u = Ints(St(M) \ R)
     /\ Len(r.rn) = Len(r.r) /\ Rng(r.rn) = {M.nm[s] : s \in R}
     /\ Len(r.un) = Len(r.u) /\ Rng(r.un) = {M.nm[s] : s \in St(M) \ R}
     /\ r.has = (\E s \in R : M.acc[s])
Reachability(h, r) == Ok(r) /\ ReachReport(objs[h], r) = TRUE /\ Pure

\* the automaton restricted to a set of states that nothing in it leaves, order kept
Restrict(M, R) ==
  LET o == Ints(R)
      p == [s \in R |-> PosOf(o, s)]
      base == [k |-> M.k, al |-> M.al, nm |-> [i \in 1..Len(o) |-> M.nm[o[i]]], ini |-> p[M.ini],
               inif |-> [i \in 1..Len(o) |-> M.inif[o[i]]], acc |-> [i \in 1..Len(o) |-> M.acc[o[i]]]]
      seqp(q) == [j \in 1..Len(q) |-> p[q[j]]]
  IN IF IsDfa(M)
     THEN base @@ [tr |-> [i \in 1..Len(o) |-> [a \in Sy(M) |-> p[M.tr[o[i]][a]]]]]
     ELSE base @@ [tr |-> [i \in 1..Len(o) |-> [a \in Sy(M) |-> seqp(M.tr[o[i]][a])]],
                   ep |-> [i \in 1..Len(o) |-> seqp(M.ep[o[i]])]]
Pruned(M, R) == R.k = M.k /\ WF(R) /\ SameStructure(R, Restrict(M, Reach(M)))
RemoveUnreachable(h, keep, r) == Ok(r) /\ Pruned(objs[h], r.v) = TRUE /\ Result(keep, r.v)

(***************************************************************************)
(* Word enumeration (C11).                                                 *)
(***************************************************************************)
\* lim bounds how many elements will be asked for: the words are worked out once
Words(h, view, lim, r) ==
  LET old == {j \in DOMAIN its : its[j].h = h /\ its[j].lim = lim}
      w == IF old # {} THEN its[CHOOSE j \in old : TRUE].w ELSE FirstWords(objs[h], lim)
  IN /\ Ok(r) /\ ~HasEps(objs[h])
     /\ its' = Append(its, [h |-> h, view |-> view, pos |-> 0, lim |-> lim, w |-> w])
     /\ UNCHANGED <<objs, evs>>

RECURSIVE CatFrom(_, _, _)
CatFrom(w, i, j) ==
  IF i > j THEN "" ELSE IF i = j THEN w[i]
  ELSE LET m == (i + j) \div 2 IN CatFrom(w, i, m) \o CatFrom(w, m + 1, j)
Cat(w) == LET v == TLCEval(w) IN CatFrom(v, 1, Len(v))
View(M, view, w) ==
  LET syms == [i \in 1..Len(w) |-> M.al[w[i]]]
  IN IF view = "idx" THEN w ELSE IF view = "comp" THEN syms ELSE Cat(syms)

\* the next n elements of iterator j
Next(j, n, r) ==
  LET M == objs[its[j].h]
      p == its[j].pos
      W == its[j].w
  IN /\ Ok(r) /\ Len(r.v) = n /\ p + n <= its[j].lim
     /\ \A i \in 1..n :
          IF p + i <= Len(W)
          THEN r.v[i].some = TRUE /\ r.v[i].w = View(M, its[j].view, W[p + i])
          ELSE r.v[i].some = FALSE
     /\ its' = [its EXCEPT ![j].pos = @ + n]
     /\ UNCHANGED <<objs, evs>>

(***************************************************************************)
(* Reading and printing tables (C12, C13, C14).                            *)
(***************************************************************************)
Parse(dfa, c, ws, r) == ReadOK(dfa, c, ws, r) = TRUE /\ Pure
\* a text made from the automaton want in some layout
ParseAs(want, c, ws, r) ==
  (TextIs(want, c, ws) /\ Ok(r) /\ WF(r.v) /\ SameStructure(want, r.v)) = TRUE /\ Pure
PrintTable(h, r) == Ok(r) /\ TextIs(objs[h], r.v, r.ws) = TRUE /\ Pure
Reparse(h, r) == Ok(r) /\ SameStructure(objs[h], r.v) /\ Pure

(***************************************************************************)
(* Regular expressions (C16, C17).                                         *)
(***************************************************************************)
ReadRegex(units, blank, r) ==
  LET e == TLCEval(Parsed(units, blank))
  IN /\ CASE e.k = "ok" ->
              LET m == TreeMach(e.v)
              IN Ok(r) /\ IsWFNfa(r.v) /\ r.v.al = m.al /\ SameLangM(m, Mach(r.v)) = TRUE
         [] e.k = "bad" -> r.k = "syntax" /\ r.msg > 0
         [] OTHER -> (r.k = "syntax" /\ r.msg > 0) \/ (Ok(r) /\ IsWFNfa(r.v))
     /\ Pure
\* the expression parsed as tree is printed as the given units
PrintRegex(tree, units, blank, r) ==
  LET e == TLCEval(Parsed(units, blank))
  IN /\ Ok(r)
     /\ e.k # "bad"
     /\ e.k = "ok" => SameLangM(TreeMach(tree), TreeMach(e.v)) = TRUE
     /\ Pure
\* and read back
RereadRegex(h, tree, r) ==
  /\ Ok(r) /\ WF(r.v)
  /\ SameLangM(TreeMach(tree), TreeMach(r.tree)) = TRUE
  /\ SameLang(objs[h], r.v) = TRUE
  /\ Pure

(***************************************************************************)
(* Any operation, seen only as a step that makes, replaces or leaves       *)
(* automata (C15): hs are the operands, after what they look like when it  *)
(* has returned.  An automaton consumed is gone.                           *)
(***************************************************************************)
Gone == [k |-> "gone"]
AnyOperation(hs, inplace, consumes, r) ==
  /\ r.k \in {"ok", "none", "refused"}
  /\ \A i \in DOMAIN hs : objs[hs[i]] # Gone /\ r.after[i] = objs[hs[i]]
  /\ CASE r.k = "ok" ->
            /\ WF(r.v)
            /\ objs' = IF inplace THEN [objs EXCEPT ![hs[1]] = r.v]
                       ELSE Append([i \in DOMAIN objs |-> IF consumes /\ i \in Rng(hs) THEN Gone ELSE objs[i]], r.v)
       [] r.k = "refused" -> r.a = objs[hs[1]] /\ r.b = objs[hs[2]] /\ UNCHANGED objs
       [] OTHER -> UNCHANGED objs
  /\ UNCHANGED <<evs, its>>
=============================================================================
