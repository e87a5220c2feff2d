------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Every automaton of a given shape: the inputs of the design models and   *)
(* of the conformance runs.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

SNames == <<"0", "1", "2", "3">>
SSyms == <<"a", "b">>
SFlags(n, i) == [s \in 1..n |-> s = i]
SeqOfSet(S) == SetToSortSeq(S, LAMBDA x, y : x < y)

Dfas(n, k, inis) ==
  {[k |-> "dfa", al |-> SubSeq(SSyms, 1, k), nm |-> SubSeq(SNames, 1, n), ini |-> i, inif |-> SFlags(n, i),
    acc |-> ac, tr |-> t] :
     i \in inis, ac \in [1..n -> BOOLEAN], t \in [1..n -> [1..k -> 1..n]]}

Sets(n) == {SeqOfSet(S) : S \in SUBSET (1..n)}
Nfas(n, k, inis, eps) ==
  {[k |-> "nfa", al |-> SubSeq(SSyms, 1, k), nm |-> SubSeq(SNames, 1, n), ini |-> i, inif |-> SFlags(n, i),
    acc |-> ac, tr |-> t, ep |-> e] :
     i \in inis, ac \in [1..n -> BOOLEAN], t \in [1..n -> [1..k -> Sets(n)]],
     e \in IF eps THEN [1..n -> Sets(n)] ELSE {[s \in 1..n |-> <<>>]}}

\* nothing but epsilon moves
Silent(n, most) == {[k |-> "nfa", al |-> <<"a">>, nm |-> SubSeq(SNames, 1, n), ini |-> 1, inif |-> SFlags(n, 1),
               acc |-> [s \in 1..n |-> s = n], tr |-> [s \in 1..n |-> <<<<>>>>], ep |-> e] :
                 e \in [1..n -> {q \in Sets(n) : Len(q) <= most}]}

Shape(w) ==
  CASE w = "d11" -> Dfas(1, 1, {1})
    [] w = "one" -> {[k |-> "dfa", al |-> SSyms, nm |-> <<"0">>, ini |-> 1, inif |-> <<TRUE>>, acc |-> <<TRUE>>, tr |-> <<<<1, 1>>>>]}
    [] w = "d12" -> Dfas(1, 2, {1})
    [] w = "d21" -> Dfas(2, 1, 1..2)
    [] w = "d22" -> Dfas(2, 2, 1..2)
    [] w = "d31" -> Dfas(3, 1, 1..3)
    [] w = "d41" -> {D \in Dfas(4, 1, {1}) : D.tr[1][1] \in {1, 2}}
    [] w = "d32" -> Dfas(3, 2, {1})
    [] w = "n11" -> Nfas(1, 1, {1}, TRUE)
    [] w = "n12" -> Nfas(1, 2, {1}, TRUE)
    [] w = "n21" -> Nfas(2, 1, 1..2, TRUE)
    [] w = "n21p" -> Nfas(2, 1, {1}, FALSE)
    [] w = "n22" -> Nfas(2, 2, {1}, FALSE)
    [] w = "n22e" -> Nfas(2, 2, {1}, TRUE)
    [] w = "n31" -> Nfas(3, 1, {1}, FALSE)
    [] w = "e3" -> Silent(3, 3)
    [] w = "e4" -> Silent(4, 2)
    [] w = "n31e" ->    \* at most one successor by the symbol, and one by the empty word
         {[k |-> "nfa", al |-> <<"a">>, nm |-> SubSeq(SNames, 1, 3), ini |-> 1, inif |-> SFlags(3, 1), acc |-> ac,
           tr |-> [s \in 1..3 |-> <<t[s]>>], ep |-> e] :
            ac \in [1..3 -> BOOLEAN], t \in [1..3 -> {<<>>, <<1>>, <<2>>, <<3>>}], e \in [1..3 -> {<<>>, <<1>>, <<2>>, <<3>>}]}
\* those without epsilon moves
Plain(S) == {M \in S : IF M.k = "dfa" THEN TRUE ELSE \A s \in DOMAIN M.ep : M.ep[s] = <<>>}
=============================================================================
