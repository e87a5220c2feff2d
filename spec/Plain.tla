------------------------------- MODULE Plain -------------------------------
(***************************************************************************)
(* Files with plain texts, for the models of the programs.                  *)
(***************************************************************************)
EXTENDS Automata

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
FileOf(s) == [path |-> "-", comps |-> <<>>, k |-> "text", chars |-> Chars(s), ws |-> <<>>]
RegexOf(s) == [path |-> "-", comps |-> <<>>, k |-> "text", blank |-> <<>>,
               units |-> [i \in 1..Len(s) |-> <<SubSeq(s, i, i)>>]]
\* the plain table of an automaton
RECURSIVE Joined(_, _)
Joined(q, i) == IF i > Len(q) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<" ">>) \o Chars(q[i]) \o Joined(q, i + 1)
RECURSIVE RowsOf(_, _)
RowsOf(A, s) ==
  IF s > N(A) THEN <<>>
  ELSE (IF A.ini = s THEN <<"-", ">", " ">> ELSE <<>>) \o (IF A.acc[s] THEN <<"*", " ">> ELSE <<>>) \o Chars(A.nm[s])
       \o LET cell(q) == IF IsDfa(A) THEN Chars(A.nm[q]) ELSE <<"{">> \o Joined([j \in 1..Len(q) |-> A.nm[q[j]]], 1) \o <<"}">>
              RECURSIVE Cells(_)
              Cells(i) == IF i > Len(A.al) THEN <<>> ELSE <<" ">> \o cell(A.tr[s][i]) \o Cells(i + 1)
          IN Cells(1) \o (IF IsDfa(A) THEN <<>> ELSE <<" ">> \o cell(A.ep[s]))
       \o <<"\n">> \o RowsOf(A, s + 1)
TableOf(A) == Joined(IF IsDfa(A) THEN A.al ELSE A.al \o <<"eps">>, 1) \o <<"\n">> \o RowsOf(A, 1)
=============================================================================
