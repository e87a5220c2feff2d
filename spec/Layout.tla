------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The writer of descriptions (C12, C14) and of broken ones (C13).          *)
(*                                                                         *)
(* "layout": an automaton is written down piece by piece.  At every place   *)
(* the format leaves something open - gaps, tabs, line ends, empty lines,   *)
(* comments, the two spellings of the arrow and of epsilon, where the       *)
(* epsilon column stands - the usual or an unusual choice is made; Odd      *)
(* bounds the unusual ones.  Whatever is chosen, the text denotes the       *)
(* automaton.                                                              *)
(*                                                                         *)
(* "edit": the plain text of an automaton is tampered with, one piece or    *)
(* one line at a time.  Either it is still in the format and consistent, or *)
(* not in the format, or some rule is broken that an error can name.        *)
(*                                                                         *)
(* With Emit the texts are printed, for the parsers of the library.         *)
(***************************************************************************)
EXTENDS FaFormat, Json
CONSTANTS Mode, Which, Odd, Emit
LOCAL INSTANCE SequencesExt

D1 == [k |-> "dfa", al |-> <<"a">>, nm |-> <<"p", "é">>, ini |-> 2, inif |-> <<FALSE, TRUE>>, acc |-> <<TRUE, FALSE>>,
       tr |-> <<<<2>>, <<1>>>>]
D2 == [k |-> "dfa", al |-> <<"a", "p">>, nm |-> <<"p">>, ini |-> 1, inif |-> <<TRUE>>, acc |-> <<TRUE>>, tr |-> <<<<1, 1>>>>]
N1 == [k |-> "nfa", al |-> <<"a">>, nm |-> <<"p", "q">>, ini |-> 1, inif |-> <<TRUE, FALSE>>, acc |-> <<TRUE, TRUE>>,
       tr |-> <<<<<<2, 1>>>>, <<<<>>>>>>, ep |-> <<<<2>>, <<>>>>]
N2 == [k |-> "nfa", al |-> <<>>, nm |-> <<"p">>, ini |-> 1, inif |-> <<TRUE>>, acc |-> <<FALSE>>, tr |-> <<<<>>>>, ep |-> <<<<1>>>>]
N3 == [k |-> "nfa", al |-> <<"a", "b">>, nm |-> <<"p", "q">>, ini |-> 2, inif |-> <<FALSE, TRUE>>, acc |-> <<FALSE, TRUE>>,
       tr |-> <<<<<<1>>, <<2>>>>, <<<<>>, <<1, 2>>>>>>, ep |-> <<<<>>, <<>>>>]
Fas == [d1 |-> D1, d2 |-> D2, n1 |-> N1, n2 |-> N2, n3 |-> N3]

VARIABLES A, epos,  \* the automaton and before which column the epsilon one stands (0: there is none)
          plan,     \* what is left to write: pieces
          out, odd
vars == <<A, epos, plan, out, odd>>

RECURSIVE Flat(_, _)
Flat(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o Flat(q, i + 1)

(* pieces: a word, or a place where something is open *)
Wd(x) == [p |-> "word", v |-> x]
Pl(x) == [p |-> x, v |-> <<>>]
Set(q) == <<Wd(<<"{">>), Pl("in")>> \o Flat([i \in 1..Len(q) |-> IF i = 1 THEN <<Wd(<<q[i]>>)>> ELSE <<Pl("gap"), Wd(<<q[i]>>)>>], 1)
          \o <<Pl("in"), Wd(<<"}">>)>>
\* the titles and the cells of a row in the order of the columns
Cols(e, X) == IF e = 0 THEN [i \in 1..Len(X.al) |-> i] ELSE InsertAt([i \in 1..Len(X.al) |-> i], e, 0)
HeadPieces(e, X) ==
  LET c == Cols(e, X)
      title(i) == IF c[i] = 0 THEN Pl("eps") ELSE Wd(<<X.al[c[i]]>>)
  IN <<Pl("start"), Pl("lead")>> \o Flat([i \in 1..Len(c) |-> IF i = 1 THEN <<title(i)>> ELSE <<Pl("gap"), title(i)>>], 1)
     \o <<Pl("trail"), Pl("line")>>
RowPieces(e, X, s) ==
  LET c == Cols(e, X)
      named(q) == [j \in 1..Len(q) |-> X.nm[q[j]]]
      cell(i) == IF X.k = "dfa" THEN <<Wd(<<X.nm[X.tr[s][c[i]]]>>)>>
                 ELSE Set(named(IF c[i] = 0 THEN X.ep[s] ELSE X.tr[s][c[i]]))
  IN <<Pl("lead")>> \o (IF X.ini = s THEN <<Pl("arrow"), Pl("gap")>> ELSE <<>>)
     \o (IF X.acc[s] THEN <<Wd(<<"*">>), Pl("gap")>> ELSE <<>>)
     \o <<Wd(<<X.nm[s]>>)>> \o Flat([i \in 1..Len(c) |-> <<Pl("gap")>> \o cell(i)], 1)
     \o <<Pl("trail"), Pl(IF s = Len(X.nm) THEN "end" ELSE "line")>>
Pieces(e, X) == HeadPieces(e, X) \o Flat([s \in 1..Len(X.nm) |-> RowPieces(e, X, s)], 1)

(* the usual choice at a place, then the unusual ones *)
Sp == " "
Tb == "\t"
Nl == "\n"
Cr == "\r"
Ways(x) ==
  CASE x = "gap"   -> << <<Sp>>, <<Tb>>, <<Sp, Sp, Tb>> >>
    [] x = "in"    -> << <<>>, <<Sp>>, <<Tb, Sp>> >>
    [] x = "lead"  -> << <<>>, <<Sp>>, <<Tb>> >>
    [] x = "eps"   -> << <<"e", "p", "s">>, <<"ε">> >>
    [] x = "arrow" -> << <<"-", ">">>, <<"→">> >>
    [] x = "trail" -> << <<>>, <<Sp>>, <<"#">>, <<Sp, "#", Sp, "{", "q">>, <<"#", "-", ">", Sp, "*">> >>
    [] x = "start" -> << <<>>, <<Nl>>, <<"#", "b", Nl>>, <<Sp, Cr, Nl>>, <<Tb, "#", "→", Cr, Nl, Nl>> >>
    [] x = "line"  -> << <<Nl>>, <<Cr, Nl>>, <<Nl, Nl>>, <<Nl, Sp, Tb, Nl>>, <<Nl, "#", "#", "p", Nl>>, <<Cr, Nl, Sp, "#", "}", Cr, Nl>> >>
    [] x = "end"   -> << <<Nl>>, <<>>, <<Cr, Nl>>, <<Nl, Sp, Sp>>, <<Nl, Tb, "#", "p", Sp, "p">>, <<Nl, Cr, Nl>> >>

EpsPlaces(X) == IF X.k = "dfa" THEN {0}
                ELSE {e \in 0..(Len(X.al) + 1) : e > 0 \/ (X.al # <<>> /\ \A s \in DOMAIN X.ep : X.ep[s] = <<>>)}

(* tampering *)
Tok == {<<"-", ">">>, <<"*">>, <<"e", "p", "s">>, <<"ε">>, <<"{">>, <<"}">>, <<"{", "}">>, <<"{", "p", "}">>, <<"p">>, <<"z">>, <<"#">>}
RECURSIVE Lines(_, _, _)
\* the plain text as lines of words, sets being words of their own pieces
Lines(ps, cur, ls) ==
  IF ps = <<>> THEN ls
  ELSE LET h == Head(ps)
       IN CASE h.p = "word" -> Lines(Tail(ps), Append(cur, h.v), ls)
            [] h.p \in {"eps", "arrow"} -> Lines(Tail(ps), Append(cur, Ways(h.p)[1]), ls)
            [] h.p \in {"line", "end"} -> Lines(Tail(ps), <<>>, Append(ls, cur))
            [] OTHER -> Lines(Tail(ps), cur, ls)
Tampered(ls) ==
     UNION {{[ls EXCEPT ![i] = InsertAt(@, j, t)] : j \in 1..(Len(ls[i]) + 1), t \in Tok} : i \in 1..Len(ls)}
  \cup UNION {{[ls EXCEPT ![i][j] = t] : j \in 1..Len(ls[i]), t \in Tok} : i \in 1..Len(ls)}
  \cup UNION {{[ls EXCEPT ![i] = RemoveAt(@, j)] : j \in 1..Len(ls[i])} : i \in 1..Len(ls)}
  \cup {RemoveAt(ls, i) : i \in 1..Len(ls)}
  \cup {InsertAt(ls, j, ls[i]) : i \in 1..Len(ls), j \in 1..(Len(ls) + 1)}
  \cup {[ls EXCEPT ![i] = ls[j], ![j] = ls[i]] : i, j \in 1..Len(ls)}
Plainly(ls) == Flat([i \in 1..Len(ls) |-> Flat([j \in 1..Len(ls[i]) |-> IF j = 1 THEN ls[i][j] ELSE <<Sp>> \o ls[i][j]], 1) \o <<Nl>>], 1)

Init == /\ A \in {Fas[x] : x \in Which}
        /\ epos \in EpsPlaces(A)
        /\ odd = 0
        /\ IF Mode = "layout" THEN plan = Pieces(epos, A) /\ out = <<>>
           ELSE /\ plan = <<>>
                /\ out \in {Plainly(ls) : ls \in Tampered(Lines(Pieces(epos, A), <<>>, <<>>))}
Write == /\ plan # <<>>
         /\ LET h == Head(plan)
            IN IF h.p = "word" THEN out' = out \o h.v /\ odd' = odd
               ELSE \E i \in DOMAIN Ways(h.p) : /\ odd + (IF i = 1 THEN 0 ELSE 1) <= Odd
                                                  /\ out' = out \o Ways(h.p)[i]
                                                  /\ odd' = odd + IF i = 1 THEN 0 ELSE 1
         /\ plan' = Tail(plan) /\ UNCHANGED <<A, epos>>
Spec == Init /\ [][Write]_vars

Written == Mode = "layout" /\ plan = <<>>
Right == Written => TextIs(A, out, <<>>)
\* a fault is named by the rule it breaks, and nothing else can be
Faults(t) == {e \in {[t |-> "noinitial"], [t |-> "initials"]}
                  \cup {[t |-> "width", a |-> t.rows[i].name, x |-> Len(t.rows[i].cells), y |-> Len(t.head)] : i \in DOMAIN t.rows}
                  \cup {[t |-> "symbol", a |-> h] : h \in Rng(t.head)}
                  \cup {[t |-> "state", a |-> h] : h \in Rng(Names(t))}
                  \cup UNION {{[t |-> "target", a |-> t.rows[i].name, b |-> y] :
                                 y \in UNION {Rng(t.rows[i].cells[j]) : j \in DOMAIN t.rows[i].cells}} : i \in DOMAIN t.rows}
               : Applies(t, e)}
Judged == Mode = "edit" =>
  LET t == Fa(A.k = "dfa", out, <<>>)
  IN t.k = "table" => /\ Consistent(t) = (Faults(t) = {})
                      /\ Consistent(t) => WF(Denotes(t))
Told == (Emit /\ plan = <<>>) =>
  PrintT("HIST " \o ToJson(IF Mode = "layout" THEN [k |-> "layout", chars |-> out, fa |-> A] ELSE [k |-> "text", chars |-> out]))
=============================================================================
