------------------------------ MODULE FaFormat ------------------------------
(***************************************************************************)
(* The text format for DFAs and NFAs.                                      *)
(*                                                                         *)
(* A text is a sequence of one-character strings.  Fa(dfa, c, ws) reads it: *)
(*   [k |-> "exotic"]  a carriage return that ends no line, in a comment:   *)
(*                     the format does not say                             *)
(*   [k |-> "syntax"]  not in the format                                   *)
(*   [k |-> "table", head, rows]  a description: head is the sequence of    *)
(*                     column titles, "" standing for the epsilon column;   *)
(*                     a row is [ini, acc, name, cells], a cell a sequence *)
(*                     of names                                            *)
(* ws is the sequence of positions of white space that is none of space,   *)
(* tab, line feed, carriage return.                                        *)
(***************************************************************************)
EXTENDS Automata
LOCAL INSTANCE SequencesExt

Blank == {" ", "\t"}
Brace == {"{", "}"}
EpsWords == {"ε", "eps"}
Arrows == {"->", "→"}
Reserved == EpsWords \cup Arrows \cup {"*"}

RECURSIVE Text(_, _, _)
Text(c, i, j) == IF i > j THEN "" ELSE IF i = j THEN c[i]
                 ELSE LET m == (i + j) \div 2 IN Text(c, i, m) \o Text(c, m + 1, j)
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)

(***************************************************************************)
(* Lines: from .. to, the line end and the comment taken away; raw is the  *)
(* end of the line with its comment.                                       *)
(***************************************************************************)
LinesOf(c) ==
  LET nl == Sorted({i \in 1..Len(c) : c[i] = "\n"})
      n == Len(nl)
      from(k) == IF k = 1 THEN 1 ELSE nl[k - 1] + 1
      end(k) == IF k > n THEN Len(c)
                ELSE IF nl[k] > from(k) /\ c[nl[k] - 1] = "\r" THEN nl[k] - 2 ELSE nl[k] - 1
      hash(k) == {i \in from(k)..end(k) : c[i] = "#"}
  IN [k \in 1..(n + 1) |->
        [from |-> from(k), raw |-> end(k),
         to |-> IF hash(k) = {} THEN end(k) ELSE MinOf(hash(k)) - 1]]

RECURSIVE WordEnd(_, _, _)
WordEnd(c, i, to) == IF i >= to \/ c[i + 1] \in Blank \cup Brace THEN i ELSE WordEnd(c, i + 1, to)

\* tokens of a line: [t: text, w: is a word, g: preceded by a blank or the line's start]
Tokens(c, ln) ==
  LET free(i) == c[i] \notin Blank \cup Brace
      starts == Sorted({i \in ln.from..ln.to :
                          c[i] \in Brace \/ (free(i) /\ (i = ln.from \/ ~free(i - 1)))})
  IN [k \in 1..Len(starts) |->
        [t |-> Text(c, starts[k], IF free(starts[k]) THEN WordEnd(c, starts[k], ln.to) ELSE starts[k]),
         w |-> free(starts[k]),
         g |-> starts[k] = ln.from \/ c[starts[k] - 1] \in Blank]]

Exotic(c, lns) == \E k \in DOMAIN lns : \E i \in (lns[k].to + 1)..lns[k].raw : c[i] = "\r"
\* other white space is neither part of a name nor a separator
Misplaced(c, ws, lns) ==
  \E k \in DOMAIN lns :
    \/ \E i \in lns[k].from..lns[k].to : c[i] = "\r"
    \/ \E j \in DOMAIN ws : ws[j] \in lns[k].from..lns[k].to

(***************************************************************************)
(* Header and rows.                                                        *)
(***************************************************************************)
HeadOK(dfa, T) ==
  \A i \in DOMAIN T : T[i].w /\ T[i].t \notin Arrows \cup {"*"}
                      /\ (dfa => T[i].t \notin EpsWords)
Head_(T) == [i \in DOMAIN T |-> IF T[i].t \in EpsWords THEN "" ELSE T[i].t]

NameTok(x) == x.w /\ x.t \notin Reserved
Bad == [ok |-> FALSE]

RECURSIVE SetBody(_, _, _)
\* position after the names of a set, or 0
SetBody(T, p, from) ==
  IF p > Len(T) THEN 0
  ELSE IF T[p].w THEN IF NameTok(T[p]) THEN SetBody(T, p + 1, from) ELSE 0
  ELSE IF T[p].t = "}" THEN p ELSE 0

RECURSIVE SetCells(_, _, _)
SetCells(T, p, out) ==
  IF p > Len(T) THEN [ok |-> out # <<>>, cells |-> out]
  ELSE IF T[p].w \/ T[p].t # "{" \/ ~T[p].g THEN Bad
  ELSE LET e == SetBody(T, p + 1, p + 1)
       IN IF e = 0 THEN Bad
          ELSE SetCells(T, e + 1, Append(out, [i \in 1..(e - p - 1) |-> T[p + i].t]))

Row(dfa, T0) ==
  LET ini == T0[1].w /\ T0[1].t \in Arrows
      T1 == IF ini THEN Tail(T0) ELSE T0
      acc == T1 # <<>> /\ T1[1].w /\ T1[1].t = "*"
      T2 == IF acc THEN Tail(T1) ELSE T1
      T3 == Tail(T2)
      cells == IF dfa
               THEN IF T3 # <<>> /\ \A i \in DOMAIN T3 : NameTok(T3[i])
                    THEN [ok |-> TRUE, cells |-> [i \in DOMAIN T3 |-> <<T3[i].t>>]]
                    ELSE Bad
               ELSE SetCells(T3, 1, <<>>)
  IN IF T2 = <<>> \/ ~NameTok(T2[1]) THEN Bad
     ELSE IF ~cells.ok THEN Bad
     ELSE [ok |-> TRUE, row |-> [ini |-> ini, acc |-> acc, name |-> T2[1].t, cells |-> cells.cells]]

Fa(dfa, c, ws) ==
  LET lns == TLCEval(LinesOf(c))
      toks == TLCEval([k \in DOMAIN lns |-> Tokens(c, lns[k])])
      full == SelectSeq(toks, LAMBDA t : t # <<>>)
      rows == TLCEval([k \in 2..Len(full) |-> Row(dfa, full[k])])
  IN IF Misplaced(c, ws, lns) THEN [k |-> "syntax"]
     ELSE IF Exotic(c, lns) THEN [k |-> "exotic"]
     ELSE IF Len(full) < 2 THEN [k |-> "syntax"]
     ELSE IF ~HeadOK(dfa, full[1]) \/ \E k \in 2..Len(full) : ~rows[k].ok THEN [k |-> "syntax"]
     ELSE [k |-> "table", dfa |-> dfa, head |-> Head_(full[1]),
           rows |-> [i \in 1..(Len(full) - 1) |-> rows[i + 1].row]]

(***************************************************************************)
(* Which descriptions are consistent, and what they denote.                *)
(***************************************************************************)
Names(t) == [i \in DOMAIN t.rows |-> t.rows[i].name]
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Initials(t) == {i \in DOMAIN t.rows : t.rows[i].ini}

Consistent(t) ==
  /\ Inj(t.head) /\ Inj(Names(t))
  /\ Cardinality(Initials(t)) = 1
  /\ \A i \in DOMAIN t.rows :
        /\ Len(t.rows[i].cells) = Len(t.head)
        /\ \A j \in DOMAIN t.rows[i].cells : Rng(t.rows[i].cells[j]) \subseteq Rng(Names(t))

\* the rule named by an error is one the description breaks
Applies(t, e) ==
  CASE e.t = "width" -> \E i \in DOMAIN t.rows :
          /\ t.rows[i].name = e.a /\ Len(t.rows[i].cells) = e.x
          /\ e.y = Len(t.head) /\ e.x # e.y
    [] e.t = "target" -> \E i \in DOMAIN t.rows :
          /\ t.rows[i].name = e.a /\ e.b \notin Rng(Names(t))
          /\ \E j \in DOMAIN t.rows[i].cells : e.b \in Rng(t.rows[i].cells[j])
    [] e.t = "noinitial" -> Initials(t) = {}
    [] e.t = "initials" -> Cardinality(Initials(t)) > 1
    [] e.t = "symbol" -> Count(t.head, IF e.a \in EpsWords THEN "" ELSE e.a) > 1
    [] e.t = "state" -> Count(Names(t), e.a) > 1
    [] OTHER -> FALSE

Denotes(t) ==
  LET nm == Names(t)
      cols == Sorted({j \in DOMAIN t.head : t.head[j] # ""})
      eps == {j \in DOMAIN t.head : t.head[j] = ""}
      cell(i, j) == LET x == t.rows[i].cells[j] IN [q \in DOMAIN x |-> PosOf(nm, x[q])]
      base == [k |-> IF t.dfa THEN "dfa" ELSE "nfa",
               al |-> [j \in DOMAIN cols |-> t.head[cols[j]]], nm |-> nm,
               ini |-> CHOOSE i \in Initials(t) : TRUE,
               inif |-> [i \in DOMAIN t.rows |-> t.rows[i].ini],
               acc |-> [i \in DOMAIN t.rows |-> t.rows[i].acc],
               tr |-> [i \in DOMAIN t.rows |-> [j \in DOMAIN cols |->
                         IF t.dfa THEN cell(i, cols[j])[1] ELSE cell(i, cols[j])]]]
  IN IF t.dfa THEN base
     ELSE base @@ [ep |-> [i \in DOMAIN t.rows |->
                             IF eps = {} THEN <<>> ELSE cell(i, CHOOSE j \in eps : TRUE)]]

(***************************************************************************)
(* What reading a text may return.                                         *)
(***************************************************************************)
ReadOK(dfa, c, ws, r) ==
  LET t == TLCEval(Fa(dfa, c, ws))
  IN CASE t.k = "exotic" -> \/ r.k = "ok" /\ WF(r.v) /\ r.v.k = IF dfa THEN "dfa" ELSE "nfa"
                            \/ r.k \in {"syntax", "invalid"} /\ r.msg > 0
       [] t.k = "syntax" -> r.k = "syntax" /\ r.msg > 0
       [] OTHER -> IF Consistent(t)
                   THEN r.k = "ok" /\ WF(r.v) /\ SameStructure(Denotes(t), r.v)
                   ELSE r.k = "invalid" /\ r.msg > 0 /\ Applies(t, r)

\* the text denotes the automaton A
TextIs(A, c, ws) ==
  LET t == TLCEval(Fa(IsDfa(A), c, ws))
  IN t.k = "table" /\ Consistent(t) /\ SameStructure(A, Denotes(t))
=============================================================================
