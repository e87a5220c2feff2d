------------------------------- MODULE Drawing -------------------------------
(***************************************************************************)
(* How a drawing comes about (C23, C24): the arrows of an automaton are    *)
(* put on levels, passes from left to right, each pass taking what does    *)
(* not run into what it took before; then the picture is put on paper, or  *)
(* written as rows of text.                                                *)
(*                                                                         *)
(* Free = FALSE: the passes.  Free = TRUE: any arrow on any level with     *)
(* room, in any order - whatever a drawer may reasonably do.  Either way   *)
(* the outcome must read as the automaton it was made of, and as no other: *)
(* not as one that differs in a single mark, name, arrow or symbol; and a  *)
(* drawing with a single stroke, text or character missing or out of place *)
(* must not pass.                                                          *)
(***************************************************************************)
EXTENDS Draw, Shapes
CONSTANTS Free, Of, Kind, Marks
LOCAL INSTANCE SequencesExt

VARIABLES A, old, kept, depth, edge, lev
mine == <<A, old, kept, depth, edge, lev>>
rest == <<fs, objs, evs, its, reg, used>>

Lft(e) == IF e[1] < e[2] THEN e[1] ELSE e[2]
Rgt(e) == IF e[1] < e[2] THEN e[2] ELSE e[1]
Spot(e) == e[1] = e[2]

\* names and symbols of unequal lengths
Named(X) == [X EXCEPT !.nm = SubSeq(<<"q", "é7x", "s", "t">>, 1, Len(X.nm)), !.al = SubSeq(<<"ab", "q">>, 1, Len(X.al))]
NmC(X) == SubSeq(<< <<"q">>, <<"é", "7", "x">>, <<"s">>, <<"t">> >>, 1, Len(X.nm))
AlC(X) == SubSeq(<< <<"a", "b">>, <<"q">> >>, 1, Len(X.al))

Start == /\ fs = <<>> /\ objs = <<>> /\ evs = <<>> /\ its = <<>> /\ reg = <<>> /\ used = {}
         /\ A \in {Named(X) : X \in UNION {Shape(w) : w \in Of}}
         /\ old = ArrowsOf(A) /\ kept = {} /\ depth = 0 /\ edge = 0 /\ lev = <<>>

\* two arrows run into each other
Cross(e, f) ==
  LET l(x) == IF Spot(x) THEN 2 * Lft(x) - 1 ELSE 2 * Lft(x)
      r(x) == IF Spot(x) THEN 2 * Rgt(x) ELSE 2 * Rgt(x) - 1
  IN ~(r(e) <= l(f) \/ r(f) <= l(e))
Fits(e, l) == \A f \in DOMAIN lev : lev[f] = l => ~Cross(e, f)

Take == /\ ~Free /\ old # {}
        /\ \E e \in {e \in old : \A f \in old : Rgt(e) <= Rgt(f)} :
             /\ old' = old \ {e}
             /\ IF Lft(e) >= edge
                THEN /\ lev' = lev @@ (e :> depth)
                     /\ edge' = IF Spot(e) THEN Rgt(e) + 1 ELSE Rgt(e)
                     /\ UNCHANGED kept
                ELSE /\ kept' = kept \cup {e}
                     /\ UNCHANGED <<lev, edge>>
        /\ UNCHANGED <<A, depth>>
Again == /\ ~Free /\ old = {} /\ kept # {}
         /\ old' = kept /\ kept' = {} /\ depth' = depth + 1 /\ edge' = 0
         /\ UNCHANGED <<A, lev>>
Put(e, l) == /\ e \notin DOMAIN lev /\ Fits(e, l)
             /\ lev' = lev @@ (e :> l)
Anyhow == /\ Free
          /\ \E e \in old : \E l \in 0..depth :
               /\ Put(e, l) /\ old' = old \ {e}
               /\ depth' = IF l = depth THEN depth + 1 ELSE depth
          /\ UNCHANGED <<A, kept, edge>>
Move == (Take \/ Again \/ Anyhow) /\ UNCHANGED rest
Spec == Start /\ [][Move]_<<mine, rest>> /\ WF_<<mine, rest>>(Move)

Placed0 == old = {} /\ kept = {}
Levels == IF ArrowsOf(A) = {} THEN 0 ELSE IF Free THEN depth ELSE depth + 1

\* the passes put each arrow once on a level with room, and get done
Apart == \A e, f \in DOMAIN lev : (e # f /\ lev[e] = lev[f]) => ~Cross(e, f)
Each == [][\E e \in ArrowsOf(A), l \in 0..depth : Put(e, l)]_lev
Shorter == [][(depth' # depth /\ ~Free) => Cardinality(old') < Cardinality(ArrowsOf(A)) - depth]_mine
Done == <>(Placed0 /\ DOMAIN lev = ArrowsOf(A))

(* the picture, put on paper as the drawer does *)
Opts0 == [il |-> 200, pad |-> 80, r |-> 120, ar |-> 100, gap |-> 40, tm |-> 60, arm |-> 20, iarm |-> 60, fl |-> 100,
          frm |-> 60, to |-> 60, mid |-> TRUE, end |-> TRUE]
Ln(a, b, c, e) == [x1 |-> a, y1 |-> b, x2 |-> c, y2 |-> e]
Tx(a, b, q) == [x |-> a, y |-> b, t |-> Commas(q, 1), parts |-> q]
RECURSIVE Flatten(_, _)
Flatten(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o Flatten(q, i + 1)
Picture(o) ==
  LET h == Levels
      x(i) == o.il + o.pad + o.r + (2 * o.r + o.pad) * (i - 1)
      base == (h + 1) * o.fl
      cy == base + o.gap + o.r
      f(i) == x(i) + o.frm
      t(i) == x(i) - o.to
      es == SetToSeq(ArrowsOf(A))
      down == cy + o.r + o.pad
      entry == (IF A.ini = 1 THEN <<Ln(0, cy, o.il, cy), Ln(o.il, cy, o.il - o.iarm, cy - o.iarm), Ln(o.il, cy, o.il - o.iarm, cy + o.iarm)>> ELSE <<>>)
               \o <<Ln(x(A.ini), down, x(A.ini), down + o.il), Ln(x(A.ini), down, x(A.ini) + o.iarm, down + o.iarm),
                    Ln(x(A.ini), down, x(A.ini) - o.iarm, down + o.iarm)>>
      line(e) ==
        LET y == o.fl * (h - lev[e])
            a == f(Lft(e))
            b == t(Rgt(e))
            m == IF e[1] > e[2] THEN 1 ELSE -1
            mx == ((a + b) \div 2) - m * (o.arm \div 2)
            ex == IF e[1] < e[2] THEN b ELSE a
        IN <<Ln(a, base, a, y), Ln(b, base, b, y), Ln(a, y, b, y)>>
           \o (IF o.mid THEN <<Ln(mx, y, mx + m * o.arm, y + o.arm), Ln(mx, y, mx + m * o.arm, y - o.arm)>> ELSE <<>>)
           \o (IF o.end THEN <<Ln(ex, base, ex - o.arm, base - o.arm), Ln(ex, base, ex + o.arm, base - o.arm)>> ELSE <<>>)
      label(e) == Tx((f(Lft(e)) + t(Rgt(e))) \div 2, o.fl * (h - lev[e]) - o.tm, LabelOf(A, e[1], e[2]))
  IN [circles |-> Flatten([s \in 1..N(A) |-> <<[x |-> x(s), y |-> cy, r |-> o.r]>>
                              \o (IF A.acc[s] THEN <<[x |-> x(s), y |-> cy, r |-> o.ar]>> ELSE <<>>)], 1),
      texts |-> [s \in 1..N(A) |-> Tx(x(s), cy, <<A.nm[s]>>)] \o [i \in 1..Len(es) |-> label(es[i])],
      lines |-> entry \o Flatten([i \in 1..Len(es) |-> line(es[i])], 1),
      entries |-> Len(entry)]

(* the rows of text, as they are written *)
Rows ==
  LET nmc == NmC(A)
      w == MaxOf({Len(nmc[s]) : s \in St(A)})
      al == [a \in 0..Len(A.al) |-> IF a = 0 THEN <<"ε">> ELSE AlC(A)[a]]
      wd == RX(w, N(A) + 1) - 1
      on(l) == {e \in ArrowsOf(A) : lev[e] = l}
      ends(e) == {RX(w, Lft(e)), LX(w, Rgt(e))}
      bars(l) == UNION {ends(e) : e \in {e \in ArrowsOf(A) : lev[e] > l}}
      lo(e) == IF Spot(e) THEN LX(w, e[1]) ELSE RX(w, Lft(e))
      hi(e) == IF Spot(e) THEN RX(w, e[1]) ELSE LX(w, Rgt(e))
      tip(e) == IF Spot(e) THEN LX(w, e[1]) + 1 ELSE IF e[1] < e[2] THEN RX(w, e[1]) + 2 ELSE LX(w, e[1]) - 1
      top(l) == [i \in 1..wd |-> LET x == i - 1 IN
                   IF \E e \in on(l) : x = tip(e) THEN (IF \E e \in on(l) : x = tip(e) /\ e[1] > e[2] THEN "<" ELSE ">")
                   ELSE IF \E e \in on(l) : x \in lo(e)..hi(e) THEN "-"
                   ELSE IF x \in bars(l) THEN "|" ELSE " "]
      lab(e) == CharLabel(al, LabelIdx(A, e[1], e[2]), 1)
      over(l, x) == {e \in on(l) : ~Spot(e) /\ x > lo(e) /\ x < hi(e) /\ x - lo(e) <= Len(lab(e))}
      bot(l) == [i \in 1..wd |-> LET x == i - 1
                                     c == over(l, x) IN
                   IF c # {} THEN LET e == CHOOSE e \in c : TRUE IN lab(e)[x - lo(e)]
                   ELSE IF x \in bars(l) \cup UNION {ends(e) : e \in on(l)} THEN "|" ELSE " "]
  IN Flatten([k \in 1..Levels |-> <<top(Levels - k), bot(Levels - k)>>], 1) \o <<<<"-", ">", " ">> \o Boxes(A, w, nmc, 1)>>

(* automata that differ in one thing *)
Flip(q, t) == IF t \in Rng(q) THEN SelectSeq(q, LAMBDA x : x # t) ELSE SeqOfSet(Rng(q) \cup {t})
Others ==
     {[A EXCEPT !.acc[s] = ~@] : s \in St(A)}
  \cup (IF Kind = "rows" THEN {} ELSE {[A EXCEPT !.ini = s, !.inif = SFlags(N(A), s)] : s \in St(A) \ {A.ini}})
  \cup {[A EXCEPT !.nm[s] = "other"] : s \in IF Kind = "rows" THEN {} ELSE St(A)}
  \cup (IF A.k = "dfa" THEN {[A EXCEPT !.tr[s][a] = t] : s \in St(A), a \in Sy(A), t \in St(A)} \ {A}
        ELSE {[A EXCEPT !.tr[s][a] = Flip(@, t)] : s \in St(A), a \in Sy(A), t \in St(A)}
             \cup {[A EXCEPT !.ep[s] = Flip(@, t)] : s \in St(A), t \in St(A)})
\* text drawings have no room for the labels of arrows from a state to itself, and cut long ones short
Seen(X) == [e \in ArrowsOf(X) |->
              IF Kind = "rows" /\ Spot(e) THEN <<>>
              ELSE IF Kind = "rows" THEN SubSeq(CharLabel([a \in 0..Len(X.al) |-> IF a = 0 THEN <<"ε">> ELSE AlC(X)[a]], LabelIdx(X, e[1], e[2]), 1), 1,
                                                IF Len(CharLabel([a \in 0..Len(X.al) |-> IF a = 0 THEN <<"ε">> ELSE AlC(X)[a]], LabelIdx(X, e[1], e[2]), 1))
                                                   <= LX(3, Rgt(e)) - RX(3, Lft(e)) - 1
                                                THEN Len(CharLabel([a \in 0..Len(X.al) |-> IF a = 0 THEN <<"ε">> ELSE AlC(X)[a]], LabelIdx(X, e[1], e[2]), 1))
                                                ELSE LX(3, Rgt(e)) - RX(3, Lft(e)) - 1)
              ELSE LabelOf(X, e[1], e[2])]
Differ(X) == X.acc # A.acc \/ X.nm # A.nm \/ X.ini # A.ini \/ Seen(X) # Seen(A)

(* drawings that differ in one thing *)
But(q, i) == RemoveAt(q, i)
Spoilt(d) ==
     \* (strokes may lie on one another: without one of them the drawing looks the same)
     {[d EXCEPT !.lines = But(@, i)] : i \in {i \in (d.entries + 1)..Len(d.lines) : Rng(But(d.lines, i)) # Rng(d.lines)}}
  \cup {[d EXCEPT !.lines[i] = [@ EXCEPT !.y2 = @ - 20]] : i \in (d.entries + 1)..Len(d.lines)}
  \cup {[d EXCEPT !.lines[i] = [@ EXCEPT !.x1 = @ + 8]] : i \in (d.entries + 1)..Len(d.lines)}
  \cup {[d EXCEPT !.lines = SubSeq(@, d.entries + 1, Len(@))]}
  \cup {[d EXCEPT !.texts = But(@, i)] : i \in DOMAIN d.texts}
  \cup {[d EXCEPT !.texts = Append(@, @[i])] : i \in DOMAIN d.texts}
  \cup {[d EXCEPT !.texts[i] = [@ EXCEPT !.t = "z", !.parts = <<"z">>]] : i \in DOMAIN d.texts}
  \cup {[d EXCEPT !.texts[i] = [@ EXCEPT !.y = @ + 8]] : i \in DOMAIN d.texts}
  \cup {[d EXCEPT !.circles = But(@, i)] : i \in DOMAIN d.circles}
  \cup {[d EXCEPT !.circles = Append(@, @[i])] : i \in DOMAIN d.circles}
  \cup {[d EXCEPT !.circles[i] = [@ EXCEPT !.x = @ + 8]] : i \in DOMAIN d.circles}
Marred(q) ==
     {[q EXCEPT ![k][x] = c] : <<k, x, c>> \in {<<k, x, c>> \in (1..Len(q)) \X (1..Len(q[1])) \X Marks :
                                                  x <= Len(q[k]) /\ q[k][x] # c /\ (k = Len(q) => x > 3)}}
  \cup {RemoveAt(RemoveAt(q, k), k) : k \in {k \in 1..(Len(q) - 2) : k % 2 = 1}}

Variants == {Opts0, [Opts0 EXCEPT !.mid = FALSE], [Opts0 EXCEPT !.end = FALSE], [Opts0 EXCEPT !.mid = FALSE, !.end = FALSE]}
Pictured == (Kind = "paper" /\ Placed0) =>
  \A o \in Variants :
    LET d == TLCEval(Picture(o))
    IN /\ ShowsAutomaton(A, o, d) = TRUE
       /\ \A X \in Others : (Differ(X) /\ (o.mid \/ X.acc # A.acc \/ X.nm # A.nm \/ X.ini # A.ini)) => ShowsAutomaton(X, o, d) = FALSE
       /\ o = Opts0 => \A b \in Spoilt(d) : ShowsAutomaton(A, o, b) = FALSE
Written == (Kind = "rows" /\ Placed0) =>
  LET d == TLCEval(Rows)
  IN /\ ShowsAsText(A, NmC(A), AlC(A), d) = TRUE
     /\ \A X \in Others : Differ(X) => ShowsAsText(X, NmC(X), AlC(X), d) = FALSE
     /\ \A b \in Marred(d) : ShowsAsText(A, NmC(A), AlC(A), b) = FALSE
=============================================================================
