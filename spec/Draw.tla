--------------------------------- MODULE Draw ---------------------------------
(***************************************************************************)
(* What a drawing shows.                                                   *)
(*                                                                         *)
(* A drawing is what was put on paper, in any order: circles [x, y, r],    *)
(* texts [x, y, t, parts] (parts: t split at ", ") and lines [x1, y1, x2,  *)
(* y2], y growing downwards.  o holds the options it was made with: r, ar  *)
(* the radius of a state's circle and of the second circle of an accepting *)
(* state, pad the room before a circle, gap the room between circles and   *)
(* the base line of the arrows, tm the distance of a text above its line,  *)
(* arm the length of an arrow head, mid and end whether arrows have heads  *)
(* in the middle and at the end.                                           *)
(*                                                                         *)
(* The drawing is read back as an automaton: states from the circles,      *)
(* arrows from the texts with the lines below them.                        *)
(***************************************************************************)
EXTENDS Wasm

\* what is written at the arrow from p to q: symbols in order, epsilon last
LabelOf(M, p, q) ==
  LET RECURSIVE G(_)
      G(a) == IF a > Len(M.al) THEN (IF q \in Eps(M, p) THEN <<"ε">> ELSE <<>>)
              ELSE (IF q \in Suc(M, p, a) THEN <<M.al[a]>> ELSE <<>>) \o G(a + 1)
  IN G(1)
ArrowsOf(M) == TLCEval({<<p, q>> \in St(M) \X St(M) : q \in Eps(M, p) \cup UNION {Suc(M, p, a) : a \in Sy(M)}})

RECURSIVE Commas(_, _)
Commas(l, i) == IF i > Len(l) THEN "" ELSE IF i = Len(l) THEN l[i] ELSE l[i] \o ", " \o Commas(l, i + 1)
\* a text says exactly the symbols of an arrow
Says(txt, M, p, q) ==
  LET l == LabelOf(M, p, q)
  IN txt.t = Commas(l, 1) \/ (Rng(txt.parts) = Rng(l) /\ Len(txt.parts) = Len(l))

Abs(x) == IF x < 0 THEN -x ELSE x

ShowsAutomaton(M, o, d) ==
  LET n == N(M)
      rings == {i \in DOMAIN d.circles : d.circles[i].r = o.r}
      inner == {i \in DOMAIN d.circles : d.circles[i].r = o.ar}
      cy == d.circles[CHOOSE i \in rings : TRUE].y
      cx == TLCEval(SortedSeq({d.circles[i].x : i \in rings}))
      named == {i \in DOMAIN d.texts : d.texts[i].y = cy}
      labels == DOMAIN d.texts \ named
      lines == Rng(d.lines)
      upper == TLCEval({l \in lines : l.y1 <= cy - o.r /\ l.y2 <= cy - o.r})
      entry == lines \ upper
      has(a, b, c, e) == [x1 |-> a, y1 |-> b, x2 |-> c, y2 |-> e] \in upper \/ [x1 |-> c, y1 |-> e, x2 |-> a, y2 |-> b] \in upper
      base == cy - o.r - o.gap
      \* entry arrows
      below == <<cx[M.ini], cy + o.r + o.pad>>
      left == <<cx[M.ini] - o.r - o.pad, cy>>
      tips == {below} \cup (IF M.ini = 1 THEN {left} ELSE {})
      ends(l) == {<<l.x1, l.y1>>, <<l.x2, l.y2>>}
      shaft(t, l) == t \in ends(l) /\ \A e \in ends(l) \ {t} :
                        IF t = below THEN e[1] = t[1] /\ e[2] > t[2] ELSE e[2] = t[2] /\ e[1] < t[1]
      \* arrows: the horizontal line below a label
      over(j) == {l \in upper : l.y1 = l.y2 /\ l.y1 = d.texts[j].y + o.tm /\ l.x1 + l.x2 = 2 * d.texts[j].x}
      near(x) == {i \in 1..n : Abs(x - cx[i]) < o.r}
      head(m, x, y) == LET tip == x - m * (o.arm \div 2)
                       IN has(tip, y, tip + m * o.arm, y + o.arm) /\ has(tip, y, tip + m * o.arm, y - o.arm)
      arrow == TLCEval([j \in labels |->
                 LET ov == TLCEval(over(j))
                     l == TLCEval(CHOOSE l \in ov : TRUE)
                     lo == IF l.x1 < l.x2 THEN l.x1 ELSE l.x2
                     hi == IF l.x1 < l.x2 THEN l.x2 ELSE l.x1
                 IN IF Cardinality(ov) # 1 THEN [good |-> FALSE]
                    ELSE [good |-> TRUE, line |-> l, lo |-> lo, hi |-> hi, y |-> l.y1, from |-> near(lo), to |-> near(hi),
                     right |-> head(-1, d.texts[j].x, l.y1), left |-> head(1, d.texts[j].x, l.y1)]])
      \* the label j is that of the arrow from p to q
      is(j, p, q) ==
        /\ arrow[j].from = {IF p < q THEN p ELSE q}
        /\ arrow[j].to = {IF p < q THEN q ELSE p}
        /\ Says(d.texts[j], M, p, q)
        /\ IF ~o.mid THEN ~arrow[j].right /\ ~arrow[j].left
           ELSE IF p = q THEN arrow[j].right # arrow[j].left
           ELSE arrow[j].right = (p < q) /\ arrow[j].left = (q < p)
      heads == TLCEval({x \in UNION {{arrow[j].lo, arrow[j].hi} : j \in labels} :
                          has(x, base, x - o.arm, base - o.arm) /\ has(x, base, x + o.arm, base - o.arm)})
      \* the arrows each label can be read as, and the labels of each arrow
      among(j) == LET a == arrow[j]
                  IN IF Cardinality(a.from) # 1 \/ Cardinality(a.to) # 1 THEN {}
                     ELSE LET f == CHOOSE f \in a.from : TRUE
                              t == CHOOSE t \in a.to : TRUE
                          IN {e \in {<<f, t>>, <<t, f>>} \cap ArrowsOf(M) : is(j, e[1], e[2])}
      read == TLCEval([j \in labels |-> among(j)])
      of == TLCEval([e \in ArrowsOf(M) |-> {j \in labels : e \in read[j]}])
      at(p, q) == CHOOSE j \in of[<<p, q>>] : TRUE
      spots == {e \in ArrowsOf(M) : e[1] = e[2]}
      must == TLCEval({IF e[1] < e[2] THEN arrow[at(e[1], e[2])].hi ELSE arrow[at(e[1], e[2])].lo : e \in ArrowsOf(M) \ spots})
      may == TLCEval(UNION {{arrow[at(e[1], e[1])].lo, arrow[at(e[1], e[1])].hi} : e \in spots})
      explained(l) ==
        \/ \E j \in labels : \/ l = arrow[j].line
                             \/ l.x1 = l.x2 /\ l.x1 \in {arrow[j].lo, arrow[j].hi} /\ {l.y1, l.y2} = {base, arrow[j].y}
                             \/ o.mid /\ arrow[j].y \in {l.y1, l.y2} /\ Abs(l.y1 - l.y2) = o.arm
                                /\ 2 * Abs(l.x1 - d.texts[j].x) = o.arm /\ 2 * Abs(l.x2 - d.texts[j].x) = o.arm
        \/ \E x \in heads : <<x, base>> \in ends(l) /\ Abs(l.x1 - l.x2) = o.arm /\ {l.y1, l.y2} = {base, base - o.arm}
  IN \* every state once, in order, apart, with its name and marking
     /\ Cardinality(rings) = n
     /\ Len(cx) = n
     /\ \A i \in DOMAIN d.circles : d.circles[i].y = cy
     /\ \A i \in 1..(n - 1) : cx[i + 1] - cx[i] > 2 * o.r
     /\ Len(d.circles) = n + Cardinality({s \in St(M) : M.acc[s]})
     /\ {d.circles[i].x : i \in inner} = {cx[s] : s \in {s \in St(M) : M.acc[s]}}
     /\ Cardinality(named) = n
     /\ \A s \in St(M) : \E i \in named : d.texts[i].x = cx[s] /\ d.texts[i].t = M.nm[s]
     \* the entry
     /\ \A l \in entry : \E t \in tips : t \in ends(l)
     /\ \E t \in tips : /\ Cardinality({l \in entry : t \in ends(l)}) >= 3
                        /\ \E l \in entry : shaft(t, l)
     \* every arrow once, and nothing else
     /\ Cardinality(labels) = Cardinality(ArrowsOf(M))
     /\ \A j \in labels : arrow[j].good /\ d.texts[j].y + o.tm < base
     /\ \A j \in labels : has(arrow[j].lo, base, arrow[j].lo, arrow[j].y) /\ has(arrow[j].hi, base, arrow[j].hi, arrow[j].y)
     /\ \A e \in ArrowsOf(M) :
          LET same == {f \in {e, <<e[2], e[1]>>} \cap ArrowsOf(M) :
                         LabelOf(M, f[1], f[2]) = LabelOf(M, e[1], e[2])}
          \* without heads in the middle, arrows there and back that say the same cannot be told apart
          IN Cardinality(of[e]) = IF o.mid THEN 1 ELSE Cardinality(same)
     /\ \A i, j \in labels : (i # j /\ arrow[i].y = arrow[j].y) =>
                                arrow[i].hi <= arrow[j].lo \/ arrow[j].hi <= arrow[i].lo
     /\ IF o.end
        THEN /\ must \subseteq heads /\ heads \subseteq must \cup may
             /\ \A e \in spots : {arrow[at(e[1], e[1])].lo, arrow[at(e[1], e[1])].hi} \cap heads # {}
        ELSE heads = {}
     /\ \A l \in upper : explained(l)

(***************************************************************************)
(* Text drawings: rows of characters, columns counted from 0.  All rows    *)
(* but the last come in pairs: a row of arrows and the row of their        *)
(* labels.  w is the width of the widest name; nmc and alc are the names   *)
(* and symbols as sequences of characters.                                 *)
(***************************************************************************)
LX(w, i) == 5 + (7 + w) * (i - 1)
RX(w, i) == 6 + w + (7 + w) * (i - 1)
CharAt(row, x) == IF x < Len(row) THEN row[x + 1] ELSE " "
RunChar(c) == c \in {"-", "<", ">"}

\* an arrow in a row: [f, t] with the columns it spans, its head and the character of its head
Placed(w, p, q) ==
  IF p = q THEN [f |-> p, t |-> p, lo |-> LX(w, p), hi |-> RX(w, p), at |-> LX(w, p) + 1, c |-> ">"]
  ELSE IF p < q THEN [f |-> p, t |-> q, lo |-> RX(w, p), hi |-> LX(w, q), at |-> RX(w, p) + 2, c |-> ">"]
  ELSE [f |-> p, t |-> q, lo |-> RX(w, q), hi |-> LX(w, p), at |-> LX(w, p) - 1, c |-> "<"]

\* the row shows the arrow: its cells are drawn, with its head as the only head
Shown(row, a) == \A x \in a.lo..a.hi : CharAt(row, x) = IF x = a.at THEN a.c ELSE "-"
\* the arrows in a row: of those that share a head the longest
InRow(row, w, n) ==
  LET all == TLCEval({a \in {Placed(w, p, q) : p \in 1..n, q \in 1..n} : Shown(row, a)})
  IN {a \in all : \A b \in all : b.at = a.at => b.hi - b.lo <= a.hi - a.lo}

RECURSIVE CharLabel(_, _, _)
CharLabel(al, l, i) == IF i > Len(l) THEN <<>>
                       ELSE (IF i = 1 THEN <<>> ELSE <<",", " ">>) \o al[l[i]] \o CharLabel(al, l, i + 1)
\* symbols as positions, 0 epsilon
LabelIdx(M, p, q) ==
  LET RECURSIVE G(_)
      G(a) == IF a > Len(M.al) THEN (IF q \in Eps(M, p) THEN <<0>> ELSE <<>>)
              ELSE (IF q \in Suc(M, p, a) THEN <<a>> ELSE <<>>) \o G(a + 1)
  IN G(1)

BoxAt(w, name, acc) ==
  (IF acc THEN <<"(", "(", " ">> ELSE <<"(", " ", " ">>)
  \o [i \in 1..w |-> IF i <= Len(name) THEN name[i] ELSE " "]
  \o (IF acc THEN <<" ", ")", ")", " ">> ELSE <<" ", " ", ")", " ">>)
RECURSIVE Boxes(_, _, _, _)
Boxes(M, w, nmc, s) == IF s > N(M) THEN <<>> ELSE BoxAt(w, nmc[s], M.acc[s]) \o Boxes(M, w, nmc, s + 1)

SameRow(row, want, from) ==
  \A x \in from..((IF Len(row) > Len(want) THEN Len(row) ELSE Len(want)) - 1) : CharAt(row, x) = CharAt(want, x)

ShowsAsText(M, nmc, alc, rows) ==
  LET n == N(M)
      w == MaxOf({Len(nmc[s]) : s \in St(M)})
      lv == (Len(rows) - 1) \div 2
      width == RX(w, n + 1)
      al == TLCEval([a \in 0..Len(alc) |-> IF a = 0 THEN <<"ε">> ELSE alc[a]])
      arr == TLCEval([k \in 1..lv |-> InRow(rows[2 * k - 1], w, n)])
      \* the columns of the lines coming down from the rows above row pair k
      bars == TLCEval([k \in 1..(lv + 1) |-> UNION {{RX(w, IF a.f < a.t THEN a.f ELSE a.t), LX(w, IF a.f < a.t THEN a.t ELSE a.f)} :
                                                      a \in UNION {arr[i] : i \in 1..(k - 1)}}])
      lab == TLCEval([e \in ArrowsOf(M) |-> CharLabel(al, LabelIdx(M, e[1], e[2]), 1)])
      \* the arrow of pair k whose label covers column x
      cover(k, x) == {a \in arr[k] : a.f # a.t /\ x > a.lo /\ x < a.hi /\ x - a.lo <= Len(lab[<<a.f, a.t>>])}
      wide(row) == IF Len(row) > width THEN Len(row) ELSE width
  IN /\ Len(rows) = 2 * lv + 1
     /\ SameRow(rows[Len(rows)], <<"-", ">", " ">> \o Boxes(M, w, nmc, 1), 3)
     \* every arrow in exactly one row
     /\ \A k \in 1..lv : \A a \in arr[k] : <<a.f, a.t>> \in ArrowsOf(M)
     /\ \A e \in ArrowsOf(M) : Cardinality({k \in 1..lv : Placed(w, e[1], e[2]) \in arr[k]}) = 1
     /\ \A k \in 1..lv : \A a, b \in arr[k] : a = b \/ a.hi <= b.lo \/ b.hi <= a.lo
     \* the rows show nothing else
     /\ \A k \in 1..lv :
          LET top == rows[2 * k - 1]
              bot == rows[2 * k]
          IN /\ \A x \in 0..wide(top) :
                  IF \E a \in arr[k] : x \in a.lo..a.hi THEN TRUE
                  ELSE CharAt(top, x) = IF x \in bars[k] THEN "|" ELSE " "
             /\ \A x \in 0..wide(bot) :
                  LET c == cover(k, x)
                  IN CharAt(bot, x) =
                       IF c # {} THEN LET a == CHOOSE a \in c : TRUE IN lab[<<a.f, a.t>>][x - a.lo]
                       ELSE IF x \in bars[k + 1] THEN "|" ELSE " "

\* (compared with TRUE so that TLC evaluates them as values, each definition once)
DrawOk(h, o, r) == Ok(r) /\ ShowsAutomaton(objs[h], o, r) = TRUE
AsciiOk(h, nmc, alc, r) == Ok(r) /\ ShowsAsText(objs[h], nmc, alc, r.rows) = TRUE
=============================================================================
