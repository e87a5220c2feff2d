------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* The operators of Automata are what they are meant to be: each is held    *)
(* against its meaning spelled out over single runs and single words, on   *)
(* every pair of small automata.  (The trace specification judges the code *)
(* with these operators, so a slip here would be a slip of every check.)   *)
(***************************************************************************)
EXTENDS Automata, Shapes

CONSTANTS As, Bs,     \* names of shapes
          Lim         \* how many words are enumerated

\* a run of M on w from s, at most e more epsilon moves before the next symbol
RECURSIVE Run(_, _, _, _, _)
Run(M, s, w, i, e) ==
  \/ i > Len(w) /\ M.acc[s]
  \/ e > 0 /\ \E t \in Eps(M, s) : Run(M, t, w, i, e - 1)
  \/ i <= Len(w) /\ \E t \in Suc(M, s, w[i]) : Run(M, t, w, i + 1, N(M))
Takes(M, w) == Run(M, M.ini, w, 1, N(M))
\* w is a word of symbol numbers in the order of M1's alphabet
WordsUpTo(k, len) == UNION {[1..n -> 1..k] : n \in 0..len}
Span(M) == IF IsDfa(M) THEN N(M) ELSE IF N(M) = 1 THEN 2 ELSE IF N(M) = 2 THEN 4 ELSE 8

\* there is a path of at most n moves
RECURSIVE Path(_, _, _, _, _)
Path(M, s, t, n, silent) ==
  \/ s = t
  \/ n > 0 /\ \E u \in St(M) : /\ (u \in Eps(M, s) \/ (~silent /\ \E a \in Sy(M) : u \in Suc(M, s, a)))
                              /\ Path(M, u, t, n - 1, silent)

\* the states M can be in after w
RECURSIVE In(_, _, _)
In(M, S, w) ==
  LET c == {t \in St(M) : \E s \in S : Path(M, s, t, N(M), TRUE)}
  IN IF w = <<>> THEN c ELSE In(M, UNION {Suc(M, s, Head(w)) : s \in c}, Tail(w))

RECURSIVE SymbolPath(_, _, _, _)
\* s can make n symbol moves, or reach by fewer of them a state in T
SymbolPath(M, s, n, T) == s \in T \/ n = 0 \/ \E a \in Sy(M) : \E t \in Suc(M, s, a) : SymbolPath(M, t, n - 1, T)

VARIABLES A, B, at
vars == <<A, B, at>>
NoB == [k |-> "none"]
Init == A \in UNION {Shape(w) : w \in As} /\ B = NoB /\ at = 0
Go == at = 0 /\ at' = 1 /\ UNCHANGED <<A, B>>
Pick == at = 1 /\ at' = 2 /\ B' \in UNION {Shape(w) : w \in Bs} /\ UNCHANGED A
Next == Go \/ Pick
Spec == Init /\ [][Next]_vars

\* on A alone
Alone == at = 1
WordsA == TLCEval(WordsUpTo(Len(A.al), Span(A)))
OneLang == {w \in WordsA : Takes(A, w)}

WellFormed == Alone => WF(A)
Membership == Alone =>
  LET m == TLCEval(Mach(A))
  IN \A w \in WordsA :
       LET S == RunM(m, m.st, w)
       IN Takes(A, w) = AccM(m, S) /\ S = In(A, {A.ini}, w)
Foreign == Alone => ~Accepts(A, <<"nosuch">>) /\ \A w \in OneLang : ~Accepts(A, [i \in 1..Len(w) |-> A.al[w[i]]] \o <<"nosuch">>)
Closures == Alone => \A s \in St(A) : Closure(A, {s}) = {t \in St(A) : Path(A, s, t, N(A), TRUE)}
Reached == Alone => Reach(A) = {t \in St(A) : Path(A, A.ini, t, N(A), FALSE)}
Sets_ == Alone => LET m == TLCEval(Mach(A)) IN ReachSubsets(m) = {RunM(m, m.st, w) : w \in WordsA}
Empty == Alone => EmptyLangM(Mach(A)) = (OneLang = {})
Equivalents == (Alone /\ IsDfa(A)) =>
  LET lab == Nerode(A)
  IN \A s, t \in St(A) :
       (lab[s] = lab[t]) = \A w \in WordsUpTo(Len(A.al), N(A)) : Run(A, s, w, 1, 0) = Run(A, t, w, 1, 0)
DeadOnes == Alone => Dead(A) = {s \in St(A) : ~SymbolPath(A, s, N(A), {A.ini} \cup {t \in St(A) : A.acc[t]})}
\* pumping: a language with a word of n..2n-1 symbols, n states of a deterministic equivalent
Infinite == (Alone /\ ~HasEps(A)) => InfiniteM(Mach(A), N(A)) = \E w \in WordsUpTo(Len(A.al), 2 * N(A)) : Len(w) >= N(A) /\ Takes(A, w)
RECURSIVE ShortLex(_)
ShortLex(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE m \in S : \A w \in S \ {m} : ShortLexLess(m, w) IN <<m>> \o ShortLex(S \ {m})
FirstOnes == Alone =>
  LET all == TLCEval(ShortLex(OneLang))
      first == FirstWords(A, Lim)
      n == IF Len(first) < Len(all) THEN Len(first) ELSE Len(all)
  IN /\ SubSeq(first, 1, n) = SubSeq(all, 1, n)
     /\ Len(first) < Lim => Len(first) = Len(all)
     /\ Len(first) <= Lim
     /\ \A i \in 2..Len(first) : ShortLexLess(first[i - 1], first[i])
     /\ \A i \in 1..Len(first) : Takes(A, first[i])

\* on both: B's alphabet is the same or listed the other way round
Flip(M) == [M EXCEPT !.al = [i \in 1..Len(M.al) |-> M.al[Len(M.al) + 1 - i]]]
Swap(M, w) == [i \in 1..Len(w) |-> Len(M.al) + 1 - w[i]]
Both == at = 2
Has(M, w) == \E s \in In(M, {M.ini}, w) : M.acc[s]     \* as Takes, by Membership
Long == TLCEval(WordsUpTo(Len(A.al), MaxOf({Span(A), Span(B), IF IsDfa(A) /\ IsDfa(B) THEN N(A) * N(B) ELSE Span(A) + Span(B) - 1})))
Compare == Both =>
  IF Len(A.al) # Len(B.al) THEN ~SameLang(A, B) /\ ~SameLang(B, A)
  ELSE LET W == Long
       IN /\ SameLang(A, B) = \A w \in W : Has(A, w) = Has(B, w)
          /\ SameLang(A, Flip(B)) = \A w \in W : Has(A, w) = Has(B, Swap(A, w))
Fs == {<<FALSE, TRUE, TRUE, FALSE>>, <<FALSE, FALSE, TRUE, FALSE>>, <<TRUE, TRUE, TRUE, FALSE>>, <<FALSE, TRUE, FALSE, TRUE>>}
Combination == (Both /\ Len(A.al) = Len(B.al)) =>
  LET W == Long
  IN \A f \in Fs : /\ Combines(A, Flip(B), A, f) = \A w \in W : Has(A, w) = Bit(f, Has(A, w), Has(B, Swap(A, w)))
                  /\ \E c \in {CombinationM(Mach(A), Mach(Flip(B)), f)} :
                       \A p \in Orders(Len(A.al)) : CombinesM(Mach(A), Mach(Flip(B)), Reordered(c, p), f)
=============================================================================
