--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line program.                                               *)
(*                                                                         *)
(* A file given to the program is [path, comps, k, ...]: comps are the     *)
(* components of its path; k is "unreadable" or "text", the content being  *)
(* chars and ws for a table, units and blank for a regular expression, or  *)
(* lines, each [t |-> text, u |-> its grapheme clusters].                  *)
(*                                                                         *)
(* r.out is the sequence of lines printed, r.err whether something was     *)
(* written to the error stream.                                            *)
(*                                                                         *)
(* fs is what the files that results are sent to hold: path -> lines, the  *)
(* last of them what follows the last line feed.                           *)
(***************************************************************************)
EXTENDS Library

VARIABLE fs
cliInit == fs = <<>>

(***************************************************************************)
(* Files as automata.                                                      *)
(***************************************************************************)
\* k: "ok" (then m is the machine, n its number of states), "read", "parse", "validate", or "any"
\* where the formats do not say
LoadFile(kind, f) ==
  IF f.k = "unreadable" THEN [k |-> "read"]
  ELSE IF kind = "regex"
  THEN LET e == TLCEval(Parsed(f.units, f.blank))
       IN CASE e.k = "ok" -> LET m == TreeMach(e.v) IN [k |-> "ok", m |-> m, n |-> Len(m.d)]
            [] e.k = "bad" -> [k |-> "parse"]
            [] OTHER -> [k |-> "any"]
  ELSE LET t == TLCEval(Fa(kind = "dfa", f.chars, f.ws))
       IN CASE t.k = "exotic" -> [k |-> "any"]
            [] t.k = "syntax" -> [k |-> "parse"]
            [] ~Consistent(t) -> [k |-> "validate"]
            [] OTHER -> LET a == Denotes(t) IN [k |-> "ok", m |-> Mach(a), n |-> N(a), a |-> a]

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
\* the text made of lines: a word printed may itself contain line feeds
RECURSIVE AsText(_, _)
AsText(ls, i) == IF i > Len(ls) THEN "" ELSE ls[i] \o "\n" \o AsText(ls, i + 1)
SameText(x, y) == AsText(TLCEval(x), 1) = AsText(TLCEval(y), 1)
Refused(r) == Ok(r) /\ r.out = <<>> /\ r.err = TRUE

(***************************************************************************)
(* Equivalence (C18).                                                      *)
(***************************************************************************)
RECURSIVE Slashed(_, _)
Slashed(c, i) == IF i > Len(c) THEN "" ELSE IF i = Len(c) THEN c[i] ELSE c[i] \o "/" \o Slashed(c, i + 1)
JoinPath(c) == IF c # <<>> /\ c[1] = "/" THEN "/" \o Slashed(c, 2) ELSE Slashed(c, 1)
LastN(c, n) == IF n >= Len(c) THEN c ELSE SubSeq(c, Len(c) - n + 1, Len(c))
Prefix(f, plen) == IF plen = -1 THEN f.path \o ": "
                   ELSE IF plen = 0 THEN "" ELSE JoinPath(LastN(f.comps, plen)) \o ": "

\* base is loaded, x the other file loaded
Verdict(base, x, min) ==
  CASE x.k \in {"read", "parse", "validate", "any"} -> x.k
    [] ~SameLangM(base.m, x.m) -> "Not Equivalent"
    [] min /\ ~MinimalDfa(x.a) -> "Equivalent but not minimized"
    [] OTHER -> "Equivalent"

\* the positions after one verdict that starts at p
Failures == [read |-> "Failed to read (", parse |-> "Failed to parse (", validate |-> "Failed to validate ("]
After(v, pre, bool, out, p) ==
  IF p > Len(out) THEN {}
  ELSE CASE v = "any" -> {q + 1 : q \in {q \in p..Len(out) : StartsWith(out[p], pre)}}
         [] bool -> IF out[p] = pre \o (IF v = "Equivalent" THEN "true" ELSE "false") THEN {p + 1} ELSE {}
         [] v \in DOMAIN Failures ->
              IF StartsWith(out[p], pre \o Failures[v]) THEN {q + 1 : q \in {q \in p..Len(out) : EndsWith(out[q], ")")}} ELSE {}
         [] OTHER -> IF out[p] = pre \o v THEN {p + 1} ELSE {}

RECURSIVE AllVerdicts(_, _, _, _, _, _, _)
AllVerdicts(vs, fs_, plen, bool, out, i, P) ==
  IF i > Len(vs) \/ P = {} THEN P
  ELSE AllVerdicts(vs, fs_, plen, bool, out, i + 1,
                   TLCEval(UNION {After(vs[i], Prefix(fs_[i], plen), bool, out, p) : p \in P}))

CliEquiv(in, type, min, bool, plen, logs, main, files, r) ==
  LET base == TLCEval(LoadFile(in, main))
      vs == TLCEval([i \in DOMAIN files |-> Verdict(base, LoadFile(type, files[i]), min)])
      out == IF logs THEN SubSeq(r.out, 1, Len(r.out) - 1) ELSE r.out
      passed == Cardinality({i \in DOMAIN vs : vs[i] = "Equivalent"})
  IN IF base.k = "any" THEN Ok(r)
     ELSE IF base.k # "ok" \/ (min /\ type # "dfa") THEN Refused(r)
     ELSE /\ Ok(r)
          /\ Len(out) + 1 \in AllVerdicts(vs, files, plen, bool, out, 1,
                                          IF logs THEN 1..(Len(out) + 1) ELSE {1})
          /\ (logs /\ ~\E i \in DOMAIN vs : vs[i] = "any") =>
                /\ r.out # <<>>
                /\ r.out[Len(r.out)] = ToString(passed) \o "/" \o ToString(Len(files)) \o " files passed"

(***************************************************************************)
(* Binary operations (C19).                                                *)
(***************************************************************************)
OpNames == [union |-> "Union", intersection |-> "Intersection", difference |-> "Difference",
            symdiff |-> "Symmetric difference"]
OpLower == [union |-> "union", intersection |-> "intersection", difference |-> "difference",
            symdiff |-> "symmetric difference"]
KindName == [dfa |-> "DFA", nfa |-> "NFA", regex |-> "Regex"]
KindNames == [dfa |-> "DFAs", nfa |-> "NFAs", regex |-> "Regexes"]
OpOf(name) == IF name = "symmetric-difference" THEN "symdiff" ELSE name

RECURSIVE Unlines(_, _)
Unlines(ls, i) == IF i > Len(ls) THEN <<>> ELSE ls[i] \o <<"\n">> \o Unlines(ls, i + 1)

\* the lines that print the words W where n were asked for
WordLine(al, w) == IF w = <<>> THEN "(empty word)" ELSE Cat([i \in 1..Len(w) |-> al[w[i]]])
\* (W is bound in a set so that TLC evaluates it once)
WordLines(al, W, n, what) ==
  CHOOSE ls \in {[i \in 1..Len(V) |-> WordLine(al, V[i])]
               \o (IF Len(V) < n THEN <<"(only " \o ToString(Len(V)) \o " words exists in the " \o what \o ")">> ELSE <<>>)
                  : V \in {W}} : TRUE

VerdictLine(op, t1, tc, same) ==
  OpNames[op] \o " of the two provided " \o KindNames[t1] \o " is " \o (IF same THEN "EQUIVALENT" ELSE "NOT EQUIVALENT")
  \o " to the third " \o KindName[tc]

\* the table format has a way of writing these symbols
Unwritable == {" ", "\t", "\n", "\r", "#", "{", "}"}
Carried(al) == \A i \in DOMAIN al : al[i] \notin Reserved /\ \A k \in 1..Len(al[i]) : SubSeq(al[i], k, k) \notin Unwritable

CliBinop(name, t1, t2, tc, min, en, first, second, third, r) ==
  LET op == OpOf(name)
      x == TLCEval(LoadFile(t1, first))
      y == TLCEval(LoadFile(t2, second))
      z == TLCEval(IF third.k = "none" THEN [k |-> "none"] ELSE LoadFile(tc, third))
      out == r.out
      head == "First " \o ToString(en) \o " words in the language of the " \o OpLower[op] \o ":"
      at == {i \in DOMAIN out : out[i] = head}
      verdicts == IF z.k = "ok" THEN 1 ELSE 0
      rows == IF en >= 0 THEN MinOf(at) - 1 ELSE Len(out) - verdicts
      t == TLCEval(Fa(TRUE, Unlines(SubSeq(r.chars, 1, rows), 1), <<>>))
      R == TLCEval(Denotes(t))
      mr == TLCEval(Mach(R))
      words == IF en >= 0 THEN <<head>> \o WordLines(R.al, FirstWordsM(mr, N(R), en), en, OpLower[op]) ELSE <<>>
      verdict == IF z.k = "ok"
                 THEN <<VerdictLine(op, t1, tc, SameLangM(mr, z.m))>>
                 ELSE <<>>
  IN IF "any" \in {x.k, y.k, z.k} THEN Ok(r)
     ELSE IF x.k # "ok" \/ y.k # "ok" THEN Refused(r)
     ELSE IF ~SameAlphabet(x.m.al, y.m.al) THEN Refused(r)
     ELSE IF ~Carried(x.m.al)
     THEN \* the table cannot be read back, but what follows it is certain
          \* (the symbols may be in any order in the result)
          \E c \in {CombinationM(Reordered(x.m, p), y.m, OpTable[op]) : p \in Orders(Len(x.m.al))} :
            LET ws == IF en >= 0 THEN <<head>> \o WordLines(c.al, FirstWordsM(c, Len(c.d), en), en, OpLower[op]) ELSE <<>>
                v == IF z.k = "ok" THEN <<VerdictLine(op, t1, tc, SameLangM(c, z.m))>> ELSE <<>>
            IN Ok(r) /\ EndsWith("\n" \o AsText(out, 1), "\n" \o AsText(ws \o v, 1)) /\ (z.k \notin {"none", "ok"} => r.err = TRUE)
     ELSE /\ Ok(r)
          /\ en >= 0 => at # {}
          /\ t.k = "table"
          /\ Consistent(t)
          /\ CombinesM(x.m, y.m, mr, OpTable[op])
          /\ min => MinimalDfa(R)
          /\ SameText(SubSeq(out, rows + 1, Len(out)), words \o verdict)
          /\ z.k \notin {"none", "ok"} => r.err = TRUE

(***************************************************************************)
(* Words and lines (C20).                                                  *)
(***************************************************************************)
CliEnum(kind, n, f, r) ==
  LET x == TLCEval(LoadFile(kind, f))
      W == FirstWordsM(x.m, x.n, n)
  IN IF x.k = "any" THEN Ok(r)
     ELSE IF x.k # "ok" THEN Refused(r)
     ELSE Ok(r) /\ \E V \in {W} : SameText(r.out, [i \in 1..Len(V) |-> WordLine(x.m.al, V[i])])

Accepted(m, ln) == AcceptsM(m, ln.u)
\* what is printed for one file
FileReport(m, by, f) ==
  LET bad == {i \in DOMAIN f.lines : ~Accepted(m, f.lines[i])}
      n == Len(f.lines)
  IN IF by = "lines"
     THEN <<"Testing file " \o f.path \o ":">>
          \o [i \in 1..n |-> (IF i \in bad THEN "[FAIL] " ELSE "[ OK ] ") \o f.lines[i].t]
          \o <<ToString(n - Cardinality(bad)) \o "/" \o ToString(n) \o " lines passed in file " \o f.path \o ":">>
     ELSE IF bad = {} THEN <<"[ OK ] " \o f.path>>
          ELSE <<"[FAIL] " \o f.path \o " failed on " \o f.lines[MinOf(bad)].t>>
RECURSIVE Reports(_, _, _, _)
\* up to the first file that cannot be read
Reports(m, by, files, i) ==
  IF i > Len(files) \/ files[i].k = "unreadable" THEN <<>>
  ELSE FileReport(m, by, files[i]) \o Reports(m, by, files, i + 1)

CliTest(kind, by, aut, files, r) ==
  LET x == TLCEval(LoadFile(kind, aut))
  IN IF x.k = "any" THEN Ok(r)
     ELSE IF x.k # "ok" THEN Refused(r)
     ELSE /\ Ok(r)
          /\ r.out = Reports(x.m, by, files, 1)
          /\ (\E i \in DOMAIN files : files[i].k = "unreadable") => r.err = TRUE

(***************************************************************************)
(* Output files (C21).  plain is what the same command prints without      *)
(* output file and logs; exact says that it prints the same every time.    *)
(***************************************************************************)
RECURSIVE Within(_, _, _, _)
\* the lines a from i on occur in b from j on, in order
Within(a, i, b, j) ==
  IF i > Len(a) THEN TRUE
  ELSE IF j > Len(b) THEN FALSE
  ELSE IF a[i] = b[j] THEN Within(a, i + 1, b, j + 1) ELSE Within(a, i, b, j + 1)

FilesOf(s) == [p \in {s[i].path : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i].path = p].lines]
Given(files) == fs' = FilesOf(files)

CliOut(logs, target, good, plain, exact, r) ==
  LET now == TLCEval(FilesOf(r.fs))
      got == IF good /\ target \in DOMAIN now THEN now[target] ELSE <<>>
      results == IF good THEN SubSeq(got, 1, Len(got) - 1) ELSE IF logs THEN plain ELSE r.out
  IN /\ Ok(r) /\ r.extra = <<>>
     /\ good => got # <<>> /\ got[Len(got)] = ""
     /\ Len(results) = Len(plain)
     /\ exact => results = plain
     /\ IF logs THEN exact \/ good => Within(results, 1, r.out, 1) ELSE results = r.out
     /\ now = IF good THEN [p \in (DOMAIN fs) \cup {target} |-> IF p = target THEN got ELSE fs[p]] ELSE fs
     /\ fs' = now
=============================================================================
