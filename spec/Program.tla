------------------------------ MODULE Program ------------------------------
(***************************************************************************)
(* The command line program at work: an invocation is picked, the main      *)
(* file is loaded, one file after the other is dealt with, and results are  *)
(* printed as they come.  Files are of classes whose languages are known    *)
(* by construction:                                                        *)
(*   same, big   a+ (big: not minimal)      far    a*      alpha  over b    *)
(*   gone, broken, rules    cannot be read, parsed, validated               *)
(* What has been printed in the end must be what the interface (Cli)        *)
(* admits; with a verdict, a word or a line changed, left out or repeated,  *)
(* it must not be.                                                         *)
(*                                                                         *)
(* With Emit the invocations are printed, to be made with other files.      *)
(***************************************************************************)
EXTENDS Cli, Plain, Json

CONSTANTS Command, Emit
VARIABLES inv, pc, out, err
vars == <<inv, pc, out, err>>

Kinds == {"dfa", "nfa", "regex"}
TextOf(kind, class) ==
  CASE kind = "dfa" ->
         (CASE class = "same" -> "a\n-> p q\n* q q\n"       [] class = "big" -> "a\n-> p q\n* q r\n* r q\n"
            [] class = "far" -> "a\n-> * p p\n"             [] class = "alpha" -> "b\n-> p p\n"
            [] class = "void" -> "a\n-> p p\n"              [] class = "unit" -> "a\n-> * p q\nq q\n"
            [] class = "broken" -> "a\n-> {p} p\n"          [] class = "rules" -> "a\n-> p q\n")
    [] kind = "nfa" ->
         (CASE class = "same" -> "a eps\n-> p {} {q}\nq {r} {}\n* r {r} {}\n"  [] class = "big" -> "a\n-> p {p q}\n* q {}\n"
            [] class = "far" -> "a\n-> * p {p}\n"           [] class = "alpha" -> "b\n-> p {}\n"
            [] class = "void" -> "a\n-> p {}\n"             [] class = "unit" -> "a eps\n-> p {} {q}\n* q {} {}\n"
            [] class = "broken" -> "a\n-> p p\n"            [] class = "rules" -> "a\n-> p {q}\n")
    [] OTHER ->
         (CASE class = "same" -> "aa*" [] class = "big" -> "a*a" [] class = "far" -> "a*" [] class = "alpha" -> "b"
            [] class = "void" -> "a\\" [] class = "unit" -> "a*" [] OTHER -> "(")
FileAt(kind, class, path, comps) ==
  IF class = "gone" THEN [path |-> path, comps |-> comps, k |-> "unreadable"]
  ELSE LET t == TextOf(kind, class)
       IN IF kind = "regex" THEN [path |-> path, comps |-> comps, k |-> "text", blank |-> <<>>, units |-> [i \in 1..Len(t) |-> <<SubSeq(t, i, i)>>]]
          ELSE [path |-> path, comps |-> comps, k |-> "text", chars |-> Chars(t), ws |-> <<>>]
Paths == <<"x/f", "/t/u/g">>
Comps == <<<<"x", "f">>, <<"/", "t", "u", "g">>>>
Named(i, plen) == CASE plen = -1 -> Paths[i] [] plen = 0 -> "" [] plen = 1 -> <<"f", "g">>[i] [] plen = 2 -> <<"x/f", "u/g">>[i]
                    [] OTHER -> Paths[i]
Loads(class) == class \notin {"gone", "broken", "rules"}
Print_(lines) == out' = out \o lines
Refuse == err' = TRUE /\ out' = out /\ pc' = -1

(* equivalence: every file in turn *)
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Most == {"same", "big", "far", "gone", "broken", "rules"}
ForRegex(t, S) == IF t = "regex" THEN S \ {"rules"} ELSE S
EquivInvs ==
  {[k |-> "equiv", in |-> p[1], type |-> p[2], min |-> p[3], bool |-> p[4], plen |-> p[5], logs |-> p[6], main |-> p[7], files |-> p[8]] :
     p \in {q \in Kinds \X Kinds \X BOOLEAN \X BOOLEAN \X (IF Emit THEN {-1, 0, 2} ELSE {-1, 0, 1, 2, 9}) \X BOOLEAN
              \X {"same", "gone", "broken", "rules"}
              \X (IF Emit THEN Seqs({"same", "gone", "broken", "rules"}, 1) \cup {<<"same", "broken">>, <<"gone", "same">>} ELSE Seqs(Most, 2)) :
            /\ q[1] = "regex" => q[7] # "rules"
            /\ q[2] = "regex" => \A i \in DOMAIN q[8] : q[8][i] # "rules"
            /\ q[7] # "same" => Len(q[8]) = 1 /\ q[8][1] = "same"
            /\ (Len(q[8]) = 2 /\ ~Emit) => q[1] = "dfa" /\ (q[6] => q[5] = -1)}}
EquivVerdict(class, min) ==
  CASE class = "gone" -> "Failed to read (x\n(y)\n)" [] class = "broken" -> "Failed to parse (at 3)" [] class = "rules" -> "Failed to validate (no state q)"
    [] class = "far" -> "Not Equivalent" [] class = "big" /\ min -> "Equivalent but not minimized" [] OTHER -> "Equivalent"
Passes(class, min) == class = "same" \/ (class = "big" /\ ~min)
\* a line feed within what is printed makes two lines
Broken(s) == IF s = "Failed to read (x\n(y)\n)" THEN <<"Failed to read (x", "(y)", ")">> ELSE <<s>>
Prefixed(p, ls) == <<p \o ls[1]>> \o Tail(ls)
EquivLines(i, class) ==
  LET name == Named(i, inv.plen)
      what == IF inv.bool THEN <<IF Passes(class, inv.min) THEN "true" ELSE "false">> ELSE Broken(EquivVerdict(class, inv.min))
  IN Prefixed(IF name = "" THEN "" ELSE name \o ": ", what)
EquivStart == IF ~Loads(inv.main) \/ (inv.min /\ inv.type # "dfa") THEN Refuse
              ELSE pc' = 1 /\ err' = err /\ Print_(IF inv.logs THEN <<"Input loaded:", "a", "-> p q">> ELSE <<>>)
EquivStep == /\ err' = err
             /\ IF pc <= Len(inv.files) THEN Print_(EquivLines(pc, inv.files[pc])) /\ pc' = pc + 1
                ELSE /\ pc' = -1
                     /\ Print_(IF inv.logs THEN <<ToString(Cardinality({i \in DOMAIN inv.files : Passes(inv.files[i], inv.min)})) \o "/"
                                                   \o ToString(Len(inv.files)) \o " files passed">> ELSE <<>>)
EquivAdmits(o, e) ==
  CliEquiv(inv.in, inv.type, inv.min, inv.bool, inv.plen, inv.logs, FileAt(inv.in, inv.main, "m", <<"m">>),
           [i \in DOMAIN inv.files |-> FileAt(inv.type, inv.files[i], Paths[i], Comps[i])], [k |-> "ok", out |-> o, err |-> e])

(* binary operations: load, load, combine, list words, compare *)
BinInvs ==
  {[k |-> "binop", name |-> p[1], t1 |-> p[2], t2 |-> p[3], tc |-> p[4], min |-> p[5], en |-> p[6], first |-> p[7], second |-> p[8], third |-> p[9]] :
     p \in {q \in {"union", "intersection", "difference", "symmetric-difference"} \X Kinds \X Kinds \X Kinds \X BOOLEAN \X {-1, 0, 3}
                 \X {"same", "gone", "broken", "rules"} \X {"same", "far", "alpha", "gone", "broken", "rules"}
                 \X {"none", "same", "far", "gone", "broken"} :
            /\ q[2] = "regex" => q[7] # "rules"
            /\ q[3] = "regex" => q[8] # "rules"
            /\ q[9] = "none" => q[4] = "dfa"
            /\ Emit => q[8] # "far" /\ (q[9] \in {"gone", "broken"} => q[4] = "dfa")
            /\ q[7] # "same" => q[8] \in {"same", "gone"}
            /\ (q[7] # "same" \/ q[8] \notin {"same", "far"}) => q[1] = "union" /\ q[6] = -1 /\ q[4] = "dfa" /\ q[9] = "none"}}
\* what language comes out
Lang == LET l == <<inv.name, inv.second>>
        IN CASE inv.second = "far" ->
                  (CASE inv.name = "union" -> "far" [] inv.name = "intersection" -> "same" [] inv.name = "difference" -> "void" [] OTHER -> "unit")
             [] OTHER -> IF inv.name \in {"union", "intersection"} THEN "same" ELSE "void"
\* printed small, or with a state that is not reachable
PlainRows(l) == CASE l = "same" -> <<"a", "-> p q", "* q q">> [] l = "far" -> <<"a", "->* p p">>
                  [] l = "void" -> <<"a", "-> p p">> [] OTHER -> <<"a", "-> * p q", "q q">>
Rows == PlainRows(Lang) \o (IF inv.min THEN <<>> ELSE <<"z z">>)
RowsFixed == IF Lang = "far" THEN <<"a", "-> * p p">> \o (IF inv.min THEN <<>> ELSE <<"z z">>) ELSE Rows
LowerName == CASE inv.name = "union" -> "union" [] inv.name = "intersection" -> "intersection"
               [] inv.name = "difference" -> "difference" [] OTHER -> "symmetric difference"
UpperName == CASE inv.name = "union" -> "Union" [] inv.name = "intersection" -> "Intersection"
               [] inv.name = "difference" -> "Difference" [] OTHER -> "Symmetric difference"
Some(l, n) == SubSeq(CASE l = "same" -> <<"a", "aa", "aaa", "aaaa">> [] l = "far" -> <<"(empty word)", "a", "aa", "aaa">>
                       [] l = "void" -> <<>> [] OTHER -> <<"(empty word)">>, 1, n)
Listed(l, n) == LET w == CASE l = "void" -> <<>> [] l = "unit" -> (IF n = 0 THEN <<>> ELSE <<"(empty word)">>) [] OTHER -> Some(l, n)
                IN w
BinWords == LET w == Listed(Lang, inv.en)
            IN <<"First " \o ToString(inv.en) \o " words in the language of the " \o LowerName \o ":">> \o w
               \o (IF Len(w) < inv.en THEN <<"(only " \o ToString(Len(w)) \o " words exists in the " \o LowerName \o ")">> ELSE <<>>)
Kinded(t) == CASE t = "dfa" -> "DFA" [] t = "nfa" -> "NFA" [] OTHER -> "Regex"
Plural(t) == CASE t = "dfa" -> "DFAs" [] t = "nfa" -> "NFAs" [] OTHER -> "Regexes"
BinStart == IF ~Loads(inv.first) \/ ~Loads(inv.second) \/ inv.second = "alpha" THEN Refuse
            ELSE pc' = 1 /\ err' = err /\ Print_(RowsFixed)
BinStep ==
  CASE pc = 1 -> pc' = 2 /\ err' = err /\ Print_(IF inv.en >= 0 THEN BinWords ELSE <<>>)
    [] OTHER -> /\ pc' = -1
                /\ err' = (inv.third \in {"gone", "broken"})
                /\ Print_(IF inv.third \in {"same", "far"}
                          THEN <<UpperName \o " of the two provided " \o Plural(inv.t1) \o " is " \o (IF inv.third = Lang THEN "EQUIVALENT" ELSE "NOT EQUIVALENT")
                                 \o " to the third " \o Kinded(inv.tc)>>
                          ELSE <<>>)
BinAdmits(o, e) ==
  CliBinop(inv.name, inv.t1, inv.t2, inv.tc, inv.min, inv.en, FileAt(inv.t1, inv.first, "m", <<"m">>), FileAt(inv.t2, inv.second, "n", <<"n">>),
           IF inv.third = "none" THEN [k |-> "none"] ELSE FileAt(inv.tc, inv.third, "o", <<"o">>),
           [k |-> "ok", out |-> o, err |-> e, chars |-> [i \in DOMAIN o |-> Chars(o[i])]])

(* enumeration *)
EnumInvs == {[k |-> "enum", kind |-> p[1], n |-> p[2], class |-> p[3]] :
               p \in {q \in Kinds \X {0, 1, 4} \X {"same", "far", "void", "unit", "gone", "broken", "rules"} :
                        (q[1] = "regex" => q[3] \notin {"void", "unit", "rules"}) /\ (Emit => q[3] \in {"same", "gone", "broken", "rules"})}}
EnumStart == IF ~Loads(inv.class) THEN Refuse ELSE pc' = -1 /\ err' = err /\ Print_(Listed(inv.class, inv.n))
EnumAdmits(o, e) == CliEnum(inv.kind, inv.n, FileAt(inv.kind, inv.class, "m", <<"m">>), [k |-> "ok", out |-> o, err |-> e])

(* testing of lines or files *)
LineSets == [good |-> <<"a", "aaa">>, bad |-> <<"a", "", "ab">>, lone |-> <<"b">>, blank |-> <<>>]
TestClasses == {"good", "bad", "lone", "blank", "gone"}
TestInvs == {[k |-> "test", kind |-> p[1], by |-> p[2], main |-> p[3], files |-> p[4]] :
               p \in {q \in Kinds \X {"lines", "files"} \X {"same", "gone", "broken", "rules"} \X Seqs(TestClasses, 2) :
                        (q[1] = "regex" => q[3] # "rules") /\ (q[3] # "same" => q[4] = <<"good">>)}}
Units(s) == Chars(s)
LinesFile(class, i) == [path |-> Paths[i], comps |-> Comps[i]] @@
  (IF class = "gone" THEN [k |-> "unreadable"]
   ELSE [k |-> "text", lines |-> [j \in DOMAIN LineSets[class] |-> [t |-> LineSets[class][j], u |-> Units(LineSets[class][j])]]])
Fine(s) == s \in {"a", "aaa"}
TestStart == IF ~Loads(inv.main) THEN Refuse ELSE pc' = 1 /\ err' = err /\ out' = out
TestStep ==
  IF pc > Len(inv.files) THEN pc' = -1 /\ UNCHANGED <<out, err>>
  ELSE LET c == inv.files[pc]
       IN IF c = "gone" THEN pc' = -1 /\ err' = TRUE /\ out' = out
          ELSE /\ pc' = pc + 1 /\ err' = err
               /\ LET ls == LineSets[c]
                      bad == SelectSeq(ls, LAMBDA s : ~Fine(s))
                  IN Print_(IF inv.by = "lines"
                            THEN <<"Testing file " \o Paths[pc] \o ":">> \o [j \in DOMAIN ls |-> (IF Fine(ls[j]) THEN "[ OK ] " ELSE "[FAIL] ") \o ls[j]]
                                 \o <<ToString(Len(ls) - Len(bad)) \o "/" \o ToString(Len(ls)) \o " lines passed in file " \o Paths[pc] \o ":">>
                            ELSE IF bad = <<>> THEN <<"[ OK ] " \o Paths[pc]>> ELSE <<"[FAIL] " \o Paths[pc] \o " failed on " \o bad[1]>>)
TestAdmits(o, e) == CliTest(inv.kind, inv.by, FileAt(inv.kind, inv.main, "m", <<"m">>), [i \in DOMAIN inv.files |-> LinesFile(inv.files[i], i)],
                            [k |-> "ok", out |-> o, err |-> e])

Invs == CASE Command = "equiv" -> EquivInvs [] Command = "binop" -> BinInvs [] Command = "enum" -> EnumInvs [] OTHER -> TestInvs
Init == /\ inv \in Invs
        /\ pc = 0 /\ out = <<>> /\ err = FALSE /\ LibInit /\ cliInit
Start == CASE Command = "equiv" -> EquivStart [] Command = "binop" -> BinStart [] Command = "enum" -> EnumStart [] OTHER -> TestStart
Work == CASE Command = "equiv" -> EquivStep [] Command = "binop" -> BinStep [] OTHER -> TestStep
Run == /\ ~Emit /\ pc >= 0
       /\ IF pc = 0 THEN Start ELSE Work
       /\ UNCHANGED <<inv, fs, libvars>>
Spec == Init /\ [][Run]_<<vars, fs, libvars>>

Admits(o, e) == CASE Command = "equiv" -> EquivAdmits(o, e) [] Command = "binop" -> BinAdmits(o, e) [] Command = "enum" -> EnumAdmits(o, e)
                  [] OTHER -> TestAdmits(o, e)
Done == pc = -1
Admitted == Done => Admits(out, err)

\* what must not be printed instead
Drop(o, i) == SubSeq(o, 1, i - 1) \o SubSeq(o, i + 1, Len(o))
Twice(o, i) == SubSeq(o, 1, i) \o SubSeq(o, i, Len(o))
Other == {"Equivalent", "Not Equivalent", "Equivalent but not minimized", "true", "false", "EQUIVALENT", "a", "aa", "aaaaa", "(empty word)", "[ OK ] a"}
Refusal == out = <<>> /\ err
\* lines that say what is printed, and not only in which file it failed
Telling == {i \in DOMAIN out : ~(Command = "equiv" /\ (inv.logs \/ \E p \in {"", "f: ", "g: ", "x/f: ", "u/g: ", "/t/u/g: "}, w \in {"Failed to read (x", "Failed to parse (at 3)", "Failed to validate (no state q)"} : out[i] = p \o w))
                                 /\ ~(Command = "equiv" /\ out[i] \in {"(y)", ")"})
                                 /\ ~(Command = "binop" /\ i <= Len(RowsFixed))}
Rejected ==
  Done =>
    /\ \A i \in Telling : /\ ~Admits(Drop(out, i), err)
                          /\ ~Admits(Twice(out, i), err)
                          /\ ~Admits([out EXCEPT ![i] = @ \o "x"], err)
                          /\ \A s \in Other : s # out[i] => ~Admits([out EXCEPT ![i] = s], err)
    \* a verdict of success on a file that failed
    /\ Command = "equiv" /\ ~Refusal /\ ~inv.logs => \A i \in DOMAIN inv.files : Len(out) = Len(inv.files) =>
         \A w \in {"Equivalent", "true", "Not Equivalent", "Equivalent but not minimized", "false"} :
            LET l == (IF Named(i, inv.plen) = "" THEN "" ELSE Named(i, inv.plen) \o ": ") \o w
            IN l # out[i] => ~Admits([out EXCEPT ![i] = l], err)
    \* the count of those passed
    /\ Command = "equiv" /\ ~Refusal /\ inv.logs => ~Admits([out EXCEPT ![Len(out)] = "9/9 files passed"], err)
    /\ Refusal => ~Admits(<<"a">>, err) /\ ((Command # "test" \/ ~Loads(inv.main)) => ~Admits(<<>>, FALSE))
    \* another language's table
    /\ Command = "binop" /\ ~Refusal =>
         \A l \in {"same", "far", "void", "unit"} \ {Lang} :
           ~Admits(PlainRows(l) \o SubSeq(out, Len(RowsFixed) + 1, Len(out)), err)
Told == Emit => PrintT("HIST " \o ToJson(inv))
=============================================================================
