------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registry of the browser bindings, as it is built: one counter and    *)
(* one map per kind.  Every call is made with the result this registry      *)
(* gives; the interface (Wasm) must admit it, whatever came before, and     *)
(* what the interface has deduced about a handle must be true of what the   *)
(* registry holds.                                                         *)
(*                                                                         *)
(* With Emit the histories are printed, to be replayed into the library on  *)
(* other automata and expressions.                                          *)
(***************************************************************************)
EXTENDS Wasm, Plain, Shapes, Json

CONSTANTS Most,    \* handles given out
          Depth,   \* calls in a history (when emitted)
          Emit
VARIABLES dfas, nfas, regs, ctr, log
implvars == <<dfas, nfas, regs, ctr, log>>
idle == <<fs, objs, evs, its>>
allvars == <<implvars, wasmvars, idle>>

DfaFiles == {"a\n-> p q\n* q r\n* r q\n", "a\n-> * p p\n"}
NfaFiles == {"a eps\n-> p {} {q}\n* q {p q} {}\n", "a\n-> p {p}\n"}
Expressions_ == {"aa*", "(aa)*"}
BadFiles == {"a\n-> p q\n"}

\* what conversions give: some automaton with the language
Pool == UNION {Shape(x) : x \in {"d11", "d21"}}
Det(A) == CHOOSE D \in Pool : SameLangM(Mach(D), Mach(A)) /\ AllReachable(D)
Least(A) == CHOOSE D \in Pool : SameLangM(Mach(D), Mach(A)) /\ AllReachable(D) /\ NoTwoEquivalent(D)

(* the registry *)
MapOf(kind) == CASE kind = "dfa" -> dfas [] kind = "nfa" -> nfas [] OTHER -> regs
Put(m, h, A) == [g \in DOMAIN m \cup {h} |-> IF g = h THEN A ELSE m[g]]
Drop(m, h) == [g \in DOMAIN m \ {h} |-> m[g]]
OkV(x) == [k |-> "ok", v |-> x]
NoneV == [k |-> "none"]
RefV == [k |-> "refused", msg |-> 9]
Given_ == 1..(ctr - 1)
Tried == 1..ctr          \* and one that was never given out

ImplSame == UNCHANGED <<dfas, nfas, regs, ctr>>
\* every call: what it does to the registry and what it returns
ILoad(kind, f) ==
  LET x == LoadFile(kind, f)
  IN IF x.k # "ok" THEN ImplSame
     ELSE /\ ctr' = ctr + 1
          /\ dfas' = IF kind = "dfa" THEN Put(dfas, ctr, x.a) ELSE dfas
          /\ nfas' = IF kind = "nfa" THEN Put(nfas, ctr, x.a) ELSE nfas
          /\ regs' = IF kind = "regex" THEN Put(regs, ctr, x.m) ELSE regs
RLoad(kind, f) == IF LoadFile(kind, f).k = "ok" THEN OkV(ctr) ELSE RefV
Machine(h) == IF h \in DOMAIN dfas THEN Mach(dfas[h]) ELSE IF h \in DOMAIN nfas THEN Mach(nfas[h]) ELSE regs[h]
DetM(m) == CHOOSE D \in Pool : SameLangM(Mach(D), m) /\ AllReachable(D)

IToNfa(h) == IF h \in DOMAIN dfas THEN nfas' = Put(nfas, ctr, AsNfa(dfas[h])) /\ ctr' = ctr + 1 /\ UNCHANGED <<dfas, regs>> ELSE ImplSame
RToNfa(h) == IF h \in DOMAIN dfas THEN OkV(ctr) ELSE NoneV
IToDfa(h) == IF h \in DOMAIN nfas THEN dfas' = Put(dfas, ctr, Det(nfas[h])) /\ ctr' = ctr + 1 /\ UNCHANGED <<nfas, regs>> ELSE ImplSame
RToDfa(h) == IF h \in DOMAIN nfas THEN OkV(ctr) ELSE NoneV
IRegex(h) == IF h \in DOMAIN regs
             THEN /\ nfas' = Put(nfas, ctr, AsNfa(DetM(regs[h]))) /\ regs' = Drop(regs, h) /\ ctr' = ctr + 1 /\ UNCHANGED dfas
             ELSE ImplSame
RRegex(h) == IF h \in DOMAIN regs THEN OkV(ctr) ELSE NoneV
IMin(h) == IF h \in DOMAIN dfas THEN dfas' = [dfas EXCEPT ![h] = Least(@)] /\ UNCHANGED <<nfas, regs, ctr>> ELSE ImplSame
RMin(h) == OkV(h \in DOMAIN dfas)
IDel(kind, h) == /\ dfas' = IF kind = "dfa" THEN Drop(dfas, h) ELSE dfas
                 /\ nfas' = IF kind = "nfa" THEN Drop(nfas, h) ELSE nfas
                 /\ regs' = IF kind = "regex" THEN Drop(regs, h) ELSE regs
                 /\ UNCHANGED ctr
RDel(kind, h) == OkV(h \in DOMAIN MapOf(kind))
REq(kind, h, g) == IF {h, g} \subseteq DOMAIN MapOf(kind) THEN OkV(SameLangM(Machine(h), Machine(g))) ELSE NoneV
RTable(kind, h) == IF h \in DOMAIN MapOf(kind) THEN [k |-> "ok", chars |-> TableOf(MapOf(kind)[h]), ws |-> <<>>] ELSE NoneV

Kinds == {"dfa", "nfa", "regex"}
Auts == {"dfa", "nfa"}
FilesOfKind(kind) == IF Emit THEN {CASE kind = "dfa" -> FileOf("a\n-> p q\n* q r\n* r q\n") [] kind = "nfa" -> FileOf("a\n-> p {p}\n")
                                     [] OTHER -> RegexOf("aa*")}
                     ELSE CASE kind = "dfa" -> {FileOf(s) : s \in DfaFiles \cup BadFiles} [] kind = "nfa" -> {FileOf(s) : s \in NfaFiles}
                      [] OTHER -> {RegexOf(s) : s \in Expressions_}

Init == /\ WasmInit /\ cliInit /\ dfas = <<>> /\ nfas = <<>> /\ regs = <<>> /\ ctr = 1 /\ log = <<>> /\ objs = <<>> /\ evs = <<>> /\ its = <<>>
\* in a history that is emitted, the kinds that handles were given out for; a handle is used for its kind only, live or not
Births == LET q == SelectSeq(log, LAMBDA x : x.got # "") IN [i \in DOMAIN q |-> q[i].got]
For(h, kind) == Emit => /\ Len(log) < Depth /\ (h = 0 \/ (h \in DOMAIN Births /\ Births[h] = kind))
Note(op, kind, h) ==
  /\ log' = IF Emit THEN Append(log, [op |-> op, kind |-> kind, h |-> h,
                                     got |-> IF ctr' = ctr THEN "" ELSE CASE op = "load" -> kind [] op = "nfa_to_dfa" -> "dfa" [] OTHER -> "nfa"])
               ELSE log
  /\ UNCHANGED idle
Room == ctr <= Most
Move ==
  \/ Room /\ For(0, "") /\ \E kind \in Kinds : \E f \in FilesOfKind(kind) : ILoad(kind, f) /\ WLoad(kind, f, RLoad(kind, f)) /\ Note("load", kind, 0)
  \/ \E h \in Tried :
       \/ Room /\ For(h, "dfa") /\ IToNfa(h) /\ WDfaToNfa(h, RToNfa(h)) /\ Note("dfa_to_nfa", "", h)
       \/ Room /\ For(h, "nfa") /\ IToDfa(h) /\ WNfaToDfa(h, RToDfa(h)) /\ Note("nfa_to_dfa", "", h)
       \/ Room /\ For(h, "regex") /\ IRegex(h) /\ WRegexToNfa(h, RRegex(h)) /\ Note("regex_to_nfa", "", h)
       \/ For(h, "dfa") /\ IMin(h) /\ WMinimise(h, RMin(h)) /\ Note("minimize", "", h)
       \/ \E kind \in Kinds : For(h, kind) /\ IDel(kind, h) /\ WDelete(kind, h, RDel(kind, h)) /\ Note("delete", kind, h)
       \/ \E kind \in Auts : ~Emit /\ ImplSame /\ WTable(kind, h, RTable(kind, h)) /\ Note("table", kind, h)
Spec == Init /\ [][Move]_allvars

\* the interface admits what the registry answers
Admitted ==
  /\ \A kind \in Kinds : \A f \in FilesOfKind(kind) : ENABLED WLoad(kind, f, RLoad(kind, f))
  /\ \A h \in Tried :
       /\ ENABLED WDfaToNfa(h, RToNfa(h)) /\ ENABLED WNfaToDfa(h, RToDfa(h)) /\ ENABLED WRegexToNfa(h, RRegex(h))
       /\ ENABLED WMinimise(h, RMin(h))
       /\ \A kind \in Kinds : ENABLED WDelete(kind, h, RDel(kind, h))
       /\ \A kind \in Auts : ENABLED WTable(kind, h, RTable(kind, h))
       /\ \A kind \in Auts : \A g \in Tried : ENABLED WEq(kind, h, g, REq(kind, h, g))
\* and nothing that contradicts it
OnlyThat ==
  \A h \in Tried :
    /\ ~ENABLED WMinimise(h, OkV(h \notin DOMAIN dfas))
    /\ \A kind \in Kinds : ~ENABLED WDelete(kind, h, OkV(h \notin DOMAIN MapOf(kind)))
    /\ h \in Given_ => ~ENABLED WDfaToNfa(ctr - 1, OkV(h))
    /\ \A kind \in Auts : \A g \in DOMAIN MapOf(kind) :
         h \in DOMAIN MapOf(kind) =>
           ~ENABLED WEq(kind, h, g, OkV(~SameLangM(Machine(h), Machine(g))))
    \* a table of another language, or with states that could be merged after minimisation
    /\ h \in DOMAIN dfas => \A D \in Shape("d11") :
         ~SameLangM(Mach(D), Mach(dfas[h])) => ~ENABLED WTable("dfa", h, [k |-> "ok", chars |-> TableOf(D), ws |-> <<>>])
Agree == /\ DOMAIN reg = DOMAIN dfas \cup DOMAIN nfas \cup DOMAIN regs
         /\ \A h \in DOMAIN reg : h \in DOMAIN MapOf(reg[h].k)
         /\ used = Given_
Apart == DOMAIN dfas \cap DOMAIN nfas = {} /\ (DOMAIN dfas \cup DOMAIN nfas) \cap DOMAIN regs = {}
Deduced == \A h \in DOMAIN reg :
             LET o == reg[h]
             IN /\ SameLangM(MachOf(o), Machine(h))
                /\ o.k # "regex" => IF o.exact THEN SameStructure(o.a, MapOf(o.k)[h])
                                    ELSE (o.min => NoTwoEquivalent(dfas[h])) /\ (o.reach => AllReachable(MapOf(o.k)[h]))
\* a handle means the same language as long as it lives, and never comes back
Steady == [][\A h \in DOMAIN reg : h \in DOMAIN reg' => SameLangM(MachOf(reg[h]), MachOf(reg'[h]))]_allvars
Buried == [][\A h \in used \ DOMAIN reg : h \notin DOMAIN reg']_allvars
Others == [][Cardinality({h \in DOMAIN reg : h \notin DOMAIN reg' \/ reg'[h] # reg[h]}) <= 1]_allvars
Told == Emit /\ Len(log) = Depth => PrintT("HIST " \o ToJson([k |-> "registry", ops |-> log]))
=============================================================================
