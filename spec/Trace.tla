------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks traces recorded from the real code against the specification.    *)
(*                                                                         *)
(* A trace is a record [id, ev]; ev is the sequence of calls made, each    *)
(* with its arguments and what it returned (field r).  Every trace is one  *)
(* chain of states: initially any trace is chosen, and each step consumes  *)
(* one event by the action of the specification of that name.  A chain     *)
(* that cannot consume its next event deadlocks: the code did what the     *)
(* specification does not allow.                                           *)
(***************************************************************************)
EXTENDS Draw, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l
vars == <<tid, l, libvars, fs, wasmvars>>

Init == tid \in 1..Len(Traces) /\ l = 1 /\ LibInit /\ cliInit /\ WasmInit

E == Traces[tid].ev[l]
Is(op) == l <= Len(Traces[tid].ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED tid
Keep == "keep" \in DOMAIN E

TLoad == Is("load") /\ Load(E.v)
TEval == Is("eval") /\ Evaluate(E.h, E.r)
TStep == Is("step") /\ Feed(E.e, E.w, E.r)
TStepMultiple == Is("step_multiple") /\ Feed(E.e, E.w, E.r)
TStepAll == Is("step_all") /\ FeedAll(E.e, E.r)
TQuery == Is("query") /\ Query(E.e, E.r)
TAccepts == Is("accepts") /\ AcceptsWord(E.h, E.w, E.r)
TAcceptsGraphemes == Is("accepts_graphemes") /\ AcceptsWord(E.h, E.w, E.r)
TGraphemesOnly == Is("graphemes_only") /\ GraphemesOnly(E.h, E.gc, E.r)
TClosure == Is("closure") /\ ClosureOf(E.h, E.s, E.r)
THasEps == Is("has_eps") /\ HasEpsilon(E.h, E.r)
TToDfa == Is("to_dfa") /\ ToDfa(E.h, Keep, E.r)
TToNfa == Is("to_nfa") /\ ToNfa(E.h, TRUE, E.r)
TBack == Is("back_to_dfa") /\ RoundTrip(E.h, E.r)
TMinimise == Is("minimize") /\ Minimise(E.h, Keep, E.r)
TMerge == Is("merge") /\ Merge(E.h, Keep, E.r)
TClasses == Is("classes") /\ Classes(E.h, E.r)
TDfaOp == Is("dfa_op") /\ DfaOp(E.h, E.h2, OpTable[E.name], Keep, E.r)
TDfaProduct == Is("dfa_product") /\ DfaOp(E.h, E.h2, E.f, Keep, E.r)
TInvert == Is("invert") /\ Invert(E.h, Keep, E.r)
TSame == Is("same") /\ Unchanged(E.h, E.r)
TNfaUnion == Is("nfa_union") /\ NfaUnion(E.h, E.h2, Keep, E.r)
TNfaIntersection == Is("nfa_intersection") /\ NfaOp(E.h, E.h2, OpTable.intersection, Keep, E.r)
TNfaProduct == Is("nfa_product")
               /\ NfaOp(E.h, E.h2, IF E.conj THEN OpTable.intersection ELSE OpTable.union, Keep, E.r)
TEquiv == Is("equiv") /\ Equiv(E.h, E.h2, E.r)
TRmEps == Is("rm_eps") /\ RemoveEps(E.h, Keep, E.r)
TOptimise == Is("optimize") /\ Optimise(E.h, Keep, E.r)
TReach == Is("reach") /\ Reachability(E.h, E.r)
TRmUnreach == Is("rm_unreach") /\ RemoveUnreachable(E.h, Keep, E.r)
TWords == Is("words") /\ Words(E.h, E.view, E.lim, E.r)
TNext == Is("next") /\ Next(E.it, E.len, E.r)
TParse == Is("parse") /\ Parse(E.kind = "dfa", E.chars, E.ws, E.r)
TParseAs == Is("parse_as") /\ ParseAs(E.want, E.chars, E.ws, E.r)
TPrint == Is("print") /\ PrintTable(E.h, E.r)
TReparse == Is("reparse") /\ Reparse(E.h, E.r)
TLib == Is("lib") /\ AnyOperation(E.hs, E.inplace, E.consumes, E.r)
TRegex == Is("regex") /\ ReadRegex(E.units, E.blank, E.r)
TRegexPrint == Is("regex_print") /\ PrintRegex(E.tree, E.r.units, E.r.blank, E.r)
TRegexReread == Is("regex_reread") /\ RereadRegex(E.h, E.tree, E.r)

TDraw == Is("draw") /\ DrawOk(E.h, E.o, E.r) /\ Pure
TAscii == Is("ascii") /\ AsciiOk(E.h, E.nmc, E.alc, E.r) /\ Pure

\* the command line
TFs == Is("fs") /\ Given(E.files)
TCliEquiv == Is("cli_equiv") /\ CliEquiv(E.in, E.type, E.min, E.bool, E.plen, E.logs, E.main, E.files, E.r) /\ UNCHANGED fs
TCliBinop == Is("cli_binop")
             /\ CliBinop(E.name, E.t1, E.t2, E.tc, E.min, E.enum, E.first, E.second, E.third, E.r) /\ UNCHANGED fs
TCliEnum == Is("cli_enum") /\ CliEnum(E.kind, E.n, E.file, E.r) /\ UNCHANGED fs
TCliTest == Is("cli_test") /\ CliTest(E.kind, E.by, E.automaton, E.files, E.r) /\ UNCHANGED fs
TCliOut == Is("cli_out") /\ CliOut(E.logs, E.target, E.good, E.plain, E.exact, E.r)

\* the browser bindings
TWasm ==
  \/ Is("w_load") /\ WLoad(E.kind, E.file, E.r)
  \/ Is("w_regex_to_nfa") /\ WRegexToNfa(E.h, E.r)
  \/ Is("w_dfa_to_nfa") /\ WDfaToNfa(E.h, E.r)
  \/ Is("w_nfa_to_dfa") /\ WNfaToDfa(E.h, E.r)
  \/ Is("w_minimize") /\ WMinimise(E.h, E.r)
  \/ Is("w_eq") /\ WEq(E.kind, E.h, E.g, E.r)
  \/ Is("w_table") /\ WTable(E.kind, E.h, E.r)
  \/ Is("w_delete") /\ WDelete(E.kind, E.h, E.r)
  \/ Is("w_draw") /\ WDraw(E.kind, E.h, E.r)

Done == l > Len(Traces[tid].ev) /\ UNCHANGED vars

LibraryNext ==
  \/ TLoad \/ TEval \/ TStep \/ TStepMultiple \/ TStepAll \/ TQuery \/ TAccepts
  \/ TAcceptsGraphemes \/ TGraphemesOnly \/ TClosure \/ THasEps
  \/ TToDfa \/ TToNfa \/ TBack \/ TMinimise \/ TMerge \/ TClasses
  \/ TDfaOp \/ TDfaProduct \/ TInvert \/ TSame
  \/ TNfaUnion \/ TNfaIntersection \/ TNfaProduct \/ TEquiv
  \/ TRmEps \/ TOptimise \/ TReach \/ TRmUnreach \/ TWords \/ TNext
  \/ TParse \/ TParseAs \/ TPrint \/ TReparse \/ TLib
  \/ TRegex \/ TRegexPrint \/ TRegexReread
  \/ TDraw \/ TAscii

CliNext == TFs \/ TCliEquiv \/ TCliBinop \/ TCliEnum \/ TCliTest \/ TCliOut

TraceNext ==
  \/ LibraryNext /\ UNCHANGED <<fs, wasmvars>>
  \/ CliNext /\ UNCHANGED <<libvars, wasmvars>>
  \/ TWasm /\ UNCHANGED <<libvars, fs>>
  \/ Done

Spec == Init /\ [][TraceNext]_vars
=============================================================================
