-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* Results and where they go: commands are run one after the other in one   *)
(* directory, each with its output sent to no file, to a file that can be   *)
(* written, or to a place that cannot.  The file is emptied when it is      *)
(* opened; every result is printed and appended to the file.  The           *)
(* interface (CliOut) must admit every run, and must not admit one that     *)
(* lost, repeated or changed a line, left earlier content behind, wrote     *)
(* somewhere else or let the file of an earlier run change.                 *)
(*                                                                         *)
(* With Emit the histories are printed, to be run with real commands.       *)
(***************************************************************************)
EXTENDS Cli, Json
CONSTANTS Depth, Emit
VARIABLES disk,   \* path -> lines
          run,    \* the run under way, or <<>>
          log
vars == <<disk, run, log>>

Commands == IF Emit THEN {"equiv", "binop", "enum", "test"} ELSE {"none", "one", "two"}
Results(c) == CASE c = "none" -> <<>> [] c = "one" -> <<"x: true">> [] OTHER -> <<"x: true", "x: false">>
Targets == {"", "out", "x/res.txt", "no/such/dir/f"} \cup (IF Emit THEN {} ELSE {"x"})
Good(t) == t \in {"out", "x/res.txt"}
Put(d, p, v) == [q \in DOMAIN d \cup {p} |-> IF q = p THEN v ELSE d[q]]
Old == <<"old content", "old content", "">>
\* the text of lines each ended by a line feed, as lines
Ended(ls) == Append(ls, "")

Init == /\ disk \in {<<>>, [p \in {"out"} |-> Old]}
        /\ run = <<>> /\ log = <<>> /\ fs = disk /\ LibInit
Begin == /\ run = <<>> /\ Len(log) < Depth
         /\ \E c \in Commands, t \in Targets, logs \in BOOLEAN :
              /\ run' = [c |-> c, t |-> t, logs |-> logs, i |-> 0, out |-> IF logs THEN <<"Input loaded:">> ELSE <<>>]
              /\ disk' = IF ~Emit /\ Good(t) THEN Put(disk, t, Ended(<<>>)) ELSE disk
              /\ log' = Append(log, [cmd |-> c, target |-> t, logs |-> logs])
         /\ UNCHANGED fs
Emit1 == /\ run # <<>> /\ run.i < Len(Results(run.c))
         /\ LET l == Results(run.c)[run.i + 1]
            IN /\ run' = [run EXCEPT !.i = @ + 1, !.out = Append(@, l)]
               /\ disk' = IF Good(run.t) THEN Put(disk, run.t, Ended(Append(SubSeq(disk[run.t], 1, Len(disk[run.t]) - 1), l))) ELSE disk
         /\ UNCHANGED <<log, fs>>
Over == run # <<>> /\ run.i = Len(Results(run.c))
Contents(d) == LET RECURSIVE L(_)
                   L(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN <<[path |-> p, lines |-> d[p]]>> \o L(S \ {p})
               IN L(DOMAIN d)
Report(out, d) == [k |-> "ok", out |-> out, fs |-> Contents(d), extra |-> <<>>, err |-> FALSE]
End == /\ Over
       /\ CliOut(run.logs, run.t, Good(run.t), Results(run.c), TRUE, Report(run.out, disk))
       /\ run' = <<>> /\ UNCHANGED <<disk, log>>
\* emitted histories need no inner steps
Quick == /\ run # <<>> /\ run' = <<>> /\ UNCHANGED <<disk, log, fs>>
Move == (IF Emit THEN Begin \/ Quick ELSE Begin \/ Emit1 \/ End) /\ UNCHANGED libvars
Spec == Init /\ [][Move]_<<vars, fs, libvars>>

Admits(out, d, extra) == ENABLED CliOut(run.logs, run.t, Good(run.t), Results(run.c), TRUE, [Report(out, d) EXCEPT !.extra = extra])
Admitted == Over => Admits(run.out, disk, <<>>)
\* files that would be wrong
Wrong == LET t == run.t
             f == disk[t]
         IN IF Good(t)
            THEN {Put(disk, t, Old \o f), Put(disk, t, f \o Old), Put(disk, t, <<"Input loaded:">> \o f), [p \in DOMAIN disk \ {t} |-> disk[p]]}
                 \cup {Put(disk, t, SubSeq(f, 1, i - 1) \o SubSeq(f, i + 1, Len(f))) : i \in DOMAIN f}
                 \cup {Put(disk, t, SubSeq(f, 1, i) \o SubSeq(f, i, Len(f))) : i \in DOMAIN f}
                 \cup {Put(disk, t, [f EXCEPT ![i] = "z"]) : i \in DOMAIN f}
                 \cup {Put(disk, t, <<f[1] \o f[2]>> \o SubSeq(f, 3, Len(f))) : i \in {i \in {1} : Len(f) > 2}}
            ELSE {Put(disk, "new", Ended(Results(run.c)))} \cup (IF t = "" THEN {} ELSE {Put(disk, t, Ended(Results(run.c)))})
Elsewhere == LET others == {p \in DOMAIN disk : p # run.t}
             IN UNION {{Put(disk, p, Ended(Results(run.c)) \o <<"more">>), [q \in DOMAIN disk \ {p} |-> disk[q]]} : p \in others}
Rejected == Over =>
  /\ \A d \in (Wrong \cup Elsewhere) \ {disk} : ~Admits(run.out, d, <<>>)
  /\ ~Admits(run.out, disk, <<"stray">>)
  /\ ~run.logs => \A o \in {<<"z">> \o run.out, Append(run.out, "z")} : ~Admits(o, disk, <<>>)
  /\ run.out # <<>> /\ run.i > 0 => ~Admits(SubSeq(run.out, 1, Len(run.out) - 1), disk, <<>>)
\* when no run is under way the interface knows what the files hold
Learnt == run = <<>> => fs = disk
Told == Emit /\ Len(log) = Depth /\ run = <<>> =>
  PrintT("HIST " \o ToJson([k |-> "sink", before |-> disk # <<>>, runs |-> log]))
=============================================================================
