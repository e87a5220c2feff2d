-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Inputs for the conformance runs: every automaton of the given shapes,   *)
(* enumerated by TLC and written as JSON, one per line.                    *)
(* The environment names the shapes wanted: GEN_d21 and so on; OUT is the  *)
(* prefix of the files written.                                            *)
(***************************************************************************)
EXTENDS Shapes, Json, IOUtils, SequencesExt

Wanted == {"d11", "d12", "d21", "d22", "d31", "d32", "n11", "n21", "n22", "n22e", "n31", "n31e", "e3"}

ASSUME \A w \in Wanted :
         ("GEN_" \o w) \in DOMAIN IOEnv =>
           ndJsonSerialize(IOEnv.OUT \o w \o ".ndjson", SetToSeq(Shape(w)))

VARIABLE x
Init == x = 0
Nextx == UNCHANGED x
Spec == Init /\ [][Nextx]_x
=============================================================================
