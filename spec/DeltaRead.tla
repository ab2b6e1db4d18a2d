------------------------------ MODULE DeltaRead ------------------------------
(***************************************************************************)
(* Reading and rewriting delta files.  A layout says which columns and      *)
(* header keys a sightline has: wave ("LAMBDA", "LOGLAM", "none"), delta    *)
(* ("DELTA", "DELTA_BLIND", "none"), id ("TARGETID", "MOCKID", "THING_ID",   *)
(* "none").  A sightline in memory is [tid, blind, delta, ivar].             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
WaveCols == {"LAMBDA", "LOGLAM"}
DeltaCols == {"DELTA", "DELTA_BLIND"}
IdKeys == {"TARGETID", "MOCKID", "THING_ID"}
Readable(y) == y.wave \in WaveCols /\ y.delta \in DeltaCols /\ y.id \in IdKeys
FileReadable(ys) == \A i \in DOMAIN ys : Readable(ys[i])
\* what a rewritten sightline looks like
OutLayout(y) == [wave |-> "LAMBDA", delta |-> y.delta, id |-> y.id]
=============================================================================
