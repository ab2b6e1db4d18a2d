----------------------------- MODULE Gen_Calib -----------------------------
(* Calibration runs: contents of the delta files, number of processes.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxFiles, MaxRanks
VARIABLE c
Init == \E n \in 1..MaxFiles :
        \E f \in [1..n -> {"kept", "excluded", "empty"}] :
        \E s \in 1..MaxRanks : \E cov \in BOOLEAN :
          c = [files |-> f, size |-> s, cov |-> cov]
Next == /\ c.size > 0 /\ PrintT("@@" \o ToJson(c))
        /\ c' = [files |-> <<>>, size |-> 0, cov |-> FALSE]
Spec == Init /\ [][Next]_c
=============================================================================
