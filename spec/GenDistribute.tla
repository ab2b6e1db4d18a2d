---------------------------- MODULE GenDistribute ----------------------------
(* All group-size multisets (as non-increasing or arbitrary sequences) and    *)
(* process counts of the bounded domain, emitted for replay.                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS G, S, P
VARIABLES c
Init == \E n \in 1..G : \E s \in [1..n -> 1..S] : \E p \in 1..P :
          c = [sizes |-> s, p |-> p]
Next == /\ Len(c.sizes) > 0
        /\ PrintT("@@" \o ToJson(c))
        /\ c' = [sizes |-> <<>>, p |-> 0]
Spec == Init /\ [][Next]_c
=============================================================================
