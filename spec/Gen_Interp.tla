------------------------------ MODULE Gen_Interp ------------------------------
(* Histories of two interpolators: created, evaluated, the table replaced     *)
(* (with or without copying), the caller's own array overwritten afterwards   *)
(* (allowed when it was copied).                                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES h, copied, made
vars == << h, copied, made >>
Ids == {1, 2}
Init == h = << >> /\ copied = [i \in Ids |-> FALSE] /\ made = {}
Op(o) == h' = Append(h, o) /\ Len(h) < MaxLen
New == \E i \in Ids \ made : \E b \in {"linear", "natural", "not-a-knot"} :
       \E c \in BOOLEAN :
         /\ Op([op |-> "new", id |-> i, kind |-> b, copy |-> c])
         /\ made' = made \cup {i} /\ copied' = [copied EXCEPT ![i] = c]
Eval == \E i \in made : Op([op |-> "eval", id |-> i, kind |-> "",
                            copy |-> FALSE])
                        /\ UNCHANGED << made, copied >>
Reset == \E i \in made : \E c \in BOOLEAN :
         Op([op |-> "reset", id |-> i, kind |-> "", copy |-> c])
         /\ copied' = [copied EXCEPT ![i] = c] /\ UNCHANGED made
Spoil == \E i \in made : copied[i]
         /\ Op([op |-> "spoil", id |-> i, kind |-> "", copy |-> FALSE])
         /\ UNCHANGED << made, copied >>
Done == Len(h) = MaxLen /\ PrintT("@@" \o ToJson(h)) /\ h' = << >>
        /\ copied' = [i \in Ids |-> FALSE] /\ made' = {}
Next == New \/ Eval \/ Reset \/ Spoil \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
