------------------------------ MODULE Gen_Blind ------------------------------
(* Histories of decisions and saves in one session.                           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLE h
Nights == {20201218, 20210513, 20210514, 20210731, 20210801, 20220731,
           20220801, 20240101}
Init == h = << >>
Set == \E m, s \in BOOLEAN : \E w \in {"1050", "1215.67", "1300"} :
       \E n \in Nights :
         h' = Append(h, [op |-> "set", mock |-> m, w1 |-> w, night |-> n,
                         skip |-> s])
Save == \E b, r \in BOOLEAN :
         h' = Append(h, [op |-> "save", byhpx |-> b, reso |-> r])
Emit == Len(h) = MaxLen /\ PrintT("@@" \o ToJson(h)) /\ h' = << >>
Next == (Len(h) < MaxLen /\ (Set \/ Save)) \/ Emit
Spec == Init /\ [][Next]_h
=============================================================================
