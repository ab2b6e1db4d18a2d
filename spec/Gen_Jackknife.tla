---------------------------- MODULE Gen_Jackknife ----------------------------
(* Call histories of one accumulator spread over P processes.                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, P
VARIABLES h, phase
vars == << h, phase >>
Init == h = << >> /\ phase = "add"
Do(r) == Len(h) < MaxLen /\ h' = Append(h, r)
Add == \E p \in 1..P : Do([op |-> "add", p |-> p]) /\ UNCHANGED phase
\* refused
Late == \E p \in 1..P : phase = "taken" /\ Do([op |-> "add", p |-> p])
                        /\ UNCHANGED phase
Reduce == P > 1 /\ phase = "add" /\ Do([op |-> "reduce"]) /\ phase' = "reduced"
Ready == phase \in {"reduced", "taken"} \/ (P = 1 /\ phase = "add")
Take == /\ Ready /\ phase' = "taken"
        /\ \/ Do([op |-> "mean"])
           \/ \E b \in BOOLEAN : Do([op |-> "var", bias |-> b])
           \/ \E b, i, bl \in BOOLEAN :
                Do([op |-> "cov", bias |-> b, some |-> i, block |-> bl])
Reset == phase = "taken" /\ Do([op |-> "reset"]) /\ phase' = "add"
Emit == Len(h) = MaxLen /\ PrintT("@@" \o ToJson(h)) /\ h' = << >>
        /\ phase' = "add"
Next == (phase = "add" /\ Add) \/ Late \/ Reduce \/ Take \/ Reset \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
