------------------------------ MODULE Gen_Args ------------------------------
(* Every combination of options (Skips: the values of --skip).                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Limits, Skips, Exps
VARIABLE c
Init == c \in [model : {"unset", "picca", "true", "input"}, true : BOOLEAN,
    dir : BOOLEAN, mock : BOOLEAN, tile : BOOLEAN, hpx : BOOLEAN,
    exp : Exps, mf : BOOLEAN, vl : BOOLEAN,
    wave : Limits, forest : Limits, skip : Skips, done : {FALSE}]
Next == /\ ~c.done /\ PrintT("@@" \o ToJson(c)) /\ c' = [c EXCEPT !.done = TRUE]
Spec == Init /\ [][Next]_c
=============================================================================
