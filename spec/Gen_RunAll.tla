----------------------------- MODULE Gen_RunAll -----------------------------
(* Full runs: what each group of quasars (one per process or more) consists   *)
(* of, the options and the number of processes.                               *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, step
Fates == {"good", "good", "invalid", "masked", "short", "absent", "mixed",
          "onearm"}
Init == c = << >> /\ step = 0
Pick1 == /\ step = 0
         /\ \E s \in 1..3 : \E g \in [1..3 -> Fates] :
              c' = [size |-> s, groups |-> g]
         /\ step' = 1
Pick2 == /\ step = 1
         /\ \E kind \in {"data", "data", "mock", "tile"} :
            \E coadd \in {"before", "after", "disable"} :
            \E expo \in {"disable", "before", "after"} :
            \E model \in {"picca", "picca", "input", "true"} :
            \E fid \in BOOLEAN : \E eta \in BOOLEAN : \E hpx \in BOOLEAN :
              /\ model = "true" => kind = "mock" /\ fid
              /\ expo # "disable" => kind = "data"
              /\ hpx => kind # "tile"
              /\ c' = c @@ [kind |-> kind, coadd |-> coadd, expo |-> expo,
                            model |-> model, fid |-> fid, eta |-> eta,
                            hpx |-> hpx]
         /\ step' = 2
Pick3 == /\ step = 2
         /\ \E dla \in BOOLEAN : \E cal \in {"none", "eta", "add", "flux"} :
            \E cov \in BOOLEAN : \E out \in {TRUE, TRUE, FALSE} :
            \E norm \in BOOLEAN : \E reso \in BOOLEAN :
              c' = c @@ [dla |-> dla, cal |-> cal, cov |-> cov, out |-> out,
                         norm |-> norm, reso |-> reso]
         /\ step' = 3
EmitCase == /\ step = 3 /\ PrintT("@@" \o ToJson(c)) /\ step' = 4
            /\ UNCHANGED c
Next == Pick1 \/ Pick2 \/ Pick3 \/ EmitCase
Spec == Init /\ [][Next]_<<c, step>>
=============================================================================
