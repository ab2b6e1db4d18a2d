----------------------------- MODULE Gen_Forest -----------------------------
(* Sequences of processing steps.  Phase 1 acts on data (region, masks,       *)
(* calibration, coadding with inverse variance); phase 2 on noise and         *)
(* continuum.  Arms and positions are abstract; the driver resolves them.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES ops, phase, co, ct
vars == << ops, phase, co, ct >>
Init == ops = << [op |-> "region", r |-> 1] >> /\ phase = 1 /\ co = FALSE
        /\ ct = FALSE
Do(o) == Len(ops) < MaxOps /\ ops' = Append(ops, o)
Last == ops[Len(ops)].op
P1 == /\ phase = 1
      /\ \/ /\ \E r \in 1..3 : Do([op |-> "region", r |-> r])
            /\ ~co /\ Len(ops) < 4 /\ UNCHANGED << phase, co, ct >>
         \/ /\ \E o \in {"sky", "noisecal", "fluxcal", "dropempty",
                         "forget"} : Do([op |-> o])
            /\ Len(ops) < 4
            /\ UNCHANGED << phase, co, ct >>
         \/ ~co /\ Do([op |-> "coadd"]) /\ co' = TRUE
            /\ UNCHANGED << phase, ct >>
         \/ \E s \in {0, 1} : Do([op |-> "smooth", s |-> s]) /\ phase' = 2
            /\ UNCHANGED << co, ct >>
P2 == /\ phase = 2
      /\ \/ \E s \in {0, 1, 2} : Do([op |-> "smooth", s |-> s])
            /\ UNCHANGED << phase, co, ct >>
         \/ \E v \in {1, 2, 3} : Do([op |-> "cont", v |-> v]) /\ ct' = TRUE
            /\ UNCHANGED << phase, co >>
         \/ \E w \in 1..4 : Do([op |-> "weight", w |-> w])
            /\ UNCHANGED << phase, co, ct >>
         \/ Do([op |-> "chi2"]) /\ UNCHANGED << phase, co, ct >>
         \/ ct /\ Do([op |-> "addnoise"]) /\ UNCHANGED << phase, co, ct >>
         \/ ~co /\ Do([op |-> "coadd"]) /\ co' = TRUE
            /\ UNCHANGED << phase, ct >>
Common ==
    /\ Last \notin {"slice", "drop", "dropshort"}
    /\ \/ \E a \in 0..2 : Do([op |-> "slice", a |-> a])
       \/ \E a \in 0..2 : Do([op |-> "drop", a |-> a])
       \/ \E f \in 0..2 : Do([op |-> "dropshort", f |-> f])
    /\ UNCHANGED << phase, co, ct >>
Emit == /\ Len(ops) = MaxOps
        /\ PrintT("@@" \o ToJson(ops))
        /\ ops' = Append(ops, [op |-> "end"]) /\ UNCHANGED << phase, co, ct >>
Next == P1 \/ P2 \/ Common \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
