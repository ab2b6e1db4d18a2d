------------------------------ MODULE MC_Order ------------------------------
(* One pixel seen by two arms, on its way from the files to the delta file:    *)
(* cleaning, coadding (before), calibration, masks, saving.  A pixel is good   *)
(* (1) or bad (0) in each arm with a value that stands for its flux; a bad     *)
(* value is 9.  The order of cleaning and coadding matters (Late cleans after  *)
(* coadding, which lets bad values into the mean); calibration and masks may   *)
(* be exchanged, which is checked by running both orders.                      *)
EXTENDS Integers, FiniteSets
CONSTANT Late
VARIABLES arm, val, good, masked, scale, todo, out
vars == << arm, val, good, masked, scale, todo, out >>
\* value of the coadd: sum over good arms, with its number of good arms
Init == /\ arm \in [1..2 -> {0, 1}] /\ masked \in BOOLEAN /\ scale \in {2, 3}
        /\ val = [a \in 1..2 |-> IF arm[a] = 1 THEN 4 + a ELSE 9]
        /\ good = [a \in 1..2 |-> 1]
        /\ todo = {"clean", "coadd", "cal", "mask"}
        /\ out = << 0, 0 >>
Clean == /\ "clean" \in todo /\ (Late => "coadd" \notin todo)
         /\ good' = arm
         /\ todo' = todo \ {"clean"}
         /\ UNCHANGED << arm, val, masked, scale, out >>
Coadd == /\ "coadd" \in todo /\ (Late \/ "clean" \notin todo)
         /\ out' = << good[1] * val[1] + good[2] * val[2], good[1] + good[2] >>
         /\ todo' = todo \ {"coadd"}
         /\ UNCHANGED << arm, val, good, masked, scale >>
Cal == /\ "cal" \in todo /\ {"coadd", "clean"} \cap todo = {}
       /\ out' = << out[1] * scale, out[2] >>
       /\ todo' = todo \ {"cal"}
       /\ UNCHANGED << arm, val, good, masked, scale >>
Mask == /\ "mask" \in todo /\ {"coadd", "clean"} \cap todo = {}
        /\ out' = IF masked THEN << 0, 0 >> ELSE out
        /\ todo' = todo \ {"mask"}
        /\ UNCHANGED << arm, val, good, masked, scale >>
Next == Clean \/ Coadd \/ Cal \/ Mask
Spec == Init /\ [][Next]_vars
G == {a \in 1..2 : arm[a] = 1}
Want == IF masked THEN << 0, 0 >>
        ELSE << scale * ((IF 1 \in G THEN 5 ELSE 0) + (IF 2 \in G THEN 6 ELSE 0)),
                Cardinality(G) >>
NoLeak == todo = {} => out = Want
=============================================================================
