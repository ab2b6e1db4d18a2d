----------------------------- MODULE MC_Region -----------------------------
(***************************************************************************)
(* Selecting the forest by two binary searches per arm, any number of       *)
(* times in a row.  Wavelengths are integers; the limits lie on, between    *)
(* and outside pixels (pixels are even numbers).  At the end of each        *)
(* selection the arm holds exactly the pixels in [lo, hi) if one of them is *)
(* good, and nothing otherwise - whatever the previous selection left.      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS N, Limits, Rounds
VARIABLES good, lim, a, b, side, res, present, first, round
vars == << good, lim, a, b, side, res, present, first, round >>
Wave(k) == 2 * k
Pix == 1..N
Init == /\ good \in SUBSET Pix /\ lim \in Limits \X Limits
        /\ a = 1 /\ b = N + 1 /\ side = 1 /\ res = << 0, 0 >>
        /\ present = FALSE /\ first = 0 /\ round = 1
\* binary search of the first pixel at or above lim[side]
Step == /\ side \in {1, 2} /\ a < b
        /\ LET m == (a + b) \div 2 IN
           IF Wave(m) < lim[side] THEN a' = m + 1 /\ b' = b
                                  ELSE a' = a /\ b' = m
        /\ UNCHANGED << good, lim, side, res, present, first, round >>
Found == /\ side \in {1, 2} /\ a = b
         /\ IF side = 1
            THEN first' = a /\ side' = 2 /\ UNCHANGED << res, present >>
            ELSE /\ first' = first /\ side' = 3
                 /\ present' = (\E k \in good : first <= k /\ k < a)
                 /\ res' = IF present' THEN << first, a >> ELSE << 0, 0 >>
         /\ a' = 1 /\ b' = N + 1 /\ UNCHANGED << good, lim, round >>
Again == /\ side = 3 /\ round < Rounds /\ lim' \in Limits \X Limits
         /\ side' = 1 /\ round' = round + 1
         /\ UNCHANGED << good, a, b, res, present, first >>
Next == Step \/ Found \/ Again
Spec == Init /\ [][Next]_vars
In == {k \in Pix : lim[1] <= Wave(k) /\ Wave(k) < lim[2]}
Exact == side = 3 =>
    /\ present <=> (In \cap good # {})
    /\ present => {k \in Pix : res[1] <= k /\ k < res[2]} = In
=============================================================================
