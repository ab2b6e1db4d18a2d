----------------------------- MODULE MC_Interval -----------------------------
(* Masking by index ranges on a sorted grid: the range from the first pixel    *)
(* not below lo to the first pixel not below hi is exactly the pixels in       *)
(* [lo, hi), for every grid, overlapping and empty intervals, intervals        *)
(* outside the grid and limits exactly on pixels; with several intervals the   *)
(* masked set is their union and the order does not matter.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS M
VARIABLES grid, ivs, done, mask
vars == << grid, ivs, done, mask >>
Sorted(S) == [k \in 1..Cardinality(S) |->
                CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1]
Iv == {<< a, b >> \in (0..M) \X (0..M) : a <= b}
Init == /\ grid \in {S \in SUBSET (1..M) : S # {}}
        /\ ivs \in SUBSET Iv /\ Cardinality(ivs) <= 2
        /\ done = {} /\ mask = {}
Search(g, x) == 1 + Cardinality({k \in DOMAIN g : g[k] < x})
Apply == \E iv \in ivs \ done :
    LET g == Sorted(grid) IN
    /\ mask' = mask \cup {g[k] : k \in
                 {j \in DOMAIN g : Search(g, iv[1]) <= j
                                   /\ j < Search(g, iv[2])}}
    /\ done' = done \cup {iv} /\ UNCHANGED << grid, ivs >>
Next == Apply
Spec == Init /\ [][Next]_vars
Exact == done = ivs => mask = {x \in grid : \E iv \in ivs :
                                 iv[1] <= x /\ x < iv[2]}
OnlyListed == mask \subseteq {x \in grid : \E iv \in ivs :
                                 iv[1] <= x /\ x < iv[2]}
=============================================================================
