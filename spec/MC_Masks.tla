------------------------------ MODULE MC_Masks ------------------------------
(***************************************************************************)
(* The absorber catalogue: sort by target, find the first row of each       *)
(* target, split there; then look a target up.  Over every catalogue of up  *)
(* to N rows of (target, absorber) and every set of local targets, a local  *)
(* target finds exactly the bag of its own absorbers, a target without any  *)
(* finds nothing, and restricting to local targets changes nothing for      *)
(* them.  Sort = FALSE splits without sorting (must be found wrong).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Targets, N, Sort
VARIABLES cat, local, phase, rows, heads, groups
vars == << cat, local, phase, rows, heads, groups >>
Init == /\ cat \in UNION {[1..n -> Targets] : n \in 0..N}
        /\ local \in SUBSET Targets
        /\ phase = "read" /\ rows = <<>> /\ heads = <<>> /\ groups = <<>>
\* absorber i of the catalogue is identified by its row number
KeepLocal ==
  /\ phase = "read" /\ phase' = "sort"
  /\ rows' = SelectSeq([i \in DOMAIN cat |-> << cat[i], i >>],
                       LAMBDA r : r[1] \in local)
  /\ UNCHANGED << cat, local, heads, groups >>
Less(a, b) == a[1] < b[1]
SortRows ==
  /\ phase = "sort" /\ phase' = "split"
  /\ rows' = IF Sort THEN SortSeq(rows, Less) ELSE rows
  /\ UNCHANGED << cat, local, heads, groups >>
Split ==
  /\ phase = "split" /\ phase' = "done"
  /\ LET T == SetToSortSeq({rows[i][1] : i \in DOMAIN rows},
                           LAMBDA a, b : a < b)
         First(t) == CHOOSE i \in DOMAIN rows : rows[i][1] = t
                       /\ \A j \in 1..(i - 1) : rows[j][1] # t
         H == [k \in DOMAIN T |-> First(T[k])]
         End(k) == IF k = Len(T) THEN Len(rows) ELSE H[k + 1] - 1
         Start(k) == IF k = 1 THEN 1 ELSE H[k] IN
     /\ heads' = T
     /\ groups' = [k \in DOMAIN T |->
                     IF Start(k) <= End(k)
                     THEN {rows[i][2] : i \in Start(k)..End(k)} ELSE {}]
  /\ UNCHANGED << cat, local, rows >>
Next == KeepLocal \/ SortRows \/ Split
Spec == Init /\ [][Next]_vars
Own(t) == {i \in DOMAIN cat : cat[i] = t}
Found(t) == LET K == {k \in DOMAIN heads : heads[k] = t} IN
            IF K = {} THEN {} ELSE groups[CHOOSE k \in K : TRUE]
OwnAbsorbers == phase = "done" => \A t \in local : Found(t) = Own(t)
=============================================================================
