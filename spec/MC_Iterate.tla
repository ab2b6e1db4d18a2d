------------------------------ MODULE MC_Iterate ------------------------------
(* Iterations of a run: record, fit, update, stop at convergence or at the     *)
(* requested number.  Functions are versions: M (mean continuum), V (variance; *)
(* 99, the fiducial, where given).  At the end the final functions are recorded, with a    *)
(* fiducial V another is fitted for reference.                                 *)
(* How = "after" (recorded after the update), "zero" (numbered from zero),     *)
(* "more" (one iteration after convergence), "cap" (one too many at most),     *)
(* "replace" (the reference fit replaces the fiducial), "first" (the first is  *)
(* not recorded) are deliberately wrong.                                       *)
EXTENDS Naturals, Sequences
CONSTANTS MaxN, How
VARIABLES n, fid, it, M, V, pc, rec, used, final, ref, weights, conv
vars == << n, fid, it, M, V, pc, rec, used, final, ref, weights, conv >>
Init == /\ n \in 1..MaxN /\ fid \in BOOLEAN /\ it = 0 /\ M = 0
        /\ V = (IF fid THEN 99 ELSE 0) /\ pc = "save"
        /\ rec = << >> /\ used = << >> /\ final = << >> /\ ref = << >>
        /\ weights = 100 /\ conv = FALSE
Keep == UNCHANGED << n, fid >>
Num == IF How = "zero" THEN it ELSE it + 1
SaveIt == /\ pc = "save" /\ pc' = "fit"
          /\ rec' = (IF How = "after" \/ (How = "first" /\ it = 0) THEN rec
                     ELSE Append(rec, << Num, M, V >>))
          /\ UNCHANGED << it, M, V, used, final, ref, weights, conv >> /\ Keep
Fit == /\ pc = "fit" /\ pc' = "update" /\ used' = Append(used, << M, V >>)
       /\ UNCHANGED << it, M, V, rec, final, ref, weights, conv >> /\ Keep
Update == /\ pc = "update" /\ M' = M + 1
          /\ V' = (IF fid THEN V ELSE V + 1) /\ it' = it + 1
          /\ \E c \in BOOLEAN :
             /\ conv' = (conv \/ c)
             /\ pc' = (IF (How = "more" /\ conv)
                          \/ (How # "more" /\ c) \/ it + 1 >=
                             (IF How = "cap" THEN n + 1 ELSE n)
                       THEN "end" ELSE "save")
          /\ rec' = (IF How = "after" THEN Append(rec, << it + 1, M',
                                                         V' >>) ELSE rec)
          /\ UNCHANGED << used, final, ref, weights >> /\ Keep
End == /\ pc = "end" /\ pc' = "saved" /\ final' = << M, V >>
       /\ ref' = (IF fid THEN << M + 1, 1 >> ELSE << >>)
       /\ V' = (IF How = "replace" /\ fid THEN 1 ELSE V)
       /\ UNCHANGED << it, M, rec, used, weights, conv >> /\ Keep
Weigh == /\ pc = "saved" /\ pc' = "done" /\ weights' = V
         /\ UNCHANGED << it, M, V, rec, used, final, ref, conv >> /\ Keep
Next == SaveIt \/ Fit \/ Update \/ End \/ Weigh
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Recorded == pc = "done" =>
   /\ Len(rec) = Len(used)
   /\ \A i \in DOMAIN used : rec[i] = << i, used[i][1], used[i][2] >>
   /\ final = << used[Len(used)][1] + 1, IF fid THEN 99
                               ELSE used[Len(used)][2] + 1 >>
Stops == pc = "done" => /\ it = Len(used) /\ it <= n /\ (it < n => conv)
NoMore == [][conv => UNCHANGED used]_vars
Fiducial == fid => V = 99 /\ weights \in {99, 100}
Done == <>(pc = "done")
===============================================================================
