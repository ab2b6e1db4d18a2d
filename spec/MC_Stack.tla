------------------------------ MODULE MC_Stack ------------------------------
(* Iterations of a fit on several processes: each iteration every spectrum is  *)
(* fitted again (its continuum may become invalid or change), the valid ones   *)
(* are stacked, the processes add up, and at the end the continua are scaled   *)
(* by the stack.  Checked: the stack is the weighted mean over the valid       *)
(* spectra of this iteration on all processes, all processes hold the same     *)
(* stack, and after the scaling the stack is one wherever it is not empty.     *)
(* How = "noreset", "invalid" (invalid spectra stacked), "local" (no sum over  *)
(* processes) are deliberately wrong.                                          *)
EXTENDS Stack
CONSTANTS P, NSpec, Iter, How
VARIABLES owner, cont, valid, sum, wsum, it, phase, stack
vars == << owner, cont, valid, sum, wsum, it, phase, stack >>
\* spectrum s has a pixel of flux s in bin 1 and, if odd, one of flux 1 in
\* bin 2; bin 3 is always empty; weights are s and 1
Bins == 1..3
Flux(s, k) == IF k = 1 THEN s ELSE 1
HasPix(s, k) == k = 1 \/ (k = 2 /\ s % 2 = 1)
Wgt(s, k) == IF k = 1 THEN s ELSE 1
Zeros == [p \in 1..P |-> [k \in Bins |-> "0"]]
Init == /\ owner \in [1..NSpec -> 1..P] /\ it = 1 /\ phase = "fit"
        /\ cont = [s \in 1..NSpec |-> [k \in Bins |-> "1"]]
        /\ valid = [s \in 1..NSpec |-> TRUE]
        /\ sum = Zeros /\ wsum = Zeros
        /\ stack = [p \in 1..P |-> [k \in Bins |-> "1"]]
Fit == /\ phase = "fit" /\ phase' = "add"
       /\ \E c \in [1..NSpec -> {1, 2}], v \in [1..NSpec -> BOOLEAN] :
            cont' = [s \in 1..NSpec |-> [k \in Bins |-> c[s]]] /\ valid' = v
       /\ sum' = (IF How = "noreset" THEN sum ELSE Zeros)
       /\ wsum' = (IF How = "noreset" THEN wsum ELSE Zeros)
       /\ UNCHANGED << owner, it, stack >>
Used(s) == How = "invalid" \/ valid[s]
Mine(p, k) == {s \in 1..NSpec : owner[s] = p /\ Used(s) /\ HasPix(s, k)}
RECURSIVE SetSum(_, _, _)
SetSum(S, k, weighted) ==
  IF S = {} THEN "0" ELSE LET s == CHOOSE x \in S : TRUE IN
  NAdd(IF weighted THEN NMul(Wgt(s, k), NDiv(Flux(s, k), cont[s][k]))
       ELSE Wgt(s, k), SetSum(S \ {s}, k, weighted))
Add == /\ phase = "add" /\ phase' = "reduce"
       /\ sum' = [p \in 1..P |-> [k \in Bins |->
                    NAdd(sum[p][k], SetSum(Mine(p, k), k, TRUE))]]
       /\ wsum' = [p \in 1..P |-> [k \in Bins |->
                    NAdd(wsum[p][k], SetSum(Mine(p, k), k, FALSE))]]
       /\ UNCHANGED << owner, cont, valid, it, stack >>
Tot(f, p, k) == IF How = "local" THEN f[p][k]
                ELSE NSum([q \in 1..P |-> f[q][k]])
Reduce == /\ phase = "reduce" /\ phase' = "done"
          /\ stack' = [p \in 1..P |-> [k \in Bins |->
               IF NPos(Tot(wsum, p, k))
               THEN NDiv(Tot(sum, p, k), Tot(wsum, p, k)) ELSE "0"]]
          /\ UNCHANGED << owner, cont, valid, sum, wsum, it >>
Again == phase = "done" /\ it < Iter /\ it' = it + 1 /\ phase' = "fit"
         /\ UNCHANGED << owner, cont, valid, sum, wsum, stack >>
Scale == /\ phase = "done" /\ phase' = "scaled"
         /\ cont' = [s \in 1..NSpec |-> [k \in Bins |->
              IF valid[s] /\ ~NZero(stack[owner[s]][k])
              THEN NMul(cont[s][k], stack[owner[s]][k]) ELSE cont[s][k]]]
         /\ UNCHANGED << owner, valid, sum, wsum, it, stack >>
Next == Fit \/ Add \/ Reduce \/ Again \/ Scale
Spec == Init /\ [][Next]_vars
All(k) == {s \in 1..NSpec : valid[s] /\ HasPix(s, k)}
Want(k) == IF All(k) = {} THEN "0"
           ELSE NDiv(SetSum(All(k), k, TRUE), SetSum(All(k), k, FALSE))
Right == phase = "done" => \A p \in 1..P : \A k \in Bins :
           NNear(stack[p][k], Want(k), "1e-20")
ForcedToOne == phase = "scaled" => \A k \in Bins :
           All(k) = {} \/ NNear(Want(k), 1, "1e-20")
=============================================================================
