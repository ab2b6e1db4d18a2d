------------------------------- MODULE ContFit -------------------------------
(* A spectrum of several arms that is fitted again and again.  Outcome of a    *)
(* fit: 0 (the minimiser fails, or there is no continuum for the target), k    *)
(* (negative in arm k, found while the arms are filled in order), or N + 1.    *)
(* How = "keep" (what was filled stays), "stale" (an arm not filled in this    *)
(* fit may be of an earlier one and the spectrum still valid), "sticky" (once  *)
(* valid, always valid) are deliberately wrong.                                *)
EXTENDS Naturals
CONSTANTS N, MaxFits, How
VARIABLES it, cont, valid, chi2, outcome
vars == << it, cont, valid, chi2, outcome >>
Arms == 1..N
None == [a \in Arms |-> 0]
Init == it = 0 /\ cont = None /\ valid = FALSE /\ chi2 = "unset"
        /\ outcome = 0
Fill(o) == [a \in Arms |-> IF a < o THEN it + 1
                           ELSE IF How = "stale" THEN cont[a] ELSE 0]
Fit(o) ==
  LET ok == o = N + 1 \/ (How = "sticky" /\ valid)
            \/ (How = "stale" /\ o > 0 /\ \A a \in Arms : Fill(o)[a] > 0) IN
  /\ it < MaxFits /\ it' = it + 1 /\ outcome' = o
  /\ valid' = ok
  /\ cont' = (IF ok \/ (How = "keep" /\ o > 0) THEN Fill(o) ELSE None)
  /\ chi2' = (IF ok THEN "value" ELSE "minus one")
Next == \E o \in 0..(N + 1) : Fit(o)
Spec == Init /\ [][Next]_vars
Marked == it > 0 =>
  /\ valid <=> outcome = N + 1
  /\ valid => /\ \A a \in Arms : cont[a] = it
              /\ chi2 = "value"
  /\ ~valid => cont = None /\ chi2 = "minus one"
=============================================================================
