------------------------------- MODULE MC_Bad -------------------------------
(* Two copies of one pixel's life that differ only in the value of a bad       *)
(* pixel, advanced together through every sequence of steps: reading, sky      *)
(* mask, noise and flux factors, smoothing, weighting, saving.  Everything an  *)
(* observer can accumulate (weight x flux, inverse variance, saved contrast)   *)
(* must agree in both.  Broken variants: Clean = FALSE keeps values of flagged *)
(* pixels; Restore = FALSE lets smoothing give a masked pixel its neighbours'  *)
(* noise; Blank = FALSE saves the contrast of a zero-noise pixel.              *)
EXTENDS Integers
CONSTANTS Clean, Restore, Blank, MaxSteps
VARIABLES f, g, iv, sm, wt, saved, n
vars == << f, g, iv, sm, wt, saved, n >>
Vals == {0, 1, 5}
\* one pixel, bad = flagged / undefined / zero inverse variance
Init == \E bad \in {"flag", "zero", "none"}, x \in Vals, y \in Vals, i \in {0, 1, 2} :
   /\ bad = "none" => x = y /\ i > 0
   /\ bad = "zero" => i = 0
   /\ f = (IF bad = "flag" /\ Clean THEN 0 ELSE x)
   /\ g = IF bad = "flag" /\ Clean THEN 0 ELSE y
   /\ iv = IF bad = "flag" /\ Clean THEN 0 ELSE i
   /\ sm = iv /\ wt = iv /\ saved = << 0, 0 >> /\ n = 0
Step == n < MaxSteps /\ n' = n + 1
Mask == Step /\ f' = 0 /\ g' = 0 /\ iv' = 0 /\ sm' = 0 /\ wt' = 0
        /\ UNCHANGED saved
Noise == Step /\ iv' = 2 * iv /\ sm' = iv' /\ wt' = iv'
         /\ UNCHANGED << f, g, saved >>
Flux == Step /\ f' = 2 * f /\ g' = 2 * g /\ UNCHANGED << iv, sm, wt, saved >>
Smooth == Step /\ \E m \in 1..2 :
          sm' = (IF iv = 0 /\ Restore THEN 0 ELSE m)
          /\ wt' = sm' /\ UNCHANGED << f, g, iv, saved >>
Weigh == Step /\ wt' = sm \div 1 /\ UNCHANGED << f, g, iv, sm, saved >>
Save == Step /\ saved' = (IF iv = 0 /\ Blank THEN << 0, 0 >>
                          ELSE << f - 1, g - 1 >>)
        /\ UNCHANGED << f, g, iv, sm, wt >>
Next == Mask \/ Noise \/ Flux \/ Smooth \/ Weigh \/ Save
Spec == Init /\ [][Next]_vars
Indep == /\ wt * f = wt * g /\ iv * f = iv * g /\ sm * f = sm * g
         /\ saved[1] = saved[2]
         /\ iv = 0 => (sm = 0 /\ wt = 0)
=============================================================================
