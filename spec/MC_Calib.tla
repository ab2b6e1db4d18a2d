------------------------------ MODULE MC_Calib ------------------------------
(* Calibration steps on one pixel in any order, with small tables: signal to   *)
(* noise is invariant under flux calibration, noise calibration leaves flux    *)
(* alone, the steps commute with each other, zero inverse variance stays zero  *)
(* and inverse variance is never negative, and the additive option can only    *)
(* lower it.                                                                   *)
EXTENDS Calib
CONSTANTS Vals, Etas, Sfs, Vls
VARIABLES f, i, f0, i0, eta, sf, vl, c, done
vars == << f, i, f0, i0, eta, sf, vl, c, done >>
Init == /\ f0 \in Vals /\ i0 \in {"0"} \cup Etas
        /\ eta \in Etas /\ sf \in Sfs /\ vl \in Vls /\ c \in Etas
        /\ f = f0 /\ i = i0 /\ done = {}
One(x) == IF NZero(x) THEN "1" ELSE x
Noise == /\ "noise" \notin done /\ "add" \notin done
         /\ done' = done \cup {"noise"}
         /\ i' = NoiseIvar(i, One(eta)) /\ UNCHANGED << f, f0, i0, eta, sf, vl, c >>
Flux == /\ "flux" \notin done /\ "add" \notin done
        /\ done' = done \cup {"flux"}
        /\ f' = FluxFlux(f, One(sf)) /\ i' = FluxIvar(i, One(sf))
        /\ UNCHANGED << f0, i0, eta, sf, vl, c >>
Add == /\ "add" \notin done /\ done' = done \cup {"add"}
       /\ i' = AddIvar(i, "1", vl, c) /\ UNCHANGED << f, f0, i0, eta, sf, vl, c >>
Next == Noise \/ Flux \/ Add
Spec == Init /\ [][Next]_vars
E(a, b) == NNear(a, b, "1e-25")
NonNegative == NNonNeg(i) /\ (NZero(i0) => NZero(i))
Frame == "flux" \notin done => f = f0
Ratio == done \cap {"add", "noise"} = {} =>
           E(NMul(i, NSq(f)), NMul(i0, NSq(f0)))
Commute == done = {"noise", "flux"} =>
           E(i, NDiv(NMul(i0, NSq(One(sf))), One(eta)))
Lower == done = {"add"} => NLe(i, i0)
=============================================================================
