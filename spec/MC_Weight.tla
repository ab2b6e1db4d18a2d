----------------------------- MODULE MC_Weight -----------------------------
(* The weight formula over a grid of values: it never exceeds the smoothed     *)
(* inverse variance divided by the noise correction, is zero exactly where the *)
(* inverse variance is zero, decreases with the large-scale variance and with  *)
(* the continuum, is bounded by 1/(variance x continuum^2), and chi-square of  *)
(* an exact continuum is zero.  Scaling flux and continuum by s with the       *)
(* inverse variance scaled by 1/s^2 leaves chi-square unchanged.               *)
EXTENDS Forest
CONSTANTS IV, VL, ETA, CONT
VARIABLES iv, vl, eta, c, fl
vars == << iv, vl, eta, c, fl >>
Init == iv \in IV /\ vl \in VL /\ eta \in ETA /\ c \in CONT /\ fl \in {"0", "1", "3"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
L(v) == [a |-> v, b |-> "0"]
R(i, f, k) == [arm |-> "B", wave |-> << "4000" >>, flux |-> << f >>,
               ivar |-> << i >>, ivsm |-> << i >>,
               wt |-> <<>>, cont |-> << k >>, reso |-> <<>>]
W(i, v, e, k) == WeightAt(R(i, fl, k), 1, L(v), L(e))
S(i, f, k) == [valid |-> TRUE, keys |-> [cont |-> << "B" >>],
               forest |-> << [R(i, f, k) EXCEPT !.wt =
                 << WeightAt(R(i, f, k), 1, L(vl), L(eta)) >>] >>]
Scale(s) == Near(Chi2(S(NDiv(iv, NSq(s)), NMul(fl, s), NMul(c, s))),
                 Chi2(S(iv, fl, c)))
Inv == /\ NLe(W(iv, vl, eta, c), NAdd(NDiv(iv, eta), "1e-30"))
       /\ NZero(W(iv, vl, eta, c)) <=> NZero(iv)
       /\ \A v2 \in VL : NLe(vl, v2) =>
            NLe(W(iv, v2, eta, c), W(iv, vl, eta, c))
       /\ \A c2 \in CONT : NLe(c, c2) =>
            NLe(W(iv, vl, eta, c2), W(iv, vl, eta, c))
       /\ (NPos(vl) /\ NPos(c)) =>
            NLt(NMul(W(iv, vl, eta, c), NMul(vl, NSq(c))), "1")
       /\ NZero(Chi2(S(iv, c, c)))
       /\ Scale("2") /\ Scale("0.3")
       /\ Chi2([S(iv, fl, c) EXCEPT !.valid = FALSE]) = "-1"
=============================================================================
