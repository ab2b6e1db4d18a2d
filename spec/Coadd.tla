------------------------------- MODULE Coadd -------------------------------
(* Coadding: f, a sequence of input arms [wave, flux, ivar, w, cont, reso]     *)
(* (w: the weights used), against an output arm t.                             *)
EXTENDS Forest
Finite(q) == \A k \in DOMAIN q : NIsNum(q[k])
MaxDia(f) == LET S == {Len(f[i].reso[1]) : i \in DOMAIN f} IN
             CHOOSE m \in S : \A x \in S : x <= m
\* the contributions to every output pixel, computed once
AllC(f, n, dw) == [k \in 1..n |-> Contrib(f, k, dw)]
NothingLost(f, n, dw) ==
    LET wmin == WMin(f) IN
    \A i \in DOMAIN f : \A k \in DOMAIN f[i].wave :
      OutPix(f[i].wave[k], wmin, dw) \in 1..n
FluxOK(f, t, C) ==
    \A n \in DOMAIN C :
      IF C[n] # {} /\ NPos(Norm(f, C[n]))
      THEN /\ Near(t.flux[n], MeanFlux(f, C[n]))
           /\ Near(t.ivar[n], MeanIvar(f, C[n]))
      ELSE NZero(t.flux[n]) /\ NZero(t.ivar[n])
\* the continuum needs no weighting: it is that of the arms there
ContOK(f, t, C) ==
    \A n \in DOMAIN C : C[n] # {} =>
      \/ \E p \in C[n] : Near(t.cont[n], f[p[1]].cont[p[2]])
      \/ /\ \E p \in C[n] : NLe(f[p[1]].cont[p[2]], t.cont[n])
         /\ \E p \in C[n] : NLe(t.cont[n], f[p[1]].cont[p[2]])
ResoOK(f, t, C) ==
    LET m == MaxDia(f) IN
    \A n \in DOMAIN C :
      /\ Len(t.reso[n]) = m
      /\ IF C[n] # {} THEN SeqNear(t.reso[n], MeanReso(f, C[n], m))
         ELSE \A d \in 1..m : NZero(t.reso[n][d])
=============================================================================
