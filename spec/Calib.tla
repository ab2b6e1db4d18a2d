-------------------------------- MODULE Calib --------------------------------
(***************************************************************************)
(* Noise and flux calibration of a pixel.  Tables as in Interp: eta and vl  *)
(* (splines), sf (linear); zero entries of eta and sf mean one.             *)
(***************************************************************************)
EXTENDS Forest, Interp
OneForZero(f) == [i \in DOMAIN f |-> IF NZero(f[i]) THEN "1" ELSE f[i]]
FixT(t) == [t EXCEPT !.f = OneForZero(t.f)]
\* calibrators carry their spline: [t, m]
Spl(t) == LET u == TLCEval(t) IN [t |-> u, m |-> TLCEval(NotAKnot(u))]
At(s, x) == CubEval(s.t, s.m, x)
NoiseIvar(i, eta) == NDiv(i, eta)
AddDen(i, eta, vl, c) == NAdd(eta, NMul(i, NMul(vl, NSq(c))))
AddIvar(i, eta, vl, c) == NMax(0, NDiv(i, AddDen(i, eta, vl, c)))
FluxFlux(f, s) == NDiv(f, s)
FluxIvar(i, s) == NMul(i, NSq(s))
EqualSpaced(w) == \A k \in 2..Len(w) :
    NNear(NSub(w[k], w[k - 1]), NSub(w[2], w[1]), "1e-6")
=============================================================================
