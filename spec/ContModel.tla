------------------------------ MODULE ContModel ------------------------------
(***************************************************************************)
(* Continua of the three models.  e: M (mean continuum, a table in rest     *)
(* wavelength), F (mean flux, a table), V (variance of the large scale      *)
(* structure: [kind, t]), H (noise correction, a table), order.             *)
(* A spectrum s has z, x (coefficients), valid, chi2, keys and forest, a    *)
(* sequence of arms [arm, wave, flux, ivsm, cont].                          *)
(***************************************************************************)
EXTENDS Interp
\* tables with the second derivatives their splines need, solved once
Prepared(e) ==
  TLCEval([M |-> e.M, Mm |-> NotAKnot(e.M), F |-> e.F, V |-> e.V,
           Vm |-> IF e.V.kind = "cubic" THEN NotAKnot(e.V.t) ELSE << >>,
           H |-> e.H, Hm |-> NotAKnot(e.H),
           den |-> NLn(NDiv(Node(e.M, Len(e.M.f)), e.M.x0))])
Var(c, w) == IF c.V.kind = "cubic" THEN CubEval(c.V.t, c.Vm, w)
             ELSE LinEval(c.V.t, w)
Eta(c, w) == CubEval(c.H, c.Hm, w)
Coord(c, lrf) == NSub(NDiv(NMul(2, NLn(NDiv(lrf, c.M.x0))), c.den), 1)
RECURSIVE Horner(_, _, _)
Horner(x, t, j) == IF j > Len(x) THEN "0"
                   ELSE NAdd(x[j], NMul(t, Horner(x, t, j + 1)))
RECURSIVE Power(_, _)
Power(t, j) == IF j = 0 THEN "1" ELSE NMul(t, Power(t, j - 1))
\* the pixels of an arm: basis b (the derivative of the continuum with respect
\* to the amplitude), coordinate t, continuum, variance, eta
PixelsOf(c, s, a) ==
  TLCEval([i \in DOMAIN a.wave |->
     LET w == a.wave[i]
         lrf == NDiv(w, NAdd(1, s.z))
         t == Coord(c, lrf)
         b == NMul(CubEval(c.M, c.Mm, lrf), LinEval(c.F, w)) IN
     TLCEval([b |-> b, t |-> t, C |-> NMul(b, Horner(s.x, t, 1)),
              v |-> Var(c, w), h |-> Eta(c, w)])])
\* of the cost  w (f - C)^2 - ln w,  w = iv / (h + iv v C^2), of a pixel: the
\* first and second derivative with respect to C
Wt(p, iv) == NDiv(iv, NAdd(p.h, NMul(iv, NMul(p.v, NSq(p.C)))))
Deriv(p, f, iv) ==
  LET w == Wt(p, iv)
      r == NSub(f, p.C)
      vC == NMul(p.v, p.C)
      w1 == NMul("-2", NMul(vC, NSq(w)))
      g == NAdd(NMul("-2", NMul(w, r)),
             NMul(2, NMul(vC, NSub(w, NSq(NMul(w, r))))))
      h == NAdd(NSub(NMul(2, w), NMul(2, NMul(w1, r))),
             NMul(2, NMul(p.v,
               NAdd(NSub(NAdd(w, NMul(p.C, w1)), NSq(NMul(w, r))),
                    NSub(NMul(2, NMul(p.C, NMul(NSq(w), r))),
                         NMul(2, NMul(p.C, NMul(NMul(w, w1), NSq(r)))))))))
  IN IF NPos(iv) THEN [g |-> g, h |-> h] ELSE [g |-> "0", h |-> "0"]
\* slope and curvature of the cost along the direction u in the coefficients;
\* P: the pixels of each arm, D: their derivatives
Along(s, P, D, u) ==
  LET du(p) == NMul(p.b, Horner(u, p.t, 1))
      q(k) == TLCEval([i \in DOMAIN P[k] |-> du(P[k][i])])
      g(k) == LET z == q(k) IN NSum([i \in DOMAIN P[k] |->
                                  NMul(D[k][i].g, z[i])])
      h(k) == LET z == q(k) IN NSum([i \in DOMAIN P[k] |->
                                  NMul(D[k][i].h, NSq(z[i]))]) IN
  [g |-> NSum([k \in DOMAIN P |-> g(k)]), h |-> NSum([k \in DOMAIN P |-> h(k)])]
\* directions: coordinate axes and diagonals (u and -u are the same)
Directions(n) == {u \in [1..n -> {-1, 0, 1}] : \E j \in 1..n :
                    u[j] = 1 /\ \A i \in 1..(j - 1) : u[i] = 0}
\* how much a step along u could lower the cost (twice): small at an optimum
Optimal(s, P, D, tol) ==
  \A u \in Directions(Len(s.x)) :
     LET d == TLCEval(Along(s, P, D, u)) IN
     NPos(d.h) /\ NLe(NSq(d.g), NMul(tol, d.h))
=============================================================================
