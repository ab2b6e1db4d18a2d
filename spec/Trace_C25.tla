------------------------------ MODULE Trace_C25 ------------------------------
(* C25: the product of a calibration run against all sightlines in the files   *)
(* of its input directory.                                                     *)
EXTENDS CalibRun, TraceLib
RECURSIVE Acc1(_, _, _, _, _)
Acc1(c, B, s, i, a) ==
  IF i > Len(s) THEN a
  ELSE LET t == Contribution(c, B[i], s[i]) IN
       Acc1(c, B, s, i + 1, TLCEval(Put(a, t.x, t.w)))
NumQso(c, B) == [k \in 1..NBins(c) |->
  Cardinality({i \in DOMAIN B : k \in SeqSet(B[i])})]
Vec(c, v, F(_), tol) == /\ Len(v) = NBins(c)
                        /\ \A k \in 1..NBins(c) : NNear(v[k], F(k), tol)
RECURSIVE Cat(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Cat(Tail(ss))
Stacked(e, S, up) ==
  LET o == e.o
      n == NStack(o)
      w == TLCEval(Cat([i \in DOMAIN S |-> TLCEval(
             [k \in DOMAIN S[i].wave |-> Nearest(o, S[i].wave[k], up) + 1])]))
      f == TLCEval(Cat([i \in DOMAIN S |-> TLCEval(
             [k \in DOMAIN S[i].delta |-> NAdd(1, S[i].delta[k])])]))
      x == TLCEval(Cat([i \in DOMAIN S |-> S[i].weight]))
      q == StackOf([n |-> n], w, f, x) IN
  [k \in 1..n |-> q[k].v]
\* the fitted functions are smoothed, within their errors: the least squares
\* solution of the written statistics in each wavelength bin
Sums(t, U, x(_), y(_)) ==
  NSum([k \in 1..Len(t.npix) |-> IF k \in U THEN
     NDiv(NMul(x(k), y(k)), NSq(t.evar[k])) ELSE "0"])
Point(e, t, iw) ==
  LET U == Usable(t, OfWave(e.c, iw), e.mp, e.mq)
      one(k) == "1"
      vp(k) == t.vpipe[k]
      vd(k) == t.var[k]
      S11 == TLCEval(Sums(t, U, one, one))
      Sx == TLCEval(Sums(t, U, vp, one))
      Sxx == TLCEval(Sums(t, U, vp, vp))
      Sy == TLCEval(Sums(t, U, vd, one))
      Sxy == TLCEval(Sums(t, U, vp, vd))
      det == TLCEval(NSub(NMul(S11, Sxx), NSq(Sx)))
      v == NDiv(NSub(NMul(Sxx, Sy), NMul(Sx, Sxy)), det)
      h == NDiv(NSub(NMul(S11, Sxy), NMul(Sx, Sy)), det)
      ev == NSqrt(NDiv(Sxx, det))
      eh == NSqrt(NDiv(S11, det))
      In(x, s) == NLt(NMul(3, s), x) /\ NLt(x, NSub(2, NMul(3, s))) IN
  IF U = {} \/ (\E k \in U : ~NPos(t.evar[k]))
     \/ ~NLt(NMul("1e-6", NMul(S11, Sxx)), det) THEN [ok |-> FALSE]
  ELSE [ok |-> In(v, ev) /\ In(h, eh), v |-> v, h |-> h, ev |-> ev,
        eh |-> eh]
FuncFails(e, t) ==
  LET P1 == TLCEval([iw \in 1..e.c.nw |-> TLCEval(Point(e, t, iw))])
      Chi(y, F(_), G(_)) == NSum([iw \in 1..e.c.nw |->
            NSq(NDiv(NSub(y[iw], F(P1[iw])), G(P1[iw])))])
      \* half of the bins may be at their limit
      lim == NMul(e.c.nw, "1.1") IN
  Cl("function_wavelengths", /\ Len(e.func.lambda) = e.c.nw
      /\ \A iw \in 1..e.c.nw : Near(e.func.lambda[iw], WaveOf(e.c, iw)))
  \cup (IF e.cov \/ \E iw \in 1..e.c.nw : ~P1[iw].ok THEN {} ELSE
     Cl("functions_of_these_statistics",
        /\ NLe(Chi(e.func.var_lss, LAMBDA p : p.v, LAMBDA p : p.ev), lim)
        /\ NLe(Chi(e.func.eta, LAMBDA p : p.h, LAMBDA p : p.eh), lim)))
RS == INSTANCE RunStats
ErrorFails(e) == RS!FuncFails([c |-> e.c, eta |-> TRUE, cov |-> e.cov,
  mp |-> e.mp, mq |-> e.mq, t |-> e.table,
  f |-> [v |-> e.func.var_lss, ev |-> e.func.e_var_lss, h |-> e.func.eta,
         eh |-> e.func.e_eta]])
RunFails(e) ==
  IF e.out # "ok" THEN {"run_completes"} ELSE
  LET c == e.c
      o == e.o
      S == TLCEval(SelectSeq(e.sight, LAMBDA s : Used(o, s)))
      E == TLCEval(Edges(c))
      B == TLCEval([i \in DOMAIN S |-> Pixels(c, E, S[i])])
      a == TLCEval(Acc1(c, B, S, 1, New(1, 4, NBins(c), 0)))
      nq == TLCEval(NumQso(c, B))
      t == e.table IN
  Cl("pixels_of_exactly_the_used_sightlines",
     Vec(c, t.npix, LAMBDA k : NumPix(a, k), "0"))
  \cup Cl("spectra_of_exactly_the_used_sightlines",
     Vec(c, t.nqso, LAMBDA k : nq[k], "0"))
  \cup Cl("statistics_of_exactly_the_used_sightlines",
     /\ Vec(c, t.mean, LAMBDA k : MeanD(a, k), "1e-9")
     /\ Vec(c, t.var, LAMBDA k : VarD(a, k), "1e-9")
     /\ Vec(c, t.vpipe, LAMBDA k : VarP(a, k), "1e-9"))
  \cup Cl("limits_recorded",
     NNear(t.minsnr, o.min, "1e-9") /\ NNear(t.maxsnr, o.max, "1e-9"))
  \cup Cl("stack_wavelengths",
     /\ Len(e.stack.lambda) = NStack(o)
     /\ \A k \in DOMAIN e.stack.lambda :
          Near(e.stack.lambda[k], NAdd(o.w1, NMul(o.dw, k - 1))))
  \cup Cl("stack_of_exactly_the_used_sightlines",
     \/ NSeqNear(e.stack.stacked_flux, Stacked(e, S, TRUE), "1e-9")
     \/ NSeqNear(e.stack.stacked_flux, Stacked(e, S, FALSE), "1e-9"))
  \cup FuncFails(e, t)
  \cup Cl("errors_of_the_functions", ErrorFails(e) = {})
  \cup Cl("covariance_given_if_requested", e.hascov = e.cov)
Fails(e) ==
  CASE e.k = "calib" -> RunFails(e)
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
