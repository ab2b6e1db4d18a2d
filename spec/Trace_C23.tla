------------------------------ MODULE Trace_C23 ------------------------------
(* C23: lives (from construction or reset to the next reset) of real variance  *)
(* fitters on several processes, the tables they write and the fits they make. *)
EXTENDS RunStats
RECURSIVE Acc(_, _, _, _, _)
Acc(c, B, adds, i, a) ==
  IF i > Len(adds) THEN a
  ELSE LET t == Contribution(c, B[i], adds[i]) IN
       Acc(c, B, adds, i + 1, TLCEval([p \in DOMAIN a |->
          IF p = adds[i].r THEN Put(a[p], t.x, t.w) ELSE a[p]]))
NumQso(c, B) == [k \in 1..NBins(c) |->
  Cardinality({i \in DOMAIN B : k \in SeqSet(B[i])})]
Vec(c, v, F(_), tol) == /\ Len(v) = NBins(c)
                        /\ \A k \in 1..NBins(c) : NNear(v[k], F(k), tol)
JudgeStats(e, s, a, nq) ==
  LET c == e.c IN
  Cl("pixels_in_their_own_bin",
     Vec(c, s.npix, LAMBDA k : NumPix(a, k), "0"))
  \cup Cl("spectra_per_bin", Vec(c, s.nqso, LAMBDA k : nq[k], "0"))
  \cup Cl("mean_contrast_of_its_pixels",
     Vec(c, s.mean, LAMBDA k : MeanD(a, k), "1e-9"))
  \cup Cl("variance_of_contrast_of_its_pixels",
     Vec(c, s.var, LAMBDA k : VarD(a, k), "1e-9"))
  \cup Cl("variance_of_squared_contrast",
     Vec(c, s.var2, LAMBDA k : Var2D(a, k), "1e-8"))
  \cup Cl("mean_pipeline_variance_of_its_pixels",
     Vec(c, s.vpipe, LAMBDA k : VarP(a, k), "1e-9"))
  \cup Cl("error_of_pipeline_variance",
     /\ Len(s.evpipe) = NBins(c)
     /\ \A k \in 1..NBins(c) : Exists(a, k) =>
          NNear(NSq(s.evpipe[k]), JVar(a, 4, k), "1e-8"))
  \cup Cl("error_of_variance",
     /\ Len(s.evar) = NBins(c)
     /\ \A k \in 1..NBins(c) : Exists(a, k) =>
          NNear(NSq(s.evar[k]),
                IF e.cov THEN JVar(a, 2, k) ELSE ErrVarD(a, k), "1e-8"))
  \cup (IF ~e.cov THEN {} ELSE
     LET D(j) == TLCEval([k \in 1..NBins(c) |-> IF Exists(a, k)
                            THEN Diffs(Jacks(a, j, k)) ELSE << >>])
         D1 == D(1)
         D2 == D(2) IN
     Cl("covariance_of_variances",
        /\ Len(s.cov) = c.nw
        /\ \A b \in 1..c.nw : Len(s.cov[b]) = c.nv
             /\ \A k, q \in 1..c.nv :
                  LET kk == (b - 1) * c.nv + k
                      qq == (b - 1) * c.nv + q IN
                  D1[kk] # << >> /\ D1[qq] # << >> =>
                    NNear(s.cov[b][k][q], CovVarD(a, D1, D2, kk, qq),
                          "1e-8")))
JudgeTable(e, s, t) ==
  LET c == e.c IN
  Cl("table_wavelengths",
     Vec(c, t.wave, LAMBDA k : WaveOf(c, ((k - 1) \div c.nv) + 1), "1e-9"))
  \cup Cl("table_reports_the_statistics",
     /\ SeqNear(t.npix, s.npix) /\ SeqNear(t.nqso, s.nqso)
     /\ SeqNear(t.mean, s.mean) /\ SeqNear(t.var, s.var)
     /\ SeqNear(t.var2, s.var2) /\ SeqNear(t.vpipe, s.vpipe)
     /\ SeqNear(t.evar, s.evar) /\ SeqNear(t.evpipe, s.evpipe))
  \cup Cl("table_header",
     /\ NEq(t.minpix, e.mp) /\ NEq(t.minqso, e.mq)
     /\ NNear(t.minsnr, e.minsnr, "1e-12")
     /\ NNear(t.maxsnr, e.maxsnr, "1e-12"))
  \cup (IF ~e.cov THEN {} ELSE
        Cl("table_reports_the_covariance",
           /\ Len(t.cov) = NBins(c)
           /\ \A b \in 1..c.nw : \A k \in 1..c.nv :
                SeqNear(t.cov[(b - 1) * c.nv + k], s.cov[b][k])))
\* one wavelength bin of a fit: the weighted least squares solution inside
\* the bounds, from exactly the usable bins; fit.v/fit.sv: the large-scale
\* variance and its error, fit.h/fit.sh: eta (if fitted)
Sums(s, U, x(_), y(_)) ==
  NSum([k \in 1..Len(s.npix) |-> IF k \in U THEN
     NDiv(NMul(x(k), y(k)), NSq(s.evar[k])) ELSE "0"])
Inside(x, e) == NLt(NMul(3, e), x) /\ NLt(x, NSub(2, NMul(3, e)))
\* e: error, so: a fraction of it
Agree(x, y, e) == NLe(NAbs(NSub(x, y)), NAdd(NMul("0.02", e), "1e-6"))
JudgePoint(e, s, f, iw) ==
  LET U == Usable(s, OfWave(e.c, iw), e.mp, e.mq)
      one(k) == "1"
      vp(k) == s.vpipe[k]
      ex(k) == NSub(s.var[k], s.vpipe[k])
      vd(k) == s.var[k]
      S11 == TLCEval(Sums(s, U, one, one)) IN
  IF U = {} THEN Cl("no_result_without_statistics",
                    NZero(f.v[iw]) /\ NZero(f.sv[iw]))
  ELSE IF \E k \in U : ~NPos(s.evar[k]) THEN {}
  ELSE IF ~f.eta THEN
    LET x == NDiv(Sums(s, U, ex, one), S11)
        err == NSqrt(NDiv(1, S11)) IN
    IF ~Inside(x, err) THEN Cl("function_in_bounds", NBetween(0, f.v[iw], "2.0001"))
    ELSE Cl("function_describes_the_statistics", Agree(f.v[iw], x, err))
         \cup Cl("error_of_function", NNear(NDiv(f.sv[iw], err), 1, "0.05"))
  ELSE
    LET Sx == TLCEval(Sums(s, U, vp, one))
        Sxx == TLCEval(Sums(s, U, vp, vp))
        Sy == TLCEval(Sums(s, U, vd, one))
        Sxy == TLCEval(Sums(s, U, vp, vd))
        det == TLCEval(NSub(NMul(S11, Sxx), NSq(Sx)))
        v == NDiv(NSub(NMul(Sxx, Sy), NMul(Sx, Sxy)), det)
        h == NDiv(NSub(NMul(S11, Sxy), NMul(Sx, Sy)), det)
        ev == NSqrt(NDiv(Sxx, det))
        eh == NSqrt(NDiv(S11, det)) IN
    IF ~NLt(NMul("1e-6", NMul(S11, Sxx)), det) THEN {}
    ELSE IF ~Inside(v, ev) \/ ~Inside(h, eh)
    THEN Cl("function_in_bounds", NBetween(0, f.v[iw], "2.0001")
                                  /\ NBetween(0, f.h[iw], "2.0001"))
    ELSE Cl("function_describes_the_statistics",
            Agree(f.v[iw], v, ev) /\ Agree(f.h[iw], h, eh))
         \cup Cl("error_of_function",
            NNear(NDiv(f.sv[iw], ev), 1, "0.05")
            /\ NNear(NDiv(f.sh[iw], eh), 1, "0.05"))
\* with covariance: g = [pd, U, L, a, b, x] is a witness: L L^T = C (the
\* covariance of the usable bins U), C a = 1, C b = vpipe, C x = residual.
\* Then the fit is the generalised least squares solution if x is orthogonal
\* to 1 and vpipe (up to a fraction of the error).
Dot(u, v) == NDot(u, v)
JudgeCovPoint(e, s, f, iw) ==
  LET g == e.gls[iw]
      Uset == Usable(s, OfWave(e.c, iw), e.mp, e.mq)
      n == Len(g.U)
      off == (iw - 1) * e.c.nv
      Cm == TLCEval([i \in 1..n |-> [j \in 1..n |->
                       s.cov[iw][g.U[i] - off][g.U[j] - off]]])
      vp == TLCEval([i \in 1..n |-> s.vpipe[g.U[i]]])
      Solves(x, r) == \A i \in 1..n :
          NLe(NAbs(NSub(Dot(Cm[i], x), r[i])), NMul("1e-6", NAbs(r[i])))
      h == IF f.eta THEN f.h[iw] ELSE "1"
      res == TLCEval([i \in 1..n |-> NSub(s.var[g.U[i]],
                NAdd(f.v[iw], NMul(h, vp[i])))])
      Ones == [i \in 1..n |-> "1"]
      ev == NSqrt(NDiv(1, Dot(Ones, g.a)))
      eh == NSqrt(NDiv(1, Dot(vp, g.b))) IN
  IF Uset = {} \/ SeqSet(g.U) # Uset
  THEN (IF Uset = {} THEN Cl("no_result_without_statistics",
                             NZero(f.v[iw]) /\ NZero(f.sv[iw])) ELSE {})
  ELSE IF ~g.pd THEN {}
  ELSE IF ~(\A i, j \in 1..n : NLe(NAbs(NSub(Dot(g.L[i], g.L[j]), Cm[i][j])),
              NMul("1e-10", NAbs(Cm[i][i]))))
          \/ ~Solves(g.a, Ones) \/ ~Solves(g.b, vp) \/ ~Solves(g.x, res)
  THEN {}
  ELSE IF ~Inside(f.v[iw], ev) \/ (f.eta /\ ~Inside(f.h[iw], eh)) THEN {}
  ELSE Cl("function_describes_the_statistics",
          /\ NLe(NAbs(Dot(Ones, g.x)), NDiv("0.05", ev))
          /\ f.eta => NLe(NAbs(Dot(vp, g.x)), NDiv("0.05", eh)))
\* smoothing stays within the errors
JudgeSmooth(e, f) ==
  IF ~Has(f, "sm") THEN {} ELSE
  LET K == {i \in DOMAIN f.v : NPos(f.v[i])}
      Chi2(y, sm, sd) == NSum([i \in DOMAIN y |-> IF i \in K
                           THEN NSq(NDiv(NSub(y[i], sm[i]), sd[i])) ELSE "0"])
      M == NMul(Cardinality(K), "1.01")
      \* either as smooth as the errors allow, or the best cubic: residuals
      \* orthogonal to every cubic
      x(i) == NDiv(i, e.c.nw)
      Pw(i, k) == IF k = 0 THEN "1" ELSE IF k = 1 THEN x(i)
                  ELSE IF k = 2 THEN NSq(x(i)) ELSE NMul(x(i), NSq(x(i)))
      r(y, sm, sd, i) == NDiv(NSub(y[i], sm[i]), sd[i])
      Orth(y, sm, sd) == \A k \in 0..3 :
        LET t == TLCEval([i \in DOMAIN y |-> IF i \in K
                   THEN NDiv(NMul(Pw(i, k), r(y, sm, sd, i)), sd[i])
                   ELSE "0"])
            g == NSum([i \in DOMAIN y |-> IF i \in K
                   THEN NDiv(Pw(i, k), sd[i]) ELSE "0"]) IN
        NLe(NAbs(NSum(t)), NMul("1e-4", g))
      Smoothest(y, sm, sd) ==
        \/ NLe(NMul(Cardinality(K), "0.99"), Chi2(y, sm, sd))
        \/ Orth(y, sm, sd) IN
  IF \E i \in K : ~NPos(f.sv[i]) \/ (f.eta /\ ~NPos(f.sh[i])) THEN {}
  ELSE Cl("smoothed_within_the_errors",
          /\ \A i \in DOMAIN f.sm : NIsNum(f.sm[i])
          /\ NLe(Chi2(f.v, f.sm, f.sv), M)
          /\ f.eta => NLe(Chi2(f.h, f.smh, f.sh), M))
       \cup Cl("smoothed_as_far_as_the_errors_allow",
          /\ Smoothest(f.v, f.sm, f.sv)
          /\ f.eta => Smoothest(f.h, f.smh, f.sh))
Missing(e, s) == {iw \in 1..e.c.nw :
                    Usable(s, OfWave(e.c, iw), e.mp, e.mq) = {}}
\* more than four tenths without a result: refused
JudgeFit(e, s) ==
  LET f == e.fit
      n == Cardinality(Missing(e, s)) IN
  IF 10 * n > 4 * e.c.nw
  THEN Cl("too_few_statistics_are_refused", f.out # "ok")
  ELSE IF f.out # "ok" THEN {"enabled_step_raises"}
  ELSE (IF e.cov THEN UNION {JudgeCovPoint(e, s, f, iw) : iw \in 1..e.c.nw}
        ELSE UNION {JudgePoint(e, s, f, iw) : iw \in 1..e.c.nw})
       \cup JudgeSmooth(e, f)
Fails(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "table" -> RunStatsFails(e)
    [] e.k = "life" ->
         IF e.out # "ok" THEN {"enabled_step_raises"} ELSE
         LET c == e.c
             a0 == TLCEval([p \in 1..e.size |-> New(e.nsub, 4, NBins(c),
                                    ((p - 1) * e.nsub) \div e.size)])
             E == TLCEval(Edges(c))
             B == TLCEval([i \in DOMAIN e.adds |-> Pixels(c, E, e.adds[i])])
             a == TLCEval(Total(Acc(c, B, e.adds, 1, a0)))
             nq == TLCEval(NumQso(c, B)) IN
         JudgeStats(e, e.res[1], a, nq)
         \cup Cl("all_processes_alike",
                 \A p \in DOMAIN e.res : e.res[p] = e.res[1])
         \cup (IF e.table = << >> THEN {}
               ELSE JudgeTable(e, e.res[1], e.table[1]))
         \cup (IF Has(e, "fit") THEN JudgeFit(e, e.res[1]) ELSE {})
         \cup Cl("adding_after_a_result_is_refused", e.late # "ok")
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
