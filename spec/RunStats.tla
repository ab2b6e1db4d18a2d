------------------------------ MODULE RunStats -------------------------------
(* The statistics table of a whole run against the spectra it saved, and the   *)
(* functions it recorded against the statistics.                               *)
(* e: c (bins), eta (fitted), cov, mp, mq (requirements), whole (the saved     *)
(* spectra are those the statistics were made of), t = [wave, npix, nqso,      *)
(* mean, var, vpipe, evar], f = [v, ev, h, eh], pix (sequence of [wave,        *)
(* delta, ivar], one per saved arm).                                           *)
EXTENDS VarStats, TraceLib, SequencesExt
\* pixels too close to an edge of a bin to call
EdgePix(c, E, w, iv) ==
  LET p == WavePos(c, w)
      near(x) == NLt(NAbs(NSub(x, VFloor(NAdd(x, "0.5")))), "1e-7") IN
  \/ near(p)
  \/ \E j \in DOMAIN E : NLt(NAbs(NSub(NDiv(iv, E[j]), 1)), "1e-9")
Around(c, E, w, iv) ==
  LET p == VFloor(NAdd(WavePos(c, w), "0.5"))
      b == Cardinality({j \in DOMAIN E : NLt(E[j], iv)}) IN
  {(a - 1) * c.nv + k : a \in {p, p + 1} \cap 1..c.nw,
                        k \in {b - 1, b, b + 1} \cap 1..c.nv}
TableFails(e) ==
  LET c == e.c
      t == e.t
      E == TLCEval(Edges(c))
      N == DOMAIN e.pix
      B == TLCEval([n \in N |-> TLCEval([i \in DOMAIN e.pix[n].wave |->
               Bin(c, E, e.pix[n].wave[i], e.pix[n].ivar[i])])])
      unclear == TLCEval(UNION {UNION {
               IF NPos(e.pix[n].ivar[i])
                  /\ EdgePix(c, E, e.pix[n].wave[i], e.pix[n].ivar[i])
               THEN Around(c, E, e.pix[n].wave[i], e.pix[n].ivar[i]) ELSE {}
               : i \in DOMAIN e.pix[n].wave} : n \in N})
      all == TLCEval(UNION {{<< n, i >> : i \in {i \in DOMAIN B[n] :
                                                 B[n][i] # 0}} : n \in N})
      of == TLCEval([k \in 1..NBins(c) |->
               SetToSeq({p \in all : B[p[1]][p[2]] = k})])
      avg(k, V(_)) == IF of[k] = << >> THEN "0"
                      ELSE NDiv(NSum([j \in DOMAIN of[k] |->
                                V(of[k][j])]), Len(of[k]))
      d(p) == e.pix[p[1]].delta[p[2]]
      d2(p) == NSq(d(p))
      v(p) == NDiv(1, e.pix[p[1]].ivar[p[2]])
      K == (1..NBins(c)) \ unclear
      mean == TLCEval([k \in 1..NBins(c) |-> avg(k, d)])
      Each(F(_)) == \A k \in K : F(k) IN
  IF Len(t.npix) # NBins(c) THEN {"table_has_every_bin"} ELSE
  Cl("table_counts_the_saved_pixels",
     Each(LAMBDA k : NEq(t.npix[k], Len(of[k]))))
  \cup Cl("table_counts_the_saved_spectra",
     Each(LAMBDA k : NEq(t.nqso[k],
            Cardinality({of[k][j][1] : j \in DOMAIN of[k]}))))
  \cup Cl("table_mean_contrast_of_saved_pixels",
     Each(LAMBDA k : NNear(t.mean[k], mean[k], "1e-7")))
  \cup Cl("table_variance_of_saved_pixels",
     Each(LAMBDA k : NNear(t.var[k], NSub(avg(k, d2), NSq(mean[k])), "1e-7")))
  \cup Cl("table_pipeline_variance_of_saved_pixels",
     Each(LAMBDA k : NNear(t.vpipe[k], avg(k, v), "1e-7")))
\* the recorded functions: their errors are those of the weighted least
\* squares solutions, from which they differ within the errors
WSum(t, U, x(_), y(_)) ==
  NSum([k \in 1..Len(t.npix) |-> IF k \in U THEN
     NDiv(NMul(x(k), y(k)), NSq(t.evar[k])) ELSE "0"])
\* [v, ev, h, eh] of a wavelength bin
Solved(e, U) ==
  LET t == e.t
      one(k) == "1"
      vp(k) == t.vpipe[k]
      vd(k) == t.var[k]
      ex(k) == NSub(t.var[k], t.vpipe[k])
      S11 == TLCEval(WSum(t, U, one, one))
      Sx == TLCEval(WSum(t, U, vp, one))
      Sxx == TLCEval(WSum(t, U, vp, vp))
      Sy == TLCEval(WSum(t, U, vd, one))
      Sxy == TLCEval(WSum(t, U, vp, vd))
      det == TLCEval(NSub(NMul(S11, Sxx), NSq(Sx))) IN
  IF ~e.eta THEN [v |-> NDiv(WSum(t, U, ex, one), S11),
                  ev |-> NSqrt(NDiv(1, S11)), h |-> "1", eh |-> "1",
                  good |-> TRUE]
  ELSE [v |-> NDiv(NSub(NMul(Sxx, Sy), NMul(Sx, Sxy)), det),
        h |-> NDiv(NSub(NMul(S11, Sxy), NMul(Sx, Sy)), det),
        ev |-> NSqrt(NDiv(Sxx, det)), eh |-> NSqrt(NDiv(S11, det)),
        good |-> NLt(NMul("1e-4", NMul(S11, Sxx)), det)]
InDomain(x) == NLe("1e-3", x) /\ NLe(x, "1.999")
FuncFails(e) ==
  LET t == e.t
      f == e.f
      W == 1..e.c.nw
      U == TLCEval([i \in W |-> Usable(t, OfWave(e.c, i), e.mp, e.mq)])
      ok(i) == U[i] # {} /\ \A k \in U[i] : NPos(t.evar[k])
      s == TLCEval([i \in W |-> IF ok(i) THEN TLCEval(Solved(e, U[i]))
                                ELSE [good |-> FALSE]])
      rel(a, b) == NNear(NDiv(a, b), 1, "2e-5")
      clean == \A i \in W : s[i].good /\ ~NZero(f.ev[i])
                            /\ InDomain(s[i].v)
                            /\ (e.eta => InDomain(s[i].h))
      chi(x, y(_), er(_)) == NSum([i \in W |-> NSq(NDiv(NSub(x[i], y(i)), er(i)))])
      Lim == NMul(e.c.nw, "1.02") IN
  IF e.cov \/ Len(f.ev) # e.c.nw THEN {} ELSE
  Cl("errors_of_the_recorded_functions",
     \A i \in W : s[i].good /\ ~NZero(f.ev[i]) => (rel(f.ev[i], s[i].ev)
                               /\ (e.eta => rel(f.eh[i], s[i].eh))))
  \cup Cl("recorded_functions_describe_the_statistics",
     clean => (NLe(chi(f.v, LAMBDA i : s[i].v, LAMBDA i : s[i].ev), Lim)
               /\ (e.eta => NLe(chi(f.h, LAMBDA i : s[i].h,
                                    LAMBDA i : s[i].eh), Lim))))
RunStatsFails(e) ==
  (IF e.whole THEN TableFails(e) ELSE {}) \cup FuncFails(e)
=============================================================================
