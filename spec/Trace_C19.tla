------------------------------ MODULE Trace_C19 ------------------------------
(* C19: what a spectrum carries after each fit.                                *)
EXTENDS ContModel, TraceLib
Close(a, b) == NNear(a, b, "1e-8")
ContIs(s, val) == \A k \in DOMAIN s.forest :
   LET a == s.forest[k] IN
   /\ Len(a.cont) = Len(a.wave)
   /\ \A i \in DOMAIN a.wave : Close(a.cont[i], val[k][i])
Whole(s) == \A k \in DOMAIN s.forest :
   Len(s.forest[k].cont) = Len(s.forest[k].wave)
EveryPix(s, val, F(_)) == \A k \in DOMAIN s.forest :
   \A i \in DOMAIN s.forest[k].wave : F(val[k][i])
\* valid or without continuum
Marked(s) ==
   Cl("invalid_has_no_continuum",
      ~s.valid => s.keys.cont = << >> /\ NEq(s.chi2, "-1"))
   \cup Cl("valid_has_continuum_in_every_arm",
      s.valid => /\ SeqSet(s.keys.cont) = {s.forest[k].arm :
                                             k \in DOMAIN s.forest}
                 /\ Whole(s))
   \cup Cl("valid_is_nowhere_negative",
      s.valid => \A k \in DOMAIN s.forest :
        \A i \in DOMAIN s.forest[k].cont : NNonNeg(s.forest[k].cont[i]))
PiccaFails(e, c, s) ==
   IF ~s.valid THEN Cl("healthy_spectrum_is_fitted", ~s.healthy) ELSE
   LET P == TLCEval([k \in DOMAIN s.forest |-> PixelsOf(c, s, s.forest[k])])
       D == TLCEval([k \in DOMAIN s.forest |-> TLCEval(
              [i \in DOMAIN P[k] |-> TLCEval(Deriv(P[k][i],
                  s.forest[k].flux[i], s.forest[k].ivsm[i]))])])
       val == [k \in DOMAIN P |-> [i \in DOMAIN P[k] |-> P[k][i].C]] IN
   Cl("as_many_coefficients", Len(s.x) = e.order + 1)
   \cup Cl("continuum_of_the_model", ContIs(s, val))
   \cup Cl("coefficients_are_a_local_optimum", Optimal(s, P, D, e.tol))
\* s.sup: [has, t]: the supplied continuum of this target; t in rest frame
\* wavelength for input, observed for true continua
Supplied(e, c, s) ==
   LET m == TLCEval(NotAKnot(s.sup.t)) IN
   TLCEval([k \in DOMAIN s.forest |-> TLCEval(
      [i \in DOMAIN s.forest[k].wave |->
         LET w == s.forest[k].wave[i] IN
         TLCEval(CubEval(s.sup.t, m, IF e.model = "true" THEN w
                                     ELSE NDiv(w, NAdd(1, s.z))))])])
SupFails(e, c, s) ==
   IF ~s.sup.has THEN Cl("missing_target_is_invalid", ~s.valid) ELSE
   LET I == Supplied(e, c, s)
       val == [k \in DOMAIN I |-> [i \in DOMAIN I[k] |->
                 NMul(I[k][i], LinEval(c.F, s.forest[k].wave[i]))]]
       good == EveryPix(s, I, LAMBDA y : NLt("1e-9", y))
       wrong == ~EveryPix(s, I, LAMBDA y : NLt("-1e-9", y)) IN
   Cl("supplied_continuum_is_used", good => s.valid)
   \cup Cl("negative_continuum_is_invalid", wrong => ~s.valid)
   \cup Cl("continuum_of_the_same_target", s.valid => ContIs(s, val))
FitFails(e) ==
   IF e.out # "ok" THEN {"enabled_step_raises"} ELSE
   LET c == Prepared(e)
       Of(s) == Marked(s) \cup (IF e.model = "picca" THEN PiccaFails(e, c, s)
                                ELSE SupFails(e, c, s)) IN
   UNION {Of(e.specs[n]) : n \in DOMAIN e.specs}
Fails(e) ==
  CASE e.k = "fit" -> FitFails(e)
    [] e.k = "crash" -> {"enabled_step_raises"}
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
