------------------------------ MODULE Trace_C13 ------------------------------
(* C13: weights and chi-square after every step that defines them.            *)
EXTENDS Forest, Interp, TraceLib
SeqSm(s) == \A i \in DOMAIN s.forest : s.forest[i].wt = s.forest[i].ivsm
\* A saved arm of a run with the fiducial variance Fid and noise correction one:
\* the weight (in units of the continuum) is u / (1 + u Fid) with u the noise
\* that was saved, smoothed over e.smooth pixels (or that over two pi: C28;
\* narrow kernels are left to C28).
Fid(w) == NAdd("0.05", NMul("1e-5", NSub(w, 4000)))
Unweighted(e) == TLCEval([k \in DOMAIN e.lam |->
    NDiv(e.weight[k], NSub(1, NMul(e.weight[k], Fid(e.lam[k]))))])
SavedFails(e) ==
  LET D == DOMAIN e.lam IN
  IF \E x \in {e.ivar, e.cont, e.weight} : Len(x) # Len(e.lam)
  THEN {"saved_weights"} ELSE
  LET u == Unweighted(e)
      G == {k \in D : ~NZero(e.ivar[k])} IN
  Cl("saved_zero_weight", \A k \in D \ G : NZero(e.weight[k]))
  \cup
  IF \E k \in G : ~NPos(u[k]) THEN {"saved_weights"}
  ELSE IF NZero(e.smooth)
  THEN Cl("saved_weights", \A k \in G : NNear(u[k], e.ivar[k], "1e-7"))
  ELSE
  LET iv == TLCEval([k \in D |-> NDiv(e.ivar[k], NSq(e.cont[k]))])
      sm == TLCEval([k \in D |-> NDiv(u[k], NSq(e.cont[k]))])
      L == TLCEval(ErrorLimit(iv, "3.5"))
      O == {k \in G : Outlier(iv, k, L)}
      C == {k \in G : Clearly(iv, k, L)}
      er == TLCEval([k \in D |->
              IF k \in C THEN NDiv(1, NSqrt(iv[k])) ELSE L.med])
      fits(s) == LET y == GaussSmooth(er, s) IN
        \A k \in C : NLe(NAbs(NSub(NDiv(1, NSqrt(sm[k])), y[k])),
                         NMul("0.01", L.med)) IN
  IF NLt(e.smooth, 10) \/ G = {} \/ O \cup C # G THEN {} ELSE
  Cl("saved_weights_of_the_saved_noise",
     /\ \A k \in O : NNear(NDiv(sm[k], iv[k]), 1, "1e-7")
     /\ (fits(NDiv(e.smooth, "6.283185307179586")) \/ fits(e.smooth)))
Fails(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.out # "ok" -> {"enabled_step_raises"}
    [] e.k = "run" -> Cl("run_completes", e.n > 0)
    [] e.k = "saved" -> SavedFails(e)
    [] ~LengthsAgree(e.post) -> {}          \* C10's business
    [] e.k = "weight" ->
         Cl("weight_formula", WeightsOK(e.post, e.a.vl, e.a.eta))
    [] e.k = "coadd" ->
         Cl("weight_after_coadd", WeightsOK(e.post, e.a.vl, e.a.eta))
    [] e.k = "smooth" -> Cl("weight_after_smoothing", SeqSm(e.post))
    [] e.k = "chi2" ->
         Cl("chi2_is_the_sum", Near(e.ret, Chi2(e.post)))
         \cup Cl("chi2_recorded", Near(e.post.chi2, Chi2(e.post)))
    [] OTHER -> {}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
