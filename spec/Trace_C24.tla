------------------------------ MODULE Trace_C24 ------------------------------
(* C24: lives of real stackers on several processes, and the stacks in the     *)
(* attributes of whole runs against the contrasts the same runs save.          *)
EXTENDS Stack, TraceLib
RECURSIVE Cat(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Cat(Tail(ss))
\* --- one life of a stacker: adds on all processes
Life(e) ==
  IF e.out # "ok" THEN {"enabled_step_raises"} ELSE
  LET N == DOMAIN e.adds
      w == TLCEval(Cat([n \in N |-> e.adds[n].wave]))
      r == TLCEval(Cat([n \in N |-> e.adds[n].rf]))
      x == TLCEval(Cat([n \in N |-> e.adds[n].w]))
      wf == TLCEval(Cat([n \in N |-> e.adds[n].f]))
      wc == TLCEval(Cat([n \in N |-> e.adds[n].c]))
      O == StackOf(e.obs, TLCEval([i \in DOMAIN w |-> GBin(e.obs, w[i])]),
                   wf, x)
      R == StackOf(e.rest, TLCEval([i \in DOMAIN r |-> GBin(e.rest, r[i])]),
                   wc, x)
      Tab == [x0 |-> Center(e.obs, 1), dx |-> e.obs.dw,
              f |-> [k \in 1..e.obs.n |-> O[k].v]] IN
  UNION {
    LET s == e.res[p] IN
    Cl("observed_stack_is_weighted_mean_in_its_bin",
       SeqNear(s.flux, [k \in 1..e.obs.n |-> O[k].v]))
    \cup Cl("weights_add_up", SeqNear(s.weights, [k \in 1..e.obs.n |-> O[k].w]))
    \cup Cl("rest_stack_is_weighted_mean_in_its_bin",
       SeqNear(s.rf, [k \in 1..e.rest.n |-> R[k].v]))
    \cup Cl("rest_error_is_propagated",
       SeqNear(s.std, [k \in 1..e.rest.n |-> IF NZero(R[k].w) THEN "0"
                          ELSE NDiv(1, NSqrt(R[k].w))]))
    \cup Cl("call_is_the_stack_at_that_wavelength",
       /\ Len(s.call) = Len(e.at)
       /\ \A i \in DOMAIN e.at : Near(s.call[i], LinEval(Tab, e.at[i])))
    : p \in DOMAIN e.res}
\* --- whole runs
\* all saved pixels of a run against its stacks
Pixels(ents) ==
  [w |-> TLCEval(Cat([n \in DOMAIN ents |-> ents[n].lam])),
   r |-> TLCEval(Cat([n \in DOMAIN ents |-> TLCEval(
           [i \in DOMAIN ents[n].lam |->
              NDiv(ents[n].lam[i], NAdd(1, ents[n].z))])])),
   x |-> TLCEval(Cat([n \in DOMAIN ents |-> ents[n].weight])),
   f |-> TLCEval(Cat([n \in DOMAIN ents |-> TLCEval(
           [i \in DOMAIN ents[n].delta |-> NAdd(1, ents[n].delta[i])])])),
   c |-> TLCEval(Cat([n \in DOMAIN ents |-> ents[n].cont]))]
\* pixels without weight are in no stack (their contrast is not saved)
StacksFail(e, ents, flux, rf, std, names) ==
  LET px == TLCEval(Pixels(ents))
      O == StackOf(e.obs, TLCEval([i \in DOMAIN px.w |-> GBin(e.obs, px.w[i])]),
                   px.f, px.x)
      R == StackOf(e.rest,
                   TLCEval([i \in DOMAIN px.r |-> GBin(e.rest, px.r[i])]),
                   IF e.residual THEN px.f ELSE px.c, px.x) IN
  \* variance functions fitted to few sightlines may extrapolate below zero
  IF \E i \in DOMAIN px.x : NLt(px.x[i], 0) THEN {} ELSE
  Cl(names[1],
     (\E i \in DOMAIN px.w : GRisky(e.obs, px.w[i]))
     \/ NSeqNear(flux, [k \in 1..e.obs.n |-> O[k].v], "1e-8"))
  \cup (IF \E i \in DOMAIN px.r : GRisky(e.rest, px.r[i]) THEN {} ELSE
     Cl(names[2],
       /\ NSeqNear(rf, [k \in 1..e.rest.n |-> R[k].v], "1e-8")
       /\ NSeqNear(std, [k \in 1..e.rest.n |-> IF NZero(R[k].w) THEN "0"
                          ELSE NDiv(1, NSqrt(R[k].w))], "1e-8")))
\* the same run with the stack forced to one
Forced(e) ==
  LET F == TLCEval(Filled(e.obs, e.flux))
      Empty(k) == k < 1 \/ k > e.obs.n \/ NZero(e.flux[k])
      Twin(d) == {j \in DOMAIN e.norm : e.norm[j].ext = d.ext}
      One(c0, c1, w) ==
        LET k == Piece(F, w) IN
        IF ~Empty(k) /\ ~Empty(k + 1)
        THEN NNear(c1, NMul(c0, LinEval(F, w)), "1e-7")
        ELSE IF Empty(k) /\ Empty(k + 1) THEN NNear(c1, c0, "1e-7")
        ELSE TRUE
      Of(d, b) == /\ Len(b.cont) = Len(d.cont)
                  /\ \A i \in DOMAIN d.lam : One(d.cont[i], b.cont[i], d.lam[i])
  IN
  Cl("same_spectra_either_way", Len(e.norm) = Len(e.ents)
      /\ \A n \in DOMAIN e.ents : Cardinality(Twin(e.ents[n])) = 1)
  \cup Cl("continua_multiplied_by_the_stack",
     \A n \in DOMAIN e.ents : \A j \in Twin(e.ents[n]) :
        Of(e.ents[n], e.norm[j]))
Run(e) ==
  IF e.out # "ok" THEN {"run_completes"} ELSE
  StacksFail(e, e.ents, e.flux, e.rf, e.std,
     << "observed_stack_of_all_valid_spectra",
        "rest_stack_of_all_valid_spectra" >>)
  \cup (IF e.norm = << >> THEN {} ELSE Forced(e)
        \cup (IF e.fflux = << >> THEN {} ELSE
          StacksFail(e, e.norm, e.fflux, e.frf, e.fstd,
            << "stack_after_forcing", "rest_stack_after_forcing" >>)))
  \cup Cl("something_saved", e.ents # << >>)
Fails(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "fresh" -> Cl("initially_one", \A i \in DOMAIN e.call :
                              Near(e.call[i], 1))
    [] e.k = "life" -> Life(e)
    [] e.k = "run" -> Run(e)
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
