------------------------------ MODULE Trace_C11 ------------------------------
(* C11: coadding the arms of the full spectrum and of the forest.             *)
EXTENDS Coadd, TraceLib
\* the full spectrum before, with inverse variance as weight
Simple(e) == [i \in DOMAIN e.pre |->
   [wave |-> e.pre[i].wave, flux |-> e.pre[i].flux, ivar |-> e.pre[i].ivar,
    w |-> e.pre[i].ivar, reso |-> e.pre[i].reso]]
Forest1(s) == [i \in DOMAIN s.forest |->
   [wave |-> s.forest[i].wave, flux |-> s.forest[i].flux,
    ivar |-> s.forest[i].ivar, w |-> s.forest[i].wt,
    cont |-> s.forest[i].cont, reso |-> s.forest[i].reso]]
Common(f, t, dw) ==
   LET n == Len(t.wave) IN
   IF Len(t.flux) # n \/ Len(t.ivar) # n THEN {"same_length"} ELSE
   LET C == AllC(f, n, dw) IN
   Cl("uniform_grid", GridOK(t.wave, f, dw))
   \cup Cl("no_pixel_lost", NothingLost(f, n, dw))
   \cup Cl("weighted_mean", FluxOK(f, t, C))
   \cup Cl("defined", Finite(t.flux) /\ Finite(t.ivar)
                      /\ \A k \in DOMAIN t.reso : Finite(t.reso[k]))
   \cup (IF f[1].reso = <<>> THEN Cl("resolution_absent", t.reso = <<>>)
         ELSE IF Len(t.reso) # n THEN {"resolution_length"}
         ELSE Cl("resolution_mean", ResoOK(f, t, C)))
SimpleFails(e) ==
   IF Len(e.full) # 1 THEN {"one_arm"}
   ELSE Cl("one_arm", e.full[1].arm = "brz")
        \cup Common(Simple(e), e.full[1], e.dw)
CoaddFails(e) ==
   LET s == T[l - 1].post
       p == e.post
       f == Forest1(s) IN
   IF Len(p.forest) # 1 THEN {"one_arm"} ELSE
   LET t == p.forest[1]
       n == Len(t.wave) IN
   Cl("one_arm", t.arm = "brz" /\ KeysAgree(p))
   \cup Common(f, t, e.dw)
   \cup (IF Len(t.ivsm) # n \/ Len(t.wt) # n THEN {"same_length"} ELSE
         Cl("weights", WeightsOK(p, e.a.vl, e.a.eta))
         \cup Cl("smoothing_of_coadded_arm",
                 ZeroStaysZero(p) /\ SeqNear(t.ivsm, e.ret)
                 /\ (e.scale = "0" => t.ivsm = t.ivar))
         \cup Cl("defined", Finite(t.ivsm) /\ Finite(t.wt)
                            /\ Finite(t.cont)))
   \cup (IF s.keys.cont = <<>> THEN Cl("no_continuum", t.cont = <<>>)
         ELSE IF Len(t.cont) # n THEN {"continuum_length"}
         ELSE Cl("continuum", ContOK(f, t, AllC(f, n, e.dw))))
   \cup Cl("signal_to_noise", Len(p.snr) = 1 /\ p.snr[1].arm = "brz"
                              /\ Near(p.snr[1].v, ArmSnr(t)))
Fails(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "coadd" -> IF e.out # "ok" THEN {"enabled_step_raises"}
                        ELSE IF ~LengthsAgree(T[l - 1].post) THEN {}
                        ELSE CoaddFails(e)
    [] e.k = "simple" -> IF e.out # "ok" THEN {"enabled_step_raises"}
                         ELSE SimpleFails(e)
    [] OTHER -> {}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
