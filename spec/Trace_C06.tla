------------------------------ MODULE Trace_C06 ------------------------------
(***************************************************************************)
(* C06: bad pixels never contribute.  A trace is one history of steps, and  *)
(* in a twin event the same history started from data that differ only in   *)
(* the values of bad pixels.                                                *)
(***************************************************************************)
EXTENDS Forest, TraceLib
Raw(e, a) == e.a.raw[CHOOSE i \in DOMAIN e.a.raw : e.a.raw[i].arm = a]
Cleaned(e) ==
  \A i \in DOMAIN e.full :
    LET f == e.full[i]
        r == Raw(e, f.arm) IN
    /\ Len(f.flux) = Len(r.flux) /\ Len(f.ivar) = Len(r.ivar)
    /\ \A k \in DOMAIN r.flux :
         /\ NEq(f.flux[k], CleanF(r.flux[k], r.ivar[k], r.mask[k]))
         /\ NEq(f.ivar[k], CleanI(r.flux[k], r.ivar[k], r.mask[k]))
\* a pixel without inverse variance never gets one back
NeverRevived(s, t) ==
  \A a \in Arms(s) \cap Arms(t) :
    \A j \in DOMAIN Ar(s, a).ivar : NZero(Ar(s, a).ivar[j]) =>
      \A k \in DOMAIN Ar(t, a).ivar :
        (j \in DOMAIN Ar(s, a).wave /\ k \in DOMAIN Ar(t, a).wave
         /\ Ar(s, a).wave[j] = Ar(t, a).wave[k])
           => NZero(Ar(t, a).ivar[k])
SavedOK(d) == \A i \in DOMAIN d : \A k \in DOMAIN d[i].ivar :
    NZero(d[i].ivar[k]) =>
      /\ NZero(d[i].weight[k])
      /\ d[i].delta # <<>> => NZero(d[i].delta[k])
      /\ d[i].blind # <<>> => NZero(d[i].blind[k])
SameButBadFlux(s, t) ==
  /\ Arms(s) = Arms(t) /\ s.keys = t.keys /\ s.valid = t.valid
  /\ Near(s.chi2, t.chi2) /\ Near(s.rsnr, t.rsnr) /\ Near(s.x0, t.x0)
  /\ Len(s.snr) = Len(t.snr)
  /\ \A i \in DOMAIN s.snr : s.snr[i].arm = t.snr[i].arm
                             /\ Near(s.snr[i].v, t.snr[i].v)
  /\ \A a \in Arms(s) :
       LET p == Ar(s, a)
           q == Ar(t, a) IN
       /\ p.wave = q.wave /\ SeqNear(p.ivar, q.ivar)
       /\ SeqNear(p.ivsm, q.ivsm) /\ SeqNear(p.wt, q.wt)
       /\ SeqNear(p.cont, q.cont) /\ Len(p.reso) = Len(q.reso)
       /\ \A k \in DOMAIN p.reso : SeqNear(p.reso[k], q.reso[k])
       /\ Len(p.flux) = Len(q.flux)
       /\ \A k \in DOMAIN p.flux :
            k \in DOMAIN p.ivar /\ NPos(p.ivar[k])
              => Near(p.flux[k], q.flux[k])
SameEntry(p, q) ==
  /\ p.file = q.file /\ p.ext = q.ext /\ p.cols = q.cols
  /\ SeqNear(p.lam, q.lam) /\ SeqNear(p.delta, q.delta)
  /\ SeqNear(p.blind, q.blind) /\ SeqNear(p.ivar, q.ivar)
  /\ SeqNear(p.weight, q.weight) /\ SeqNear(p.cont, q.cont)
  /\ DOMAIN p.hdr = DOMAIN q.hdr
  /\ \A k \in {"MEANSNR", "RSNR", "MEANRESO"} \cap DOMAIN p.hdr :
       Near(p.hdr[k], q.hdr[k])
SameSaved(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : SameEntry(p[i], q[i])
Num1(x, y) == IF NIsNum(x) \/ NIsNum(y) THEN Near(x, y) ELSE x = y
SameRow(p, q) ==
  /\ DOMAIN p = DOMAIN q
  /\ p.TARGETID = q.TARGETID /\ p.ARMS = q.ARMS
  /\ p.CONT_valid = q.CONT_valid /\ p.CONT_dof = q.CONT_dof
  /\ Num1(p.CONT_chi2, q.CONT_chi2) /\ Num1(p.RSNR, q.RSNR)
  /\ SeqNear(p.CONT_x, q.CONT_x) /\ SeqNear(p.MEANSNR, q.MEANSNR)
\* an undefined number must be undefined in both
NumSeq(p, q) == Len(p) = Len(q) /\ \A k \in DOMAIN p : Num1(p[k], q[k])
SameTable(p, q) ==
  /\ p.ext = q.ext /\ Len(p.cols) = Len(q.cols)
  /\ \A i \in DOMAIN p.cols : p.cols[i].name = q.cols[i].name
                              /\ NumSeq(p.cols[i].v, q.cols[i].v)
RunFails(e) ==
  IF e.outa # "ok" \/ e.outb # "ok" THEN {"run_fails"} ELSE
  Cl("saved_zero", SavedOK(e.a.deltas))
  \cup Cl("something_saved", e.a.deltas # <<>>)
  \cup Cl("run_deltas_independent", SameSaved(e.a.deltas, e.b.deltas))
  \cup Cl("run_catalogue_independent",
          Len(e.a.chi2) = Len(e.b.chi2)
          /\ \A i \in DOMAIN e.a.chi2 : SameRow(e.a.chi2[i], e.b.chi2[i]))
  \cup Cl("run_attributes_independent",
          Len(e.a.attr) = Len(e.b.attr)
          /\ \A i \in DOMAIN e.a.attr : SameTable(e.a.attr[i], e.b.attr[i]))
StepFails(e) ==
  Cl("zero_smoothed_and_weight", ZeroStaysZero(e.post))
  \cup (IF e.k \in {"coadd", "new", "region"} THEN {}
        ELSE Cl("never_revived", NeverRevived(T[l - 1].post, e.post)))
  \cup (IF e.k # "save" THEN {} ELSE Cl("saved_zero", SavedOK(e.ret)))
Fails(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "run" -> RunFails(e)
    [] e.k = "twin" ->
         IF Len(e.a) # Len(e.b) THEN {"twin_diverges"}
         ELSE UNION {
           IF e.a[i].k # e.b[i].k \/ e.a[i].out # e.b[i].out
           THEN {"twin_diverges"}
           ELSE Cl("value_influences_state",
                   SameButBadFlux(e.a[i].post, e.b[i].post))
                \cup (IF e.a[i].k # "save" THEN {}
                      ELSE Cl("value_influences_output",
                              SameSaved(e.a[i].ret, e.b[i].ret)))
                \cup (IF e.a[i].k # "chi2" THEN {}
                      ELSE Cl("value_influences_chi2",
                              Near(e.a[i].ret, e.b[i].ret)))
           : i \in DOMAIN e.a}
    [] e.out # "ok" -> {"enabled_step_raises"}
    [] e.k = "new" -> Cl("cleaned_when_read", Cleaned(e))
    [] OTHER -> StepFails(e)
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
