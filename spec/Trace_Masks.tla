----------------------------- MODULE Trace_Masks -----------------------------
(* C08 and C09: what masks did to spectra, directly and in whole runs.        *)
EXTENDS Masks, TraceLib
TOLM == "1e-6"
\* the other quantities
Frame(s, t) ==
  /\ Arms(s) = Arms(t) /\ s.keys = t.keys
  /\ s.snr = t.snr /\ s.rsnr = t.rsnr /\ s.x0 = t.x0 /\ s.valid = t.valid
  /\ \A a \in Arms(s) :
       LET p == Ar(s, a)
           q == Ar(t, a) IN
       /\ p.wave = q.wave /\ p.cont = q.cont /\ p.reso = q.reso
       /\ q.ivsm \in {p.ivsm, q.ivar} /\ q.wt \in {p.wt, q.ivar}
       /\ Len(q.flux) = Len(p.flux) /\ Len(q.ivar) = Len(p.ivar)
SkyFails(e, s, t) ==
  Cl("exactly_the_listed_wavelengths",
     \A a \in Arms(s) : \A k \in DOMAIN Ar(s, a).wave :
       LET w == Ar(s, a).wave[k] IN
       IF SkyUnclear(w, e.z, e.sky) THEN TRUE
       ELSE IF SkyMasked(w, e.z, e.sky)
       THEN NZero(Ar(t, a).flux[k]) /\ NZero(Ar(t, a).ivar[k])
       ELSE Ar(t, a).flux[k] = Ar(s, a).flux[k]
            /\ Ar(t, a).ivar[k] = Ar(s, a).ivar[k])
BalFails(e, s, t) ==
  LET B == TLCEval(BalIntervals(e.z, e.bal)) IN
  Cl("exactly_the_velocity_intervals",
     \A a \in Arms(s) : \A k \in DOMAIN Ar(s, a).wave :
       LET w == Ar(s, a).wave[k] IN
       IF BalUnclear(w, B) THEN TRUE
       ELSE IF BalMasked(w, B)
       THEN NZero(Ar(t, a).flux[k]) /\ NZero(Ar(t, a).ivar[k])
       ELSE Ar(t, a).flux[k] = Ar(s, a).flux[k]
            /\ Ar(t, a).ivar[k] = Ar(s, a).ivar[k])
DlaPixelOK(e, w, f, i, f2, i2) ==
  LET T1 == TLCEval(Transmission(w, e.z, e.dla)) IN
  IF e.dla = <<>> THEN f2 = f /\ i2 = i
  ELSE IF DlaUnclear(w, e.z, T1, e.limit) THEN TRUE
  ELSE IF NLt(T1, e.limit) THEN NZero(f2) /\ NZero(i2)
  ELSE NNear(f2, NDiv(f, T1), TOLM) /\ NNear(i2, NMul(i, NSq(T1)), TOLM)
       /\ NNear(NMul(NSq(f2), i2), NMul(NSq(f), i), TOLM)
DlaFails(e, s, t) ==
  Cl("own_absorbers_only",
     \A a \in Arms(s) : \A k \in DOMAIN Ar(s, a).wave :
       DlaPixelOK(e, Ar(s, a).wave[k], Ar(s, a).flux[k], Ar(s, a).ivar[k],
                  Ar(t, a).flux[k], Ar(t, a).ivar[k]))
\* one saved arm of a run, against the raw data: e.raw, e.ent
SavedFails(e) ==
  LET r == e.raw
      d == e.ent
      B == TLCEval(BalIntervals(e.z, e.bal))
      K == {k \in DOMAIN r.wave : d.lam # <<>> /\ r.wave[k] = d.lam[1]} IN
  IF K = {} \/ Len(d.ivar) # Len(d.lam) THEN {"saved_wavelengths"} ELSE
  LET k0 == CHOOSE k \in K : TRUE IN
  IF k0 + Len(d.lam) - 1 > Len(r.wave) THEN {"saved_wavelengths"} ELSE
  Cl("masks_in_the_run",
     \A j \in DOMAIN d.lam :
       LET k == k0 + j - 1
           w == r.wave[k]
           f == CleanF(r.flux[k], r.ivar[k], r.mask[k])
           i == CleanI(r.flux[k], r.ivar[k], r.mask[k])
           f2 == NMul(NAdd(1, d.delta[j]), d.cont[j])
           i2 == NDiv(d.ivar[j], NSq(d.cont[j])) IN
       IF SkyUnclear(w, e.z, e.sky) \/ BalUnclear(w, B) THEN TRUE
       ELSE IF NZero(i) \/ SkyMasked(w, e.z, e.sky) \/ BalMasked(w, B)
       THEN NZero(d.ivar[j]) /\ NZero(d.delta[j])
       ELSE IF e.dla = <<>> THEN NNear(f2, f, TOLM) /\ NNear(i2, i, TOLM)
       ELSE LET T1 == TLCEval(Transmission(w, e.z, e.dla)) IN
            IF DlaUnclear(w, e.z, T1, e.limit) THEN TRUE
            ELSE IF NLt(T1, e.limit) THEN NZero(d.ivar[j]) /\ NZero(d.delta[j])
            ELSE NNear(f2, NDiv(f, T1), TOLM)
                 /\ NNear(i2, NMul(i, NSq(T1)), TOLM))
Both(e) == e.post
Fails(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "start" -> {}
    [] e.k = "run" -> Cl("run_completes", e.out = "ok" /\ e.n > 0)
    [] e.k = "saved" -> SavedFails(e)
    [] e.out # "ok" -> {"enabled_step_raises"}
    [] ~Frame(T[l - 1].post, e.post) -> {"nothing_else_changes"}
    [] e.k = "sky" -> SkyFails(e, T[l - 1].post, e.post)
    [] e.k = "bal" -> BalFails(e, T[l - 1].post, e.post)
    [] e.k = "dla" -> DlaFails(e, T[l - 1].post, e.post)
                      \cup Cl("restriction_is_harmless", e.post = e.post2)
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
