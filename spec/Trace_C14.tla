------------------------------ MODULE Trace_C14 ------------------------------
(* C14: calibrators built from files and applied to lists of spectra, and      *)
(* what whole runs saved.                                                      *)
EXTENDS Calib, TraceLib
Ok(a, b) == NNear(a, b, "1e-8")
FrameOK(s, t, F) ==
  /\ Arms(s) = Arms(t) /\ s.keys = t.keys
  /\ s.snr = t.snr /\ s.rsnr = t.rsnr /\ s.x0 = t.x0 /\ s.valid = t.valid
  /\ s.chi2 = t.chi2
  /\ \A a \in Arms(s) :
       LET p == Ar(s, a)
           q == Ar(t, a) IN
       /\ p.wave = q.wave /\ p.cont = q.cont /\ p.reso = q.reso
       /\ q.ivsm \in {p.ivsm, q.ivar} /\ q.wt \in {p.wt, q.ivar}
       /\ Len(q.flux) = Len(p.flux) /\ Len(q.ivar) = Len(p.ivar)
       /\ "flux" \notin F => p.flux = q.flux
\* every arm and pixel of every spectrum
Pixels(e, P(_, _, _)) ==
  \A n \in DOMAIN e.pre : \A a \in Arms(e.pre[n]) :
    LET p == Ar(e.pre[n], a)
        q == Ar(e.post[n], a) IN
    \A k \in DOMAIN p.wave : P(p, q, k)
HasCont(s) == s.keys.cont # << >>
NoiseFails(e) ==
  LET se == TLCEval(Spl(FixT(e.eta)))
      sv == TLCEval(Spl(e.vl))
      Eta(w) == IF e.noeta THEN "1" ELSE At(se, w) IN
  IF e.add /\ \E n \in DOMAIN e.pre : ~HasCont(e.pre[n])
  THEN Cl("refused_without_continuum", e.out # "ok")
       \cup Cl("refused_without_change", e.pre = e.post)
  ELSE IF e.out # "ok" THEN {"enabled_step_raises"}
  ELSE IF Len(e.post) # Len(e.pre)
          \/ \E n \in DOMAIN e.pre : ~FrameOK(e.pre[n], e.post[n], {})
  THEN {"nothing_else_changes"}
  ELSE Cl("noise_factor_of_its_wavelength",
    Pixels(e, LAMBDA p, q, k :
      IF ~e.add THEN Ok(q.ivar[k], NoiseIvar(p.ivar[k], Eta(p.wave[k])))
      ELSE LET d == AddDen(p.ivar[k], Eta(p.wave[k]), At(sv, p.wave[k]),
                           p.cont[k]) IN
           IF NLt(NAbs(d), "1e-3") THEN TRUE
           ELSE Ok(q.ivar[k], AddIvar(p.ivar[k], Eta(p.wave[k]),
                                      At(sv, p.wave[k]), p.cont[k]))))
FluxFails(e) ==
  LET t == TLCEval(FixT(e.sf)) IN
  IF e.out # "ok" THEN {"enabled_step_raises"}
  ELSE IF Len(e.post) # Len(e.pre)
          \/ \E n \in DOMAIN e.pre : ~FrameOK(e.pre[n], e.post[n], {"flux"})
  THEN {"nothing_else_changes"}
  ELSE Cl("stacked_flux_of_its_wavelength",
    Pixels(e, LAMBDA p, q, k :
      LET s == LinEval(t, p.wave[k]) IN
      \* a table continued through zero: nothing but rounding is left of it
      \/ NLt(NAbs(s), "1e-3")
      \/ /\ Ok(q.flux[k], FluxFlux(p.flux[k], s))
         /\ Ok(q.ivar[k], FluxIvar(p.ivar[k], s))))
\* a saved arm of a run, against the raw data; e.noise/e.flux/e.add say which
\* calibrations the run was asked for
SavedFails(e) ==
  LET r == e.raw
      d == e.ent
      se == TLCEval(Spl(FixT(e.eta)))
      sv == TLCEval(Spl(e.vl))
      tf == TLCEval(FixT(e.sf))
      \* the noise factor fitted by the run itself (--eta-calib-ivar)
      sq == IF e.fitted = <<>> THEN <<>> ELSE TLCEval(Spl(e.fitted[1]))
      K == {k \in DOMAIN r.wave : d.lam # <<>> /\ r.wave[k] = d.lam[1]} IN
  IF K = {} \/ Len(d.ivar) # Len(d.lam) THEN {"saved_wavelengths"} ELSE
  LET k0 == CHOOSE k \in K : TRUE IN
  IF k0 + Len(d.lam) - 1 > Len(r.wave) THEN {"saved_wavelengths"} ELSE
  Cl("calibration_in_the_run",
     \A j \in DOMAIN d.lam :
       LET k == k0 + j - 1
           w == r.wave[k]
           s == IF e.flux THEN LinEval(tf, w) ELSE "1"
           eta == IF e.noise THEN At(se, w) ELSE "1"
           f == FluxFlux(CleanF(r.flux[k], r.ivar[k], r.mask[k]), s)
           i0 == FluxIvar(NoiseIvar(CleanI(r.flux[k], r.ivar[k], r.mask[k]),
                                    eta), s)
           i1 == IF e.fitted = <<>> THEN i0 ELSE NoiseIvar(i0, At(sq, w))
           i == IF e.add THEN AddIvar(i1, "1", At(sv, w), d.cont[j])
                ELSE i1 IN
       IF NZero(i1) THEN NZero(d.ivar[j]) /\ NZero(d.delta[j])
       ELSE /\ NNear(d.delta[j], NSub(NDiv(f, d.cont[j]), 1), "1e-7")
            /\ NNear(d.ivar[j], NMul(i, NSq(d.cont[j])), "1e-7"))
Fails(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "read" -> Cl("unequal_spacing_rejected",
                          (e.out = "ok") = EqualSpaced(e.wave))
    [] e.k = "noise" -> NoiseFails(e)
    [] e.k = "flux" -> FluxFails(e)
    [] e.k = "run" -> Cl("run_completes", e.out = "ok" /\ e.n > 0)
                         \cup Cl("fitted_factor_recorded",
                                 e.fit = (e.fitted # <<>>))
    [] e.k = "saved" -> SavedFails(e)
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
