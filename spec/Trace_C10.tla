------------------------------ MODULE Trace_C10 ------------------------------
(* C10: alignment of all arrays and the frame of every step.                  *)
EXTENDS Forest, TraceLib
Pre == T[l - 1].post
Sub(q, i, j) == IF q = <<>> THEN <<>>
                ELSE IF j > Len(q) THEN << "short" >> ELSE SubSeq(q, i, j)

DropSet(e) ==
    {a \in Arms(Pre) :
       Cardinality(Good(Ar(Pre, a).ivar))
         < NTrunc(ShortAt(e.z, e.dw, e.a)) + 1}
FrameFails(e) ==
  LET s == Pre
      t == e.post IN
  CASE e.k = "slice" ->
         LET a == e.a.arm IN
         Cl("slice_other_arms", OthersSame(s, t, {a}) /\ Arms(s) = Arms(t))
         \cup Cl("slice_same_pixels",
                 a \in Arms(t) /\ \A f \in Fields :
                   Ar(t, a)[f] = Sub(Ar(s, a)[f], e.a.i1 + 1, e.a.i2))
    [] e.k = "drop" ->
         Cl("drop_exactly_that_arm",
            Arms(t) = Arms(s) \ {e.a.arm} /\ OthersSame(s, t, {e.a.arm}))
    [] e.k = "dropshort" ->
         IF Risky(ShortAt(e.z, e.dw, e.a)) THEN {}
         ELSE Cl("drop_exactly_short_arms",
                 Arms(t) = Arms(s) \ DropSet(e)
                 /\ OthersSame(s, t, DropSet(e)))
    [] e.k = "forget" -> Cl("forget_keeps_forest", SameExcept(s, t, {}))
    [] e.k = "sky" ->
         Cl("mask_frame", SameExcept(s, t, {"flux", "ivar", "ivsm", "wt"}))
         \cup Cl("mask_only_zeroes",
               \A a \in Arms(s) \cap Arms(t) :
                 \A k \in DOMAIN Ar(s, a).flux :
                   \/ Ar(s, a).flux[k] = Ar(t, a).flux[k]
                      /\ Ar(s, a).ivar[k] = Ar(t, a).ivar[k]
                   \/ NZero(Ar(t, a).flux[k]) /\ NZero(Ar(t, a).ivar[k]))
    [] e.k = "noisecal" ->
         Cl("noise_frame", SameExcept(s, t, {"ivar", "ivsm", "wt"}))
    [] e.k = "addnoise" ->
         Cl("noise_frame", SameExcept(s, t, {"ivar", "ivsm", "wt"}))
    [] e.k = "fluxcal" ->
         Cl("flux_frame", SameExcept(s, t, {"flux", "ivar", "ivsm", "wt"}))
    [] e.k = "smooth" ->
         Cl("smooth_frame", SameExcept(s, t, {"ivsm", "wt"}))
         \cup Cl("smooth_sets_weight",
                 \A i \in DOMAIN t.forest : t.forest[i].wt = t.forest[i].ivsm)
    [] e.k = "cont" -> {}
    [] e.k = "weight" -> Cl("weight_frame", SameExcept(s, t, {"wt"}))
    [] e.k = "chi2" -> Cl("chi2_frame", SameExcept(s, t, {}))
    [] e.k = "coadd" ->
         Cl("coadd_one_arm", Len(t.forest) = 1 /\ Arms(t) = {"brz"})
         \cup Cl("coadd_keeps_kinds",
                 ((s.keys.cont # <<>>) <=> (t.keys.cont # <<>>))
                 /\ ((s.keys.reso # <<>>) <=> (t.keys.reso # <<>>)))
    [] OTHER -> {}
\* before smoothing, the smoothed noise and the weight are the noise itself
Shared(e) == e.phase = 1 /\ e.k # "coadd" =>
    \A i \in DOMAIN e.post.forest :
      e.post.forest[i].ivsm = e.post.forest[i].ivar
      /\ e.post.forest[i].wt = e.post.forest[i].ivar
\* work on the forest leaves the full spectrum, from which another region can
\* be selected, as it was
FullKept(e) == ("full" \in DOMAIN e /\ e.k # "simple"
                /\ "full" \in DOMAIN T[l - 1]) => e.full = T[l - 1].full
Fails(e) ==
  IF e.k = "crash" THEN {"enabled_step_raises"}
  ELSE IF e.k = "new" THEN {}
  ELSE IF e.out # "ok" THEN {"enabled_step_raises"}
  ELSE Cl("same_arms", KeysAgree(e.post))
       \cup Cl("same_length", LengthsAgree(e.post))
       \cup Cl("increasing_wavelength", Increasing(e.post))
       \cup Cl("unsmoothed_is_ivar", Shared(e))
       \cup Cl("full_spectrum_kept", FullKept(e))
       \cup (IF KeysAgree(Pre) /\ LengthsAgree(Pre) /\ KeysAgree(e.post)
                /\ LengthsAgree(e.post) THEN FrameFails(e) ELSE {})
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
