------------------------------ MODULE Trace_C07 ------------------------------
(* C07: the forest region and the averages over it.                           *)
EXTENDS Forest, TraceLib
\* the full spectrum as it was made, whatever was done to a forest since
FullArm(e, a) == e.full0[CHOOSE i \in DOMAIN e.full0 : e.full0[i].arm = a]
Want(e) == {a \in {e.full0[i].arm : i \in DOMAIN e.full0} :
              LET f == FullArm(e, a) IN
              \E k \in RegionPix(f.wave, e.z, e.a) : NPos(f.ivar[k])}
RegionFails(e) ==
  LET t == e.post IN
  Cl("exact_arms", Arms(t) = Want(e) /\ KeysAgree(t))
  \cup Cl("exact_pixels",
       \A a \in Arms(t) \cap Want(e) :
         LET f == FullArm(e, a)
             S == RegionPix(f.wave, e.z, e.a) IN
         /\ Ar(t, a).wave = Cut(f.wave, S) /\ Ar(t, a).flux = Cut(f.flux, S)
         /\ Ar(t, a).ivar = Cut(f.ivar, S)
         /\ f.reso # <<>> => Ar(t, a).reso = Cut(f.reso, S))
  \cup (IF Arms(t) # Want(e) \/ ~LengthsAgree(t) THEN {} ELSE
        Cl("arm_signal_to_noise",
           {t.snr[i].arm : i \in DOMAIN t.snr} = Arms(t) /\
           \A a \in Arms(t) : Near(Scal(t.snr, a), ArmSnr(Ar(t, a))))
        \cup Cl("start_amplitude", Near(t.x0, Amplitude(t)))
        \cup Cl("effective_snr", Near(e.ret, EffSnr(t.snr))))
  \cup Cl("red_side_unchanged", t.rsnr = T[l - 1].post.rsnr)
Fails(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "new" -> Cl("red_side_snr", Near(e.post.rsnr,
                                              RedSnr(e.full, e.z)))
    [] e.k = "region" -> IF e.out # "ok" THEN {"enabled_step_raises"}
                         ELSE RegionFails(e)
    [] OTHER -> {}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
