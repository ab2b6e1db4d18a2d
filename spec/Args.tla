-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* Options of a fitting run.  o: model ("unset", "picca", "true", "input":  *)
(* --continuum-model), true (--true-continuum), dir (an input continuum     *)
(* directory), mock, tile, hpx (--save-by-hpx), exp ("unset", "disable",    *)
(* "before", "after"), mf, vl (fiducial mean flux, variance), wave, forest  *)
(* (how the upper limit compares to the lower: "above", "equal", "below",   *)
(* "nan"), skip ("unset", "in", "zero", "one", "low", "high", "nan",        *)
(* "text").                                                                 *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
WantsTrue(o) == o.true \/ o.model = "true"
WantsInput(o) == o.dir \/ o.model = "input"
Consistent(o) ==
  /\ WantsTrue(o) => o.mock /\ o.mf /\ o.vl /\ ~WantsInput(o)
  /\ o.wave = "above" /\ o.forest = "above"
  /\ o.tile => ~o.mock /\ ~o.hpx /\ o.exp \in {"unset", "disable"}
  /\ o.skip \in {"unset", "in", "zero", "one"}
\* an input continuum without its directory is left open
Open(o) == o.model = "input" /\ ~o.dir
Model(o) == IF WantsTrue(o) THEN "true" ELSE IF WantsInput(o) THEN "input"
            ELSE "picca"
=============================================================================
