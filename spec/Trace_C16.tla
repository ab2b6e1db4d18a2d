------------------------------ MODULE Trace_C16 ------------------------------
(* C16: sessions of decisions, saves, runs and coadds.                         *)
EXTENDS Blind, TraceLib
VARIABLE dec
Decision(e) ==
  CASE e.k = "begin" -> "unset"
    [] e.k = "set" -> IF e.out = "ok" THEN Strategy(e) ELSE dec
    [] OTHER -> dec
\* latest night over all processes' shares
Latest(s) == LET S == SeqSet(s) IN CHOOSE n \in S : \A m \in S : m <= n
RunStrategy(e) == Strategy([mock |-> e.mock, w1 |-> e.w1,
                            night |-> IF e.mock THEN 0 ELSE Latest(e.nights)])
AllOK(e, st) == \A i \in DOMAIN e.ents :
                  EntryOK(SeqSet(e.ents[i].cols), e.ents[i].hdr, st)
CoaddFails(e) ==
  LET B == {i \in DOMAIN e.ins : e.ins[i].blind} IN
  IF Len(e.outs) # 1 THEN {"coadd_stays_blinded"} ELSE
  LET o == e.outs[1] IN
  Cl("coadd_stays_blinded", o.blind = (B # {}))
  \cup Cl("coadd_strategy_in_header",
          \E i \in DOMAIN e.ins : (B = {} \/ i \in B)
             /\ o.strategy = e.ins[i].strategy)
Fails(e) ==
  CASE e.k = "begin" -> {}
    [] e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "set" -> Cl("enabled_step_raises", e.out = "ok")
    [] e.k = "save" ->
         IF dec = "unset"
         THEN Cl("nothing_written_before_decision",
                 e.out # "ok" /\ e.ents = << >>)
         ELSE Cl("enabled_step_raises", e.out = "ok")
              \cup Cl("every_spectrum_written",
                      e.out = "ok" => Len(e.ents) = e.n)
              \cup Cl("blinding_of_written_contrasts", AllOK(e, dec))
    [] e.k = "run" -> Cl("run_completes", e.out = "ok" /\ e.ents # << >>)
                      \cup Cl("blinding_in_the_run", AllOK(e, RunStrategy(e)))
    [] e.k = "target" -> CoaddFails(e)
    [] OTHER -> {}
TraceSpec == /\ TraceInit /\ dec = "unset"
             /\ [][(l <= Len(T) /\ TraceStep(Fails(T[l]))
                    /\ dec' = Decision(T[l]))
                   \/ (TraceEnd /\ UNCHANGED dec)]_<<l, bad, dec>>
=============================================================================
