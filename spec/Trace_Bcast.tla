----------------------------- MODULE Trace_Bcast -----------------------------
(* Recorded delegated calls against Bcast.                                    *)
(* call: what, size (0 = without communicator), work, errkind, res            *)
EXTENDS TraceLib
B == INSTANCE Bcast WITH MaxRanks <- 1, Values <- {}, ShareErrors <- TRUE,
       n <- 1, work <- << >>, pc <- << >>, box <- << >>, res <- << >>
CallFails(e) ==
  Cl("nobody_waits", B!NobodyWaits(e.res))
  \cup Cl("same_outcome_everywhere", B!SameOutcome(e.res))
  \cup Cl("outcome_of_the_work", B!RightOutcome(e.res, e.work, e.errkind))
  \cup Cl("only_main_process_works", B!OnlyMainWorks(e.res))
  \cup Cl("everyone_reports", Len(e.res) = IF e.size = 0 THEN 1 ELSE e.size)
Fails(e) == CASE e.k = "call" -> CallFails(e)
              [] OTHER -> {"unknown_event"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
