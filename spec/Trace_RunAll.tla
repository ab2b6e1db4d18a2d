---------------------------- MODULE Trace_RunAll ----------------------------
(* run: script, size, argv, res (per process: kind, name), logs (per process *)
(* the sequence of collectives), mustok, mustfail                            *)
EXTENDS TraceLib
R == INSTANCE RunAll WITH MaxRanks <- 1, Iterations <- 1,
       LocalDecision <- FALSE, Aborts <- TRUE, fault <- FALSE, n <- 1, o <- << >>, share <- << >>,
       todo <- << >>, pend <- << >>, it <- 1, end <- << >>
RunFails(e) ==
  Cl("no_process_left_waiting", R!NobodyStuck(e.res))
  \cup Cl("same_collective_sequence", R!SameSchedule(e.logs))
  \cup Cl("same_end_everywhere", R!SameEnd(e.res))
  \cup Cl("orderly_end", R!OrderlyEnd(e.res))
  \cup Cl("completes", e.mustok => \A r \in DOMAIN e.res :
                                     e.res[r].kind = "ok")
  \cup Cl("no_valid_continuum_is_an_error",
          e.mustfail => \A r \in DOMAIN e.res : e.res[r].kind = "raise")
\* the main programs: expect = what the input is
MainFails(e) ==
  Cl("no_process_left_waiting",
     \A r \in DOMAIN e.res : e.res[r].kind \notin {"stuck", "died"})
  \cup Cl("main_outcome",
     CASE e.expect = "ok" -> R!MainOK(e.res)
       [] e.expect = "error" -> R!MainError(e.res)
       [] e.expect = "fault" -> R!MainTornDown(e.res))
Fails(e) == CASE e.k = "main" -> MainFails(e)
              [] e.k = "run" -> RunFails(e)
              [] OTHER -> {"unknown_event"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
