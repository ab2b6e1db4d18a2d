------------------------------- MODULE RunAll -------------------------------
(***************************************************************************)
(* A complete run as seen by the communicator: every process walks through  *)
(* the same program of collective operations.  Decisions that change the    *)
(* program (error, convergence) are taken from globally reduced values; a   *)
(* process's own share of the data (which may be empty) is not allowed to   *)
(* matter.  LocalDecision = TRUE is the broken variant in which a process   *)
(* without data skips the statistics.  An unexpected error (unreadable      *)
(* file, full disk) may strike a single process at any point; the script     *)
(* then ends every process.  Aborts = FALSE is the broken variant in which   *)
(* only the struck process ends.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxRanks, Iterations, LocalDecision, Aborts

(* ---- what must hold of recorded runs ---- *)
SameSchedule(logs) == \A r, s \in DOMAIN logs : logs[r] = logs[s]
NobodyStuck(res) == \A r \in DOMAIN res :
                      res[r].kind \notin {"stuck", "died", "abort"}
SameEnd(res) == \A r, s \in DOMAIN res :
                  res[r].kind = res[s].kind /\ res[r].name = res[s].name
\* the only errors a run on readable data may end with
OrderlyEnd(res) == \A r \in DOMAIN res :
                     \/ res[r].kind = "ok"
                     \/ res[r].kind = "raise" /\ res[r].name = "QsonicException"
\* as the main programs report it: everyone succeeded, everyone left with an
\* error status, or the run was torn down
MainOK(res) == \A r \in DOMAIN res : res[r].kind = "ok"
MainError(res) == \A r \in DOMAIN res :
                    res[r].kind = "exit" /\ res[r].name \notin {"0", "None"}
MainTornDown(res) == \/ MainError(res)
                     \/ /\ \E r \in DOMAIN res : res[r].kind = "abort"
                        /\ \A r \in DOMAIN res : res[r].kind \in {"abort", "ok"}

(* ---- machine ---- *)
Options == [dla : BOOLEAN, cal : BOOLEAN, fiducial : BOOLEAN,
            exposures : BOOLEAN]
Opt(b, s) == IF b THEN s ELSE <<>>
Start(o) == << "bcast", "bcast", "scatter", "allreduce" >>
            \o Opt(o.dla, << "bcast" >>) \o << "reduce" >>
            \o Opt(o.cal, << "bcast" >>) \o Opt(o.fiducial, << "bcast" >>)
Fit == << "allreduce:valid", "Allreduce:stack" >>
Var == << "Allreduce:var" >>
Iter(o) == Fit \o Opt(~o.fiducial, Var)
End(o) == Opt(o.fiducial, Var) \o << "gather" >>
          \o Opt(o.exposures, << "reduce" >>)

VARIABLES n, o, share, todo, pend, it, end, fault
vars == << n, o, share, todo, pend, it, end, fault >>
\* share[r]: valid spectra of process r in an iteration
Init == /\ n \in 1..MaxRanks
        /\ o \in Options
        /\ share \in [1..n -> 0..1]
        /\ todo = [r \in 1..n |-> Start(o) \o Iter(o)]
        /\ pend = [r \in 1..n |-> ""]
        /\ it = 1
        /\ end = [r \in 1..n |-> ""]
        /\ fault = FALSE
Skips(r, op) == LocalDecision /\ op = "Allreduce:var" /\ share[r] = 0
Post(r) ==
  /\ end[r] = "" /\ pend[r] = "" /\ todo[r] # <<>>
  /\ IF Skips(r, Head(todo[r]))
     THEN todo' = [todo EXCEPT ![r] = Tail(@)] /\ UNCHANGED pend
     ELSE pend' = [pend EXCEPT ![r] = Head(todo[r])] /\ UNCHANGED todo
  /\ UNCHANGED << n, o, share, it, end, fault >>
Sum(f) == LET RECURSIVE S(_)
              S(i) == IF i = 0 THEN 0 ELSE f[i] + S(i - 1) IN S(n)
Match ==
  /\ \A r \in 1..n : pend[r] # "" /\ pend[r] = pend[1]
  /\ pend' = [r \in 1..n |-> ""]
  /\ IF pend[1] = "allreduce:valid" /\ Sum(share) = 0
     THEN /\ end' = [r \in 1..n |-> "error"]
          /\ UNCHANGED << todo, it, share >>
     ELSE /\ todo' = [r \in 1..n |-> Tail(todo[r])]
          /\ UNCHANGED << end, it, share >>
  /\ UNCHANGED << n, o, fault >>
\* end of an iteration: converged (a global decision) or go on; the valid
\* spectra may change from one iteration to the next
NextIter ==
  /\ \A r \in 1..n : todo[r] = <<>> /\ end[r] = ""
  /\ \E stop \in BOOLEAN :
       IF stop \/ it = Iterations
       THEN /\ it' = Iterations + 1
            /\ todo' = [r \in 1..n |-> End(o)]
            /\ UNCHANGED share
       ELSE /\ it' = it + 1
            /\ todo' = [r \in 1..n |-> Iter(o)]
            /\ share' \in [1..n -> 0..1]
  /\ it <= Iterations
  /\ UNCHANGED << n, o, pend, end, fault >>
Finish(r) == /\ todo[r] = <<>> /\ it = Iterations + 1 /\ end[r] = ""
             /\ end' = [end EXCEPT ![r] = "ok"]
             /\ UNCHANGED << n, o, share, todo, pend, it, fault >>
\* an unexpected error on a process that is not waiting for the others
Fault(r) == /\ ~fault /\ end[r] = "" /\ pend[r] = "" /\ fault' = TRUE
            /\ end' = (IF Aborts
                       THEN [s \in 1..n |-> IF end[s] = "" THEN "abort"
                                            ELSE end[s]]
                       ELSE [end EXCEPT ![r] = "abort"])
            /\ UNCHANGED << n, o, share, todo, pend, it >>
Next == Match \/ NextIter
        \/ \E r \in 1..n : Post(r) \/ Finish(r) \/ Fault(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(\A r \in 1..n : end[r] # "")
Agree == (\A r \in 1..n : end[r] # "") =>
            IF fault THEN \E r \in 1..n : end[r] = "abort"
            ELSE \A r, s \in 1..n : end[r] = end[s]
=============================================================================
