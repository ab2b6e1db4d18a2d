------------------------------- MODULE Bcast -------------------------------
(***************************************************************************)
(* Work delegated to the main process (rank 0): it alone performs the work, *)
(* whose outcome is a value or an error; the outcome is broadcast and every *)
(* process finishes the same way.                                           *)
(*                                                                          *)
(* ShareErrors = FALSE models the broken variant in which an error escapes  *)
(* before the broadcast: the others wait for ever (kept to show that the    *)
(* properties below are able to fail).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxRanks, Values, ShareErrors

Outcomes == [kind : {"value"}, v : Values] \cup [kind : {"error"}, v : {""}]

(* ---- what every finished call must satisfy (oracle for recorded calls) *)
\* res : rank -> [kind, v, worked]; work : outcome of the delegated work
NobodyWaits(res) == \A r \in DOMAIN res : res[r].kind \notin {"stuck", "died"}
SameOutcome(res) == \A r, s \in DOMAIN res :
                       res[r].kind = res[s].kind /\ res[r].v = res[s].v
RightOutcome(res, work, errkind) ==
    \A r \in DOMAIN res :
      IF work.kind = "value" THEN res[r].kind = "value" /\ res[r].v = work.v
      ELSE res[r].kind = errkind
OnlyMainWorks(res) == \A r \in DOMAIN res : r > 1 => ~res[r].worked

(* ---- machine *)
VARIABLES n, work, pc, box, res
vars == << n, work, pc, box, res >>
Init == /\ n \in 1..MaxRanks
        /\ work \in Outcomes
        /\ pc = [r \in 1..n |-> "call"]
        /\ box = << >>
        /\ res = [r \in 1..n |-> [kind |-> "stuck", v |-> "",
                                  worked |-> FALSE]]
Work == /\ pc[1] = "call"
        /\ res' = [res EXCEPT ![1].worked = TRUE,
                   ![1].kind = IF work.kind = "error" /\ ~ShareErrors
                               THEN "error" ELSE @]
        /\ pc' = [pc EXCEPT ![1] = IF work.kind = "error" /\ ~ShareErrors
                                   THEN "done" ELSE "post"]
        /\ UNCHANGED << n, work, box >>
Enter(r) == /\ r # 1 /\ pc[r] = "call"
            /\ pc' = [pc EXCEPT ![r] = "post"]
            /\ UNCHANGED << n, work, box, res >>
\* the broadcast completes once everybody has posted it
Complete == /\ \A r \in 1..n : pc[r] = "post"
            /\ box' = << work >>
            /\ pc' = [r \in 1..n |-> "got"]
            /\ UNCHANGED << n, work, res >>
Finish(r) == /\ pc[r] = "got"
             /\ res' = [res EXCEPT ![r].kind = box[1].kind, ![r].v = box[1].v]
             /\ pc' = [pc EXCEPT ![r] = "done"]
             /\ UNCHANGED << n, work, box >>
Next == Work \/ Complete \/ \E r \in 1..n : Enter(r) \/ Finish(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == \A r \in 1..n : pc[r] = "done"
Terminates == <>Done
AtEnd == Done => /\ NobodyWaits(res) /\ SameOutcome(res)
                 /\ RightOutcome(res, work, "error") /\ OnlyMainWorks(res)
=============================================================================
