------------------------------ MODULE MC_Blind ------------------------------
(* Runs in one session: each process sees the nights of its own share of the   *)
(* catalogue, the processes agree on the latest one, every process decides,    *)
(* writes, and files of several runs are coadded.  Checked: no contrast of a   *)
(* catalogue that must stay blind is ever in a file under the plain name, all  *)
(* processes decide alike, nothing is written before the decision, an earlier  *)
(* run leaves no trace in the next one's decision.                             *)
(* How = "local" (decide from the own share) and "sticky" (keep an earlier     *)
(* decision) are deliberately wrong.                                           *)
EXTENDS Blind, Integers, TLC
CONSTANTS Procs, Nights, How, MaxFiles
VARIABLES cat, agreed, dec, files
vars == << cat, agreed, dec, files >>
\* cat: this run's catalogue: [mock, w1, share: proc -> night]
Cats == [mock : BOOLEAN, w1 : {"1050", "1300"}, share : [Procs -> Nights]]
MaxN(S) == CHOOSE n \in S : \A m \in S : m <= n
True(c) == Strategy([mock |-> c.mock, w1 |-> c.w1,
                     night |-> MaxN({c.share[p] : p \in Procs})])
Init == /\ cat \in Cats /\ agreed = 0 /\ files = {}
        /\ dec = [p \in Procs |-> "unset"]
Agree == agreed = 0 /\ agreed' = MaxN({cat.share[p] : p \in Procs})
         /\ UNCHANGED << cat, dec, files >>
Decide(p) ==
    /\ agreed # 0 /\ dec[p] = "unset"
    /\ dec' = [dec EXCEPT ![p] = Strategy([mock |-> cat.mock, w1 |-> cat.w1,
          night |-> IF How = "local" THEN cat.share[p] ELSE agreed])]
    /\ UNCHANGED << cat, agreed, files >>
Write(p) ==
    /\ dec[p] # "unset" /\ Cardinality(files) < MaxFiles
    /\ files' = files \cup {[col |-> Column(dec[p]), hdr |-> dec[p],
                             must |-> True(cat)]}
    /\ UNCHANGED << cat, agreed, dec >>
\* coadding: blinded if any part is
Merge == \E f, g \in files :
    /\ Cardinality(files) < MaxFiles
    /\ f.col = "DELTA_BLIND" \/ f.col = g.col
    /\ files' = files \cup {[col |-> f.col, hdr |-> f.hdr,
                             must |-> IF f.must # "none" THEN f.must
                                      ELSE g.must]}
    /\ UNCHANGED << cat, agreed, dec >>
NewRun == /\ \A p \in Procs : dec[p] # "unset"
          /\ cat' \in Cats /\ agreed' = 0
          /\ dec' = (IF How = "sticky" THEN dec ELSE [p \in Procs |-> "unset"])
          /\ UNCHANGED files
Next == Agree \/ (\E p \in Procs : Decide(p) \/ Write(p)) \/ Merge \/ NewRun
Spec == Init /\ [][Next]_vars
NeverUnblinded == \A f \in files : f.must # "none" => f.col = "DELTA_BLIND"
PlainWhenFree == \A f \in files : f.must = "none" => f.col = "DELTA"
HeaderAgrees == \A f \in files : f.col = Column(f.hdr)
Alike == agreed # 0 => \A p \in Procs : dec[p] \in {"unset", True(cat)}
=============================================================================
