------------------------------ MODULE CalibRun ------------------------------
(* A calibration run: which delta files a process reads, which sightlines are  *)
(* used, and the stacked flux.                                                 *)
(* o: min, max (signal to noise limits), list (TARGETIDs), cat (sequence of    *)
(*   [tid, survey, ai, bi]; ai, bi sequences of [lo, hi]), bal (BOOLEAN),      *)
(*   surveys (sequence; empty: all), w1, w2, dw.                               *)
EXTENDS VarStats, Stack
\* files (numbered from zero) of process r of P
FilesOf(n, r, P) == {i \in 0..(n - 1) : (n * r) \div P <= i
                                         /\ i < (n * (r + 1)) \div P}
IsBal(c) ==
  LET Some(q) == \E i \in DOMAIN q : NPos(q[i].lo) /\ NPos(q[i].hi) IN
  Some(c.ai) \/ Some(c.bi)
Excluded(o, tid) ==
  \/ \E i \in DOMAIN o.list : o.list[i] = tid
  \/ \E i \in DOMAIN o.cat : o.cat[i].tid = tid
       /\ \/ o.bal /\ IsBal(o.cat[i])
          \/ o.surveys # << >>
             /\ \A j \in DOMAIN o.surveys : o.surveys[j] # o.cat[i].survey
Used(o, s) == /\ NLt(o.min, s.snr) /\ NLt(s.snr, o.max)
              /\ ~Excluded(o, s.tid)
\* the stack is on the wavelengths w1, w1 + dw, ...: each pixel goes to the
\* nearest; up: where a pixel is half way
Nearest(o, w, up) ==
  LET p == NDiv(NSub(w, o.w1), o.dw)
      f == NFloor(p) IN
  IF NEq(NSub(p, f), "0.5") THEN (IF up THEN f + 1 ELSE f) ELSE NRound(p)
NStack(o) == NRound(NDiv(NSub(o.w2, o.w1), o.dw)) + 1
=============================================================================
