------------------------------ MODULE Trace_C21 ------------------------------
(* C21: the products of the same run on different numbers of processes.        *)
(* e.runs[1] is the reference.  Optimisers and sums are only reproducible to   *)
(* rounding, so numbers are compared to 1e-5.                                  *)
EXTENDS Num, TraceLib
Tol == "1e-5"
Names(q, f) == {q[i][f] : i \in DOMAIN q}
The(q, f, v) == q[CHOOSE i \in DOMAIN q : q[i][f] = v]
SameSet(p, q, f) == Len(p) = Len(q) /\ Names(p, f) = Names(q, f)
                    /\ Cardinality(Names(p, f)) = Len(p)
Vals == {"lam", "delta", "blind", "ivar", "weight", "cont"}
DeltaSame(a, b) ==
    /\ a.cols = b.cols
    /\ \A f \in Vals : NSeqNear(a[f], b[f], Tol)
HdrSame(a, b) ==
    /\ DOMAIN a.hdr = DOMAIN b.hdr
    /\ \A f \in DOMAIN a.hdr : a.hdr[f] = b.hdr[f]
          \/ (NIsNum(a.hdr[f]) /\ NIsNum(b.hdr[f])
              /\ NNear(a.hdr[f], b.hdr[f], Tol))
ResoSame(a, b) == /\ Len(a.reso) = Len(b.reso)
                  /\ \A i \in DOMAIN a.reso :
                       NSeqNear(a.reso[i], b.reso[i], Tol)
RowSame(a, b) ==
    /\ a.TARGETID = b.TARGETID /\ a.Z = b.Z /\ a.HPXPIXEL = b.HPXPIXEL
    /\ a.ARMS = b.ARMS /\ a.CONT_valid = b.CONT_valid
    /\ NEq(a.CONT_dof, b.CONT_dof)
    /\ NNear(a.CONT_chi2, b.CONT_chi2, "1e-4")
    /\ NSeqNear(a.MEANSNR, b.MEANSNR, Tol) /\ NNear(a.RSNR, b.RSNR, Tol)
    /\ (a.CONT_valid = "1" => NSeqNear(a.CONT_x, b.CONT_x, "1e-4"))
Skip(e, ext, c) == \E i \in DOMAIN e.skip :
    e.skip[i].ext = ext /\ (e.skip[i].col = c \/ e.skip[i].col = "*")
TableSame(e, a, b) ==
    /\ Len(a.cols) = Len(b.cols)
    /\ \A i \in DOMAIN a.cols :
         /\ a.cols[i].name = b.cols[i].name
         /\ Skip(e, a.ext, a.cols[i].name)
            \/ NSeqNear(a.cols[i].v, b.cols[i].v, Tol)
Pair(p, q, f, R(_, _)) == \A i \in DOMAIN p : R(p[i], The(q, f, p[i][f]))
RunFails(e) ==
  UNION {IF ~r.ok THEN {"run_completes"} ELSE {} : r \in SeqSet(e.runs)} \cup
  IF \E i \in DOMAIN e.runs : ~e.runs[i].ok THEN {} ELSE
  LET A == e.runs[1] IN
  Cl("something_saved", A.deltas # << >> \/ e.script = "calib")
  \cup UNION {
    LET B == e.runs[j] IN
    (IF ~SameSet(A.deltas, B.deltas, "ext")
     THEN {"same_targets_arms_and_exposures"}
     ELSE Cl("same_values", Pair(A.deltas, B.deltas, "ext", DeltaSame))
          \cup Cl("same_headers", Pair(A.deltas, B.deltas, "ext", HdrSame))
          \cup Cl("same_resolution", Pair(A.deltas, B.deltas, "ext", ResoSame)))
    \cup (IF ~SameSet(A.chi2, B.chi2, "key") THEN {"same_catalogue"}
          ELSE Cl("same_catalogue", Pair(A.chi2, B.chi2, "key", RowSame)))
    \cup (IF ~SameSet(A.attr, B.attr, "ext") THEN {"same_record"}
          ELSE Cl("same_record", Pair(A.attr, B.attr, "ext",
                                  LAMBDA a, b : TableSame(e, a, b))))
    \cup Cl("same_files_by_pixel", e.byhpx => A.files = B.files)
   : j \in 2..Len(e.runs)}
Fails(e) ==
  CASE e.k = "procs" -> RunFails(e)
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
