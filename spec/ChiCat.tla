------------------------------- MODULE ChiCat -------------------------------
(***************************************************************************)
(* The continuum catalogue: a row per fitted spectrum.  A spectrum s has    *)
(* tid, z, pix, snr (sequence of [arm, v]), rsnr, valid, chi2, dof, x, xcov *)
(* and forest; rows have the same with arms and snr in parallel, and rank.  *)
(* Columns are single precision.                                            *)
(***************************************************************************)
EXTENDS Forest
LOCAL F4 == "2e-7"
LOCAL SeqF4(p, q) == /\ Len(p) = Len(q)
                     /\ \A i \in DOMAIN p : NNear(p[i], q[i], F4)
Coefs(model, order) == IF model = "picca" THEN order + 1 ELSE 0
IdentityOf(r, s) == /\ r.tid = s.tid /\ r.pix = s.pix /\ NNear(r.z, s.z, F4)
SnrOf(r, s) ==
    /\ Len(r.arms) = Len(s.snr)
    /\ Set(r.arms) = {s.snr[i].arm : i \in DOMAIN s.snr}
    /\ \A i \in DOMAIN r.arms : NNear(r.snr[i], Scal(s.snr, r.arms[i]), F4)
    /\ \A i \in DOMAIN r.snr : i > Len(r.arms) => NZero(r.snr[i])
    /\ NNear(r.rsnr, s.rsnr, F4)
FitOf(r, s) == /\ r.valid = s.valid /\ NNear(r.chi2, s.chi2, F4)
               /\ SeqF4(r.x, s.x) /\ SeqF4(r.xcov, s.xcov)
DofOf(r, s, ncoef) == NEq(r.dof, NSub(RealSize(s), ncoef))
RankOf(r, p) == NEq(r.rank, p)
=============================================================================
