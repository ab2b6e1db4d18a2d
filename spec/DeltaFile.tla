------------------------------ MODULE DeltaFile ------------------------------
(***************************************************************************)
(* What saving a spectrum writes.  A spectrum record x has                  *)
(*   s (projected state), tid, pix, ra, dec, z (degrees), exp ("" or the    *)
(*   exposure number), extra (sequence of [key, v]), dw, scale              *)
(* and an entry d is what world.read_delta_file returns.                    *)
(***************************************************************************)
EXTENDS Forest
Saved(x) == {a \in Arms(x.s) : x.s.valid
               /\ \E i \in DOMAIN x.s.snr : x.s.snr[i].arm = a
                                            /\ ~NZero(x.s.snr[i].v)}
ExtName(x, a) == x.tid \o "-" \o a \o (IF x.exp = "" THEN "" ELSE "-" \o x.exp)
Deg == NDiv("3.14159265358979323846264338327950288", 180)
Contrast(f, c, iv) == IF NZero(NMul(iv, NSq(c))) THEN "0"
                      ELSE NSub(NDiv(f, c), 1)
ValuesOK(r, d, dl) ==
    LET n == Len(r.wave) IN
    /\ d.lam = r.wave /\ Len(dl) = n /\ Len(d.ivar) = n /\ Len(d.weight) = n
    /\ Len(d.cont) = n
    /\ \A k \in 1..n :
         /\ NNear(dl[k], Contrast(r.flux[k], r.cont[k], r.ivar[k]), "1e-12")
         /\ NNear(NDiv(d.ivar[k], NSq(r.cont[k])), r.ivar[k], "1e-12")
         /\ NNear(NDiv(d.weight[k], NSq(r.cont[k])), r.wt[k], "1e-12")
         /\ d.cont[k] = r.cont[k]
    /\ d.reso = r.reso
HeaderOK(x, a, h) ==
    /\ h.TARGETID = x.tid /\ h.LOS_ID = x.tid
    /\ NNear(h.RA, NMul(x.ra, Deg), "1e-13")
    /\ NNear(h.DEC, NMul(x.dec, Deg), "1e-13")
    /\ NNear(h.Z, x.z, "1e-13") /\ NNear(h.DELTA_LAMBDA, x.dw, "1e-9")
    /\ NNear(h.MEANSNR, Scal(x.s.snr, a), "1e-13")
    /\ NNear(h.RSNR, x.s.rsnr, "1e-13") /\ NNear(h.SMSCALE, x.scale, "1e-13")
    /\ \A i \in DOMAIN x.extra :
         /\ x.extra[i].key \in DOMAIN h
         /\ NEq(h[x.extra[i].key], x.extra[i].v)
=============================================================================
