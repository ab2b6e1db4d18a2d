------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* From the files of a survey to the spectra that enter the continuum fit   *)
(* and to the arms that are saved.                                          *)
(*                                                                          *)
(* Options o: w1, w2 (observed range), l1, l2 (forest), dw (pixel size),    *)
(*   minr, minf (signal-to-noise limits), skip, coadd;                      *)
(*   noise, flux, add (BOOLEAN) with tables eta, sf, vl; sky; limit.        *)
(* A spectrum q: tid, exp, z, raw (sequence of [arm, wave, flux, ivar,      *)
(*   mask]), bal, dla.                                                      *)
(* C: what depends on the options only, computed once (Tables(o)).          *)
(***************************************************************************)
EXTENDS Masks, Calib
Tables(o) == [eta |-> IF o.noise THEN Spl(FixT(o.eta)) ELSE [none |-> TRUE],
              sf |-> IF o.flux THEN FixT(o.sf) ELSE [none |-> TRUE],
              vl |-> IF o.add THEN Spl(o.vl) ELSE [none |-> TRUE]]
\* redshifts for which enough of the forest can be in the observed range
Zmin(o) == NSub(NDiv(o.w1, NSub(o.l2, NMul(o.skip, NSub(o.l2, o.l1)))), 1)
Zmax(o) == NSub(NDiv(o.w2, NAdd(o.l1, NMul(o.skip, NSub(o.l2, o.l1)))), 1)
\* ---- reading
Cleaned(r) == [arm |-> r.arm, wave |-> r.wave,
    flux |-> TLCEval([k \in DOMAIN r.wave |->
                        CleanF(r.flux[k], r.ivar[k], r.mask[k])]),
    ivar |-> TLCEval([k \in DOMAIN r.wave |->
                        CleanI(r.flux[k], r.ivar[k], r.mask[k])])]
CleanedAll(q) == TLCEval([i \in DOMAIN q.raw |-> Cleaned(q.raw[i])])
InRegion(f, q, o) ==
    LET c == TLCEval([i \in DOMAIN f |->
               LET S == RegionPix(f[i].wave, q.z, o) IN
               [arm |-> f[i].arm, wave |-> Cut(f[i].wave, S),
                flux |-> Cut(f[i].flux, S), ivar |-> Cut(f[i].ivar, S)]])
    IN SelectSeq(c, LAMBDA r : Good(r.ivar) # {})
\* ---- coadding arms with inverse variance weights on the common grid
CoaddIvar(f, dw) ==
    LET wmin == WMin(f)
        n == OutPix(WMax(f), wmin, dw)
        at == TLCEval([i \in DOMAIN f |->
                TLCEval([k \in DOMAIN f[i].wave |->
                           OutPix(f[i].wave[k], wmin, dw)])])
        C == TLCEval([m \in 1..n |->
               UNION {{<< i, k >> : k \in {k \in DOMAIN at[i] : at[i][k] = m}}
                      : i \in DOMAIN f}])
        iv == TLCEval([m \in 1..n |->
               SumOver(C[m], LAMBDA p : f[p[1]].ivar[p[2]])])
        fl == TLCEval([m \in 1..n |->
               IF NZero(iv[m]) THEN "0"
               ELSE NDiv(SumOver(C[m], LAMBDA p :
                           NMul(f[p[1]].ivar[p[2]], f[p[1]].flux[p[2]])),
                         iv[m])]) IN
    << [arm |-> "brz", flux |-> fl, ivar |-> iv,
        wave |-> TLCEval([m \in 1..n |-> NAdd(wmin, NMul(dw, m - 1))])] >>
\* ---- calibration and masks of one pixel: [f, i, clear]
Calibrated(f, i, w, o, C) ==
    LET i1 == IF o.noise THEN NoiseIvar(i, At(C.eta, w)) ELSE i
        s == IF o.flux THEN LinEval(C.sf, w) ELSE "1" IN
    [f |-> FluxFlux(f, s), i |-> FluxIvar(i1, s), clear |-> TRUE]
MaskedPix(c, w, q, B, o) ==
    LET zero == [f |-> "0", i |-> "0", clear |-> TRUE] IN
    IF NZero(c.i) THEN [c EXCEPT !.i = "0"]
    ELSE IF SkyUnclear(w, q.z, o.sky) \/ BalUnclear(w, B)
    THEN [c EXCEPT !.clear = FALSE]
    ELSE IF SkyMasked(w, q.z, o.sky) \/ BalMasked(w, B) THEN zero
    ELSE IF q.dla = << >> THEN c
    ELSE LET T == TLCEval(Transmission(w, q.z, q.dla)) IN
         IF DlaUnclear(w, q.z, T, o.limit) THEN [c EXCEPT !.clear = FALSE]
         ELSE IF NLt(T, o.limit) THEN zero
         ELSE [f |-> NDiv(c.f, T), i |-> NMul(c.i, NSq(T)), clear |-> TRUE]
Processed(r, q, o, C) ==
    LET B == TLCEval(BalIntervals(q.z, q.bal)) IN
    [arm |-> r.arm, wave |-> r.wave,
     pix |-> TLCEval([k \in DOMAIN r.wave |->
               MaskedPix(Calibrated(r.flux[k], r.ivar[k], r.wave[k], o, C),
                         r.wave[k], q, B, o)])]
NGood(p) == Cardinality({k \in DOMAIN p.pix : p.pix[k].clear
                                              /\ NPos(p.pix[k].i)})
NMay(p) == Cardinality({k \in DOMAIN p.pix : ~p.pix[k].clear
                                             \/ NPos(p.pix[k].i)})
\* ---- cuts: "yes", "no" or "unclear" (too close to a limit to call)
AtLeast(x, lim) == IF NLt(NAbs(NSub(x, lim)), "1e-9") THEN "unclear"
                   ELSE IF NLe(lim, x) THEN "yes" ELSE "no"
Exactly(x, lim) == IF NLe(lim, x) THEN "yes" ELSE "no"
And(S) == IF "no" \in S THEN "no" ELSE IF "unclear" \in S THEN "unclear"
          ELSE "yes"
SumSeq(q, V(_)) == SumArms(q, V)
\* The whole way of one spectrum: a record of everything checked later.
Way(q, o, C) ==
    LET full == CleanedAll(q)
        f1 == InRegion(full, q, o)
        rs == TLCEval(RedSnr(full, q.z))
        f2 == TLCEval(IF f1 = << >> THEN f1
                      ELSE IF o.coadd = "before" THEN CoaddIvar(f1, o.dw)
                      ELSE f1)
        snr == TLCEval([i \in DOMAIN f2 |->
                          [arm |-> f2[i].arm, v |-> ArmSnr(f2[i])]])
        eff == TLCEval(EffSnr(snr))
        pr == TLCEval([i \in DOMAIN f2 |-> Processed(f2[i], q, o, C)])
        lo == SumSeq(pr, LAMBDA p : NGood(p))
        hi == SumSeq(pr, LAMBDA p : NMay(p))
        need == ShortAt(q.z, o.dw, o)
        long == IF NZero(o.skip) THEN (IF NPos(lo) THEN "yes" ELSE IF NPos(hi)
                                       THEN "unclear" ELSE "no")
                ELSE IF Risky(need) /\ ~q.exactlen THEN "unclear"
                ELSE IF NLt(need, lo) THEN "yes"
                ELSE IF NLe(hi, need) THEN "no" ELSE "unclear"
        inz == And({AtLeast(q.z, Zmin(o)), AtLeast(Zmax(o), q.z)})
        R(x, exact, lim) == IF exact = "" THEN AtLeast(x, lim)
                            ELSE Exactly(exact, lim) IN
    IF f1 = << >> THEN [sel |-> "no", rsnr |-> rs, snr |-> << >>,
                        arms |-> << >>, eff |-> "0"]
    ELSE [sel |-> And({inz, R(rs, q.exactr, o.minr), long,
                       R(eff, q.exactf, o.minf)}),
          rsnr |-> rs, snr |-> snr, arms |-> pr, eff |-> eff]
\* is an arm of a valid spectrum kept before saving, given how many good
\* pixels it has at least and at most?
Long(lo, hi, q, o) ==
    LET need == ShortAt(q.z, o.dw, o)
        m == NTrunc(need) + 1 IN
    IF Risky(need) /\ ~q.exactlen THEN "unclear"
    ELSE IF lo >= m THEN "yes"
    ELSE IF hi < m THEN "no" ELSE "unclear"
ArmKept(p, q, o) == Long(NGood(p), NMay(p), q, o)
\* the same for arms coadded in the end: pixels at the same place count once
Places(f, o, Is(_)) ==
    LET w == WMin(f) IN
    Cardinality(UNION {{OutPix(f[i].wave[k], w, o.dw) :
       k \in {k \in DOMAIN f[i].wave : Is(f[i].pix[k])}} : i \in DOMAIN f})
CoaddKept(f, q, o) ==
    Long(Places(f, o, LAMBDA x : x.clear /\ NPos(x.i)),
         Places(f, o, LAMBDA x : ~x.clear \/ NPos(x.i)), q, o)
=============================================================================
