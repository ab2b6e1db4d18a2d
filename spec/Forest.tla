------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* One spectrum and the steps that process it.                              *)
(*                                                                          *)
(* A spectrum's state s (as projected from its public attributes) has       *)
(*   forest : sequence of arm records [arm, wave, flux, ivar, ivsm, wt,     *)
(*            cont, reso] - sequences over the pixels of the arm, reso a    *)
(*            sequence of rows; <<>> when absent                            *)
(*   keys   : the arms for which each quantity exists                       *)
(*   valid, chi2, snr (per arm), rsnr, x0                                   *)
(* Observer functions (variance, noise) are straight lines                  *)
(* [a |-> value at 4000 A, b |-> slope].                                    *)
(***************************************************************************)
EXTENDS Num, FiniteSets, SequencesExt, TLC

Arms(s) == {s.forest[i].arm : i \in DOMAIN s.forest}
Ar(s, a) == s.forest[CHOOSE i \in DOMAIN s.forest : s.forest[i].arm = a]
Set(q) == {q[i] : i \in DOMAIN q}
Line(f, x) == NAdd(f.a, NMul(f.b, NSub(x, "4000")))
Scal(q, a) == q[CHOOSE i \in DOMAIN q : q[i].arm = a].v
Good(iv) == {k \in DOMAIN iv : NPos(iv[k])}

\* ------------------------------------------------------------ alignment
KeysAgree(s) ==
    /\ Set(s.keys.flux) = Arms(s) /\ Set(s.keys.ivar) = Arms(s)
    /\ Set(s.keys.ivsm) = Arms(s) /\ Set(s.keys.wt) = Arms(s)
    /\ s.keys.cont # <<>> => Set(s.keys.cont) = Arms(s)
    /\ s.keys.reso # <<>> => Set(s.keys.reso) = Arms(s)
LengthsAgree(s) ==
    \A i \in DOMAIN s.forest :
      LET r == s.forest[i]
          n == Len(r.wave) IN
      /\ Len(r.flux) = n /\ Len(r.ivar) = n /\ Len(r.ivsm) = n
      /\ Len(r.wt) = n
      /\ s.keys.cont # <<>> => Len(r.cont) = n
      /\ s.keys.reso # <<>> => Len(r.reso) = n
Increasing(s) ==
    \A i \in DOMAIN s.forest : \A k \in 2..Len(s.forest[i].wave) :
      NLt(s.forest[i].wave[k - 1], s.forest[i].wave[k])

\* ------------------------------------------------------------ frames
Fields == {"wave", "flux", "ivar", "ivsm", "wt", "cont", "reso"}
SameArmExcept(p, q, F) == \A f \in Fields \ F : p[f] = q[f]
SameExcept(s, t, F) ==
    /\ Arms(s) = Arms(t)
    /\ \A a \in Arms(s) : SameArmExcept(Ar(s, a), Ar(t, a), F)
OthersSame(s, t, A) ==
    \A a \in Arms(s) \ A : a \in Arms(t) /\ Ar(s, a) = Ar(t, a)

\* ------------------------------------------------------------ reading
BadPixel(f, i, m) == ~NZero(m) \/ ~NIsNum(f) \/ ~NIsNum(i) \/ NLt(i, 0)
CleanF(f, i, m) == IF BadPixel(f, i, m) THEN "0" ELSE f
CleanI(f, i, m) == IF BadPixel(f, i, m) THEN "0" ELSE i

\* ------------------------------------------------------------ region
Lo(z, a) == NMax(a.w1, NMul(NAdd(1, z), a.l1))
Hi(z, a) == NMin(a.w2, NMul(NAdd(1, z), a.l2))
RegionPix(wave, z, a) ==
    {k \in DOMAIN wave : NLe(Lo(z, a), wave[k]) /\ NLt(wave[k], Hi(z, a))}
LoK(S) == CHOOSE k \in S : \A j \in S : k <= j
HiK(S) == CHOOSE k \in S : \A j \in S : k >= j
Cut(q, S) == IF S = {} THEN <<>> ELSE SubSeq(q, LoK(S), HiK(S))
\* sum over arms of a per-arm number
SumArms(q, V(_)) == NSum([i \in DOMAIN q |-> V(q[i])])
SqrtSeq(q) == [k \in DOMAIN q |-> NSqrt(q[k])]
ArmSnr(r) == IF Good(r.ivar) = {} THEN "0"
             ELSE NDiv(NDot(SqrtSeq(r.ivar), r.flux), Cardinality(Good(r.ivar)))
PosPart(q) == [k \in DOMAIN q |-> IF NPos(q[k]) THEN q[k] ELSE "0"]
IvOfPos(r) == [k \in DOMAIN r.flux |->
                IF NPos(r.flux[k]) THEN r.ivar[k] ELSE "0"]
Amplitude(s) ==
    NDiv(SumArms(s.forest, LAMBDA r : NDot(PosPart(r.flux), r.ivar)),
         NAdd("1e-6", SumArms(s.forest, LAMBDA r : NSum(IvOfPos(r)))))
EffSnr(snr) ==
    NDiv(SumArms(snr, LAMBDA r : NMul(r.v, NMul(r.v, r.v))),
         NAdd("1e-8", SumArms(snr, LAMBDA r : NMul(r.v, r.v))))
\* red side of the full spectrum: f is a sequence of [arm, wave, flux, ivar]
RedPix(r, z) == {k \in DOMAIN r.wave :
                   NLe(NMul(NAdd(1, z), "1215.67"), r.wave[k])}
RedSnr(f, z) ==
    NDiv(SumArms(f, LAMBDA r : LET S == RedPix(r, z) IN
                      NDot(SqrtSeq(Cut(r.ivar, S)), Cut(r.flux, S))),
         NAdd("1e-6", SumArms(f, LAMBDA r :
                      Cardinality(Good(Cut(r.ivar, RedPix(r, z)))))))
\* Is x too close to an integer for a floating-point truncation to be known?
Risky(x) == LET d == NSub(x, NRound(x)) IN
            NLt(NAbs(d), "1e-6") /\ ~NEq(x, 0)
ShortAt(z, dw, a) ==
    NMul(a.skip, NDiv(NMul(NAdd(1, z), NSub(a.l2, a.l1)), dw))
RealSize(s) == SumArms(s.forest, LAMBDA r : Cardinality(Good(r.ivar)))

\* ------------------------------------------------------------ weights
WeightAt(r, k, vl, eta) ==
    NDiv(r.ivsm[k],
         NAdd(Line(eta, r.wave[k]),
              NMul(r.ivsm[k],
                   NMul(Line(vl, r.wave[k]), NSq(r.cont[k])))))
WeightsOK(s, vl, eta) ==
    \A i \in DOMAIN s.forest :
      LET r == s.forest[i] IN
      IF ~s.valid \/ s.keys.cont = <<>>
      THEN r.wt = r.ivsm
      ELSE Len(r.wt) = Len(r.wave) /\ Len(r.ivsm) = Len(r.wave)
           /\ Len(r.cont) = Len(r.wave)
           /\ \A k \in DOMAIN r.wave : Near(r.wt[k], WeightAt(r, k, vl, eta))
Chi2(s) ==
    IF ~s.valid \/ s.keys.cont = <<>> THEN "-1"
    ELSE SumArms(s.forest, LAMBDA r :
           NDot(r.wt, [k \in DOMAIN r.flux |->
                         NSq(NSub(r.flux[k], r.cont[k]))]))

\* ------------------------------------------------------------ zeros
ZeroStaysZero(s) ==
    \A i \in DOMAIN s.forest :
      LET r == s.forest[i] IN
      \A k \in DOMAIN r.ivar : NZero(r.ivar[k]) =>
        (k \in DOMAIN r.ivsm => NZero(r.ivsm[k]))
        /\ (k \in DOMAIN r.wt => NZero(r.wt[k]))
SmoothOK(s, scale) ==
    \A i \in DOMAIN s.forest :
      LET r == s.forest[i] IN
      /\ Len(r.ivsm) = Len(r.ivar) /\ r.wt = r.ivsm
      /\ IF NLe(scale, 0) THEN r.ivsm = r.ivar
         ELSE \A k \in DOMAIN r.ivar :
                IF NZero(r.ivar[k]) THEN NZero(r.ivsm[k])
                ELSE NPos(r.ivsm[k])

\* ------------------------------------------------------------ coaddition
MinOf(W) == CHOOSE x \in W : \A y \in W : NLe(x, y)
MaxOf(W) == CHOOSE x \in W : \A y \in W : NLe(y, x)
WMin(f) == MinOf({f[i].wave[1] : i \in DOMAIN f})
WMax(f) == MaxOf({f[i].wave[Len(f[i].wave)] : i \in DOMAIN f})
\* output pixel (from 1) of an input wavelength
OutPix(w, wmin, dw) == NTrunc(NAdd(NDiv(NSub(w, wmin), dw), "0.1")) + 1
\* contributions to output pixel n: <<arm index, pixel>>
Contrib(f, n, dw) ==
    LET wmin == WMin(f) IN
    UNION {{<< i, k >> : k \in {k \in DOMAIN f[i].wave :
                                 OutPix(f[i].wave[k], wmin, dw) = n}}
           : i \in DOMAIN f}
SumOver(S, V(_)) == LET q == SetToSeq(S) IN
                   NSum([i \in DOMAIN q |-> V(q[i])])
\* f[i].w : the weights used
Norm(f, C) == SumOver(C, LAMBDA p : f[p[1]].w[p[2]])
MeanFlux(f, C) ==
    NDiv(SumOver(C, LAMBDA p : NMul(f[p[1]].w[p[2]], f[p[1]].flux[p[2]])),
         Norm(f, C))
MeanIvar(f, C) ==
    NDiv(NSq(Norm(f, C)),
         SumOver({p \in C : NPos(f[p[1]].ivar[p[2]])}, LAMBDA p :
                NDiv(NSq(f[p[1]].w[p[2]]), f[p[1]].ivar[p[2]])))
ResoW(w) == IF NZero(w) THEN "1e-8" ELSE w
\* resolution rows are centred: row q padded to m entries
Padded(q, m) == LET d == (m - Len(q)) \div 2 IN
                [k \in 1..m |-> IF k > d /\ k <= d + Len(q)
                                THEN q[k - d] ELSE "0"]
MeanReso(f, C, m) ==
    LET nm == SumOver(C, LAMBDA p : ResoW(f[p[1]].w[p[2]])) IN
    [d \in 1..m |->
      NDiv(SumOver(C, LAMBDA p : NMul(ResoW(f[p[1]].w[p[2]]),
                    Padded(f[p[1]].reso[p[2]], m)[d])), nm)]
GridOK(wave, f, dw) ==
    LET n == Len(wave)
        span == NDiv(NSub(WMax(f), WMin(f)), dw) IN
    /\ n >= 1 /\ Near(wave[1], WMin(f))
    /\ NLe(NAbs(NSub(span, n - 1)), "0.6")
    /\ n > 1 => \A k \in 2..n :
                  NNear(NSub(wave[k], wave[k - 1]),
                        NDiv(NSub(wave[n], wave[1]), n - 1), "1e-7")
    \* on a common grid the pixel size is exactly preserved
    /\ (NLt(NAbs(NSub(span, NRound(span))), "1e-3") /\ n > 1) =>
         (n = NRound(span) + 1 /\ NNear(wave[n], WMax(f), "1e-7"))
    \* otherwise it ends within half a pixel of the last one
    /\ NLe(NAbs(NSub(wave[n], WMax(f))), NMul("0.55", dw))
=============================================================================
