------------------------------- MODULE VarStats ------------------------------
(* Variance statistics in bins of observed wavelength and pipeline variance.   *)
(* c = [w1, w2, nw, v1, v2, nv]: nw equal bins between w1 and w2, nv bins      *)
(* equal in the logarithm of the inverse variance between 1/v2 and 1/v1.       *)
(* Bins are numbered wavelength by wavelength, by growing inverse variance.    *)
EXTENDS Jackknife, FiniteSets
VFloor(x) == LET t == NTrunc(x) IN IF NLt(x, t) THEN t - 1 ELSE t
DW(c) == NDiv(NSub(c.w2, c.w1), c.nw)
WavePos(c, w) == NDiv(NSub(w, c.w1), DW(c))
WaveBin(c, w) == LET i == VFloor(WavePos(c, w)) + 1 IN
                 IF i \in 1..c.nw THEN i ELSE 0
\* edges of the inverse variance bins
Edges(c) ==
  LET g == TLCEval(NDiv(NLn(NDiv(c.v2, c.v1)), c.nv)) IN
  TLCEval([i \in 1..(c.nv + 1) |->
             NDiv(NExp(NMul(i - 1, g)), c.v2)])
VarBin(c, E, iv) ==
  LET i == Cardinality({j \in DOMAIN E : NLt(E[j], iv)}) IN
  IF NPos(iv) /\ i \in 1..c.nv THEN i ELSE 0
Bin(c, E, w, iv) ==
  LET a == WaveBin(c, w)
      b == VarBin(c, E, iv) IN
  IF a = 0 \/ b = 0 THEN 0 ELSE (a - 1) * c.nv + b
NBins(c) == c.nw * c.nv
WaveOf(c, iw) == NAdd(c.w1, NMul(DW(c), NSub(iw, "0.5")))
\* the contribution of one spectrum p = [wave, delta, ivar]: the sums of the
\* contrast, its square and fourth power and the variance, and the number of
\* pixels, per bin; B: the bin of each pixel
Pixels(c, E, p) ==
  TLCEval([i \in DOMAIN p.wave |-> Bin(c, E, p.wave[i], p.ivar[i])])
BinSum(c, B, f) ==
  LET Touched == {B[i] : i \in DOMAIN B} IN
  TLCEval([k \in 1..NBins(c) |-> IF k \notin Touched THEN "0" ELSE
     NSum([i \in DOMAIN B |-> IF B[i] = k THEN f[i] ELSE "0"])])
Contribution(c, B, p) ==
  LET d2 == TLCEval([i \in DOMAIN B |-> NSq(p.delta[i])])
      d4 == TLCEval([i \in DOMAIN B |-> NSq(d2[i])])
      v == TLCEval([i \in DOMAIN B |-> IF NPos(p.ivar[i])
                                       THEN NDiv(1, p.ivar[i]) ELSE "0"]) IN
  [x |-> << BinSum(c, B, p.delta), BinSum(c, B, d2), BinSum(c, B, d4),
            BinSum(c, B, v) >>,
   w |-> BinSum(c, B, [i \in DOMAIN B |-> "1"])]
\* the statistics of a bin, from the accumulated total
NumPix(a, k) == SumW(a, k)
MeanD(a, k) == Mean(a, 1, k)
VarD(a, k) == NSub(Mean(a, 2, k), NSq(MeanD(a, k)))
Var2D(a, k) ==
  IF NZero(NumPix(a, k)) THEN "0"
  ELSE NDiv(NSub(Mean(a, 3, k), NSq(VarD(a, k))), NumPix(a, k))
VarP(a, k) == Mean(a, 4, k)
JVar(a, j, k) == LET x == TLCEval(Diffs(Jacks(a, j, k))) IN CovOf(a.n, x, x)
\* squared error of the variance: jackknife, with the error of the mean
\* propagated, at least the Gaussian estimate
ErrVarD(a, k) ==
  LET V0 == TLCEval(JVar(a, 1, k))
      e == NAdd(JVar(a, 2, k), NAdd(NMul(4, NMul(NSq(MeanD(a, k)), V0)),
                                    NMul(2, NSq(V0)))) IN
  NMax(e, Var2D(a, k))
\* covariance of the variances of two bins
\* D1, D2: the jackknife differences of the contrast and its square per bin
CovVarD(a, D1, D2, k, q) ==
  LET c0 == TLCEval(CovOf(a.n, D1[k], D1[q]))
      vk == CovOf(a.n, D1[k], D1[k])
      vq == CovOf(a.n, D1[q], D1[q])
      mk == MeanD(a, k)
      mq == MeanD(a, q) IN
  NSum(<< CovOf(a.n, D2[k], D2[q]), NMul(vk, vq), NSq(c0),
          NMul(2, NMul(c0, NMul(mk, mq))), NMul(vk, NSq(mq)),
          NMul(vq, NSq(mk)) >>)
\* --- the fit of the variance functions in one wavelength bin
\* bins with enough pixels and spectra; with the requirements halved if there
\* are fewer than five, and none if there still are
Enough(s, K, mp, mq) == {k \in K : NLe(mp, s.npix[k]) /\ NLe(mq, s.nqso[k])}
Usable(s, K, mp, mq) ==
  LET A == Enough(s, K, mp, mq)
      B == Enough(s, K, mp \div 2, mq \div 2) IN
  IF Cardinality(A) >= 5 THEN A ELSE IF Cardinality(B) >= 5 THEN B ELSE {}
OfWave(c, iw) == ((iw - 1) * c.nv + 1)..(iw * c.nv)
=============================================================================
