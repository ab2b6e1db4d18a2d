------------------------------- MODULE Masks -------------------------------
(***************************************************************************)
(* What each mask does to a pixel at wavelength w of a quasar at redshift z.*)
(*  sky : [obs, rf] - sequences of intervals <<lo, hi>>                     *)
(*  bal : [lo, hi]  - sequences of velocity limits in km/s                  *)
(*  dla : sequence of [z, n] (redshift, log10 of the column density)        *)
(***************************************************************************)
EXTENDS Forest
InInterval(w, iv) == NLe(iv[1], w) /\ NLt(w, iv[2])
\* too close to an edge to call, unless every number involved is exact
Close(x, e) == LET d == NAbs(NSub(x, e)) IN
               NLt(d, NMul("1e-9", x)) /\ ~NZero(d)
SkyMasked(w, z, sky) ==
    \/ \E i \in DOMAIN sky.obs : InInterval(w, sky.obs[i])
    \/ \E i \in DOMAIN sky.rf : InInterval(NDiv(w, NAdd(1, z)), sky.rf[i])
SkyUnclear(w, z, sky) ==
    \E i \in DOMAIN sky.rf, j \in 1..2 :
      Close(NDiv(w, NAdd(1, z)), sky.rf[i][j])

LightSpeed == "299792.458"
Lines == << "1549", "1403", "1394", "1240.81", "1216.1", "1175", "1128",
            "1117", "1074", "1062", "1031", "1037", "1039", "1025.7",
            "972.5", "977.0", "989.9", "949.7" >>
Doppler(v) == NSub(1, NDiv(v, LightSpeed))
\* the observed intervals of all entries and transitions
BalIntervals(z, bal) ==
    LET E == {i \in DOMAIN bal.lo : NPos(bal.lo[i]) /\ NPos(bal.hi[i])} IN
    {LET a == NMul(NMul(Lines[n], NAdd(1, z)), Doppler(bal.hi[i]))
         b == NMul(NMul(Lines[n], NAdd(1, z)), Doppler(bal.lo[i])) IN
     << NMin(a, b), NMax(a, b) >> : i \in E, n \in DOMAIN Lines}
BalMasked(w, B) == \E iv \in B : InInterval(w, iv)
BalUnclear(w, B) == \E iv \in B : \E j \in 1..2 : Close(w, iv[j])

\* --- damped absorption (Tepper-Garcia), Lyman alpha and beta
Pi == "3.14159265358979323846264338327950288"
SqrtPi == NSqrt(Pi)
Qe == "4.803204e-10"
Me == "9.109384e-28"
Ccms == NMul(LightSpeed, "1e5")
AijCoeff == NDiv(NDiv(NMul(Pi, NSq(Qe)), Me), Ccms)
B0 == "10"
LyA == "1215.67"
LyB == "1025.7220"
Pow10(x) == NExp(NMul(x, NLn(10)))
HTG(a, u) ==
    LET P == NAdd(NSq(u), "1e-6")
        Q == NDiv("1.5", P)
        R == IF NLt(300, P) THEN "0" ELSE NExp(NSub(0, P))
        poly == NAdd(NAdd(NAdd(NMul(4, NSq(P)), NMul(7, P)), 4), Q)
        c == NSub(NSub(NMul(NSq(R), poly), Q), 1) IN
    NSub(R, NMul(c, NDiv(NDiv(a, P), SqrtPi)))
Tau(wrf, lam, n, f12, A12) ==
    LET gamma == NDiv(NDiv(NDiv(NMul(NMul(A12, lam), "1e-8"), 4), Pi), Ccms)
        sigma == NDiv(B0, LightSpeed)
        h == HTG(NDiv(gamma, sigma), NDiv(NSub(NDiv(wrf, lam), 1), sigma)) IN
    NMul(NMul(h, NMul(AijCoeff, f12)),
         NDiv(NMul(Pow10(NSub(n, 13)), NDiv(lam, B0)), SqrtPi))
OneDla(w, d) ==
    LET wrf == NDiv(w, NAdd(1, d.z)) IN
    NExp(NSub(0, NAdd(Tau(wrf, LyA, d.n, "0.41641", "6.2648e8"),
                      Tau(wrf, LyB, d.n, "0.079142", "1.6725e8"))))
RECURSIVE Prod(_, _)
Prod(w, q) == IF q = <<>> THEN "1" ELSE NMul(OneDla(w, Head(q)), Prod(w, Tail(q)))
\* transmission as applied: nothing at or redward of the quasar's own line
Transmission(w, z, dla) ==
    IF NLe(NMul(NAdd(1, z), LyA), w) THEN "1" ELSE Prod(w, dla)
DlaUnclear(w, z, T, limit) ==
    NLt(NAbs(NSub(T, limit)), "1e-5") \/ Close(w, NMul(NAdd(1, z), LyA))
=============================================================================
