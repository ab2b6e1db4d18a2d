------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Interpolation on equally spaced tables, and noise smoothing.             *)
(* A table is [x0, dx, f]; pieces are numbered from one; outside the table  *)
(* the first and last pieces are continued.                                 *)
(* The cubic interpolant is the piecewise cubic with continuous first and   *)
(* second derivative, given by its second derivatives m at the points;      *)
(* natural: m vanishes at the ends; not-a-knot: the third derivative is     *)
(* continuous at the second and second to last points (a single parabola    *)
(* through three points, a line through two).                               *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC
LOCAL Clip(i, a, b) == IF i < a THEN a ELSE IF i > b THEN b ELSE i
NFloor(x) == LET t == NTrunc(x) IN IF NLt(x, t) THEN t - 1 ELSE t
Piece(t, x) ==
    Clip(NFloor(NDiv(NSub(x, t.x0), t.dx)) + 1, 1, Len(t.f) - 1)
Node(t, i) == NAdd(t.x0, NMul(t.dx, i - 1))
Frac(t, x, i) == NDiv(NSub(x, Node(t, i)), t.dx)
LinEval(t, x) ==
    LET i == Piece(t, x)
        b == Frac(t, x, i) IN
    NAdd(NMul(t.f[i], NSub(1, b)), NMul(t.f[i + 1], b))

\* --- second derivatives: tridiagonal systems solved by elimination
SecondDiff(t, i) ==
    NDiv(NAdd(NSub(t.f[i - 1], NMul(2, t.f[i])), t.f[i + 1]), NSq(t.dx))
\* unknowns lo..hi with  m[i-1] + 4 m[i] + m[i+1] = r[i],  m known at lo-1
\* and hi+1
RECURSIVE Forward(_, _, _, _)
Forward(r, i, hi, acc) ==      \* acc: sequence of [d, y] for lo..i-1
    IF i > hi THEN acc
    ELSE IF acc = <<>> THEN Forward(r, i + 1, hi, << [d |-> "4", y |-> r[i]] >>)
    ELSE LET q == acc[Len(acc)]
             g == NDiv(1, q.d) IN
         Forward(r, i + 1, hi,
                 Append(acc, TLCEval([d |-> NSub(4, g),
                                      y |-> NSub(r[i], NMul(g, q.y))])))
RECURSIVE Backward(_, _, _)
Backward(acc, j, right) ==     \* the solution for 1..j, right: m[j+1]
    IF j = 0 THEN << >>
    ELSE LET m == TLCEval(NDiv(NSub(acc[j].y, right), acc[j].d)) IN
         Append(Backward(acc, j - 1, m), m)
Solve(r, lo, hi, left, right) ==
    IF lo > hi THEN << >>
    ELSE LET r1 == TLCEval([i \in lo..hi |->
                     NSub(r[i], IF i = lo THEN left ELSE "0")])
         IN Backward(Forward(r1, lo, hi, << >>), hi - lo + 1, right)
RHS(t) == TLCEval([i \in 2..(Len(t.f) - 1) |-> NMul(6, SecondDiff(t, i))])
Natural(t) ==
    LET n == Len(t.f) IN
    IF n = 2 THEN << "0", "0" >>
    ELSE << "0" >> \o Solve(RHS(t), 2, n - 1, "0", "0") \o << "0" >>
NotAKnot(t) ==
    LET n == Len(t.f) IN
    IF n = 2 THEN << "0", "0" >>
    ELSE IF n = 3 THEN LET m == SecondDiff(t, 2) IN << m, m, m >>
    ELSE LET a == SecondDiff(t, 2)
             b == SecondDiff(t, n - 1)
             mid == << a >> \o Solve(RHS(t), 3, n - 2, a, b) \o << b >>
         IN << NSub(NMul(2, mid[1]), mid[2]) >> \o mid
            \o << NSub(NMul(2, mid[n - 2]), mid[n - 3]) >>
CubEval(t, m, x) ==
    LET i == Piece(t, x)
        b == Frac(t, x, i)
        a == NSub(1, b)
        c(u) == NSub(NMul(u, NSq(u)), u) IN
    NAdd(NAdd(NMul(a, t.f[i]), NMul(b, t.f[i + 1])),
         NMul(NDiv(NSq(t.dx), 6),
              NAdd(NMul(c(a), m[i]), NMul(c(b), m[i + 1]))))
\* one-sided first derivatives of piece i at its ends
SlopeL(t, m, i) == NSub(NDiv(NSub(t.f[i + 1], t.f[i]), t.dx),
                        NMul(NDiv(t.dx, 6),
                             NAdd(NMul(2, m[i]), m[i + 1])))
SlopeR(t, m, i) == NAdd(NDiv(NSub(t.f[i + 1], t.f[i]), t.dx),
                        NMul(NDiv(t.dx, 6),
                             NAdd(m[i], NMul(2, m[i + 1]))))

\* --- smoothing of inverse variance
Med(S0) ==            \* S0: a function from indices to numbers
    LET D == DOMAIN S0
        n == Cardinality(D)
        Rank(i) == Cardinality({j \in D : NLt(S0[j], S0[i])
                                  \/ (NEq(S0[j], S0[i]) /\ j < i)}) + 1
        At(k) == S0[CHOOSE i \in D : Rank(i) = k] IN
    IF n = 0 THEN "nan"
    ELSE IF n % 2 = 1 THEN At((n + 1) \div 2)
    ELSE NDiv(NAdd(At(n \div 2), At(n \div 2 + 1)), 2)
GoodPix(iv) == {k \in DOMAIN iv : NPos(iv[k])}
Errors(iv) == TLCEval([k \in GoodPix(iv) |-> NDiv(1, NSqrt(iv[k]))])
\* [med, lim]: the median error, and how far above it an error may be
ErrorLimit(iv, esigma) ==
    LET e == Errors(iv)
        m == TLCEval(Med(e))
        d == TLCEval([k \in DOMAIN e |-> NAbs(NSub(e[k], m))]) IN
    [med |-> m, lim |-> NMul(esigma, NMul("1.4826", Med(d)))]
Excess(iv, k, L) == NSub(NSub(NDiv(1, NSqrt(iv[k])), L.med), L.lim)
Outlier(iv, k, L) == NLt("1e-9", Excess(iv, k, L))
\* a sequence convolved with a Gaussian of width s, its ends continued by the
\* end values
GaussSmooth(x, s) ==
    LET n == Len(x)
        h == NTrunc(NMul("6.5", s)) + 1
        K == TLCEval([j \in 0..h |-> NExp(NMul("-0.5", NSq(NDiv(j, s))))])
        tot == TLCEval(NAdd(K[0], NMul(2, NSum([j \in 1..h |-> K[j]]))))
        at(i) == x[IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i] IN
    TLCEval([i \in 1..n |->
       NDiv(NAdd(NMul(K[0], x[i]),
                 NSum([j \in 1..h |-> NMul(K[j], NAdd(at(i - j), at(i + j)))])),
            tot)])
Clearly(iv, k, L) == NLt(Excess(iv, k, L), "-1e-9")
=============================================================================
