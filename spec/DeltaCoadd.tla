----------------------------- MODULE DeltaCoadd -----------------------------
(***************************************************************************)
(* Averaging repeated sightlines.  An entry d of a delta file has           *)
(*   lam, delta, ivar, weight, cont : sequences over pixels                 *)
(*   reso : sequence of rows (<<>> when absent), blind : BOOLEAN            *)
(* Weights are 1/(variance + large-scale variance), so 1 - weight/ivar is   *)
(* weight times large-scale variance.                                       *)
(***************************************************************************)
EXTENDS Num, FiniteSets, Sequences, TLC
First(d) == d.lam[1]
Last(d) == d.lam[Len(d.lam)]
Start(a, b) == NMin(First(a), First(b))
NPix(a, b, dw) == NRound(NDiv(NSub(NMax(Last(a), Last(b)), Start(a, b)), dw)) + 1
\* pixel of entry d that falls on output pixel n (0 when none)
PixOf(d, n, x0, dw) ==
    LET k == n - NRound(NDiv(NSub(First(d), x0), dw)) IN
    IF k \in DOMAIN d.lam THEN k ELSE 0
\* contributions: values of the pixels with weight there
Parts(a, b, n, x0, dw) ==
    {p \in {<< 1, PixOf(a, n, x0, dw) >>, << 2, PixOf(b, n, x0, dw) >>} :
       p[2] # 0 /\ NPos((IF p[1] = 1 THEN a ELSE b).weight[p[2]])}
Total(S, v(_)) ==
    LET g(k) == IF \E p \in S : p[1] = k
                THEN v(CHOOSE p \in S : p[1] = k) ELSE "0" IN
    NAdd(g(1), g(2))
Pad(row, m) == LET h == (m - Len(row)) \div 2 IN
    [i \in 1..m |-> IF i - h \in DOMAIN row THEN row[i - h] ELSE "0"]
Avg(a, b, dw) ==
    LET x0 == Start(a, b)
        N == NPix(a, b, dw)
        O(p) == IF p[1] = 1 THEN a ELSE b
        S == TLCEval([n \in 1..N |-> Parts(a, b, n, x0, dw)])
        W(p) == O(p).weight[p[2]]
        norm == TLCEval([n \in 1..N |-> Total(S[n], W)])
        mean(n, v(_)) == LET wv(p) == NMul(W(p), v(p)) IN
                         IF S[n] = {} THEN "0"
                         ELSE NDiv(Total(S[n], wv), norm[n])
        iv == TLCEval([n \in 1..N |->
                IF S[n] = {} THEN "0"
                ELSE LET q(p) == NDiv(NSq(W(p)), O(p).ivar[p[2]]) IN
                     NDiv(NSq(norm[n]), Total(S[n], q))])
        lss(n) == LET r(p) == NSub(1, NDiv(W(p), O(p).ivar[p[2]])) IN
                  IF S[n] = {} THEN "0" ELSE NDiv(Total(S[n], r), norm[n])
        m == IF a.reso = << >> THEN 0
             ELSE IF Len(a.reso[1]) > Len(b.reso[1]) THEN Len(a.reso[1])
             ELSE Len(b.reso[1])
        D(p) == O(p).delta[p[2]]
        Cn(p) == O(p).cont[p[2]] IN
    TLCEval([lam |-> [n \in 1..N |-> NAdd(x0, NMul(dw, n - 1))],
     delta |-> [n \in 1..N |-> mean(n, D)],
     ivar |-> iv,
     weight |-> [n \in 1..N |-> NDiv(iv[n], NAdd(1, NMul(iv[n], lss(n))))],
     cont |-> [n \in 1..N |-> mean(n, Cn)],
     reso |-> IF m = 0 THEN << >> ELSE
              [n \in 1..N |-> [i \in 1..m |->
                 LET R(p) == Pad(O(p).reso[p[2]], m)[i] IN mean(n, R)]],
     blind |-> a.blind \/ b.blind])
Snr(d) == LET G == {n \in DOMAIN d.ivar : NPos(d.ivar[n])}
              q == [n \in DOMAIN d.ivar |->
                      NMul(NSqrt(d.ivar[n]), NAdd(1, d.delta[n]))] IN
          IF G = {} THEN "0" ELSE NDiv(NSum(q), Cardinality(G))
\* averages of the entries ds[i], i in S, in any order
RECURSIVE Averages(_, _, _)
Averages(ds, S, dw) ==
    IF Cardinality(S) = 1 THEN {ds[CHOOSE i \in S : TRUE]}
    ELSE IF Cardinality(S) = 2
    THEN LET i == CHOOSE i \in S : TRUE
             j == CHOOSE j \in S \ {i} : TRUE IN {Avg(ds[i], ds[j], dw)}
    ELSE UNION {{Avg(d, ds[i], dw) : d \in Averages(ds, S \ {i}, dw)} : i \in S}
=============================================================================
