------------------------------ MODULE Jackknife ------------------------------
(* Weighted statistics kept in subsamples, for the delete-one jackknife.       *)
(* An accumulator a = [n, pos, start, S, W]: subsample i (1..n) holds the sum   *)
(* of weighted measurements S[i] = <<set>> of <<component>> and the sum of      *)
(* weights W[i] = <<component>>.  Numbers are Num's.                            *)
EXTENDS Num, TLC
Zero(m) == [k \in 1..m |-> "0"]
New(n, nset, m, start) ==
  [n |-> n, start |-> start % n, pos |-> start % n,
   S |-> [i \in 1..n |-> [j \in 1..nset |-> Zero(m)]],
   W |-> [i \in 1..n |-> Zero(m)]]
VAdd(u, v) == [k \in DOMAIN u |-> NAdd(u[k], v[k])]
\* measurements go to the subsamples in turn
Put(a, x, w) ==
  LET i == a.pos + 1 IN
  [a EXCEPT !.pos = (a.pos + 1) % a.n,
            !.S[i] = [j \in DOMAIN @ |-> VAdd(@[j], x[j])],
            !.W[i] = VAdd(@, w)]
RECURSIVE FoldAcc(_)
FoldAcc(as) ==
  IF Len(as) = 1 THEN as[1] ELSE
  LET b == FoldAcc(Tail(as)) IN
  [as[1] EXCEPT !.S = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |->
                          VAdd(@[i][j], b.S[i][j])]],
                !.W = [i \in DOMAIN @ |-> VAdd(@[i], b.W[i])]]
\* all processes together
Total(as) == FoldAcc(as)
Sets(a) == DOMAIN a.S[1]
Comps(a) == DOMAIN a.W[1]
SumW(a, k) == NSum([i \in 1..a.n |-> a.W[i][k]])
SumS(a, j, k) == NSum([i \in 1..a.n |-> a.S[i][j][k]])
Mean(a, j, k) == IF NZero(SumW(a, k)) THEN "0"
                 ELSE NDiv(SumS(a, j, k), SumW(a, k))
\* the delete-one means exist, and are not the quotient of two cancellations
Exists(a, k) ==
  LET w == TLCEval(SumW(a, k)) IN
  NZero(w) \/ \A i \in 1..a.n :
    NLe(NMul("0.001", w), NSub(w, a.W[i][k]))
\* the means without one subsample
Jacks(a, j, k) ==
  LET w == TLCEval(SumW(a, k))
      s == TLCEval(SumS(a, j, k)) IN
  TLCEval([i \in 1..a.n |-> IF NZero(w) THEN "0"
     ELSE NDiv(NSub(s, a.S[i][j][k]), NSub(w, a.W[i][k]))])
JMean(J) == NDiv(NSum(J), Len(J))
Diffs(J) == LET m == TLCEval(JMean(J)) IN
            TLCEval([i \in DOMAIN J |-> NSub(J[i], m)])
\* from the differences of two components
CovOf(n, x, y) == NDiv(NMul(NDot(x, y), n - 1), n)
\* the bias of the mean the jackknife estimates
Bias(a, j, k) == NMul(a.n - 1, NSub(JMean(Jacks(a, j, k)), Mean(a, j, k)))
=============================================================================
