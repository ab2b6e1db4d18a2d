-------------------------------- MODULE Stack --------------------------------
(* Stacks: weighted means of values in equal bins.  A grid g = [lo, dw, n]:    *)
(* bin i covers [lo + (i-1) dw, lo + i dw).                                    *)
EXTENDS Interp, Sequences
GridOf(w1, w2, dw) ==           \* as many bins as come closest to dw
  LET n == NRound(NDiv(NSub(w2, w1), dw)) IN
  [lo |-> w1, n |-> n, dw |-> NDiv(NSub(w2, w1), n)]
GPos(g, w) == NDiv(NSub(w, g.lo), g.dw)
GBin(g, w) == NFloor(GPos(g, w)) + 1
\* within rounding of an edge
GRisky(g, w) == LET p == GPos(g, w) IN NNear(p, NRound(p), "1e-10")
Center(g, i) == NAdd(g.lo, NMul(g.dw, NSub(i, "0.5")))
\* pixels: sequences of bins, values and weights
Members(B, k) == SelectSeq([i \in DOMAIN B |-> i], LAMBDA i : B[i] = k)
StackOf(g, B, v, w) ==
  TLCEval([k \in 1..g.n |->
    LET M == TLCEval(Members(B, k))
        sw == TLCEval(NSum([j \in DOMAIN M |-> w[M[j]]])) IN
    IF M = << >> \/ ~NPos(sw) THEN [v |-> "0", w |-> "0"]
    ELSE [v |-> NDiv(NDot([j \in DOMAIN M |-> w[M[j]]],
                          [j \in DOMAIN M |-> v[M[j]]]), sw), w |-> sw]])
\* the stack as a table, empty bins replaced by one
Filled(g, S) == [x0 |-> Center(g, 1), dx |-> g.dw,
                 f |-> [k \in 1..g.n |-> IF NZero(S[k]) THEN "1" ELSE S[k]]]
=============================================================================
