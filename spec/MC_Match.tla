------------------------------ MODULE MC_Match ------------------------------
(* Matching an exposure to the continuum of its coadded spectrum by position   *)
(* on the common grid.  Both cover contiguous ranges [a, b] and [c, d] of      *)
(* pixels; the exposure is cut to the overlap and the continuum as well, or it *)
(* is not saved.  Algo computes offsets from the first and last pixels as the  *)
(* program does (python slices with negative ends count from the back).        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT N
VARIABLES a, b, c, d, done
vars == << a, b, c, d, done >>
Init == /\ a \in 1..N /\ b \in a..N /\ c \in 1..N /\ d \in c..N
        /\ done = FALSE
Rng(i, j) == [k \in 1..(IF j >= i THEN j - i + 1 ELSE 0) |-> i + k - 1]
\* q[i:j] (from zero)
PySlice(q, i, j) ==
    LET n == Len(q)
        lo == IF i < 0 THEN (IF n + i < 0 THEN 0 ELSE n + i)
              ELSE IF i > n THEN n ELSE i
        hi == IF j < 0 THEN (IF n + j < 0 THEN 0 ELSE n + j)
              ELSE IF j > n THEN n ELSE j IN
    IF hi <= lo THEN << >> ELSE SubSeq(q, lo + 1, hi)
Algo == LET ex == Rng(a, b)
            co == Rng(c, d)
            off == a - c
            i1 == IF off < 0 THEN -off ELSE 0
            j1 == IF off < 0 THEN 0 ELSE off
            end == d - b
            i2 == IF end < 0 THEN Len(ex) + end ELSE Len(ex)
            j2 == Len(co) - (IF end < 0 THEN 0 ELSE end) IN
        [ex |-> PySlice(ex, i1, i2), co |-> PySlice(co, j1, j2)]
Next == ~done /\ done' = TRUE /\ UNCHANGED << a, b, c, d >>
Spec == Init /\ [][Next]_vars
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
Overlap == Rng(Max(a, c), Min(b, d))
\* saved only when both have the same, non-zero number of pixels
Saved == Len(Algo.ex) = Len(Algo.co) /\ Algo.ex # << >>
Right == /\ Saved => Algo.ex = Overlap /\ Algo.co = Overlap
         /\ Overlap # << >> => Saved
=============================================================================
