------------------------------ MODULE MC_Coadd ------------------------------
(* Two arms of three pixels at every relative position and every choice of     *)
(* weights and fluxes from small sets: every input pixel contributes to        *)
(* exactly one output pixel, the total weight is conserved, the mean is        *)
(* within the range of the contributing fluxes, equal weights = ivar give      *)
(* ivar = sum, and the order of the arms is irrelevant.                        *)
EXTENDS Coadd
CONSTANTS W, F
VARIABLES off, w1, w2, f1, f2
vars == << off, w1, w2, f1, f2 >>
Three(S) == {<< a, b, c >> : a \in S, b \in S, c \in S}
Init == off \in 0..4 /\ w1 \in Three(W) /\ w2 \in Three(W)
        /\ f1 \in {<< a, b, a >> : a \in F, b \in F}
        /\ f2 \in {<< a, a, b >> : a \in F, b \in F}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Arm(o, w, fl) == [wave |-> [k \in 1..3 |-> NAdd("4000", NMul("0.8", o + k - 1))],
                  flux |-> fl, ivar |-> w, w |-> w]
A == << Arm(0, w1, f1), Arm(off, w2, f2) >>
B == << A[2], A[1] >>
Wave == [k \in 1..(off + 3) |-> NAdd("4000", NMul("0.8", k - 1))]
N == off + 3
DW == "0.8"
C == AllC(A, N, DW)
Inv ==
  /\ GridOK(Wave, A, DW) /\ NothingLost(A, N, DW)
  /\ \A i \in 1..2, k \in 1..3 :
       Cardinality({n \in 1..N : << i, k >> \in C[n]}) = 1
  /\ NEq(NSum([n \in 1..N |-> Norm(A, C[n])]),
         NAdd(NSum(w1), NSum(w2)))
  /\ \A n \in 1..N : NPos(Norm(A, C[n])) =>
       /\ Near(MeanIvar(A, C[n]), Norm(A, C[n]))
       /\ \E p \in C[n] : NLe(A[p[1]].flux[p[2]],
                              NAdd(MeanFlux(A, C[n]), "1e-20"))
       /\ \E p \in C[n] : NLe(NSub(MeanFlux(A, C[n]), "1e-20"),
                              A[p[1]].flux[p[2]])
       /\ Near(MeanFlux(A, C[n]), MeanFlux(B, Contrib(B, n, DW)))
=============================================================================
