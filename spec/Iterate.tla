------------------------------- MODULE Iterate -------------------------------
(***************************************************************************)
(* The mean continuum from one iteration to the next.  A mean continuum is  *)
(* given at points w in rest wavelength; its mean is taken with the natural *)
(* cubic spline in x = ln(w / w1) / ln(wn / w1).                            *)
(***************************************************************************)
EXTENDS Interp
XOf(w) == LET d == TLCEval(NLn(NDiv(w[Len(w)], w[1]))) IN
          TLCEval([i \in DOMAIN w |-> NDiv(NLn(NDiv(w[i], w[1])), d)])
\* second derivatives of the natural spline: for 1 < i < n
\*   h[i-1] m[i-1] + 2 (h[i-1] + h[i]) m[i] + h[i] m[i+1] = r[i]
RECURSIVE Down(_, _, _, _)
Down(h, r, i, acc) ==
  IF i > Len(h) THEN acc
  ELSE LET d0 == NMul(2, NAdd(h[i - 1], h[i]))
           q == IF acc = << >> THEN [d |-> "1", y |-> "0"]
                ELSE acc[Len(acc)]
           g == IF acc = << >> THEN "0" ELSE NDiv(h[i - 1], q.d) IN
       Down(h, r, i + 1, Append(acc, TLCEval(
          [d |-> NSub(d0, NMul(g, IF acc = << >> THEN "0" ELSE h[i - 1])),
           y |-> NSub(r[i], NMul(g, q.y))])))
RECURSIVE Up(_, _, _, _)
Up(h, acc, j, right) ==      \* acc[j] belongs to point j + 1
  IF j = 0 THEN << >>
  ELSE LET m == TLCEval(NDiv(NSub(acc[j].y, NMul(h[j + 1], right)),
                             acc[j].d)) IN
       Append(Up(h, acc, j - 1, m), m)
Integral(x, y) ==
  LET n == Len(x)
      h == TLCEval([i \in 1..(n - 1) |-> NSub(x[i + 1], x[i])])
      s == TLCEval([i \in 1..(n - 1) |-> NDiv(NSub(y[i + 1], y[i]), h[i])])
      r == TLCEval([i \in 2..(n - 1) |-> NMul(6, NSub(s[i], s[i - 1]))])
      A == Down(h, r, 2, << >>)
      m == TLCEval(<< "0" >> \o Up(h, A, n - 2, "0") \o << "0" >>) IN
  NSum([i \in 1..(n - 1) |->
     NSub(NMul(h[i], NDiv(NAdd(y[i], y[i + 1]), 2)),
          NDiv(NMul(NMul(h[i], NSq(h[i])), NAdd(m[i], m[i + 1])), 24))])
Legendre(j, x) ==
  LET t == NSub(NMul(2, x), 1) IN
  CASE j = 0 -> "1"
    [] j = 1 -> t
    [] j = 2 -> NDiv(NSub(NMul(3, NSq(t)), 1), 2)
    [] j = 3 -> NDiv(NSub(NMul(5, NMul(t, NSq(t))), NMul(3, t)), 2)
Component(x, y, j) ==
  NMul(2 * j + 1, Integral(x, TLCEval([i \in DOMAIN x |->
                             NMul(y[i], Legendre(j, x[i]))])))
\* --- convergence: the change of every point is below a third of its error,
\* or small on average; "yes", "no", or "?" at the limit
Change(old, new, err) == TLCEval([i \in DOMAIN old |->
    NDiv(NSub(NDiv(new[i], old[i]), 1), err[i])])
Verdict(c) ==
  LET q == TLCEval(NDiv(NSum([i \in DOMAIN c |-> NSq(c[i])]), Len(c)))
      Below(f) == \/ NLt(q, NMul(f, "1e-3"))
                  \/ \A i \in DOMAIN c : NLt(NAbs(c[i]), NMul(f, "0.33")) IN
  IF Below("0.999999") THEN "yes" ELSE IF Below("1.000001") THEN "?"
  ELSE "no"
\* --- the new mean continuum is the stack, smoothed within its errors (times
\* the old one where residuals are stacked), up to the components along the
\* polynomials and the mean: least squares over these leaves at most as much
\* as there are points.  b: sequence of basis vectors; y, s: stack and errors
RECURSIVE Elim(_, _)
Elim(A, y) ==                \* solves A c = y, A symmetric positive
  LET n == Len(y) IN
  IF n = 0 THEN << >>
  ELSE LET p == A[1][1]
           A1 == TLCEval([i \in 1..(n - 1) |-> TLCEval([j \in 1..(n - 1) |->
                   NSub(A[i + 1][j + 1],
                        NDiv(NMul(A[i + 1][1], A[1][j + 1]), p))])])
           y1 == TLCEval([i \in 1..(n - 1) |->
                   NSub(y[i + 1], NDiv(NMul(A[i + 1][1], y[1]), p))])
           c == Elim(A1, y1) IN
       << NDiv(NSub(y[1], NSum([j \in 1..(n - 1) |->
                                  NMul(A[1][j + 1], c[j])])), p) >> \o c
Fit(b, y, s) ==
  LET Q(u, v) == NSum([i \in DOMAIN y |->
                         NDiv(NMul(u[i], v[i]), NSq(s[i]))])
      A == TLCEval([i \in DOMAIN b |-> [j \in DOMAIN b |-> Q(b[i], b[j])]])
      c == TLCEval(Elim(A, [i \in DOMAIN b |-> Q(b[i], y)])) IN
  TLCEval([c |-> c, q |-> NSum([i \in DOMAIN y |->
     NSq(NDiv(NSub(y[i], NSum([j \in DOMAIN b |-> NMul(c[j], b[j][i])])),
              s[i]))])])
=============================================================================
