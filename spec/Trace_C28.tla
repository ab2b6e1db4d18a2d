------------------------------ MODULE Trace_C28 ------------------------------
(* C28: histories of interpolators (created, evaluated, their tables           *)
(* replaced), and noise smoothing.  obj: what each interpolator was last given.*)
EXTENDS Interp, TraceLib
VARIABLE obj
Known(e) == e.id \in DOMAIN obj
NewObj(e) ==
  CASE e.k = "begin" -> << >>
    [] e.k = "new" -> (e.id :> [kind |-> e.kind, t |-> e.t]) @@ obj
    [] e.k = "reset" ->
         (e.id :> [kind |-> obj[e.id].kind,
                   t |-> [obj[e.id].t EXCEPT !.f = e.f]]) @@ obj
    [] OTHER -> obj
Close(a, b) == NNear(a, b, "1e-8")
EvalFails(e) ==
  LET o == obj[e.id]
      m == TLCEval(IF o.kind = "natural" THEN Natural(o.t)
                   ELSE IF o.kind = "not-a-knot" THEN NotAKnot(o.t)
                   ELSE << >>)
      V(x) == IF o.kind = "linear" THEN LinEval(o.t, x)
              ELSE CubEval(o.t, m, x) IN
  IF Len(e.y) # Len(e.x) THEN {"one_value_per_point"} ELSE
  Cl("interpolated_value", \A i \in DOMAIN e.x : Close(e.y[i], V(e.x[i])))
Rel(a, b) == NNear(NDiv(a, b), 1, "1e-9")
SmoothFails(e) ==
  LET iv == e.ivar
      r == e.res
      G == GoodPix(iv)
      L == TLCEval(ErrorLimit(iv, e.esigma))
      O == {k \in G : Outlier(iv, k, L)}
      C == {k \in G : Clearly(iv, k, L)}
      const == G # {} /\ \A j, k \in G \ O : NEq(iv[j], iv[k]) IN
  IF Len(r) # Len(iv) THEN {"keeps_length"} ELSE
  Cl("zeros_stay_zero", \A k \in DOMAIN iv : k \notin G => NZero(r[k]))
  \cup Cl("positive_and_finite", \A k \in G : NPos(r[k]))
  \cup Cl("outliers_restored", \A k \in O : Rel(r[k], iv[k]))
  \cup Cl("constant_noise_unchanged",
          const => \A k \in G \ O : Rel(r[k], iv[k]))
  \* e.iv2: the same noise with other values in pixels already outlying
  \cup Cl("outliers_do_not_leak",
          (e.iv2 # << >> /\ Len(e.res2) = Len(r)
           /\ \A k \in DOMAIN iv : k \in C \/ k \in O \/ k \notin G)
           => \A k \in C : Rel(r[k], e.res2[k]))
  \cup Cl("argument_unchanged", e.after = iv)
\* the smoothed errors are those convolved with a Gaussian of the given width;
\* "width_sigma_over_2pi": of a width smaller by the factor two pi
TwoPi == "6.283185307179586"
WidthFails(e) ==
  LET iv == e.ivar
      G == GoodPix(iv)
      L == TLCEval(ErrorLimit(iv, e.esigma))
      O == {k \in G : Outlier(iv, k, L)}
      C == {k \in G : Clearly(iv, k, L)}
      er == TLCEval([k \in DOMAIN iv |->
              IF k \in C THEN NDiv(1, NSqrt(iv[k])) ELSE L.med])
      dev(s, tol) ==
        LET y == GaussSmooth(er, s) IN
        \A k \in C : NLe(NAbs(NSub(NDiv(1, NSqrt(e.res[k])), y[k])),
                         NMul(tol, L.med)) IN
  IF ~e.width \/ G = {} \/ O \cup C # G \/ Len(e.res) # Len(iv)
     \/ \E k \in C : ~NPos(e.res[k]) THEN {}
  ELSE IF dev(e.sigma, "0.01") THEN {}
  ELSE IF dev(NDiv(e.sigma, TwoPi), "1e-4") THEN {"width_sigma_over_2pi"}
  ELSE {"smoothing_is_gaussian"}
\* moving median with reflected ends
Reflect(i, n) == LET p == (i - 1) % (2 * n) IN
                 IF p < n THEN p + 1 ELSE 2 * n - p
MovMed(f, w) == LET n == Len(f)
                    h == w \div 2 IN
  TLCEval([i \in 1..n |->
             Med([j \in 1..w |-> f[Reflect(i - h + j - 1, n)]])])
OutFails(e) ==
  LET G == TLCEval({k \in DOMAIN e.flux : ~NZero(e.ivar[k])})
      K == TLCEval([i \in 1..Cardinality(G) |->
             CHOOSE k \in G : Cardinality({j \in G : j < k}) = i - 1])
      f == [i \in DOMAIN K |-> e.flux[K[i]]]
      md == MovMed(f, e.nwindow)
      d == TLCEval([i \in DOMAIN K |-> NAbs(NSub(f[i], md[i]))])
      sg == MovMed(d, e.nwindow)
      lim(i, least) ==
        NMul(e.esigma, NMax(NMax(least, NMul("1.4826", sg[i])),
                            NDiv(1, NSqrt(e.ivar[K[i]]))))
      \* the documented limit; a floor of one unit of flux under it
      flags(least) == \A i \in DOMAIN K :
            LET x == NDiv(d[i], lim(i, least)) IN
            IF NNear(x, 1, "1e-6") THEN TRUE
            ELSE e.res[K[i]] = IF NLt(1, x) THEN "1" ELSE "0" IN
  IF Len(e.res) # Len(e.flux) THEN {"keeps_length"} ELSE
  Cl("pixels_without_data_flagged",
     \A k \in DOMAIN e.flux : k \notin G => e.res[k] = "1")
  \cup (IF flags("0") THEN {} ELSE IF flags("1")
        THEN {"outliers_below_one_unit_of_flux"} ELSE {"outlier_flags"})
Fails(e) ==
  CASE e.k = "begin" -> {}
    [] e.k = "crash" -> {"enabled_step_raises"}
    [] e.out # "ok" -> {"enabled_step_raises"}
    [] e.k = "new" -> {}
    [] e.k = "reset" -> Cl("earlier_tables_left_alone", e.was = e.after)
    [] e.k = "eval" -> EvalFails(e)
    [] e.k = "smooth" -> SmoothFails(e) \cup WidthFails(e)
    [] e.k = "outliers" -> OutFails(e)
    [] OTHER -> {"unknown"}
TraceSpec == /\ TraceInit /\ obj = << >>
             /\ [][(l <= Len(T) /\ TraceStep(Fails(T[l]))
                    /\ obj' = NewObj(T[l]))
                   \/ (TraceEnd /\ UNCHANGED obj)]_<<l, bad, obj>>
=============================================================================
