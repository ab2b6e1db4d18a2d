------------------------------ MODULE Trace_C22 ------------------------------
(* C22: histories of a real accumulator on several processes against           *)
(* Jackknife.  acc: one accumulator per process, as the specification has it.  *)
(* What the mean is once a bias correction was asked for is only specified for *)
(* the first result taken.                                                     *)
EXTENDS Jackknife, TraceLib
VARIABLES acc, taken, biased
Fresh(e) == [p \in DOMAIN e.starts |->
               New(e.n, e.nset, e.m, e.starts[p])]
\* results of process p
A(p) == acc[p]
JudgeMean(a, m) ==
  Cl("mean_is_weighted_mean_of_everything",
     /\ DOMAIN m = Sets(a)
     /\ \A j \in Sets(a) : SeqNear(m[j], [k \in Comps(a) |-> Mean(a, j, k)]))
JudgeBiased(a, m) ==
  Cl("bias_corrected_mean",
     /\ DOMAIN m = Sets(a)
     /\ \A j \in Sets(a) : DOMAIN m[j] = Comps(a)
        /\ \A k \in Comps(a) : Exists(a, k) =>
              NNear(m[j][k], NSub(Mean(a, j, k), Bias(a, j, k)), "1e-8"))
JD(a, j) == [k \in Comps(a) |-> IF Exists(a, k) THEN Diffs(Jacks(a, j, k))
                                ELSE << >>]
JudgeVar(a, v) ==
  IF DOMAIN v # Sets(a) \/ \E j \in Sets(a) : DOMAIN v[j] # Comps(a)
  THEN {"variance_of_every_component"}
  ELSE Cl("variance_is_not_negative",
          \A j \in Sets(a) : \A k \in Comps(a) : NNonNeg(v[j][k]))
       \cup Cl("variance_is_delete_one_jackknife",
          \A j \in Sets(a) : LET D == TLCEval(JD(a, j)) IN
            \A k \in Comps(a) : D[k] # << >> =>
              NNear(v[j][k], CovOf(a.n, D[k], D[k]), "1e-8"))
\* c: list of [j, rows] (full) or [j, blocks]
CovEntry(D, n, c, k, q) ==
  D[k] = << >> \/ D[q] = << >> \/ NNear(c, CovOf(n, D[k], D[q]), "1e-8")
JudgeCov(a, c, want, bd) ==
  IF {c[i].j : i \in DOMAIN c} # want \/ Len(c) # Cardinality(want)
  THEN {"covariance_of_every_set_asked_for"}
  ELSE UNION {
    LET D == TLCEval(JD(a, c[i].j))
        m == Cardinality(Comps(a))
        nb == m \div bd
        B == c[i].blocks IN
    IF Len(B) # nb \/ (\E b \in DOMAIN B : Len(B[b]) # bd)
       \/ \E b \in DOMAIN B : \E k \in 1..bd : Len(B[b][k]) # bd
    THEN {"covariance_shape"}
    ELSE Cl("covariance_is_delete_one_jackknife",
            \A b \in 1..nb : \A k, q \in 1..bd :
              CovEntry(D, a.n, B[b][k][q], (b - 1) * bd + k, (b - 1) * bd + q))
         \cup Cl("covariance_is_symmetric",
            \A b \in 1..nb : \A k, q \in 1..bd :
              NNear(B[b][k][q], B[b][q][k], "1e-12"))
         \cup Cl("covariance_diagonal_is_not_negative",
            \A b \in 1..nb : \A k \in 1..bd : NNonNeg(B[b][k][k]))
    : i \in DOMAIN c}
Bad(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "new" -> Cl("enabled_step_raises", e.out = "ok")
    [] e.k = "add" ->
         IF taken THEN Cl("adding_after_a_result_is_refused", e.out # "ok")
         ELSE Cl("enabled_step_raises", e.out = "ok")
    [] e.k \in {"reduce", "reset"} -> Cl("enabled_step_raises", e.out = "ok")
    [] e.k = "take" ->
         IF e.out # "ok" THEN {"enabled_step_raises"} ELSE
         UNION {
           (IF e.bias /\ ~taken THEN JudgeBiased(A(p), e.res[p].mean)
            ELSE IF biased \/ e.bias THEN {} ELSE JudgeMean(A(p), e.res[p].mean))
           \cup (IF e.what = "var" THEN JudgeVar(A(p), e.res[p].var)
                 ELSE IF e.what = "cov"
                 THEN JudgeCov(A(p), e.res[p].cov, SeqSet(e.want), e.bd)
                 ELSE {})
           : p \in DOMAIN e.res}
    [] OTHER -> {"unknown"}
Step(e) ==
  /\ acc' = (CASE e.k = "new" -> Fresh(e)
               [] e.k = "add" -> (IF taken THEN acc
                    ELSE [acc EXCEPT ![e.p] = TLCEval(Put(@, e.x, e.w))])
               [] e.k = "reduce" -> LET t == TLCEval(Total(acc)) IN
                    [p \in DOMAIN acc |-> [t EXCEPT !.pos = acc[p].pos,
                                             !.start = acc[p].start]]
               [] e.k = "reset" -> [p \in DOMAIN acc |->
                    New(acc[p].n, Cardinality(Sets(acc[p])),
                        Cardinality(Comps(acc[p])), acc[p].start)]
               [] OTHER -> acc)
  /\ taken' = (CASE e.k = "take" -> TRUE
                 [] e.k \in {"new", "reset"} -> FALSE [] OTHER -> taken)
  /\ biased' = (CASE e.k = "take" -> biased \/ e.bias
                  [] e.k \in {"new", "reset"} -> FALSE [] OTHER -> biased)
JInit == TraceInit /\ acc = << >> /\ taken = FALSE /\ biased = FALSE
JNext == \/ l <= Len(T) /\ TraceStep(Bad(T[l])) /\ Step(T[l])
         \/ TraceEnd /\ UNCHANGED << acc, taken, biased >>
TraceSpec == JInit /\ [][JNext]_<<l, bad, acc, taken, biased>>
=============================================================================
