------------------------------ MODULE Trace_C15 ------------------------------
(* C15 and C29: the spectra of a run's continuum catalogue and its saved      *)
(* arms, against the files of the survey.  IOEnv.PROP selects the clauses.     *)
EXTENDS Pipeline, TraceLib
RunFails(e) ==
  IF e.out # "ok" THEN {"run_completes"} ELSE
  LET o == e.o
      C == TLCEval(Tables(o))
      N == DOMAIN e.specs
      W == TLCEval([n \in N |-> TLCEval(Way(e.specs[n], o, C))])
      Tids == {e.specs[n].tid : n \in N}
      Rows(t) == {i \in DOMAIN e.rows : e.rows[i].tid = t}
      Of(t) == {n \in N : e.specs[n].tid = t}
      Yes(t) == Cardinality({n \in Of(t) : W[n].sel = "yes"})
      May(t) == Cardinality({n \in Of(t) : W[n].sel # "no"})
      Valid(n) == \E i \in Rows(e.specs[n].tid) : e.rows[i].valid
      Ents(n) == {j \in DOMAIN e.ents : e.ents[j].tid = e.specs[n].tid
                                        /\ e.ents[j].exp = e.specs[n].exp}
      Ent(n, a) == {j \in Ents(n) : e.ents[j].arm = a}
      Single(n) == Cardinality(Of(e.specs[n].tid)) = 1
      RowOf(n) == e.rows[CHOOSE i \in Rows(e.specs[n].tid) : TRUE]
      S15 ==
        Cl("only_of_the_catalogue",
           \A i \in DOMAIN e.rows : e.rows[i].tid \in Tids)
        \cup Cl("all_that_satisfy_the_cuts",
           \A t \in Tids : Yes(t) <= Cardinality(Rows(t)))
        \cup Cl("only_those_that_satisfy_the_cuts",
           \A t \in Tids : Cardinality(Rows(t)) <= May(t))
        \cup Cl("signal_to_noise_of_the_data",
           \A n \in N : Single(n) /\ Rows(e.specs[n].tid) # {} =>
             /\ NNear(RowOf(n).rsnr, W[n].rsnr, "1e-5")
             /\ e.o.coadd # "after" =>
                \A k \in DOMAIN W[n].snr :
                  \E m \in DOMAIN RowOf(n).arms :
                    RowOf(n).arms[m] = W[n].snr[k].arm
                    /\ NNear(RowOf(n).snr[m], W[n].snr[k].v, "1e-5"))
        \cup (IF o.coadd = "after" THEN
           Cl("too_short_arms_are_dropped",
              \A n \in N : W[n].sel = "yes" =>
                (CoaddKept(W[n].arms, e.specs[n], o) = "no"
                  => Ents(n) = {}))
           \cup Cl("long_arms_are_kept",
              \A n \in N : W[n].sel = "yes" /\ Single(n) /\ Valid(n) =>
                (CoaddKept(W[n].arms, e.specs[n], o) = "yes"
                  => Cardinality(Ents(n)) = 1))
           ELSE
           Cl("too_short_arms_are_dropped",
              \A n \in N : W[n].sel = "yes" => \A k \in DOMAIN W[n].arms :
                ArmKept(W[n].arms[k], e.specs[n], o) = "no"
                  => Ent(n, W[n].arms[k].arm) = {})
           \cup Cl("long_arms_are_kept",
              \A n \in N : W[n].sel = "yes" /\ Single(n) /\ Valid(n) =>
                \A k \in DOMAIN W[n].arms :
                ArmKept(W[n].arms[k], e.specs[n], o) = "yes"
                /\ ~NZero(W[n].snr[k].v)
                  => Cardinality(Ent(n, W[n].arms[k].arm)) = 1)) IN
  S15
PixOK(p, d, j, o, C) ==
  LET c == d.cont[j] IN
  IF ~p.clear THEN TRUE
  ELSE IF NZero(p.i) THEN NZero(d.ivar[j]) /\ NZero(d.delta[j])
  ELSE /\ NNear(NAdd(d.delta[j], 1), NDiv(p.f, c), "1e-6")
       /\ NNear(NDiv(d.ivar[j], NSq(c)),
                IF o.add THEN AddIvar(p.i, "1", At(C.vl, d.lam[j]), c)
                ELSE p.i, "1e-6")
DataFails(e) ==
  IF e.out # "ok" THEN {"run_completes"} ELSE
  LET o == e.o
      C == TLCEval(Tables(o))
      N == DOMAIN e.specs
      W == TLCEval([n \in N |-> TLCEval(Way(e.specs[n], o, C))])
      Of(j) == {n \in N : e.specs[n].tid = e.ents[j].tid
                          /\ e.specs[n].exp = e.ents[j].exp}
      ArmOf(j) == LET n == CHOOSE x \in Of(j) : TRUE
                      S == {k \in DOMAIN W[n].arms :
                              W[n].arms[k].arm = e.ents[j].arm} IN
                  IF S = {} THEN [none |-> TRUE]
                  ELSE W[n].arms[CHOOSE k \in S : TRUE] IN
  Cl("something_saved", e.ents # << >>)
  \cup Cl("of_its_own_target",
     \A j \in DOMAIN e.ents : Cardinality(Of(j)) = 1)
  \cup UNION {IF Cardinality(Of(j)) # 1 THEN {} ELSE
      LET p == ArmOf(j)
          d == e.ents[j] IN
      IF "none" \in DOMAIN p THEN {"an_arm_of_its_target"} ELSE
      IF Len(d.lam) # Len(p.wave) \/ Len(d.delta) # Len(d.lam)
         \/ Len(d.ivar) # Len(d.lam) \/ Len(d.cont) # Len(d.lam)
         \/ \E k \in DOMAIN p.wave : ~NNear(d.lam[k], p.wave[k], "1e-9")
      THEN {"every_forest_pixel"}
      ELSE Cl("calibrated_and_masked_input",
              \A k \in DOMAIN p.wave : PixOK(p.pix[k], d, k, o, C))
    : j \in DOMAIN e.ents}
Fails(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "select" -> RunFails(e)
    [] e.k = "data" -> DataFails(e)
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
