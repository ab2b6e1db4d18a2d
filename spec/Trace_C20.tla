------------------------------ MODULE Trace_C20 ------------------------------
(* C20: the continuum catalogue against the spectra each process held          *)
(* ("cat"), and that of whole runs against the survey's files and the saved    *)
(* deltas ("rows").                                                            *)
EXTENDS ChiCat, TraceLib
P == INSTANCE Pipeline
Count(q, t) == Cardinality({i \in DOMAIN q : q[i].tid = t})
CatFails(e) ==
  IF e.out # "ok" THEN {"enabled_step_raises"} ELSE
  LET Rk == DOMAIN e.ranks
      Of(t) == {i \in DOMAIN e.rows : e.rows[i].tid = t}
      All == UNION {{<< p, i >> : i \in DOMAIN e.ranks[p]} : p \in Rk}
      S(a) == e.ranks[a[1]][a[2]]
      Tids == {S(a).tid : a \in All}
      nc == Coefs(e.model, e.order)
      Match(r, a) == /\ IdentityOf(r, S(a)) /\ SnrOf(r, S(a))
                     /\ FitOf(r, S(a)) /\ DofOf(r, S(a), nc)
                     /\ RankOf(r, a[1] - 1)
      Some(name, T1(_, _)) == Cl(name, \A a \in All : \E i \in Of(S(a).tid) :
                                    T1(e.rows[i], a)) IN
  Cl("a_row_per_spectrum", Len(e.rows) = Cardinality(All)
       /\ \A t \in Tids : Cardinality(Of(t)) =
                          Cardinality({a \in All : S(a).tid = t}))
  \cup Some("its_own_identity", LAMBDA r, a : IdentityOf(r, S(a)))
  \cup Some("its_own_signal_to_noise", LAMBDA r, a : SnrOf(r, S(a)))
  \cup Some("its_own_fit", LAMBDA r, a : FitOf(r, S(a)))
  \cup Some("degrees_of_freedom", LAMBDA r, a : DofOf(r, S(a), nc))
  \cup Some("the_process_that_handled_it", LAMBDA r, a : RankOf(r, a[1] - 1))
  \cup Some("one_row_describes_it", Match)
\* whole runs: W is the way of each spectrum from the files to the fit
RunFails(e) ==
  IF e.out # "ok" THEN {"run_completes"} ELSE
  LET o == e.o
      C == TLCEval(P!Tables(o))
      N == DOMAIN e.specs
      W == TLCEval([n \in N |-> TLCEval(P!Way(e.specs[n], o, C))])
      Of(n) == {i \in DOMAIN e.rows : e.rows[i].tid = e.specs[n].tid}
      Single(n) == Count(e.specs, e.specs[n].tid) = 1
      In == {n \in N : W[n].sel = "yes" /\ Single(n)}
      R(n) == e.rows[CHOOSE i \in Of(n) : TRUE]
      NLo(n) == NSum([k \in DOMAIN W[n].arms |-> P!NGood(W[n].arms[k])])
      NHi(n) == NSum([k \in DOMAIN W[n].arms |-> P!NMay(W[n].arms[k])])
      Ents(n) == {j \in DOMAIN e.ents : e.ents[j].tid = e.specs[n].tid}
      Chi(n) == LET q == SetToSeq(Ents(n)) IN
        NSum([k \in DOMAIN q |->
          NDot(e.ents[q[k]].weight,
               [i \in DOMAIN e.ents[q[k]].delta |->
                  NSq(e.ents[q[k]].delta[i])])])
      Whole(n) == IF o.coadd = "after"
                  THEN {e.ents[j].arm : j \in Ents(n)} = {"brz"}
                  ELSE /\ ~o.add
                       /\ {e.ents[j].arm : j \in Ents(n)}
                          = {W[n].arms[k].arm : k \in DOMAIN W[n].arms} IN
  Cl("a_row_per_spectrum", \A n \in In : Cardinality(Of(n)) = 1)
  \cup Cl("its_own_identity", \A n \in In : \A i \in Of(n) :
      e.rows[i].pix = e.specs[n].pix
      /\ NNear(e.rows[i].z, e.specs[n].z, "2e-7"))
  \cup Cl("its_own_signal_to_noise", \A n \in In : \A i \in Of(n) :
      NNear(e.rows[i].rsnr, W[n].rsnr, "1e-5"))
  \cup Cl("degrees_of_freedom", \A n \in In : \A i \in Of(n) :
      LET d == NAdd(e.rows[i].dof, e.coef) IN
      NLe(NLo(n), d) /\ NLe(d, NHi(n)))
  \cup Cl("valid_if_saved", \A n \in In : Ents(n) # {} => \A i \in Of(n) :
      e.rows[i].valid)
  \cup Cl("saved_if_valid", \A n \in In : \A i \in Of(n) :
      ~e.rows[i].valid => Ents(n) = {} /\ NEq(e.rows[i].chi2, "-1"))
  \cup Cl("chi_square_of_the_saved_spectrum",
      \A n \in In : Ents(n) # {} /\ Whole(n) => \A i \in Of(n) :
         NNear(e.rows[i].chi2, Chi(n), "1e-5"))
  \cup Cl("the_process_that_handled_it",
      \A n \in In : \A j \in Ents(n) : \A i \in Of(n) :
         e.ents[j].file = "delta-" \o e.rows[i].rank \o ".fits")
  \cup Cl("as_many_coefficients", \A i \in DOMAIN e.rows :
         Len(e.rows[i].x) = e.coef /\ Len(e.rows[i].xcov) = e.coef * e.coef)
Fails(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "cat" -> CatFails(e)
    [] e.k = "rows" -> RunFails(e)
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
