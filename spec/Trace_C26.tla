------------------------------ MODULE Trace_C26 ------------------------------
(* C26: exposures saved after the fit.  e.coadd: the arms (and continua) the   *)
(* same run saves without exposures; e.specs: the exposures in the files.      *)
EXTENDS Pipeline, TraceLib
RunFails(e) ==
  IF e.out # "ok" THEN {"run_completes"} ELSE
  LET o == e.o
      C == TLCEval(Tables(o))
      N == DOMAIN e.specs
      W == TLCEval([n \in N |-> TLCEval(Way(e.specs[n], o, C))])
      Valid == {e.rows[i].tid : i \in {i \in DOMAIN e.rows : e.rows[i].valid}}
      Of(d) == {n \in N : e.specs[n].tid = d.tid /\ e.specs[n].exp = d.exp}
      Co(t, a) == {j \in DOMAIN e.coadd : e.coadd[j].tid = t
                                          /\ e.coadd[j].arm = a}
      Ent(n, a) == {j \in DOMAIN e.ents : e.ents[j].tid = e.specs[n].tid
                      /\ e.ents[j].exp = e.specs[n].exp /\ e.ents[j].arm = a}
      \* pixel of the coadded arm at this wavelength, 0 if none
      AtW(c, w) == LET S == {k \in DOMAIN c.lam : NNear(c.lam[k], w, "1e-9")}
                   IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
      Judge(n, k) ==
        LET q == e.specs[n]
            p == W[n].arms[k]
            co == Co(q.tid, p.arm) IN
        IF q.tid \notin Valid \/ W[n].sel = "no"
        THEN Cl("only_selected_exposures_of_valid_targets", Ent(n, p.arm) = {})
        ELSE IF co = {}
        THEN Cl("no_continuum_no_exposure",
                Ent(n, p.arm) = {} \/ ~e.allsaved)
        ELSE
        LET c == e.coadd[CHOOSE j \in co : TRUE]
            at == TLCEval([i \in DOMAIN p.wave |-> AtW(c, p.wave[i])])
            S == {i \in DOMAIN p.wave : at[i] > 0}
            \* between two arms the coadded spectrum may have no continuum
            Gap(i) == NZero(c.cont[at[i]])
            g == Cardinality({i \in S : p.pix[i].clear /\ NPos(p.pix[i].i)
                                        /\ ~Gap(i)})
            m == Cardinality({i \in S : ~p.pix[i].clear
                                        \/ NPos(p.pix[i].i)})
            need == ShortAt(q.z, o.dw, o)
            kept == IF Risky(need) /\ ~q.exactlen THEN "unclear"
                    ELSE IF g >= NTrunc(need) + 1 THEN "yes"
                    ELSE IF m < NTrunc(need) + 1 THEN "no" ELSE "unclear"
            E == Ent(n, p.arm) IN
        IF S = {} \/ kept = "no"
        THEN Cl("unmatched_or_short_is_not_saved", E = {})
        ELSE
        (IF kept = "yes" /\ W[n].sel = "yes" /\ ~NZero(W[n].snr[k].v)
            /\ \A x \in DOMAIN W[n].arms : Co(q.tid, W[n].arms[x].arm) # {}
         THEN Cl("every_matched_exposure_is_saved", Cardinality(E) = 1)
         ELSE {})
        \cup (IF E = {} THEN {} ELSE
          LET d == e.ents[CHOOSE j \in E : TRUE]
              i0 == LoK(S) - 1 IN
          IF Len(d.lam) # Cardinality(S) \/ Len(d.cont) # Len(d.lam)
             \/ Len(d.delta) # Len(d.lam) \/ Len(d.ivar) # Len(d.lam)
             \/ \E j \in DOMAIN d.lam :
                  ~NNear(d.lam[j], p.wave[i0 + j], "1e-9")
          THEN {"where_the_continuum_exists"}
          ELSE Cl("continuum_of_its_own_coadd",
                  \A j \in DOMAIN d.lam :
                    NNear(d.cont[j], c.cont[at[i0 + j]], "1e-9"))
               \cup Cl("own_calibrated_and_masked_data",
                  \A j \in DOMAIN d.lam :
                    LET x == p.pix[i0 + j] IN
                    IF ~x.clear THEN TRUE
                    ELSE IF NZero(x.i) \/ Gap(i0 + j)
                    THEN NZero(d.ivar[j]) /\ NZero(d.delta[j])
                    ELSE /\ NNear(NAdd(d.delta[j], 1),
                                  NDiv(x.f, d.cont[j]), "1e-6")
                         /\ NNear(NDiv(d.ivar[j], NSq(d.cont[j])), x.i,
                                  "1e-6"))) IN
  Cl("exposures_in_the_files",
     \A j \in DOMAIN e.ents :
       /\ Cardinality(Of(e.ents[j])) = 1
       /\ \A n \in Of(e.ents[j]) : \E k \in DOMAIN W[n].arms :
            W[n].arms[k].arm = e.ents[j].arm)
  \cup Cl("each_once", \A i, j \in DOMAIN e.ents :
       e.ents[i].tid = e.ents[j].tid /\ e.ents[i].exp = e.ents[j].exp
       /\ e.ents[i].arm = e.ents[j].arm => i = j)
  \cup Cl("something_saved", e.ents # << >>)
  \cup UNION {UNION {Judge(n, k) : k \in DOMAIN W[n].arms} : n \in N}
Fails(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "expo" -> RunFails(e)
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
