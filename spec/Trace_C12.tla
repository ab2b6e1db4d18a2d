------------------------------ MODULE Trace_C12 ------------------------------
(* C12: directories of delta files in, one directory out.                      *)
EXTENDS DeltaCoadd, TraceLib
Bag(s) == [x \in SeqSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
DirFails(e) ==
  IF e.out # "ok" THEN {"run_completes"} ELSE
  Cl("every_target_once",
     /\ SeqSet(e.tids) = SeqSet(e.intids)
     /\ Len(e.tids) = Cardinality(SeqSet(e.tids)))
  \cup Cl("nothing_else_in_the_directory", SeqSet(e.files) = SeqSet(e.want))
Same(o, d) ==
  /\ NSeqNear(o.lam, d.lam, "1e-10") /\ NSeqNear(o.delta, d.delta, "1e-8")
  /\ NSeqNear(o.ivar, d.ivar, "1e-8") /\ NSeqNear(o.weight, d.weight, "1e-8")
  /\ \A n \in DOMAIN d.lam : NPos(d.weight[n]) =>
       NNear(o.cont[n], d.cont[n], "1e-8")
  /\ Len(o.cont) = Len(o.lam) /\ Len(o.reso) = Len(d.reso)
  /\ \A n \in DOMAIN d.reso :
       Len(o.reso[n]) = Len(d.reso[n])
       /\ (NPos(d.weight[n]) => NSeqNear(o.reso[n], d.reso[n], "1e-5"))
Clean(d) == [d EXCEPT !.delta = [n \in DOMAIN d.delta |->
               IF NZero(d.ivar[n]) THEN "0" ELSE d.delta[n]]]
TargetFails(e) ==
  IF Len(e.outs) # 1 THEN {"every_target_once"} ELSE
  LET o == e.outs[1]
      I == DOMAIN e.ins IN
  Cl("file_of_its_sky_pixel", o.file = e.want)
  \cup Cl("identity_kept", /\ o.tid = e.tid
          /\ \E i \in I : o.z = e.ins[i].z /\ NNear(o.ra, e.ins[i].ra, "1e-12")
                          /\ NNear(o.dec, e.ins[i].dec, "1e-12"))
  \cup (IF Cardinality(I) = 1
        THEN LET d == Clean(e.ins[1]) IN
             Cl("single_unchanged",
                /\ o.lam = d.lam /\ NSeqNear(o.delta, d.delta, "1e-14") /\ o.ivar = d.ivar
                /\ o.weight = d.weight /\ o.cont = d.cont
                /\ o.reso = d.reso /\ NNear(o.snr, d.snr, "1e-12") /\ o.blind = d.blind
                /\ o.strategy = d.strategy)
        ELSE LET ds == [i \in I |-> Clean(e.ins[i])]
                 A == TLCEval(Averages(ds, I, e.dw)) IN
             Cl("weighted_average", \E d \in A : Same(o, d))
             \cup Cl("signal_to_noise", NNear(o.snr, Snr(o), "1e-8"))
             \cup Cl("stays_blinded", o.blind = \E i \in I : e.ins[i].blind)
             \cup Cl("blinding_strategy",
                     o.blind => \E i \in I : e.ins[i].blind
                                 /\ o.strategy = e.ins[i].strategy))
  \cup Cl("independent_of_workers",
          Len(e.outs2) = 1
          /\ LET p == e.outs2[1] IN
             /\ o.file = p.file /\ SeqNear(o.lam, p.lam)
             /\ SeqNear(o.delta, p.delta) /\ SeqNear(o.ivar, p.ivar)
             /\ SeqNear(o.weight, p.weight) /\ SeqNear(o.cont, p.cont)
             /\ o.blind = p.blind /\ Near(o.snr, p.snr))
Fails(e) ==
  CASE e.k = "crash" -> {"run_completes"}
    [] e.k = "dir" -> DirFails(e)
    [] e.k = "target" -> TargetFails(e)
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
