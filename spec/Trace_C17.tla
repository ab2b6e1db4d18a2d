------------------------------ MODULE Trace_C17 ------------------------------
(* C17: saving lists of spectra, and the saved products of whole runs.         *)
EXTENDS DeltaFile, TraceLib
File(e, x) == "delta-" \o (IF e.byhpx THEN x.pix ELSE e.rank) \o ".fits"
Plain(d) == IF d.delta = << >> THEN d.blind ELSE d.delta
SaveFails(e) ==
  IF e.out # "ok" THEN {"enabled_step_raises"} ELSE
  IF e.readable # "ok" THEN {"every_file_can_be_read"} ELSE
  LET X == {<< i, a >> : i \in DOMAIN e.specs, a \in {"B", "R", "Z", "brz"}}
      W == {p \in X : p[2] \in Saved(e.specs[p[1]])}
      Match(p) == {j \in DOMAIN e.ents :
                     /\ e.ents[j].ext = ExtName(e.specs[p[1]], p[2])
                     /\ e.ents[j].file = File(e, e.specs[p[1]])} IN
  Cl("one_entry_per_arm",
     /\ \A p \in W : Cardinality(Match(p)) = 1
     /\ Len(e.ents) = Cardinality(W))
  \cup Cl("files", SeqSet(e.files) \subseteq
             {File(e, e.specs[i]) : i \in DOMAIN e.specs}
             \cup (IF e.byhpx THEN {} ELSE {"delta-" \o e.rank \o ".fits"}))
  \cup UNION {IF Cardinality(Match(p)) # 1 THEN {} ELSE
        LET d == e.ents[CHOOSE j \in Match(p) : TRUE]
            x == e.specs[p[1]] IN
        Cl("entry_content", ValuesOK(Ar(x.s, p[2]), d, Plain(d)))
        \cup Cl("entry_identity", HeaderOK(x, p[2], d.hdr)) : p \in W}
  \* what the package itself reads back
  \cup Cl("reading_back",
     /\ Len(e.back) = Len(e.ents)
     /\ \A j \in DOMAIN e.ents : \E i \in DOMAIN e.back :
          LET b == e.back[i]
              d == e.ents[j] IN
          /\ b.file = d.file /\ b.tid = d.hdr.TARGETID
          /\ b.wave = d.lam /\ b.delta = Plain(d) /\ b.ivar = d.ivar
          /\ b.weight = d.weight /\ b.cont = d.cont /\ b.reso = d.reso
          /\ NEq(b.snr, d.hdr.MEANSNR)
          /\ NNear(NMul(b.ra, Deg), d.hdr.RA, "1e-12")
          /\ NNear(NMul(b.dec, Deg), d.hdr.DEC, "1e-12"))
\* --- a whole run: e.rows is its continuum catalogue
RunFails(e) ==
  IF e.out # "ok" THEN {"run_completes"} ELSE
  IF e.readable # "ok" THEN {"every_file_can_be_read"} ELSE
  LET ents == e.ents
      Key(j) == << ents[j].tid, ents[j].arm, ents[j].exp >>
      Q(t) == e.qso[CHOOSE i \in DOMAIN e.qso : e.qso[i].tid = t]
      Known == {e.qso[i].tid : i \in DOMAIN e.qso}
      Valid == {i \in DOMAIN e.rows : e.rows[i].valid}
      Cat(i) == {<< e.rows[i].tid, e.rows[i].arms[k] >> :
                   k \in DOMAIN e.rows[i].arms}
      Got == {<< ents[j].tid, ents[j].arm >> : j \in DOMAIN ents} IN
  Cl("each_entry_once",
     \A i, j \in DOMAIN ents : i # j => Key(i) # Key(j))
  \cup Cl("known_targets", \A j \in DOMAIN ents : ents[j].tid \in Known)
  \cup (IF \E j \in DOMAIN ents : ents[j].tid \notin Known THEN {} ELSE
     Cl("file_of_its_pixel_or_process",
        \A j \in DOMAIN ents :
          ents[j].file = "delta-" \o
            (IF e.byhpx THEN Q(ents[j].tid).pix
             ELSE e.rows[CHOOSE i \in DOMAIN e.rows :
                           e.rows[i].tid = ents[j].tid
                           \/ i = Len(e.rows)].rank) \o ".fits")
     \cup Cl("own_identity",
        \A j \in DOMAIN ents :
          LET q == Q(ents[j].tid)
              h == ents[j].hdr IN
          /\ ents[j].ext = ents[j].tid \o "-" \o ents[j].arm \o
               (IF ents[j].exp = "" THEN "" ELSE "-" \o ents[j].exp)
          /\ h.TARGETID = q.tid /\ NNear(h.Z, q.z, "1e-12")
          /\ NNear(h.RA, NMul(q.ra, Deg), "1e-12")
          /\ NNear(h.DEC, NMul(q.dec, Deg), "1e-12")
          /\ NNear(h.DELTA_LAMBDA, e.dw, "1e-9")))
  \* without exposures, exactly the valid rows of the catalogue
  \cup (IF e.exposures THEN
          Cl("only_valid_spectra", \A j \in DOMAIN ents :
               \E i \in Valid : e.rows[i].tid = ents[j].tid)
          \* exposures that were fitted: as many as valid rows
          \cup Cl("every_valid_exposure",
               e.case.expo = "before" =>
               \A p \in UNION {Cat(i) : i \in Valid} :
                 Cardinality({j \in DOMAIN ents :
                                << ents[j].tid, ents[j].arm >> = p})
                 = Cardinality({i \in Valid : p \in Cat(i)}))
        ELSE Cl("exactly_the_valid_spectra", Got = UNION {Cat(i) : i \in Valid}))
Fails(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "save" -> SaveFails(e)
    [] e.k = "run" -> RunFails(e)
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
