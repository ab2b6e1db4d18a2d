---------------------------- MODULE Trace_Reader ----------------------------
(* Recorded reads against Reader.                                            *)
(* k="spectra": files, cat, arms, reso (resolution requested and stored),    *)
(*   truth: [rows, w1, dw] or [rows |-> <<>>] when not requested,            *)
(*   out, warned, res: sequence of [tid, x, z, arms, tw1, tdw, tcont]        *)
EXTENDS Reader, TraceLib

ArmOf(a, arm) == CHOOSE k \in DOMAIN a : a[k].arm = arm
HasArm(a, arm) == \E k \in DOMAIN a : a[k].arm = arm
SameArm(got, row, sharedreso, e) ==
    LET f == row.arms[ArmOf(row.arms, got.arm)] IN
    /\ SeqNear(got.flux, CleanFlux(f.flux, f.ivar, f.mask))
    /\ SeqNear(got.ivar, CleanIvar(f.flux, f.ivar, f.mask))
ResoOK(got, row, e) ==
    IF ~e.reso THEN got.reso = <<>>
    ELSE LET want == IF e.sharedreso # <<>>
                     THEN e.sharedreso[ArmOf(e.sharedreso, got.arm)].v
                     ELSE row.arms[ArmOf(row.arms, got.arm)].reso IN
         Len(got.reso) = Len(want)
         /\ \A d \in DOMAIN want : SeqNear(got.reso[d], want[d])

\* The catalogue row and file row a result stands for.
CatOf(e, s) == {i \in DOMAIN e.cat : e.cat[i].tid = s.tid}
RowsOf(e, s) == UNION {{r \in OwnRows(e.files, e.cat[i]) : r.x = s.x}
                       : i \in CatOf(e, s)}
TruthOf(e, s) == {i \in DOMAIN e.truth : e.truth[i].tid = s.tid}

SpectraFails(e) ==
  LET found == DOMAIN e.cat \ Missing(e.files, e.cat)
      truthgap == e.usetruth /\ \E i \in found :
                    \A k \in DOMAIN e.truth : e.truth[k].tid # e.cat[i].tid
  IN
  IF truthgap THEN Cl("truth_required", e.out # "ok")
  ELSE IF e.out # "ok" THEN {"read_raises"}
  ELSE
  LET got == {<< e.res[j].tid, e.res[j].x >> : j \in DOMAIN e.res}
      want == Wanted(e.files, e.cat)
      match == got = want
  IN Cl("exactly_the_requested_targets", match)
     \cup Cl("each_once", Len(e.res) = NWanted(e.files, e.cat))
     \cup Cl("missing_is_warned",
             Missing(e.files, e.cat) # {} => e.warned)
     \cup Cl("requested_arms",
             \A j \in DOMAIN e.res :
               {e.res[j].arms[k].arm : k \in DOMAIN e.res[j].arms}
                 = SeqSet(e.arms))
     \cup Cl("own_catalogue_row",
             match => \A j \in DOMAIN e.res :
               \E i \in CatOf(e, e.res[j]) : e.cat[i].z = e.res[j].z)
     \cup Cl("own_flux_ivar_mask",
             match => \A j \in DOMAIN e.res :
               \E r \in RowsOf(e, e.res[j]) :
                 \A k \in DOMAIN e.res[j].arms :
                   SameArm(e.res[j].arms[k], r, <<>>, e))
     \cup Cl("own_resolution",
             match => \A j \in DOMAIN e.res :
               \E r \in RowsOf(e, e.res[j]) :
                 \A k \in DOMAIN e.res[j].arms :
                   SameArm(e.res[j].arms[k], r, <<>>, e)
                     => ResoOK(e.res[j].arms[k], r, e))
     \cup Cl("wavelength_grid",
             \A j \in DOMAIN e.res : \A k \in DOMAIN e.res[j].arms :
               HasArm(e.waves, e.res[j].arms[k].arm) =>
               SeqNear(e.res[j].arms[k].wave,
                       e.waves[ArmOf(e.waves, e.res[j].arms[k].arm)].v))
     \cup Cl("own_true_continuum",
             e.usetruth => \A j \in DOMAIN e.res :
               \E i \in TruthOf(e, e.res[j]) :
                 /\ SeqNear(e.res[j].tcont, e.truth[i].v)
                 /\ Near(e.res[j].tw1, e.tw1) /\ Near(e.res[j].tdw, e.tdw))

\* k="reso": resolution read afterwards into spectra with a forest;
\*   res: [tid, arms: [arm, i1 (first forest pixel, from 1), n, reso]]
ResoFails(e) ==
  IF e.out # "ok" THEN {"read_raises"}
  ELSE Cl("own_resolution_after_selection",
    \A j \in DOMAIN e.res : \A k \in DOMAIN e.res[j].arms :
      LET g == e.res[j].arms[k]
          rows == UNION {OwnRows(e.files, e.cat[i]) : i \in CatOf(e, e.res[j])}
      IN \E r \in rows :
           LET want == r.arms[ArmOf(r.arms, g.arm)].reso IN
           Len(g.reso) = Len(want) /\
           \A d \in DOMAIN want :
             SeqNear(g.reso[d], SubSeq(want[d], g.i1, g.i1 + g.n - 1)))

Fails(e) == CASE e.k = "spectra" -> SpectraFails(e)
              [] e.k = "reso" -> ResoFails(e)
              [] OTHER -> {"unknown_event"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
