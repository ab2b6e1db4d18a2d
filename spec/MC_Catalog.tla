----------------------------- MODULE MC_Catalog -----------------------------
(* Catalogue reading as a machine that emits the selected rows one at a      *)
(* time, smallest sort key first.  TLC checks over all catalogues of the     *)
(* bounded domain that at every point exactly one row is next (the result is *)
(* determined), that the output stays sorted, never contains an unselected   *)
(* or repeated row and ends complete.  With -simulate it emits cases that    *)
(* are replayed into the code.                                               *)
EXTENDS Catalog, Json
CONSTANTS NRows, Tids, Zs, Pixels, Emit
VARIABLES rows, o, todo, out
vars == << rows, o, todo, out >>

Cols(oo) == {"TARGETID", "Z", "RA", "DEC", "SURVEY", "LASTNIGHT", "HPXPIXEL"}
            \cup (IF oo.tile THEN {"TILEID", "PETAL_LOC"} ELSE {})
Row(t, z, s, p) == [TARGETID |-> t, Z |-> z, SURVEY |-> s, HPXPIXEL |-> p,
                    TILEID |-> p, PETAL_LOC |-> z]
Opts == [mock : BOOLEAN, tile : BOOLEAN, allsurveys : BOOLEAN,
         surveys : {<< "main" >>, << "sv1", "main" >>},
         zmin : {"1", "2"}, zmax : {"2", "3"}]
Init ==
  /\ \E n \in 0..NRows :
       rows \in [1..n -> {Row(t, z, s, p) : t \in Tids, z \in Zs,
                                            s \in {"main", "sv1"},
                                            p \in Pixels}]
  /\ o \in {oo \in Opts : ~(oo.mock /\ oo.tile)
                          /\ (oo.allsurveys => oo.surveys = << "main" >>)}
  /\ todo = IF Refused(rows, Cols(o), o) THEN {}
            ELSE Selected(rows, Cols(o), o)
  /\ out = <<>>

K(i) == SortKey(rows[i], rows[i].HPXPIXEL, Cols(o), o)
Next1 == {i \in todo : \A j \in todo : j = i \/ Less(K(i), K(j))}
Take == \E i \in Next1 : todo' = todo \ {i} /\ out' = Append(out, i)
EmitCase == /\ Emit
         /\ out = <<>>
         /\ PrintT("@@" \o ToJson([rows |-> rows, o |-> o]))
         /\ out' = << 0 >> /\ todo' = {}
Next == (IF Emit THEN EmitCase ELSE Take) /\ UNCHANGED << rows, o >>
Spec == Init /\ [][Next]_vars

Determined == todo # {} => Cardinality(Next1) = 1
Sorted == Emit \/ \A i \in 1..(Len(out) - 1) : Less(K(out[i]), K(out[i + 1]))
OnlySelected == Emit \/ \A i \in DOMAIN out :
                   out[i] \in Selected(rows, Cols(o), o)
Complete == (~Emit /\ todo = {} /\ ~Refused(rows, Cols(o), o)) =>
              /\ {out[i] : i \in DOMAIN out} = Selected(rows, Cols(o), o)
              /\ Len(out) = Cardinality(Selected(rows, Cols(o), o))
=============================================================================
