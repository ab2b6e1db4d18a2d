--------------------------- MODULE Trace_Catalog ---------------------------
(* Recorded catalogue reads against Catalog.                                *)
(* event: k="read", rows, cols, o, out: "ok" | "error",                     *)
(*        res: rows of the result, rescols                                  *)
EXTENDS Catalog, TraceLib

RowOf(e, r) == {i \in DOMAIN e.rows : Key(e.rows[i], e.o) = Key(r, e.o)}

ReadFails(e) ==
  LET cols == SeqSet(e.cols)
      rcols == SeqSet(e.rescols)
      o == e.o IN
  IF Refused(e.rows, cols, o)
  THEN Cl("refuse_invalid_catalogue", e.out = "error")
  ELSE IF e.out # "ok" THEN {"read_valid_catalogue"}
  ELSE
  LET sel == Selected(e.rows, cols, o)
      want == {Key(e.rows[i], o) : i \in sel}
      got == {Key(e.res[j], o) : j \in DOMAIN e.res}
      need == {"TARGETID", "Z", "RA", "DEC", "HPXPIXEL"}
              \cup (IF Aliases("LASTNIGHT") \cap cols # {} THEN {"LASTNIGHT"}
                    ELSE {})
              \cup ({"SURVEY", "TILEID", "PETAL_LOC", "VMIN_CIV_450"}
                    \cap cols)
  IN Cl("exactly_the_selected_rows",
        want = got /\ Len(e.res) = Cardinality(sel))
     \cup Cl("canonical_columns", need \subseteq rcols)
     \cup Cl("own_values",
             (need \subseteq rcols /\ want = got) =>
             \A j \in DOMAIN e.res :
               \E i \in RowOf(e, e.res[j]) :
                 /\ \A c \in (need \ {"HPXPIXEL"}) :
                      e.res[j][c] = e.rows[i][Source(c, cols)]
                 /\ e.res[j].HPXPIXEL = Pixel(e.rows[i], cols, o))
     \cup Cl("sorted",
             (need \subseteq rcols) =>
             \A j \in 1..(Len(e.res) - 1) :
               Less(SortKey(e.res[j], e.res[j].HPXPIXEL, cols, o),
                    SortKey(e.res[j + 1], e.res[j + 1].HPXPIXEL, cols, o)))

Fails(e) == CASE e.k = "read" -> ReadFails(e)
              [] OTHER -> {"unknown_event"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
