------------------------------ MODULE Trace_C27 ------------------------------
(* C27: "rows": runs with a catalogue that does not exist: out is how each     *)
(* process ended, made whether anything was written.  "model": whole runs;     *)
(* ents: the continua they used, the mean flux F; the true continua are 7, the *)
(* input ones 11.                                                              *)
EXTENDS Args, Num, TraceLib
All(r, x) == \A i \in DOMAIN r.out : r.out[i] = x
RowFails(r) ==
  IF Open(r.o) /\ Consistent(r.o) THEN {} ELSE
  IF Consistent(r.o)
  THEN Cl("consistent_options_start", All(r, "read"))
  ELSE Cl("contradictory_options_refused", All(r, "exit"))
       \cup Cl("nothing_written", ~r.made)
Is(e, v) == e.ents # << >> /\ \A k \in DOMAIN e.ents :
   \A i \in DOMAIN e.ents[k].cont :
      NNear(e.ents[k].cont[i], NMul(v, e.ents[k].mf[i]), "1e-6")
RunFails(e) ==
  IF e.out # "ok" THEN {"consistent_options_start"} ELSE
  Cl("selected_model",
     CASE Model(e.o) = "true" -> Is(e, 7)
       [] Model(e.o) = "input" -> Is(e, 11)
       [] OTHER -> e.ents # << >> /\ ~Is(e, 7) /\ ~Is(e, 11))
Fails(e) ==
  CASE e.k = "rows" -> UNION {RowFails(e.rows[i]) : i \in DOMAIN e.rows}
    [] e.k = "model" -> RunFails(e)
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
