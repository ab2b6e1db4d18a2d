------------------------------ MODULE Trace_C30 ------------------------------
(* C30: delta files read, rewritten and read again.  e.lines: the sightlines   *)
(* in the file (y: layout; values as in the file; wave in Angstrom), e.mem     *)
(* what was read, e.file the rewritten file, e.mem2 its second reading.        *)
EXTENDS DeltaRead, Num, TraceLib
NearS(a, b) == /\ Len(a) = Len(b)
              /\ \A k \in DOMAIN a : NNear(a[k], b[k], "1e-12")
\* a LOGLAM column holds the logarithm to double precision
NearW(a, b) == /\ Len(a) = Len(b)
               /\ \A k \in DOMAIN a : NNear(a[k], b[k], "1e-11")
Clean(d, i) == [k \in DOMAIN d |-> IF NZero(i[k]) THEN "0" ELSE d[k]]
LineOK(x, m) ==
  /\ m.tid = x.tid /\ NNear(m.snr, x.snr, "1e-13")
  /\ NearW(m.wave, x.wave) /\ NearS(m.delta, Clean(x.delta, x.ivar))
  /\ NearS(m.ivar, x.ivar) /\ NearS(m.weight, x.weight) /\ NearS(m.cont, x.cont)
  /\ Len(m.reso) = Len(x.reso)
  /\ \A j \in DOMAIN m.reso : NearS(m.reso[j], x.reso[j])
OutOK(x, d) ==
  LET dl == IF x.y.delta = "DELTA" THEN d.delta ELSE d.blind IN
  /\ d.named = x.tid
  /\ NearW(d.lam, x.wave) /\ NearS(dl, Clean(x.delta, x.ivar))
  /\ NearS(d.ivar, x.ivar) /\ NearS(d.weight, x.weight) /\ NearS(d.cont, x.cont)
  /\ Len(d.reso) = Len(x.reso)
  /\ \A j \in DOMAIN d.reso : NearS(d.reso[j], x.reso[j])
BlindOK(x, d) == LET C == SeqSet(d.cols) IN
  /\ OutLayout(x.y).delta \in C
  /\ C \cap DeltaCols = {OutLayout(x.y).delta} /\ "LAMBDA" \in C
HeaderOK(x, d) == \A j \in DOMAIN x.hdr :
  /\ x.hdr[j].key \in DOMAIN d.hdr
  /\ d.hdr[x.hdr[j].key] = x.hdr[j].v
       \/ (x.hdr[j].num /\ NNear(d.hdr[x.hdr[j].key], x.hdr[j].v, "1e-13"))
FileFails(e) ==
  LET ys == [k \in DOMAIN e.lines |-> e.lines[k].y] IN
  IF ~FileReadable(ys)
  THEN Cl("incomplete_file_is_refused", e.out = "RuntimeError")
  ELSE IF e.out # "ok" THEN {"readable_file_is_read"}
  ELSE IF Len(e.mem) # Len(e.lines) THEN {"every_sightline_once"}
  ELSE Cl("read_as_written",
          \A k \in DOMAIN e.mem : LineOK(e.lines[k], e.mem[k]))
   \cup (IF Len(e.file) # Len(e.lines) THEN {"rewritten"}
         ELSE Cl("rewritten_unchanged",
                 \A k \in DOMAIN e.file : OutOK(e.lines[k], e.file[k]))
         \cup Cl("stays_blinded",
                 \A k \in DOMAIN e.file : BlindOK(e.lines[k], e.file[k]))
         \cup Cl("header_kept",
                 \A k \in DOMAIN e.file : HeaderOK(e.lines[k], e.file[k])))
   \cup (IF Len(e.mem2) # Len(e.lines) THEN {"read_again"}
         ELSE Cl("read_again",
                 \A k \in DOMAIN e.mem2 : LineOK(e.lines[k], e.mem2[k])))
Fails(e) == CASE e.k = "crash" -> {"crash"}
              [] e.k = "file" -> FileFails(e)
              [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
