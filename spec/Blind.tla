-------------------------------- MODULE Blind --------------------------------
(***************************************************************************)
(* The blinding decision and the names under which contrasts are written.   *)
(* A decision input is [mock, w1, night] (night: the latest of the whole    *)
(* catalogue, ignored for mocks).                                           *)
(***************************************************************************)
EXTENDS Num, FiniteSets, Sequences
LymanAlpha == "1215.67"
Strategy(d) ==
    IF d.mock \/ NLt(LymanAlpha, d.w1) THEN "none"
    ELSE IF NLt(d.night, 20210514) THEN "none"
    ELSE IF NLt(d.night, 20210801) THEN "desi_m2"
    ELSE IF NLt(d.night, 20220801) THEN "desi_y1"
    ELSE "desi_y3"
Column(strategy) == IF strategy = "none" THEN "DELTA" ELSE "DELTA_BLIND"
\* an entry: the columns written and the strategy in its header
EntryOK(cols, hdr, strategy) ==
    /\ hdr = strategy
    /\ Column(strategy) \in cols
    /\ Cardinality(cols \cap {"DELTA", "DELTA_BLIND"}) = 1
=============================================================================
