----------------------------- MODULE Gen_Catalog -----------------------------
(* Catalogue files and reading options, built row by row; every completed     *)
(* case is emitted and replayed into the code.  Sky is an index into a table  *)
(* of pixel centres the driver holds.                                          *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES rows, n, f, o, done
vars == << rows, n, f, o, done >>
Tids == {"7", "10", "9", "39627700846986"}
Row == [TARGETID : Tids, Z : {"1.5", "2.25", "3"},
        SURVEY : {"main", "sv1", "sv3"}, sky : 1..4, PETAL_LOC : {"2", "10"}]
\* the file: which columns it has
File == [ra : {"RA", "TARGET_RA", "BOTH"},
         night : {"LASTNIGHT", "COADD_LASTNIGHT", "LAST_NIGHT", "BOTH",
                  "NONE"},
         survey : BOOLEAN, hpx : BOOLEAN, tilecols : BOOLEAN, bal : BOOLEAN,
         miss : {"", "", "TARGETID", "Z", "DEC"},
         ext : {"QSO_CAT", "ZCATALOG", "METADATA", "OTHER"}]
Opts == [mock : BOOLEAN, tile : BOOLEAN, allsurveys : BOOLEAN,
         surveys : {<< "main" >>, << "sv1", "main" >>, << "sv3", "sv1" >>},
         zmin : {"0", "2.25"}, zmax : {"2.25", "100"}]
Init == /\ rows = <<>> /\ n \in 1..7 /\ done = 0
        /\ f = << >> /\ o = << >>
Pick == /\ done = 0
        /\ o' \in {oo \in Opts : ~(oo.mock /\ oo.tile)}
        /\ done' = 1 /\ UNCHANGED << rows, n, f >>
PickF == /\ done = 1
         /\ f' \in File
         /\ done' = 2 /\ UNCHANGED << rows, n, o >>
\* usually a fresh target; sometimes a repetition
Add == /\ done = 2 /\ Len(rows) < n
       /\ \E r \in Row : rows' = Append(rows, r)
       /\ UNCHANGED << n, f, o, done >>
EmitCase == /\ done = 2 /\ Len(rows) = n
            /\ PrintT("@@" \o ToJson([rows |-> rows, f |-> f, o |-> o]))
            /\ done' = 3 /\ UNCHANGED << rows, n, f, o >>
Next == Pick \/ PickF \/ Add \/ EmitCase
Spec == Init /\ [][Next]_vars
=============================================================================
