------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Reading spectra: which rows of which files become spectra.               *)
(*                                                                          *)
(* A file is identified by its unit: the survey (data), the petal (tiles)   *)
(* or "" (mocks).  A file row carries tid, x (its exposure identity, a      *)
(* record; {} for coadds), and per arm flux, ivar, mask (and reso).         *)
(* A catalogue row carries tid, unit and z.                                 *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

FileOf(files, unit) == {f \in 1..Len(files) : files[f].unit = unit}
\* Rows (file, row) that belong to catalogue row c.
Own(files, c) ==
    UNION {{<< f, r >> : r \in {q \in DOMAIN files[f].rows :
                                  files[f].rows[q].tid = c.tid}}
           : f \in FileOf(files, c.unit)}
OwnRows(files, c) == {files[p[1]].rows[p[2]] : p \in Own(files, c)}
\* The spectra to be produced, as identities.
Wanted(files, cat) ==
    UNION {{<< cat[i].tid, r.x >> : r \in OwnRows(files, cat[i])}
           : i \in DOMAIN cat}
NWanted(files, cat) ==
    Cardinality(UNION {{<< i, p >> : p \in Own(files, cat[i])}
                       : i \in DOMAIN cat})
Missing(files, cat) == {i \in DOMAIN cat : Own(files, cat[i]) = {}}

\* A pixel as it is known after reading: bad pixels carry nothing.
Bad(flux, ivar, mask) ==
    ~NZero(mask) \/ ~NIsNum(flux) \/ ~NIsNum(ivar) \/ NLt(ivar, 0)
CleanFlux(f, i, m) ==
    [k \in DOMAIN f |-> IF Bad(f[k], i[k], m[k]) THEN "0" ELSE f[k]]
CleanIvar(f, i, m) ==
    [k \in DOMAIN f |-> IF Bad(f[k], i[k], m[k]) THEN "0" ELSE i[k]]
=============================================================================
