------------------------------ MODULE Catalog ------------------------------
(***************************************************************************)
(* The quasar catalogue: which rows of the input survive, with which        *)
(* columns, in which order, and which inputs are refused.                   *)
(*                                                                          *)
(* A row is a record of columns.  The sky position is represented by the    *)
(* pixel it falls into at the two resolutions in use (pix16, pix64).        *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

\* The surveys in their alphabetical order (the order "sorted by survey").
Surveys == << "Main", "SV3", "cmx", "main", "main2", "special", "sv", "sv1", "sv12", "sv2",
              "sv3" >>
SurveyRank(s) == CHOOSE i \in 1..Len(Surveys) : Surveys[i] = s

\* ---- what a file must provide -----------------------------------------
Aliases(c) == CASE c = "RA" -> {"RA", "TARGET_RA"}
                [] c = "DEC" -> {"DEC", "TARGET_DEC"}
                [] c = "LASTNIGHT" -> {"LASTNIGHT", "COADD_LASTNIGHT",
                                       "LAST_NIGHT"}
                [] OTHER -> {c}
Required(o) == {"TARGETID", "Z", "RA", "DEC"}
               \cup (IF o.mock THEN {} ELSE {"SURVEY", "LASTNIGHT"})
               \cup (IF o.tile THEN {"TILEID", "PETAL_LOC"} ELSE {})
ColumnsOK(cols, o) ==
    \A c \in Required(o) : Aliases(c) \cap cols # {}
\* The identity of a row.
Key(r, o) == IF o.tile THEN << r.TARGETID, r.TILEID >> ELSE << r.TARGETID >>
Unique(rows, o) ==
    Cardinality({Key(rows[i], o) : i \in DOMAIN rows}) = Len(rows)

\* ---- selection ----------------------------------------------------------
InWindow(r, o) == NLe(o.zmin, r.Z) /\ NLe(r.Z, o.zmax)
InSurvey(r, cols, o) ==
    "SURVEY" \in cols /\ ~o.allsurveys
        => \E i \in DOMAIN o.surveys : o.surveys[i] = r.SURVEY
Selected(rows, cols, o) ==
    {i \in DOMAIN rows : InWindow(rows[i], o) /\ InSurvey(rows[i], cols, o)}

Refused(rows, cols, o) ==
    \/ ~ColumnsOK(cols, o)
    \/ ~Unique(rows, o)
    \/ Selected(rows, cols, o) = {}

\* ---- columns of the result ----------------------------------------------
Pixel(r, cols, o) == IF "HPXPIXEL" \in cols THEN r.HPXPIXEL
                     ELSE IF o.mock THEN r.pix16 ELSE r.pix64
\* the alias the canonical column takes its values from
Source(c, cols) ==
    IF c \in cols THEN c
    ELSE CASE c = "RA" -> "TARGET_RA"
           [] c = "DEC" -> "TARGET_DEC"
           [] c = "LASTNIGHT" -> IF "COADD_LASTNIGHT" \in cols
                                 THEN "COADD_LASTNIGHT" ELSE "LAST_NIGHT"
           [] OTHER -> c

\* ---- order ---------------------------------------------------------------
\* Sort keys of a row; target ids are compared as (decimal) numbers.
SortKey(r, pix, cols, o) ==
    IF o.tile THEN << r.TILEID, r.PETAL_LOC, r.TARGETID >>
    ELSE IF "SURVEY" \in cols
         THEN << pix, SurveyRank(r.SURVEY), r.TARGETID >>
         ELSE << pix, 0, r.TARGETID >>
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
    IF i > Len(a) THEN FALSE
    ELSE IF NLt(a[i], b[i]) THEN TRUE
    ELSE IF NLt(b[i], a[i]) THEN FALSE
    ELSE LexLess(a, b, i + 1)
Less(a, b) == LexLess(a, b, 1)

\* Groups of the sorted catalogue that are processed together.
GroupKey(r, pix, o) == IF o.tile THEN r.TILEID ELSE pix
=============================================================================
