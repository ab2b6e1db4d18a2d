----------------------------- MODULE MC_Reader -----------------------------
(***************************************************************************)
(* Design of the row matching.  The file rows of wanted targets are taken   *)
(* in target order and joined, one by one, with the catalogue rows that     *)
(* were found.  Checked for every file order, catalogue order, set of       *)
(* missing targets and repetition of targets in the file: each target gets  *)
(* its own rows, all of them, once.  Reindex = FALSE is the variant that    *)
(* keeps the catalogue's own order (the defect repaired in 1010465).        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Targets, MaxRows, MaxCat, Reindex
VARIABLES file, cat, pc, taken, out
vars == << file, cat, pc, taken, out >>

Perms(S) == {s \in [1..Cardinality(S) -> S] :
               \A i, j \in 1..Cardinality(S) : s[i] = s[j] => i = j}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == /\ file \in Seqs(Targets, MaxRows)
        /\ cat \in UNION {Perms(S) : S \in {S \in SUBSET Targets :
                            S # {} /\ Cardinality(S) <= MaxCat}}
        /\ pc = "match" /\ taken = <<>> /\ out = {}

Range(s) == {s[i] : i \in DOMAIN s}
\* stable order of the file rows of wanted targets by target
Before(i, j) == file[i] < file[j] \/ (file[i] = file[j] /\ i < j)
WantedRows == {i \in DOMAIN file : file[i] \in Range(cat)}
Nth(S, n) == CHOOSE i \in S :
               Cardinality({j \in S : Before(j, i)}) = n - 1
Match == /\ pc = "match"
         /\ taken' = [n \in 1..Cardinality(WantedRows) |-> Nth(WantedRows, n)]
         /\ pc' = "join" /\ UNCHANGED << file, cat, out >>
\* catalogue rows found, in target order (or in catalogue order)
Found == {i \in DOMAIN cat : cat[i] \in Range(file)}
NthCat(n) == IF Reindex
             THEN CHOOSE i \in Found :
                    Cardinality({j \in Found : cat[j] < cat[i]}) = n - 1
             ELSE CHOOSE i \in Found :
                    Cardinality({j \in Found : j < i}) = n - 1
\* how many different targets precede the n-th taken row
Group(n) == Cardinality({file[taken[k]] : k \in 1..n})
Join == /\ pc = "join"
        /\ \E n \in DOMAIN taken :
             /\ ~\E p \in out : p[2] = n
             /\ out' = out \cup {<< NthCat(Group(n)), n >>}
        /\ UNCHANGED << file, cat, pc, taken >>
Next == Match \/ Join
Spec == Init /\ [][Next]_vars
OwnData == \A p \in out : cat[p[1]] = file[taken[p[2]]]
AllOnce == (pc = "join" /\ ~ENABLED Join) =>
             {taken[p[2]] : p \in out} = WantedRows
             /\ Cardinality(out) = Cardinality(WantedRows)
=============================================================================
