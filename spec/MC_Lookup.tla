------------------------------ MODULE MC_Lookup ------------------------------
(* Targets are looked up in the files of their own regions, whose rows are in  *)
(* any order and hold any set of targets; a file may be missing.  Each target  *)
(* gets the continuum of its own row or none.                                  *)
(* How = "nearest" (the row where it would be if sorted), "order" (rows taken  *)
(* in the order of the requests), "first" (the file of the first target is     *)
(* used for all) are deliberately wrong.                                       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, How
VARIABLES where, files, got, todo
vars == << where, files, got, todo >>
Tg == 1..N
Perms(S) == {q \in [1..Cardinality(S) -> S] :
               \A i, j \in DOMAIN q : q[i] = q[j] => i = j}
Rows(r, w) == UNION {Perms(S) : S \in SUBSET {t \in Tg : w[t] = r}}
Init == /\ where \in [Tg -> {1, 2}]
        /\ files \in [{1, 2} -> UNION {Rows(r, where) : r \in {1, 2}}]
        /\ \A r \in {1, 2} : files[r] \in Rows(r, where)
        /\ got = [t \in Tg |-> 0] /\ todo = Tg
At(f, t) ==
  LET hit == {i \in DOMAIN f : f[i] = t}
      below == Cardinality({i \in DOMAIN f : f[i] < t}) + 1 IN
  CASE How = "nearest" -> IF below \in DOMAIN f THEN f[below] ELSE 0
    [] How = "order" -> LET k == Cardinality({u \in Tg : u <= t
                                             /\ where[u] = where[t]
                                    /\ \E i \in DOMAIN f : f[i] = u}) IN
         IF hit = {} THEN 0 ELSE f[k]
    [] OTHER -> IF hit = {} THEN 0 ELSE f[CHOOSE i \in hit : TRUE]
Find(t) == /\ t \in todo /\ todo' = todo \ {t}
           /\ got' = [got EXCEPT ![t] =
                At(files[IF How = "first" THEN where[1] ELSE where[t]], t)]
           /\ UNCHANGED << where, files >>
Next == \E t \in todo : Find(t)
Spec == Init /\ [][Next]_vars
Own == \A t \in Tg \ todo :
   got[t] = IF \E i \in DOMAIN files[where[t]] : files[where[t]][i] = t
            THEN t ELSE 0
=============================================================================
