----------------------------- MODULE MC_CalibRun -----------------------------
(* Processes read their share of the files in any order, add the sightlines    *)
(* they use, and the sums are reduced.  For any number of files and processes  *)
(* every file is read exactly once.                                            *)
(* How = "floor" (n \div P files each), "ceil" (as many as needed each, the    *)
(* last ones may start beyond the end), "all" are deliberately wrong.          *)
EXTENDS Integers, FiniteSets
CONSTANTS MaxFiles, MaxP, How
VARIABLES n, np, kept, todo, reads, sum, done
vars == << n, np, kept, todo, reads, sum, done >>
FilesOf(r) ==
  CASE How = "right" -> {i \in 0..(n - 1) : (n * r) \div np <= i
                                          /\ i < (n * (r + 1)) \div np}
    [] How = "floor" -> {i \in 0..(n - 1) : i \div (IF n < np THEN 1
                                           ELSE n \div np) = r}
    [] How = "ceil" -> {i \in 0..(n - 1) : r * ((n + np - 1) \div np) <= i
                 /\ i <= (r + 1) * ((n + np - 1) \div np)}
    [] How = "all" -> 0..(n - 1)
Init == /\ n \in 1..MaxFiles /\ np \in 1..MaxP
        /\ kept \in SUBSET (0..(n - 1))
        /\ todo = [r \in 0..(np - 1) |-> FilesOf(r)]
        /\ reads = [i \in 0..(n - 1) |-> 0]
        /\ sum = [r \in 0..(np - 1) |-> 0] /\ done = FALSE
\* the sightline of file i is worth 2^i
RECURSIVE Pow(_)
Pow(i) == IF i = 0 THEN 1 ELSE 2 * Pow(i - 1)
Read(r) == /\ todo[r] # {}
           /\ LET i == CHOOSE i \in todo[r] : \A j \in todo[r] : i <= j IN
              /\ todo' = [todo EXCEPT ![r] = @ \ {i}]
              /\ reads' = [reads EXCEPT ![i] = @ + 1]
              /\ sum' = [sum EXCEPT ![r] = @ + (IF i \in kept THEN Pow(i)
                                                ELSE 0)]
           /\ UNCHANGED << n, np, kept, done >>
RECURSIVE Tot(_, _)
Tot(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN
             f[x] + Tot(f, S \ {x})
Reduce == /\ ~done /\ done' = TRUE /\ \A r \in DOMAIN todo : todo[r] = {}
          /\ sum' = [r \in DOMAIN sum |-> Tot(sum, DOMAIN sum)]
          /\ UNCHANGED << n, np, kept, todo, reads >>
Next == Reduce \/ \E r \in DOMAIN todo : Read(r)
Spec == Init /\ [][Next]_vars
Once == done => /\ \A i \in 0..(n - 1) : reads[i] = 1
                /\ \A r \in DOMAIN sum : sum[r] = Tot([i \in kept |-> Pow(i)],
                                                      kept)
=============================================================================
