------------------------------ MODULE MC_Procs ------------------------------
(* An iterated computation on spectra that are distributed over processes:     *)
(* each spectrum's result follows from its own data and global functions, the  *)
(* global functions from sums over all spectra, on whichever process they are. *)
(* For every distribution (empty processes included) and number of processes   *)
(* the outcome is that of a single process.                                    *)
(* How: "local" (own sums only), "root" (only the first process has the new    *)
(* global), "means" (mean of the processes' means), "count" (counts of one     *)
(* process) are deliberately wrong.                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxP, N, Iter, How
VARIABLES np, own, glob, res, it, rec
vars == << np, own, glob, res, it, rec >>
Items == 1..N
Data(s) == 2 * s + 1
\* fixed-point arithmetic with denominators that never divide out
Scale == 27720
Fit(s, g) == Data(s) * Scale + g          \* a spectrum's result
Valid(s, g) == (Data(s) + g \div Scale) % 4 # 3
RECURSIVE Add(_, _)
Add(S, f) == IF S = {} THEN 0
             ELSE LET s == CHOOSE x \in S : TRUE IN f[s] + Add(S \ {s}, f)
MeanOf(S, f) == IF S = {} THEN 0 ELSE Add(S, f) \div Cardinality(S)
Init == /\ np \in 1..MaxP /\ own \in [Items -> 1..np]
        /\ glob = [p \in 1..np |-> 0] /\ it = 0 /\ rec = << >>
        /\ res = [s \in Items |-> 0]
\* one iteration: fit everything, reduce, update
Step ==
    /\ it < Iter /\ it' = it + 1
    /\ rec' = Append(rec, glob[1])
    /\ LET r == [s \in Items |-> Fit(s, glob[own[s]])]
           ok == {s \in Items : Valid(s, glob[own[s]])}
           mine(p) == {s \in ok : own[s] = p}
           new(p) == CASE How = "local" -> MeanOf(mine(p), r)
                       [] How = "root" /\ p > 1 -> glob[p]
                       [] How = "means" ->
                            Add(1..np, [q \in 1..np |-> MeanOf(mine(q), r)])
                            \div np
                       [] How = "count" ->
                            IF mine(p) = {} THEN 0
                            ELSE Add(ok, r) \div Cardinality(mine(p))
                       [] OTHER -> MeanOf(ok, r) IN
       /\ res' = r
       /\ glob' = [p \in 1..np |-> new(p)]
    /\ UNCHANGED << np, own >>
Spec == Init /\ [][Step]_vars
\* the same on a single process
RECURSIVE Solo(_)
Solo(k) == IF k = 0 THEN [g |-> 0, res |-> [s \in Items |-> 0], rec |-> << >>]
    ELSE LET b == Solo(k - 1)
             r == [s \in Items |-> Fit(s, b.g)] IN
         [g |-> MeanOf({s \in Items : Valid(s, b.g)}, r), res |-> r,
          rec |-> Append(b.rec, b.g)]
Same == LET b == Solo(it) IN
        /\ \A p \in 1..np : glob[p] = b.g
        /\ res = b.res /\ rec = b.rec
=============================================================================
