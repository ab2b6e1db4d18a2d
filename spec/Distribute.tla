----------------------------- MODULE Distribute -----------------------------
(***************************************************************************)
(* Handing groups of quasars (the rows of one pixel or tile) to processes.  *)
(* State machine: the largest group not yet handed out goes to a process    *)
(* with the smallest load.  What a user relies on does not depend on how    *)
(* ties are broken.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxGroups, MaxSize, MaxRanks

SumOf(s) == LET RECURSIVE F(_)
                F(i) == IF i = 0 THEN 0 ELSE s[i] + F(i - 1)
            IN F(Len(s))
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

(* ---- what must hold of any hand-out q (process -> sequence of sizes) ---- *)
Loads(q) == [r \in DOMAIN q |-> SumOf(q[r])]
Balanced(q) ==
    LET ld == Loads(q) IN
    \A r \in DOMAIN q : q[r] # <<>> =>
        LET last == SetMin({q[r][i] : i \in DOMAIN q[r]}) IN
        \A s \in DOMAIN q : ld[r] - last <= ld[s]
NoneIdle(q) ==
    \A r, s \in DOMAIN q : ~(q[r] = <<>> /\ Len(q[s]) >= 2)

(* ---- the machine ---- *)
VARIABLES sizes, left, queue
vars == << sizes, left, queue >>
Init == /\ \E n \in 1..MaxGroups : sizes \in [1..n -> 1..MaxSize]
        /\ left = DOMAIN sizes
        /\ \E p \in 1..MaxRanks : queue = [r \in 1..p |-> <<>>]
Load(r) == SumOf([i \in DOMAIN queue[r] |-> sizes[queue[r][i]]])
Give == \E g \in left, r \in DOMAIN queue :
          /\ \A h \in left : sizes[h] <= sizes[g]
          /\ \A s \in DOMAIN queue : Load(r) <= Load(s)
          /\ left' = left \ {g}
          /\ queue' = [queue EXCEPT ![r] = Append(@, g)]
          /\ UNCHANGED sizes
Spec == Init /\ [][Give]_vars

Q == [r \in DOMAIN queue |-> [i \in DOMAIN queue[r] |-> sizes[queue[r][i]]]]
ExactlyOnce ==
    /\ \A g \in DOMAIN sizes : g \in left
         \/ \E r \in DOMAIN queue : \E i \in DOMAIN queue[r] : queue[r][i] = g
    /\ \A r, s \in DOMAIN queue : \A i \in DOMAIN queue[r] :
          \A j \in DOMAIN queue[s] :
          queue[r][i] = queue[s][j] => (r = s /\ i = j)
BalancedInv == Balanced(Q)
NoneIdleInv == NoneIdle(Q)
=============================================================================
