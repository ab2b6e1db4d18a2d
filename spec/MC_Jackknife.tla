---------------------------- MODULE MC_Jackknife ----------------------------
(* Processes accumulate, reduce, take results, reset.  Ghost: everything added *)
(* since the last reset.  Checked: the mean is that of everything added, every *)
(* subsample of the total holds exactly the measurements dealt to it, no       *)
(* measurement enters after a result, a reset leaves nothing behind, the       *)
(* variance is nowhere negative.                                               *)
(* How = "start" (reset keeps the position) and "late" (adding to reduced sums *)
(* and reducing again) are deliberately wrong.                                 *)
EXTENDS Jackknife, FiniteSets
CONSTANTS P, N, Max, How
VARIABLES acc, phase, ghost, cnt, last
vars == << acc, phase, ghost, cnt, last >>
Start(p) == ((p - 1) * N) \div P
Init == /\ acc = [p \in 1..P |-> New(N, 1, 1, Start(p))]
        /\ phase = "add" /\ ghost = << >> /\ last = << >>
        /\ cnt = [p \in 1..P |-> 0]
Add(p) == \E x \in {1, 3}, w \in {1, 2} :
  /\ phase = "add" \/ (How = "late" /\ phase = "reduced")
  /\ Len(ghost) < Max
  /\ acc' = [acc EXCEPT ![p] = Put(@, << << w * x >> >>, << w >>)]
  /\ ghost' = Append(ghost, [sub |-> (Start(p) + cnt[p]) % N,
                             x |-> w * x, w |-> w])
  /\ cnt' = [cnt EXCEPT ![p] = @ + 1]
  /\ UNCHANGED << phase, last >>
Reduce ==
  /\ phase \in (IF How = "late" THEN {"add", "reduced"} ELSE {"add"})
  /\ phase' = "reduced"
  /\ LET t == Total(acc) IN
     acc' = [p \in 1..P |-> [t EXCEPT !.pos = acc[p].pos,
                                      !.start = acc[p].start]]
  /\ UNCHANGED << ghost, cnt, last >>
Take == /\ phase = "reduced" /\ phase' = "taken"
        /\ last' = [p \in 1..P |-> Mean(acc[p], 1, 1)]
        /\ UNCHANGED << acc, ghost, cnt >>
Reset == /\ phase \in {"reduced", "taken"} /\ phase' = "add"
         /\ acc' = [p \in 1..P |-> IF How = "start"
                     THEN [New(N, 1, 1, Start(p)) EXCEPT !.pos = acc[p].pos]
                     ELSE New(N, 1, 1, Start(p))]
         /\ ghost' = << >> /\ last' = << >>
         /\ cnt' = [p \in 1..P |-> 0]
Next == (\E p \in 1..P : Add(p)) \/ Reduce \/ Take \/ Reset
Spec == Init /\ [][Next]_vars
\* ghost sums
GS(f(_), sel(_)) == NSum([i \in DOMAIN ghost |->
                            IF sel(ghost[i]) THEN f(ghost[i]) ELSE 0])
FX(g) == g.x
FW(g) == g.w
All(g) == TRUE
MeanOfEverything ==
  phase = "taken" => \A p \in 1..P :
     NEq(last[p], IF ghost = << >> THEN 0
                  ELSE NDiv(GS(FX, All), GS(FW, All)))
DealtInTurn ==
  LET T == Total(acc) IN
  phase # "add" \/ \A s \in 0..(N - 1) :
    LET Is(g) == g.sub = s IN
    /\ NEq(T.S[s + 1][1][1], GS(FX, Is))
    /\ NEq(T.W[s + 1][1], GS(FW, Is))
NonNegative == phase = "taken" /\ Exists(acc[1], 1) =>
  LET x == Diffs(Jacks(acc[1], 1, 1)) IN NNonNeg(CovOf(N, x, x))
\* a constant measurement has no variance
ConstantHasNone == phase = "taken" /\ Exists(acc[1], 1)
  /\ (\E c \in {1, 3} : \A i \in DOMAIN ghost : ghost[i].x = c * ghost[i].w)
  => LET x == Diffs(Jacks(acc[1], 1, 1)) IN Near(CovOf(N, x, x), 0)
=============================================================================
