---------------------------- MODULE MC_DeltaCoadd ----------------------------
(* Directories of delta entries coadded one after another: a dictionary of     *)
(* targets grows, later entries of a known target are averaged in.  For every  *)
(* small history: each target ends up exactly once, blinded if any of its      *)
(* entries was; one seen once is unchanged; averages lie in the range of what  *)
(* was averaged, carry at most the total inverse variance, ignore entries      *)
(* without weight and do not depend on the order of two.                       *)
EXTENDS DeltaCoadd
CONSTANTS Targets, Vals, Wts, MaxN
VARIABLES todo, dict, seen
vars == << todo, dict, seen >>
\* one-pixel entries with variance 1/v and weight w <= ivar
Ent(o, d, w, b) == [lam |-> << NAdd("4000", o) >>, delta |-> << d >>,
                    ivar |-> << IF w = "0" THEN "0" ELSE NMul(w, "1.25") >>,
                    weight |-> << w >>, cont |-> << "2" >>, reso |-> << >>,
                    blind |-> b]
Ents == {Ent(o, d, w, b) : o \in {0, 1}, d \in Vals, w \in Wts,
                           b \in BOOLEAN}
Init == todo = << >> /\ dict = << >> /\ seen = [t \in Targets |-> << >>]
Add == /\ Len(todo) < MaxN
       /\ \E t \in Targets : \E e \in Ents :
            /\ todo' = Append(todo, t)
            /\ seen' = [seen EXCEPT ![t] = Append(@, e)]
            /\ dict' = (IF t \in DOMAIN dict
                        THEN [dict EXCEPT ![t] = Avg(@, e, "1")]
                        ELSE (t :> e) @@ dict)
Next == Add
Spec == Init /\ [][Next]_vars
Once == DOMAIN dict = {t \in Targets : seen[t] # << >>}
Single == \A t \in DOMAIN dict : Len(seen[t]) = 1 => dict[t] = seen[t][1]
Blinded == \A t \in DOMAIN dict :
             dict[t].blind <=> \E i \in DOMAIN seen[t] : seen[t][i].blind
All(t, n) == {i \in DOMAIN seen[t] : seen[t][i].lam[1] = dict[t].lam[n]
                                    /\ NPos(seen[t][i].weight[1])}
Range == \A t \in DOMAIN dict : \A n \in DOMAIN dict[t].lam :
           LET S == All(t, n)
               d == dict[t].delta[n] IN
           IF Len(seen[t]) = 1 THEN TRUE ELSE
           IF S = {} THEN NZero(dict[t].ivar[n]) /\ NZero(dict[t].weight[n])
                          /\ NZero(d)
           ELSE /\ \E i \in S : NLe(seen[t][i].delta[1], NAdd(d, "1e-20"))
                /\ \E i \in S : NLe(NSub(d, "1e-20"), seen[t][i].delta[1])
                /\ NLe(dict[t].ivar[n], NAdd("1e-20",
                      NSum([i \in DOMAIN seen[t] |->
                        IF i \in S THEN seen[t][i].ivar[1] ELSE "0"])))
                /\ NLe(dict[t].weight[n], dict[t].ivar[n])
Commutes == \A t \in DOMAIN dict : Len(seen[t]) = 2 =>
              Avg(seen[t][1], seen[t][2], "1")
              = Avg(seen[t][2], seen[t][1], "1")
=============================================================================
