------------------------------- MODULE MC_Args -------------------------------
(* One process reads the options and tells the others.  Nobody reads or writes *)
(* before; when they are inconsistent everybody exits.                         *)
(* How = "early" (a process starts before it is told), "only" (only the first  *)
(* exits, the others are told nothing is wrong), "silent" (the first exits     *)
(* without telling: the others wait forever), "late" (checked after the first  *)
(* process started) are deliberately wrong.                                    *)
EXTENDS Args
CONSTANTS P, How
VARIABLES o, pc, told, work
vars == << o, pc, told, work >>
Proc == 1..P
Opts == [model : {"unset", "picca", "true", "input"}, true : BOOLEAN,
         dir : BOOLEAN, mock : BOOLEAN, tile : BOOLEAN, hpx : {FALSE},
         exp : {"unset", "after"}, mf : BOOLEAN, vl : {TRUE},
         wave : {"above", "equal"}, forest : {"above"},
         skip : {"in", "nan"}]
Init == /\ o \in Opts /\ pc = [p \in Proc |-> "begin"] /\ told = "nothing"
        /\ work = {}
Read == /\ pc[1] = "begin"
        /\ LET bad == ~Consistent(o) IN
           /\ told' = (IF How = "silent" /\ bad THEN "nothing"
                       ELSE IF bad /\ How # "only" THEN "exit" ELSE "start")
           /\ pc' = [pc EXCEPT ![1] = IF bad THEN "gone" ELSE "told"]
           /\ work' = (IF How = "late" THEN work \cup {1} ELSE work)
        /\ UNCHANGED o
Hear(p) == /\ p # 1 /\ pc[p] = "begin" /\ told # "nothing"
           /\ pc' = [pc EXCEPT ![p] = IF told = "exit" THEN "gone"
                                      ELSE "told"]
           /\ UNCHANGED << o, told, work >>
Start(p) == /\ \/ pc[p] = "told"
               \/ How = "early" /\ p # 1 /\ pc[p] = "begin"
            /\ pc' = [pc EXCEPT ![p] = "gone"] /\ work' = work \cup {p}
            /\ UNCHANGED << o, told >>
Next == Read \/ \E p \in Proc : Hear(p) \/ Start(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Refused == ~Consistent(o) => work = {}
Ends == <>(\A p \in Proc : pc[p] = "gone")
Chosen == Consistent(o) =>
   /\ WantsTrue(o) => Model(o) = "true"
   /\ WantsInput(o) => Model(o) = "input"
=============================================================================
