------------------------------ MODULE MC_ChiCat ------------------------------
(* Processes describe their spectra row by row and send them to the first,     *)
(* which writes the file.  Any distribution of spectra, empty processes        *)
(* included; any of them may be invalid.                                       *)
(* How = "valid" (only valid ones described), "reuse" (a record filled in      *)
(* place keeps a field of the row before), "root" (only the first process)     *)
(* are deliberately wrong.                                                     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS P, N, How
VARIABLES own, valid, todo, local, file, done
vars == << own, valid, todo, local, file, done >>
Proc == 1..P
Spec1 == 1..N
Lists == [Spec1 -> Proc]
RECURSIVE InOrder(_, _, _)
InOrder(f, p, s) == IF s > N THEN << >>
    ELSE (IF f[s] = p THEN << s >> ELSE << >>) \o InOrder(f, p, s + 1)
Init == /\ own \in Lists /\ valid \in [Spec1 -> BOOLEAN]
        /\ todo = [p \in Proc |-> InOrder(own, p, 1)]
        /\ local = [p \in Proc |-> << >>] /\ file = << >> /\ done = FALSE
\* the coefficient of spectrum s is s where the fit is valid
RowFor(p, s) ==
    [id |-> s, proc |-> p, valid |-> valid[s],
     x |-> IF valid[s] THEN s
           ELSE IF How = "reuse" /\ local[p] # << >>
           THEN local[p][Len(local[p])].x ELSE 0]
Describe(p) ==
    /\ todo[p] # << >>
    /\ todo' = [todo EXCEPT ![p] = Tail(@)]
    /\ local' = (IF How = "valid" /\ ~valid[todo[p][1]] THEN local
                 ELSE [local EXCEPT ![p] = Append(@, RowFor(p, todo[p][1]))])
    /\ UNCHANGED << own, valid, file, done >>
RECURSIVE Cat(_)
Cat(p) == IF p > P THEN << >> ELSE local[p] \o Cat(p + 1)
Gather == /\ ~done /\ done' = TRUE /\ \A p \in Proc : todo[p] = << >>
          /\ file' = (IF How = "root" THEN local[1] ELSE Cat(1))
          /\ UNCHANGED << own, valid, todo, local >>
Next == Gather \/ \E p \in Proc : Describe(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == done =>
        /\ Len(file) = N
        /\ \A s \in Spec1 : \E i \in DOMAIN file :
             file[i] = [id |-> s, proc |-> own[s], valid |-> valid[s],
                        x |-> IF valid[s] THEN s ELSE 0]
Written == <>done
=============================================================================
