----------------------------- MODULE Gen_Reader -----------------------------
(* Survey files and catalogues, built row by row.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES o, files, cat, pc
vars == << o, files, cat, pc >>
Tids == << "7", "10", "39627700846986", "23", "9" >>
T == 1..Len(Tids)
Modes == {"coadd", "exposures", "tile", "mock"}
Opts == [mode : Modes, arms : {<< "B" >>, << "R", "B" >>, << "B", "R", "Z" >>},
         reso : BOOLEAN, skip : BOOLEAN, cont : BOOLEAN, f4 : BOOLEAN]
NUnits == IF o.mode = "mock" THEN 1 ELSE 2
Init == o = << >> /\ files = <<>> /\ cat = <<>> /\ pc = "opts"
Pick == /\ pc = "opts"
        /\ o' \in {x \in Opts : (x.mode = "mock" => x.reso)
                                /\ (x.mode # "mock" => ~x.cont)}
        /\ files' = [u \in 1..(IF o'.mode = "mock" THEN 1 ELSE 2) |-> <<>>]
        /\ pc' = "file" /\ UNCHANGED cat
\* one more row in file u (targets repeat only among exposures)
Row(u) == /\ pc = "file" /\ Len(files[u]) < 5
          /\ \E t \in T :
               /\ o.mode # "exposures" => \A i \in DOMAIN files[u] :
                                            files[u][i] # t
               /\ files' = [files EXCEPT ![u] = Append(@, t)]
          /\ UNCHANGED << o, cat, pc >>
FilesDone == /\ pc = "file" /\ \A u \in 1..NUnits : Len(files[u]) >= 1
             /\ pc' = "cat" /\ UNCHANGED << o, files, cat >>
\* one more catalogue row; units in order, each target once
CatRow == /\ pc = "cat" /\ Len(cat) < 5
          /\ \E t \in T, u \in 1..NUnits :
               /\ \A i \in DOMAIN cat : cat[i].t # t
               /\ cat # <<>> => cat[Len(cat)].u <= u
               /\ cat' = Append(cat, [t |-> t, u |-> u])
          /\ UNCHANGED << o, files, pc >>
Emit == /\ pc = "cat" /\ Len(cat) >= 2
        /\ PrintT("@@" \o ToJson([o |-> o, files |-> files, cat |-> cat,
                                  tids |-> Tids]))
        /\ pc' = "done" /\ UNCHANGED << o, files, cat >>
Next == Pick \/ (\E u \in {1, 2} : u \in DOMAIN files /\ Row(u))
        \/ FilesDone \/ CatRow \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
