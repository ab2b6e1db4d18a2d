------------------------------- MODULE MC_Save -------------------------------
(* A run of several processes saving deltas: every spectrum belongs to one     *)
(* pixel, pixels are dealt to processes (Split = TRUE deals single spectra     *)
(* instead, which is wrong), each process writes one file per pixel or one     *)
(* file, overwriting what is there (an earlier run may have left files).       *)
(* At the end every arm of every valid spectrum with non-zero signal to noise  *)
(* is in exactly one file of this run, and nothing else is.                    *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Procs, Specs, Pixels, Arms, Split
VARIABLES pix, valid, snr, own, byhpx, pc, disk
vars == << pix, valid, snr, own, byhpx, pc, disk >>
Init == /\ pix \in [Specs -> Pixels] /\ valid \in [Specs -> BOOLEAN]
        /\ snr \in [Specs -> SUBSET Arms]       \* arms with signal
        /\ byhpx \in BOOLEAN
        /\ own \in [Specs -> Procs]
        /\ Split \/ \A s, t \in Specs : pix[s] = pix[t] => own[s] = own[t]
        /\ pc = [p \in Procs |-> {}]            \* files already written
        /\ disk = << >>
Mine(p) == {s \in Specs : own[s] = p}
FilesOf(p) == IF byhpx THEN {<< "hpx", pix[s] >> : s \in Mine(p)}
              ELSE {<< "rank", p >>}
Content(p, f) ==
    {<< s, a >> : s \in {x \in Mine(p) : valid[x]
                        /\ (byhpx => f = << "hpx", pix[x] >>)}, a \in Arms}
    \cap {<< s, a >> \in Specs \X Arms : a \in snr[s]}
Write(p) == \E f \in FilesOf(p) \ pc[p] :
    /\ pc' = [pc EXCEPT ![p] = @ \cup {f}]
    /\ disk' = (f :> Content(p, f)) @@ disk
    /\ UNCHANGED << pix, valid, snr, own, byhpx >>
Next == \E p \in Procs : Write(p)
Spec == Init /\ [][Next]_vars
Done == \A p \in Procs : pc[p] = FilesOf(p)
Want == {<< s, a >> \in Specs \X Arms : valid[s] /\ a \in snr[s]}
Once == Done => /\ UNION {disk[f] : f \in DOMAIN disk} = Want
                /\ \A e \in Want :
                     Cardinality({f \in DOMAIN disk : e \in disk[f]}) = 1
=============================================================================
