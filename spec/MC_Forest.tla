----------------------------- MODULE MC_Forest -----------------------------
(***************************************************************************)
(* Design of the per-pixel arrays of one spectrum.  Wavelength, flux,       *)
(* resolution and continuum have their own store; the smoothed inverse      *)
(* variance is the store of the inverse variance itself until it is         *)
(* smoothed, and the weight is one of the two until it is computed.  A      *)
(* store maps an arm to the interval of pixels it holds (<<0,0>>: absent).  *)
(* Checked: after any sequence of steps all stores of an arm hold the same  *)
(* pixels and exist for the same arms.  SliceOnce = FALSE slices every name *)
(* of a shared store again (the defect repaired in 92d3aba); Replace =      *)
(* FALSE keeps arms of an earlier region (repaired in 2ad5198).             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Arms, N, SliceOnce, Replace
VARIABLES wave, ivar, sm, wt, cont, smIs, wtIs
vars == << wave, ivar, sm, wt, cont, smIs, wtIs >>
None == << 0, 0 >>
Iv == {<< a, b >> \in (1..N) \X (1..N) : a < b}
Empty == [a \in Arms |-> None]
Init == wave = Empty /\ ivar = Empty /\ sm = Empty /\ wt = Empty
        /\ cont = Empty /\ smIs = "ivar" /\ wtIs = "ivar"
Present == {a \in Arms : wave[a] # None}
\* the interval an observer sees
Sm(a) == IF smIs = "ivar" THEN ivar[a] ELSE sm[a]
Wt(a) == CASE wtIs = "ivar" -> ivar[a] [] wtIs = "sm" -> Sm(a)
           [] OTHER -> wt[a]

Region == \E r \in [Arms -> Iv \cup {None}] :
            /\ wave' = [a \in Arms |-> IF r[a] = None /\ ~Replace
                                       THEN wave[a] ELSE r[a]]
            /\ ivar' = [a \in Arms |-> r[a]]
            /\ smIs' = "ivar" /\ wtIs' = "ivar" /\ cont' = Empty
            /\ sm' = Empty /\ wt' = Empty
Cut(iv, i, j) == IF iv = None THEN None
                 ELSE IF iv[1] + i < iv[1] + j /\ iv[1] + j <= iv[2]
                      THEN << iv[1] + i, iv[1] + j >> ELSE << iv[1] + i, iv[2] >>
Slice == \E a \in Present, i \in 0..1, j \in 1..N :
   /\ wave[a][1] + i < wave[a][1] + j /\ wave[a][1] + j <= wave[a][2]
   /\ wave' = [wave EXCEPT ![a] = Cut(@, i, j)]
   /\ cont' = [cont EXCEPT ![a] = Cut(@, i, j)]
   /\ LET once == Cut(ivar[a], i, j)
          n == 1 + (IF smIs = "ivar" THEN 1 ELSE 0)
                 + (IF wtIs = "ivar" \/ (wtIs = "sm" /\ smIs = "ivar")
                    THEN 1 ELSE 0) IN
      ivar' = [ivar EXCEPT ![a] =
                 IF SliceOnce \/ n = 1 THEN once
                 ELSE IF n = 2 THEN Cut(once, i, j)
                 ELSE Cut(Cut(once, i, j), i, j)]
   /\ sm' = [sm EXCEPT ![a] = IF smIs = "own" THEN Cut(@, i, j) ELSE @]
   /\ wt' = [wt EXCEPT ![a] = IF wtIs = "own" THEN Cut(@, i, j) ELSE @]
   /\ UNCHANGED << smIs, wtIs >>
Drop == \E a \in Present :
   /\ wave' = [wave EXCEPT ![a] = None] /\ ivar' = [ivar EXCEPT ![a] = None]
   /\ sm' = [sm EXCEPT ![a] = None] /\ wt' = [wt EXCEPT ![a] = None]
   /\ cont' = [cont EXCEPT ![a] = None] /\ UNCHANGED << smIs, wtIs >>
Smooth == \/ /\ smIs' = "own" /\ wtIs' = "sm" /\ sm' = ivar
             /\ wt' = Empty /\ UNCHANGED << wave, ivar, cont >>
          \/ /\ smIs' = "ivar" /\ wtIs' = "sm" /\ sm' = Empty
             /\ wt' = Empty /\ UNCHANGED << wave, ivar, cont >>
SetCont == cont' = wave /\ UNCHANGED << wave, ivar, sm, wt, smIs, wtIs >>
Weigh == IF cont = Empty
         THEN wtIs' = "sm" /\ wt' = Empty
              /\ UNCHANGED << wave, ivar, sm, cont, smIs >>
         ELSE /\ wtIs' = "own"
              /\ wt' = [a \in Arms |-> IF wave[a] = None THEN None
                                       ELSE Sm(a)]
              /\ UNCHANGED << wave, ivar, sm, cont, smIs >>
Next == Region \/ Slice \/ Drop \/ Smooth \/ SetCont \/ Weigh
Spec == Init /\ [][Next]_vars
Aligned == \A a \in Arms :
   /\ ivar[a] = wave[a] /\ Sm(a) = wave[a] /\ Wt(a) = wave[a]
   /\ (\E b \in Arms : cont[b] # None) => cont[a] = wave[a]
=============================================================================
