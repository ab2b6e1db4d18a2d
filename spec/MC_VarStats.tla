----------------------------- MODULE MC_VarStats -----------------------------
(* Spectra of a few pixels, inside and outside the bins, added on several      *)
(* processes; totals, results and resets.  Ghost: the pixels of this life.     *)
(* Checked: every pixel inside the range is in exactly one bin and every other *)
(* in none, the counts are those of exactly the bins' pixels and spectra, the  *)
(* variance of a bin is not negative and vanishes for a single pixel.          *)
(* How = "clip" (outside pixels counted in the nearest bin) and "keep" (reset  *)
(* keeps the counts) are deliberately wrong.                                   *)
EXTENDS VarStats
CONSTANTS P, Max, How
VARIABLES acc, nq, ghost, phase
vars == << acc, nq, ghost, phase >>
C == [w1 |-> "0", w2 |-> "4", nw |-> 2, v1 |-> "0.25", v2 |-> "4", nv |-> 2]
\* bins: wavelengths [0,2) [2,4), inverse variances (1/4,1) (1,4)
Pix == {[w |-> "1", i |-> "0.5"], [w |-> "3", i |-> "2"],
        [w |-> "1", i |-> "0"], [w |-> "5", i |-> "2"],
        [w |-> "-1", i |-> "2"], [w |-> "3", i |-> "9"]}
Specs == [1..2 -> Pix]
Deltas == << "1", "-2" >>
Near1(x, hi) == IF x < 1 THEN 1 ELSE IF x > hi THEN hi ELSE x
EC == Edges(C)
Clipped(w, iv) ==
  (Near1(VFloor(WavePos(C, w)) + 1, 2) - 1) * 2
  + (IF NZero(iv) THEN 1 ELSE Near1(Cardinality({j \in DOMAIN EC : NLt(EC[j], iv)}), 2))
B(px) == IF How = "clip" THEN Clipped(px.w, px.i) ELSE Bin(C, EC, px.w, px.i)
Contr(s) ==
  LET p == [wave |-> [i \in 1..2 |-> s[i].w], delta |-> Deltas,
            ivar |-> [i \in 1..2 |-> s[i].i]] IN
  IF How # "clip" THEN Contribution(C, Pixels(C, EC, p), p)
  ELSE LET b == [i \in 1..2 |-> B(s[i])] IN
       [x |-> << BinSum(C, b, Deltas), BinSum(C, b, << "1", "4" >>),
                 BinSum(C, b, << "1", "16" >>), BinSum(C, b, << "0", "0" >>) >>,
        w |-> BinSum(C, b, << "1", "1" >>)]
Blank == [p \in 1..P |-> New(2, 4, 4, p - 1)]
NoQ == [k \in 1..4 |-> 0]
Init == acc = Blank /\ nq = NoQ /\ ghost = << >> /\ phase = "add"
Add(p) == \E s \in Specs :
  /\ phase = "add" /\ Len(ghost) < Max
  /\ LET t == TLCEval(Contr(s)) IN
     /\ acc' = [acc EXCEPT ![p] = Put(@, t.x, t.w)]
     /\ nq' = [k \in 1..4 |-> nq[k] + IF NPos(t.w[k]) THEN 1 ELSE 0]
  /\ ghost' = Append(ghost, s)
  /\ UNCHANGED phase
Take == phase = "add" /\ phase' = "taken" /\ UNCHANGED << acc, nq, ghost >>
Reset == /\ phase = "taken" /\ phase' = "add" /\ ghost' = << >>
         /\ acc' = (IF How = "keep" THEN acc ELSE Blank) /\ nq' = NoQ
Next == (\E p \in 1..P : Add(p)) \/ Take \/ Reset
Spec == Init /\ [][Next]_vars
\* ground truth, spelled out
TrueBin(px) ==
  CASE px = [w |-> "1", i |-> "0.5"] -> 1
    [] px = [w |-> "3", i |-> "2"] -> 4
    [] OTHER -> 0
In(k) == {<< n, i >> \in (DOMAIN ghost) \X (1..2) : TrueBin(ghost[n][i]) = k}
RightBins == \A px \in Pix : B(px) = TrueBin(px)
Counts == phase = "taken" => LET T == Total(acc) IN \A k \in 1..4 :
  /\ NEq(NumPix(T, k), Cardinality(In(k)))
  /\ nq[k] = Cardinality({x[1] : x \in In(k)})
Variances == phase = "taken" => LET T == Total(acc) IN \A k \in 1..4 :
  /\ NLe("-1e-30", VarD(T, k))
  /\ Cardinality(In(k)) = 1 => Near(VarD(T, k), 0)
  /\ In(k) = {} => NZero(VarD(T, k)) /\ NZero(VarP(T, k))
=============================================================================
