---------------------------- MODULE MC_DeltaRead ----------------------------
(* A delta file goes through reading and rewriting any number of times.        *)
(* Checked: a file is accepted exactly if every sightline is readable; what    *)
(* was read once stays the same; blinded contrasts stay under the blinded      *)
(* name; pixels without data carry no contrast; no sightline is lost, added    *)
(* or reordered.  How = "plain" (rewritten under the plain name), "keepbad"    *)
(* (contrast of bad pixels kept) and "skip" (unreadable sightlines are         *)
(* dropped) are deliberately wrong.                                            *)
EXTENDS DeltaRead, TLC
CONSTANTS How, MaxRounds
Layouts == [wave : WaveCols \cup {"none"}, delta : DeltaCols \cup {"none"},
            id : IdKeys \cup {"none"}]
Pix == [d : {0, 7}, i : {0, 1}]
Line == [y : Layouts, p : Pix]
VARIABLES first, file, mem, state, round
vars == << first, file, mem, state, round >>
Init == /\ first \in UNION {[1..n -> Line] : n \in 0..2}
        /\ file = first /\ mem = << >> /\ state = "file" /\ round = 0
ReadLine(x) == [blind |-> x.y.delta = "DELTA_BLIND", id |-> x.y.id,
                p |-> [d |-> IF x.p.i = 0 /\ How # "keepbad" THEN 0 ELSE x.p.d,
                       i |-> x.p.i]]
RECURSIVE Keep(_)
Keep(s) == IF s = << >> THEN << >>
           ELSE (IF Readable(Head(s).y) THEN << Head(s) >> ELSE << >>)
                \o Keep(Tail(s))
Lines(f) == [k \in DOMAIN f |-> f[k].y]
Rd == /\ state = "file"
      /\ LET f == IF How = "skip" THEN Keep(file) ELSE file IN
         IF FileReadable(Lines(f))
         THEN state' = "mem" /\ mem' = [k \in DOMAIN f |-> ReadLine(f[k])]
         ELSE state' = "refused" /\ mem' = << >>
      /\ UNCHANGED << first, file, round >>
Wr == /\ state = "mem" /\ round < MaxRounds
      /\ state' = "file" /\ round' = round + 1
      /\ file' = [k \in DOMAIN mem |->
           [y |-> [wave |-> "LAMBDA", id |-> mem[k].id,
                   delta |-> IF mem[k].blind /\ How # "plain"
                             THEN "DELTA_BLIND" ELSE "DELTA"],
            p |-> mem[k].p]]
      /\ UNCHANGED << first, mem >>
Next == Rd \/ Wr
Spec == Init /\ [][Next]_vars
Accepts == /\ state = "refused" => ~FileReadable(Lines(first))
           /\ state = "mem" => FileReadable(Lines(first))
SameSightlines == state = "mem" =>
   /\ Len(mem) = Len(first)
   /\ \A k \in DOMAIN mem :
        /\ mem[k].id = first[k].y.id /\ mem[k].p.i = first[k].p.i
        /\ mem[k].p.d = (IF first[k].p.i = 0 THEN 0 ELSE first[k].p.d)
StaysBlind == state # "refused" => \A k \in DOMAIN file :
   (k \in DOMAIN first /\ round > 0)
     => file[k].y.delta = OutLayout(first[k].y).delta
=============================================================================
