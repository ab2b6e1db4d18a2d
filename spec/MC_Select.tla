------------------------------ MODULE MC_Select ------------------------------
(* Selection as the pipeline carries it out, step after step on every process *)
(* of its own, against the set the cuts describe.  A spectrum: red (red-side   *)
(* signal to noise), pix (good pixels per arm), hit (of these, masked), snr    *)
(* (of the forest).  Early = TRUE measures the length before masking, which    *)
(* is wrong.  Arms left without pixels are dropped.                            *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, MaxPix, Early
VARIABLES s, own, pc, keep
vars == << s, own, pc, keep >>
Kinds == [red : 0..1, pix : [1..2 -> 0..MaxPix], hit : [1..2 -> 0..1],
          snr : 0..1]
MinR == 1
MinF == 1
Need == 1
Init == /\ s \in [1..N -> {k \in Kinds : \A a \in 1..2 : k.hit[a] <= k.pix[a]}]
        /\ own \in [1..N -> 1..2]
        /\ pc = [p \in 1..2 |-> "read"]
        /\ keep = [p \in 1..2 |-> {}]
Tot(f) == f[1] + f[2]
Left(k) == [a \in 1..2 |-> k.pix[a] - k.hit[a]]
Step(p, from, to, K) == /\ pc[p] = from /\ pc' = [pc EXCEPT ![p] = to]
                        /\ keep' = [keep EXCEPT ![p] = K]
                        /\ UNCHANGED << s, own >>
Read(p) == Step(p, "read", "mask",
     {n \in 1..N : own[n] = p /\ Tot(s[n].pix) > 0 /\ s[n].red >= MinR})
Mask(p) == Step(p, "mask", "len", {n \in keep[p] : Tot(Left(s[n])) > 0
                                     \/ Early})
Length(p) == Step(p, "len", "snr",
     {n \in keep[p] : Tot(IF Early THEN s[n].pix ELSE Left(s[n])) > Need})
Snr(p) == Step(p, "snr", "done", {n \in keep[p] : s[n].snr >= MinF})
Next == \E p \in 1..2 : Read(p) \/ Mask(p) \/ Length(p) \/ Snr(p)
Spec == Init /\ [][Next]_vars
Want == {n \in 1..N : s[n].red >= MinR /\ s[n].snr >= MinF
                      /\ Tot(Left(s[n])) > Need}
Exactly == (\A p \in 1..2 : pc[p] = "done") =>
              keep[1] \cup keep[2] = Want /\ keep[1] \cap keep[2] = {}
=============================================================================
