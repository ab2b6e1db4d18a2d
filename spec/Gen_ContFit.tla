----------------------------- MODULE Gen_ContFit -----------------------------
(* Histories of fits of one set of spectra: for fitted continua the kind of    *)
(* mean continuum given to each fit; for input continua what the files hold    *)
(* for each of the targets at each initialisation.                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, MaxOrder
VARIABLE h
Mean == {"flat", "pos", "steep", "cross", "neg", "wild"}
Row == {"own", "new", "absent", "negB", "negR", "nan", "nofile",
        "low"}
Init == \/ \E o \in 0..MaxOrder : \E m \in {"iminuit", "l_bfgs_b"} :
           h = [model |-> "picca", order |-> o, min |-> m, steps |-> << >>]
        \/ h = [model |-> "input", order |-> 0, min |-> "iminuit",
                steps |-> << >>]
        \/ h = [model |-> "true", order |-> 0, min |-> "iminuit",
                steps |-> << >>]
Step == \/ /\ h.model = "picca"
           /\ \E m \in Mean : h' = [h EXCEPT !.steps = Append(@, << m >>)]
        \/ /\ h.model = "input"
           /\ \E a, b, c \in Row :
                h' = [h EXCEPT !.steps = Append(@, << a, b, c >>)]
        \/ /\ h.model = "true"
           /\ \E a, b, c \in {"own", "new", "low"} :
                h' = [h EXCEPT !.steps = Append(@, << a, b, c >>)]
Emit == /\ Len(h.steps) = MaxLen /\ PrintT("@@" \o ToJson(h))
        /\ h' = [h EXCEPT !.steps = << >>]
Next == (Len(h.steps) < MaxLen /\ Step) \/ Emit
Spec == Init /\ [][Next]_h
=============================================================================
