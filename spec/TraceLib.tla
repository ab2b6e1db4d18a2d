------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Reading a recorded trace and reporting a total verdict.  T is the        *)
(* recorded trace, one event per line; each event has a field "k" (its      *)
(* kind).  A trace module defines Fails(e), the set of names of the         *)
(* specification clauses that event e violates, and uses TraceNext(Fails);  *)
(* modules whose clauses relate an event to the state the earlier events    *)
(* built carry that state in their own variables.                           *)
(***************************************************************************)
EXTENDS Json, IOUtils, TLC, Sequences, Naturals, FiniteSets
VARIABLES l, bad
T == ndJsonDeserialize(IOEnv.TRACE)
\* Name a clause: the set {name} when the clause is FALSE.
Cl(name, ok) == IF ok THEN {} ELSE {name}
Report(n, b) == PrintT("@@" \o ToJson([n |-> n, bad |-> b]))
Has(r, f) == f \in DOMAIN r
SeqSet(s) == {s[i] : i \in DOMAIN s}
TraceInit == l = 1 /\ bad = <<>>
TraceStep(fails) == /\ l <= Len(T)
                    /\ l' = l + 1
                    /\ bad' = IF fails = {} THEN bad
                              ELSE Append(bad, [i |-> l, c |-> fails])
TraceEnd == /\ l = Len(T) + 1
            /\ Report(Len(T), bad)
            /\ l' = l + 1
            /\ UNCHANGED bad
TraceNext(F(_)) == (l <= Len(T) /\ TraceStep(F(T[l]))) \/ TraceEnd
=============================================================================
