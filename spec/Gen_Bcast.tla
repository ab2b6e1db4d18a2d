------------------------------ MODULE Gen_Bcast ------------------------------
(* All combinations of call, outcome and number of processes.                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Sizes
VARIABLE c
ValueKinds == {"none", "zero", "false", "emptystr", "emptylist", "dict",
               "array", "array0", "nanarray", "tuple", "exception_object",
               "string"}
ErrorKinds == {"ValueError", "QsonicException", "KeyError", "OSError",
               "RuntimeError", "StopIteration", "Exception",
               "AssertionError", "UnicodeError"}
Callables == {"function", "partial", "object", "lambda", "kwargs"}
FileCalls == {"catalog", "queue", "dla", "noisecal", "fluxcal", "meanflux",
              "varlss", "removelist", "sky", "runmasks", "runsky"}
\* onlymain: the other processes cannot read the file
FileOutcomes == {"good", "missing", "garbage", "content", "onlymain"}
ParseOutcomes == {"good", "defaults", "badvalue", "unknown", "missing",
                  "logicfalse", "logicedit", "help"}
Init == \/ \E f \in Callables : \E v \in ValueKinds : \E s \in Sizes :
             c = [call |-> "fnc", how |-> f, kind |-> "value", o |-> v,
                  size |-> s]
        \/ \E f \in Callables : \E v \in ErrorKinds : \E s \in Sizes :
             c = [call |-> "fnc", how |-> f, kind |-> "error", o |-> v,
                  size |-> s]
        \/ \E f \in FileCalls : \E v \in FileOutcomes : \E s \in Sizes :
             c = [call |-> f, how |-> "", kind |-> "", o |-> v, size |-> s]
        \/ \E v \in ParseOutcomes : \E s \in Sizes \ {0} :
             c = [call |-> "parse", how |-> "", kind |-> "", o |-> v,
                  size |-> s]
Next == /\ c.call # "end"
        /\ PrintT("@@" \o ToJson(c))
        /\ c' = [call |-> "end", how |-> "", kind |-> "", o |-> "",
                 size |-> 0]
Spec == Init /\ [][Next]_c
=============================================================================
