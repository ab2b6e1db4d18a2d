-------------------------- MODULE Trace_Distribute --------------------------
(* Recorded hand-outs against Distribute.                                    *)
(* balance: groups (seq of [id, ids]), queues (process -> seq of seq of ids) *)
(* queue:   cat (sorted catalogue: seq of [t, g, rest]),                     *)
(*          queues (process -> seq of seq of [t, g, rest]), out              *)
EXTENDS Num, TraceLib
D == INSTANCE Distribute WITH MaxGroups <- 1, MaxSize <- 1, MaxRanks <- 1,
        sizes <- <<>>, left <- {}, queue <- <<>>

Sizes(queues) == [r \in DOMAIN queues |->
                   [i \in DOMAIN queues[r] |-> Len(queues[r][i])]]
Occurrences(queues) ==
    LET RECURSIVE F(_)
        F(r) == IF r = 0 THEN <<>> ELSE F(r - 1) \o queues[r]
    IN F(Len(queues))

BalanceFails(e) ==
  IF e.out # "ok" THEN {"hand_out_completes"} ELSE
  LET all == Occurrences(e.queues) IN
  Cl("one_queue_per_process", Len(e.queues) = e.size)
  \cup Cl("groups_unsplit_exactly_once",
       /\ Len(all) = Len(e.groups)
       /\ {all[i] : i \in DOMAIN all} = {e.groups[i] : i \in DOMAIN e.groups})
  \cup Cl("balanced", D!Balanced(Sizes(e.queues)))
  \cup Cl("no_idle_process", D!NoneIdle(Sizes(e.queues)))

QueueFails(e) ==
  IF e.out # "ok" THEN {"hand_out_completes"} ELSE
  LET all == Occurrences(e.queues)
      keys == {e.cat[i].g : i \in DOMAIN e.cat}
      Group(g) == SelectSeq(e.cat, LAMBDA x : x.g = g)
      want == {Group(g) : g \in keys}
  IN Cl("one_queue_per_process", Len(e.queues) = e.size)
     \cup Cl("groups_unsplit_exactly_once",
             /\ Len(all) = Cardinality(keys)
             /\ {all[i] : i \in DOMAIN all} = want)
     \cup Cl("balanced", D!Balanced(Sizes(e.queues)))
     \cup Cl("no_idle_process", D!NoneIdle(Sizes(e.queues)))

Fails(e) == CASE e.k = "balance" -> BalanceFails(e)
              [] e.k = "queue" -> QueueFails(e)
              [] OTHER -> {"unknown_event"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
