------------------------------- MODULE Gen_iter -------------------------------
(***************************************************************************)
(* Interleavings of two iterators, as in MC_iter, exported once both have   *)
(* ended: sched is the order of starts and steps.                          *)
(***************************************************************************)
EXTENDS MC_iter, Json, Randomization
CONSTANTS Every, Salt
VARIABLES sched, done
GInit == Init /\ sched = <<>> /\ done = FALSE
Log(e) == sched' = Append(sched, e)
GNext == \/ /\ Len(sched) < 16 /\ UNCHANGED <<p, done>>
            /\ \E i \in RandomSubset(1, IF Len(sched) >= 0 THEN Ids ELSE {}) :
               \/ /\ its[i] = NoIt \/ Len(sched) % 5 = 4            (* restarts, too *)
                  /\ \E kind \in RandomSubset(1, IF Len(sched) >= 0 THEN 1..3 ELSE {}), f \in RandomSubset(1, IF Len(sched) >= 0 THEN Filters ELSE {}) :
                       /\ its' = [its EXCEPT ![i] = [kind |-> kind, f |-> f, rest |-> IterSeq(DS(p), kind, f)]]
                       /\ out' = [out EXCEPT ![i] = <<>>]
                       /\ Log([o |-> "start", i |-> i, kind |-> kind, f |-> f])
               \/ /\ its[i].kind # 0
                  /\ IF its[i].rest # <<>> THEN Step(i) ELSE UNCHANGED <<its, out>>      (* the end, again and again *)
                  /\ Log([o |-> "step", i |-> i])
         \/ /\ Len(sched) = 16 /\ ~done /\ done' = TRUE /\ UNCHANGED <<p, its, out, sched>>
            /\ PrintT("CASE " \o ToJson([d |-> DS(p), s |-> sched]))
=============================================================================
