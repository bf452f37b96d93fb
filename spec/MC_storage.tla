----------------------------- MODULE MC_storage -----------------------------
(***************************************************************************)
(* Ownership of storage: a heap of blocks, each owned by one dataset, by a  *)
(* call in progress, or by the library itself (buffers filled once).  TLC  *)
(* checks that the rules "results own fresh blocks", "temporary blocks die *)
(* with the call", "release returns all blocks" imply what is observed     *)
(* from outside: repeating the same work never makes the block count grow. *)
(***************************************************************************)
EXTENDS Storage, TLC
CONSTANTS Deep, NB
VARIABLES heap,     (* block -> owner: 0 library, 1.. datasets, -1 the running call *)
          live, pc, round, counts,
          Work      (* the calls of one round: slot, inputs, blocks of the result, temporaries, library buffers needed *)
vars == <<heap, live, pc, round, counts, Work>>

W1 == <<[s |-> 1, in |-> {}, z |-> 2, t |-> 0, l |-> 0], [s |-> 2, in |-> {1}, z |-> 1, t |-> 2, l |-> 1], [s |-> 3, in |-> {1, 2}, z |-> 3, t |-> 1, l |-> 0]>>
W2 == <<[s |-> 1, in |-> {}, z |-> 1, t |-> 1, l |-> 1], [s |-> 2, in |-> {1}, z |-> 2, t |-> 0, l |-> 2]>>
Blocks == 1..NB
Used == DOMAIN heap
FreshSets(n) == {S \in SUBSET (Blocks \ Used) : Cardinality(S) = n}
Own(o) == {b \in Used : heap[b] = o}
Drop(g, S) == [b \in DOMAIN g \ S |-> g[b]]

Init == heap = <<>> /\ live = {} /\ pc = 1 /\ round = 1 /\ counts = <<>> /\ Work \in {W1, W2}
Lowest(n) == CHOOSE S \in FreshSets(n) : TRUE    (* which blocks is irrelevant *)
Lib(l) == IF Cardinality(Own(0)) >= l THEN {} ELSE Lowest(l - Cardinality(Own(0)))
(* a call allocates its temporaries and its result, then gives the temporaries back *)
Make == /\ pc <= Len(Work)
        /\ LET w == Work[pc]
               lib == Lib(w.l)
               rest == [b \in Used \cup lib |-> IF b \in lib THEN 0 ELSE heap[b]]
               tmp == CHOOSE S \in SUBSET (Blocks \ DOMAIN rest) : Cardinality(S) = w.t
               res == CHOOSE S \in SUBSET (Blocks \ (DOMAIN rest \cup tmp)) : Cardinality(S) = w.z IN
           /\ w.in \subseteq live
           /\ heap' = [b \in DOMAIN rest \cup res |-> IF b \in res THEN w.s ELSE rest[b]]
           /\ live' = live \cup {w.s}
        /\ pc' = pc + 1 /\ UNCHANGED <<round, counts, Work>>
(* releases happen in any order, before or after later work that does not need the dataset *)
Needed(s) == \E k \in pc..Len(Work) : s \in Work[k].in
Release(s) == /\ s \in live /\ ~Needed(s)
              /\ heap' = Drop(heap, Own(s)) /\ live' = live \ {s}
              /\ UNCHANGED <<pc, round, counts, Work>>
Round == /\ pc > Len(Work) /\ live = {} /\ round <= IF Deep THEN 5 ELSE 4
         /\ counts' = Append(counts, Cardinality(Used)) /\ round' = round + 1 /\ pc' = 1 /\ UNCHANGED <<heap, live, Work>>
Next == Make \/ Round \/ \E s \in live : Release(s)
Spec == Init /\ [][Next]_vars

OnlyOwned == \A b \in Used : heap[b] = 0 \/ heap[b] \in live      (* nothing survives its owner *)
Quiet == live = {} => Used = Own(0)
NoGrowth == \A k \in 1..Len(counts) : ~Growing(SubSeq(counts, 1, k))
Bounded == \A k \in 1..Len(counts) : k >= 2 => counts[k] = counts[1]
=============================================================================
