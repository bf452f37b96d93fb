------------------------------ MODULE OISystem ------------------------------
(***************************************************************************)
(* The library as a state machine: a pool of datasets in memory, files on  *)
(* disk and iterators, changed by the operations of the public interface.  *)
(* Each action is one call; hist records the calls, so that behaviours of  *)
(* this machine can be replayed against the implementation.                *)
(***************************************************************************)
EXTENDS Text, Iter, Criteria, Templates

CONSTANTS Slots, Files, Its, BuildParams, Filters
VARIABLES mem,     (* slot -> dataset, for the slots in use *)
          disk,    (* file -> sequence of HDUs *)
          its,     (* iterator -> [slot, kind, f, rest] *)
          last,    (* the latest call and its outcome *)
          hist     (* all calls *)
vars == <<mem, disk, its, last, hist>>

Nothing == [x \in {} |-> 0]
Minus(g, S) == [x \in DOMAIN g \ S |-> g[x]]
Free0 == CHOOSE s \in Slots \ DOMAIN mem : \A x \in Slots \ DOMAIN mem : s <= x
HasFree == Slots \ DOMAIN mem # {}
Call(e) == last' = e /\ hist' = Append(hist, e)

Init == mem = Nothing /\ disk = Nothing /\ its = Nothing /\ last = [op |-> "start"] /\ hist = <<>>

Build(q) == /\ HasFree
            /\ mem' = (Free0 :> Tpl(q)) @@ mem
            /\ Call([op |-> "build", slot |-> Free0, q |-> q]) /\ UNCHANGED <<disk, its>>
MergeOp(ins) == /\ HasFree
                /\ LET D == [k \in DOMAIN ins |-> mem[ins[k]]] IN
                   /\ Mergeable(D)
                   /\ mem' = (Free0 :> MergeFn(D)) @@ mem
                /\ Call([op |-> "merge", slot |-> Free0, in |-> ins]) /\ UNCHANGED <<disk, its>>
FilterOp(a, f) == /\ HasFree /\ Consistent(mem[a])
                  /\ mem' = (Free0 :> FilterFn(mem[a], f)) @@ mem
                  /\ Call([op |-> "filter", slot |-> Free0, in |-> a, flt |-> f]) /\ UNCHANGED <<disk, its>>
DupOp(a) == /\ HasFree /\ mem' = (Free0 :> mem[a]) @@ mem
            /\ Call([op |-> "dup", slot |-> Free0, in |-> a]) /\ UNCHANGED <<disk, its>>
UpgradeOp(a) == /\ mem' = [mem EXCEPT ![a] = UpgradeAll(@)]
                /\ ~\E i \in DOMAIN its : its[i].slot = a
                /\ Call([op |-> "upgrade", slot |-> a]) /\ UNCHANGED <<disk, its>>
FreeOp(a) == /\ mem' = Minus(mem, {a})
             /\ its' = Minus(its, {i \in DOMAIN its : its[i].slot = a})
             /\ Call([op |-> "free", slot |-> a]) /\ UNCHANGED disk
(* writing creates a file that does not exist; it never touches one that does *)
WriteOp(a, f) == /\ disk' = (IF f \in DOMAIN disk THEN disk ELSE (f :> Encode(mem[a])) @@ disk)
                 /\ Call([op |-> "write", slot |-> a, file |-> f, ok |-> f \notin DOMAIN disk]) /\ UNCHANGED <<mem, its>>
ReadOp(f) == /\ HasFree /\ f \in DOMAIN disk
             /\ mem' = (Free0 :> Decode(disk[f])) @@ mem
             /\ Call([op |-> "read", slot |-> Free0, file |-> f]) /\ UNCHANGED <<disk, its>>
IterInit(i, a, kind, f) == /\ Consistent(mem[a])
             /\ its' = (i :> [slot |-> a, kind |-> kind, f |-> f, rest |-> IterSeq(mem[a], kind, f)]) @@ its
             /\ Call([op |-> "iterinit", id |-> i, slot |-> a, kind |-> kind, flt |-> f]) /\ UNCHANGED <<mem, disk>>
IterNext(i, n) == /\ its' = [its EXCEPT ![i].rest = IF n >= Len(@) THEN <<>> ELSE SubSeq(@, n + 1, Len(@))]
             /\ Call([op |-> "iternext", id |-> i, n |-> n]) /\ UNCHANGED <<mem, disk>>
(* operations without effect on the state *)
Observe(o, a) == Call([op |-> o, slot |-> a]) /\ UNCHANGED <<mem, disk, its>>

Live == DOMAIN mem
Change == \/ \E q \in BuildParams : Build(q)
          \/ \E a, b \in Live : MergeOp(<<a, b>>)
          \/ \E a \in Live, f \in Filters : FilterOp(a, f)
          \/ \E a \in Live : DupOp(a) \/ UpgradeOp(a) \/ FreeOp(a)
          \/ \E a \in Live, f \in Files : WriteOp(a, f)
          \/ \E f \in Files : ReadOp(f)
          \/ \E i \in Its, a \in Live, kind \in 1..3, f \in Filters : IterInit(i, a, kind, f)
          \/ \E i \in DOMAIN its : \E n \in {1, 3} : IterNext(i, n)
Next == Change \/ \E o \in {"check", "query", "lookup", "summary"}, a \in Live : Observe(o, a)

(***************************************************************************)
(* Invariants                                                              *)
(***************************************************************************)
Sound(d) == DataRefsResolve(d) /\ WidthsAgree(d) /\ d.n = Count(d)
MemSound == \A s \in Live : Sound(mem[s])
DiskSound == \A f \in DOMAIN disk : FileReadable(disk[f]) /\ Sound(Decode(disk[f])) /\ IsV2(Decode(disk[f]))
ItsSound == \A i \in DOMAIN its : /\ its[i].slot \in Live
               /\ LET s == IterSeq(mem[its[i].slot], its[i].kind, its[i].f)  n == Len(its[i].rest) IN
                  n <= Len(s) /\ its[i].rest = SubSeq(s, Len(s) - n + 1, Len(s))

(***************************************************************************)
(* Step properties: what a call may change and what its result must be     *)
(***************************************************************************)
Target == IF "slot" \in DOMAIN last' /\ last'.op \in {"build", "merge", "filter", "dup", "upgrade", "free", "read"} THEN {last'.slot} ELSE {}
Frame == /\ \A s \in DOMAIN mem \ Target : s \in DOMAIN mem' /\ mem'[s] = mem[s]
         /\ DOMAIN mem' \subseteq DOMAIN mem \cup Target
         /\ \A f \in DOMAIN disk : f \in DOMAIN disk' /\ disk'[f] = disk[f]      (* files never change *)
         /\ \A f \in DOMAIN disk' \ DOMAIN disk : last'.op = "write" /\ last'.file = f /\ last'.ok
         /\ \A i \in DOMAIN its : i \in DOMAIN its' => its'[i] = its[i] \/ ("id" \in DOMAIN last' /\ last'.id = i)
Result ==
  CASE last'.op = "merge" -> LET ins == [k \in DOMAIN last'.in |-> mem[last'.in[k]]]  o == mem'[last'.slot] IN
         MergeConserves(ins, o) /\ MergeRefs(ins, o) /\ MergeDedup(ins, o) /\ MergeHeaderOK(ins, o) /\ MergeRevs(o)
    [] last'.op = "filter" -> LET o == mem'[last'.slot] IN FilterSound(o) /\ FilterFn(o, Again(last'.flt)) = o
    [] last'.op = "read" -> LET o == mem'[last'.slot] IN
         Decode(Encode(o)) = o /\ (o.tg.t # <<>> => Encode(o) = disk[last'.file])      (* CATEGORY of no target is forgotten *)
    [] last'.op = "write" -> last'.ok => Decode(disk'[last'.file]) = Normal(mem[last'.slot])
    [] last'.op = "upgrade" -> LET o == mem'[last'.slot] IN UpgradeAll(o) = o /\ Encode(o) = Encode(mem[last'.slot])
    [] last'.op = "dup" -> mem'[last'.slot] = mem[last'.in]
    [] OTHER -> TRUE
StepOK == [][Frame /\ Result]_vars
=============================================================================
