------------------------------- MODULE Sim_sys -------------------------------
(***************************************************************************)
(* Random behaviours of the state machine, exported for replay against the *)
(* implementation (tlc -simulate).                                         *)
(***************************************************************************)
EXTENDS OISystem, Json, Randomization
CONSTANT MaxOps
VARIABLE done

SSlots == 1..6
SFiles == {"a.fits", "b.fits"}
SIts == 1..3
SParams == [v : {1, 2, 2}, an : {"A", "B", "A_2", ""}, av : 0..3, wn : {"I", "J", "I_2"}, wv : 0..3, cn : {"", "C", "D"}, cv : 0..1,
            tn : {<<"S">>, <<"T">>, <<"S", "T">>, <<"T", "S">>, <<"U", "S", "T">>}, hd : 0..2,
            kinds : {DataKinds, {"vis", "vis2"}, {"vis2", "t3"}, {"flux", "vis"}, {"t3"}}, pol : {0, 1}, dv : 0..3, opt : {0, 1}]
SFilters == {Both(a, b) : a, b \in Crit} \cup Crit \cup {FDef}
(* one element at random, chosen anew in every state *)
AnyOf(S) == RandomSubset(1, IF Len(hist) >= 0 THEN S ELSE {})
SomeOf(S) == IF S = {} THEN {} ELSE AnyOf(S)

SInit == Init /\ done = FALSE
Keys == [arr |-> UNION {{mem[s].arr[k].name : k \in DOMAIN mem[s].arr} : s \in Live},
         wav |-> UNION {{mem[s].wav[k].name : k \in DOMAIN mem[s].wav} : s \in Live},
         cor |-> UNION {{mem[s].cor[k].name : k \in DOMAIN mem[s].cor} : s \in Live},
         tid |-> UNION {TargetIds(mem[s]) : s \in Live} \cup {0, 99}, tname |-> {"S", "T", "U", "nobody"}]
SLook(a) == Call([op |-> "lookup", slot |-> a, keys |-> Keys]) /\ UNCHANGED <<mem, disk, its>>
SChange ==
  \/ \E q \in AnyOf(SParams) : Cardinality(Live) < 4 /\ Build(q)
  \/ \E a \in SomeOf(Live), b \in SomeOf(Live) : MergeOp(<<a, b>>)
  \/ \E a \in SomeOf(Live), b \in SomeOf(Live), c \in SomeOf(Live) : MergeOp(<<a, b, c>>)
  \/ \E a \in SomeOf(Live), f \in AnyOf(SFilters) : FilterOp(a, f)
  \/ \E a \in SomeOf(Live), f \in AnyOf(SFilters) : FilterOp(a, f)
  \/ \E a \in SomeOf(Live) : DupOp(a)
  \/ \E a \in SomeOf(Live) : UpgradeOp(a)
  \/ \E a \in SomeOf(Live) : Cardinality(Live) > 1 /\ FreeOp(a)
  \/ \E a \in SomeOf(Live), f \in AnyOf(SFiles) : WriteOp(a, f)
  \/ \E f \in SomeOf(DOMAIN disk) : ReadOp(f)
  \/ \E i \in AnyOf(SIts), a \in SomeOf(Live), kind \in AnyOf(1..3), f \in AnyOf(SFilters) : IterInit(i, a, kind, f)
  \/ \E i \in SomeOf(DOMAIN its), n \in AnyOf({1, 2, 5, 20}) : IterNext(i, n)
  \/ \E a \in SomeOf(Live) : SLook(a)
  \/ \E a \in SomeOf(Live), o \in AnyOf({"check", "query", "summary"}) : Observe(o, a)
Export(h) == [k \in DOMAIN h |-> IF h[k].op = "build" THEN [op |-> "build", slot |-> h[k].slot, ds |-> Tpl(h[k].q)] ELSE h[k]]
SNext == \/ Len(hist) < MaxOps /\ SChange /\ UNCHANGED done
         \/ /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE
            /\ PrintT("SIM " \o ToJson(Export(hist))) /\ UNCHANGED vars
SSpec == SInit /\ [][SNext]_<<vars, done>>
=============================================================================
