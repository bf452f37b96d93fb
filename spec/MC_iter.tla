------------------------------- MODULE MC_iter -------------------------------
(***************************************************************************)
(* Iterators as a state machine: several iterators over one dataset, each  *)
(* with its own filter, advanced in any interleaving.  Each yields its own *)
(* sequence, in order and without repetition; the sequences agree with     *)
(* what filtering and counting say.                                        *)
(***************************************************************************)
EXTENDS Iter, Templates
CONSTANT Deep
VARIABLES p, its, out       (* its: id -> [kind, f, rest];  out: id -> what has been yielded *)

Params == {[P0 EXCEPT !.dv = dv, !.tn = <<"S", "T">>, !.wv = 3] : dv \in {0, 1, 2, 3}}
DS(q) == Cat(Tpl(q), Tpl([q EXCEPT !.an = "B", !.wn = "J", !.wv = IF Deep THEN 0 ELSE 3]))
Filters == {FDef, [FDef EXCEPT !.flagged = 0], [FDef EXCEPT !.ins = "J", !.tid = 2], [FDef EXCEPT !.wave = <<50000, 50000>>, !.snr = <<0, 40>>],
            [FDef EXCEPT !.vis = 0, !.vis2 = 0, !.bas = <<60, 10000>>], [FDef EXCEPT !.uv[1] = [b |-> 475, w |-> 50000], !.flagged = 0]}
Ids == {1, 2}
NoIt == [kind |-> 0, f |-> FDef, rest |-> <<>>]
Init == p \in Params /\ its = [i \in Ids |-> NoIt] /\ out = [i \in Ids |-> <<>>]
Start(i) == /\ its[i] = NoIt
            /\ \E kind \in IF Deep THEN 1..3 ELSE {i, 3}, f \in Filters :
                 its' = [its EXCEPT ![i] = [kind |-> kind, f |-> f, rest |-> IterSeq(DS(p), kind, f)]]
            /\ out' = [out EXCEPT ![i] = <<>>]
Step(i) == /\ its[i].kind # 0 /\ its[i].rest # <<>>
           /\ out' = [out EXCEPT ![i] = Append(@, Head(its[i].rest))]
           /\ its' = [its EXCEPT ![i].rest = Tail(@)]
Next == UNCHANGED p /\ \E i \in Ids : Start(i) \/ Step(i)

Before(a, b) == \/ a.tab < b.tab \/ (a.tab = b.tab /\ a.rec < b.rec) \/ (a.tab = b.tab /\ a.rec = b.rec /\ a.wv < b.wv)
TabsOf(d, kind) == IF kind = 1 THEN d.vis ELSE IF kind = 2 THEN d.vis2 ELSE d.t3
Inv == LET d == DS(p) IN
  \A i \in Ids : its[i].kind # 0 =>
    /\ out[i] \o its[i].rest = IterSeq(d, its[i].kind, its[i].f)
    /\ \A k \in 1..(Len(out[i]) - 1) : Before(out[i][k], out[i][k + 1])
    /\ \A k \in DOMAIN out[i] : LET y == out[i][k]  t == TabsOf(d, its[i].kind)[y.tab + 1] IN
         /\ y.rec + 1 \in DOMAIN t.r /\ y.wv + 1 \in 1..t.nw
         /\ (its[i].f.flagged = 0 => t.r[y.rec + 1].f[y.wv + 1] = 0)
         /\ NamesOK(t, its[i].f) /\ TidOK(t.r[y.rec + 1], its[i].f) /\ y.ew = WaveOf(d, t.ins)[y.wv + 1]
(* checked where an iterator has just been started *)
Agree == LET d == DS(p) IN \A i \in Ids : (its[i].kind # 0 /\ out[i] = <<>>) => IterAgreesWithFilter(d, its[i].f)
=============================================================================
