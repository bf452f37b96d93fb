------------------------------ MODULE MC_merge ------------------------------
(***************************************************************************)
(* Merging, for every pair (Deep: also triple) of datasets of a family in  *)
(* which names clash, contents agree, nearly agree or differ: the result   *)
(* satisfies every obligation, is consistent, and merging in two steps is  *)
(* merging at once.                                                        *)
(***************************************************************************)
EXTENDS Merge, Templates
CONSTANT Deep
VARIABLES ps, step      (* the parameters of the inputs *)

(* dimensions that matter between tables of one kind are combined fully; of different kinds, by two at a time *)
Near(S) == LET K == DOMAIN P0 IN
  {[a EXCEPT ![k] = b[k]] : a \in S, b \in S, k \in K}
Corner == { P0, [P0 EXCEPT !.av = 1], [P0 EXCEPT !.av = 2, !.an = "B"], [P0 EXCEPT !.av = 3], [P0 EXCEPT !.an = ""],
   [P0 EXCEPT !.wv = 1], [P0 EXCEPT !.wv = 2, !.wn = "J"], [P0 EXCEPT !.wv = 3], [P0 EXCEPT !.wn = "J", !.wv = 1],
   [P0 EXCEPT !.cn = "C", !.pol = 1], [P0 EXCEPT !.cn = "C", !.cv = 1, !.pol = 1], [P0 EXCEPT !.cn = "D", !.an = "B", !.av = 1, !.pol = 1],
   [P0 EXCEPT !.tn = <<"S", "T">>], [P0 EXCEPT !.tn = <<"T", "S">>, !.dv = 1], [P0 EXCEPT !.tn = <<"T">>, !.hd = 1],
   [P0 EXCEPT !.hd = 2, !.opt = 1], [P0 EXCEPT !.v = 1], [P0 EXCEPT !.v = 1, !.an = "B"],
   [P0 EXCEPT !.kinds = {"vis2"}, !.an = "A_2", !.av = 1, !.wn = "I_2", !.wv = 1], [P0 EXCEPT !.kinds = {"flux"}] }
Family == IF Deep THEN Near(Corner) ELSE Corner
(* two clashing tables inside one input, too *)
Doubled(q) == LET b == [q EXCEPT !.an = IF @ = "" THEN "" ELSE "A_2", !.av = 1, !.wn = "I_2", !.wv = 1, !.cn = IF @ = "" THEN "" ELSE "C_2"] IN
          IF q.an = "A_2" THEN Tpl(q) ELSE Cat(Tpl(q), Tpl([b EXCEPT !.tn = q.tn]))

One(q, two) == [q |-> q, two |-> two]
Init == \E q \in Family : ps = <<One(q, FALSE)>> /\ step = 1
Next == \/ /\ step = 1 /\ step' = 2
           /\ \E q \in Corner, two \in BOOLEAN : ps' = Append(ps, One(q, two))
        \/ /\ step = 2 /\ step' = 3
           /\ \E q \in IF Deep THEN {P0, [P0 EXCEPT !.av = 1], [P0 EXCEPT !.wn = "J", !.wv = 2, !.tn = <<"T">>], [P0 EXCEPT !.v = 1, !.an = "A_2"],
                                     [P0 EXCEPT !.cn = "C", !.cv = 2, !.hd = 1]} ELSE {} : ps' = Append(ps, One(q, FALSE))

(* results are compared up to the choice of fresh names *)
Shape(d) == [tg |-> d.tg, n |-> d.n,
   arr |-> [k \in DOMAIN d.arr |-> [d.arr[k] EXCEPT !.name = ""]], wav |-> [k \in DOMAIN d.wav |-> [d.wav[k] EXCEPT !.name = ""]],
   cor |-> [k \in DOMAIN d.cor |-> [d.cor[k] EXCEPT !.name = ""]],
   ref |-> [kd \in {"vis", "vis2", "t3", "flux"} |-> [k \in DOMAIN d[kd] |->
        <<LookupArray(d, d[kd][k].arr), LookupWave(d, d[kd][k].ins), LookupCorr(d, d[kd][k].cor),
          [d[kd][k] EXCEPT !.arr = "", !.ins = "", !.cor = ""]>>]]]
Inv == step >= 2 =>
  LET ins == [k \in DOMAIN ps |-> IF ps[k].two THEN Doubled(ps[k].q) ELSE Tpl(ps[k].q)]
      o == MergeFn(ins) IN
  /\ Mergeable(ins)
  /\ MergeConserves(ins, o) /\ MergeRefs(ins, o) /\ MergeDedup(ins, o) /\ MergeHeaderOK(ins, o) /\ MergeRevs(o)
  /\ Consistent(o) /\ o.n = Count(o)
  /\ o = ExpectedMerge(ins, o)
  /\ step = 3 => LET z == MergeFn(<<MergeFn(<<ins[1], ins[2]>>), ins[3]>>) IN
       /\ Shape(z) = Shape(o)
       /\ \A key \in DOMAIN o.hdr : (\A k \in DOMAIN ins : ins[k].hdr[key] # "") => z.hdr[key] = o.hdr[key]
  (* merging the result again with its first input adds no table but data and correlations *)
  /\ LET z == MergeFn(<<o, ins[1]>>) IN Shape(z).arr = Shape(o).arr /\ Shape(z).wav = Shape(o).wav /\ z.tg = o.tg
=============================================================================
