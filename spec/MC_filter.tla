------------------------------ MODULE MC_filter ------------------------------
(***************************************************************************)
(* Filtering: for every dataset of a family and every filter that differs  *)
(* from the default in at most two (Deep: three) criteria, the result is   *)
(* sound, a second pass changes nothing, the default keeps ordinary data,  *)
(* criteria are independent of the order in which they are applied, and    *)
(* tightening a criterion never lets more data through.                    *)
(***************************************************************************)
EXTENDS Criteria, Text, Templates
CONSTANT Deep
VARIABLES p, f, n

Params == {[P0 EXCEPT !.dv = dv, !.an = an, !.cn = cn, !.pol = 1, !.opt = 1, !.tn = <<"S", "T">>, !.v = v] :
             dv \in {0, 1, 2, 3}, an \in IF Deep THEN {"A", ""} ELSE {"A"}, cn \in IF Deep THEN {"", "C"} ELSE {"C"}, v \in IF Deep THEN {1, 2} ELSE {2}}
DS(q) == Cat(Tpl(q), Tpl([q EXCEPT !.an = IF @ = "" THEN "" ELSE "B", !.wn = "J", !.cn = IF @ = "" THEN "" ELSE "D", !.wv = 3]))
Init == p \in Params /\ f = FDef /\ n = 0
Next == /\ n < (IF Deep THEN 3 ELSE 2) /\ n' = n + 1 /\ UNCHANGED p
        /\ \E c \in IF n = 2 THEN {[FDef EXCEPT !.flagged = 0], [FDef EXCEPT !.tid = 2], [FDef EXCEPT !.wave = <<50000, 50000>>],
                                   [FDef EXCEPT !.snr = <<8, 16>>], [FDef EXCEPT !.ins = "J"]} ELSE Crit : f' = Both(f, c) /\ f' # f

(* the places at which data survive *)
Kept(o) == Unflagged(o.vis) + Unflagged(o.vis2) + Unflagged(o.t3)
Recs(tabs) == SumSeq([k \in DOMAIN tabs |-> Len(tabs[k].r)])
Inv == LET d == DS(p)  o == FilterFn(d, f) IN
  /\ Consistent(d)
  /\ FilterSound(o)
  /\ FilterFn(o, Again(f)) = o
  /\ f = FDef => DefaultKeeps(d, o)
  /\ (f.t3phi # 0 \/ o.t3 = <<>>) => FilterFn(o, FDef) = o      (* phase errors are kept, and judged again *)
  (* every criterion alone is implied by all together (which parts of triple products are judged is no criterion) *)
  /\ \A c \in {[FDef EXCEPT !.t3amp = f.t3amp, !.t3phi = f.t3phi, ![k] = f[k]] : k \in DOMAIN FDef \ {"tid"}} :
        LET z == FilterFn(d, c) IN Kept(o) <= Kept(z) /\ Recs(o.flux) <= Recs(z.flux) /\ Len(o.tg.t) <= Len(z.tg.t)
  (* in two steps, names first *)
  /\ LET g == [FDef EXCEPT !.t3amp = f.t3amp, !.t3phi = f.t3phi, !.arr = f.arr, !.ins = f.ins, !.cor = f.cor] IN
     f.tid < 0 => FilterFn(FilterFn(d, g), [f EXCEPT !.arr = "*", !.ins = "*", !.cor = "*"]) = o
=============================================================================
