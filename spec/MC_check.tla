------------------------------ MODULE MC_check ------------------------------
(***************************************************************************)
(* Conformance checks: clean datasets pass; each kind of defect, planted   *)
(* anywhere, is reported by its own check and by no other; reports count   *)
(* all breaches and list the first; filtering and merging clean data       *)
(* leaves it clean.                                                        *)
(***************************************************************************)
EXTENDS Check, Text, Templates
CONSTANT Deep
VARIABLES p, def       (* def: planted defects, a sequence of at most two *)

Params == {[P0 EXCEPT !.v = v, !.cn = cn, !.pol = pol, !.opt = opt, !.tn = tn] :
             v \in {1, 2}, cn \in {"", "C"}, pol \in {0, 1}, opt \in {0, 1}, tn \in IF Deep THEN {<<"S">>, <<"S", "T">>} ELSE {<<"S", "T">>}}
DS(q) == IF Deep THEN Cat(Tpl(q), Tpl([q EXCEPT !.an = "B", !.wn = "J", !.cn = IF @ = "" THEN "" ELSE "D"])) ELSE Tpl(q)

(* a defect: [c: the check that must report it, k: what is changed] *)
X(c, k) == [c |-> c, k |-> k]
Defects(d) ==
  {X("waveorder", "wave"), X("flagging", "vis2err"), X("flagging", "t3err"), X("t3amp", "t3amp"),
   X("targets_present", "tid"), X("elements_present", "sta"), X("tables", "tgrev"), X("tables", "nodata"), X("keywords", "frame"),
   X("unique_targets", "twins"), X("corr_present", "corr")}
  \cup (IF IsV2(d) THEN {X("header", "origin"), X("header", "object"), X("arrname", "arrname"), X("time", "time"),
                         X("keywords", "amptyp"), X("keywords", "calstat"), X("flux", "fluxfov"), X("visrefmap", "ref")} ELSE {})
Neg(s) == [s EXCEPT ![1] = -1]
Plant(d, x) ==
  CASE x.k = "wave" -> [d EXCEPT !.wav[1].w = Reverse(@)]
    [] x.k = "vis2err" -> [d EXCEPT !.vis2[1].r[2].ae = Neg(@)]
    [] x.k = "t3err" -> [d EXCEPT !.t3[1].r[1].pe = Neg(@)]
    [] x.k = "t3amp" -> [d EXCEPT !.t3[1].r[1].a = [@ EXCEPT ![2] = 640]]
    [] x.k = "tid" -> [d EXCEPT !.vis2[1].r[1].tid = 99]
    [] x.k = "sta" -> [d EXCEPT !.t3[1].r[2].s = <<1, 2, 99>>]
    [] x.k = "tgrev" -> [d EXCEPT !.tg.rev = 3]
    [] x.k = "nodata" -> WithCount([d EXCEPT !.vis = <<>>, !.vis2 = <<>>, !.t3 = <<>>, !.flux = <<>>])
    [] x.k = "frame" -> [d EXCEPT !.arr[1].frame = "MOON"]
    [] x.k = "twins" -> [d EXCEPT !.tg.t = Append(@, [@[1] EXCEPT !.id = 50])]
    [] x.k = "corr" -> [d EXCEPT !.vis2[1].cor = "nowhere"]
    [] x.k = "origin" -> [d EXCEPT !.hdr.origin = ""]
    [] x.k = "object" -> [d EXCEPT !.hdr.object = ""]
    [] x.k = "arrname" -> [d EXCEPT !.vis2[1].arr = ""]
    [] x.k = "time" -> [d EXCEPT !.t3[1].r[2].time = 64]
    [] x.k = "amptyp" -> [d EXCEPT !.vis[1].amptyp = "relative"]
    [] x.k = "calstat" -> [d EXCEPT !.flux[1].cal = "X"]
    [] x.k = "fluxfov" -> [d EXCEPT !.flux[1].fovtype = "FWHM"]
    [] x.k = "ref" -> [d EXCEPT !.vis[1].useref = 1 - @]
(* no two defects on the same table item, and nothing to plant after all data are gone *)
Compatible(a, b) == /\ a # b /\ "nodata" \notin {a.k, b.k} /\ {a.k, b.k} # {"calstat", "fluxfov"}
Init == p \in Params /\ def = <<>>
Next == /\ Len(def) < 2 /\ UNCHANGED p
        /\ \E x \in Defects(DS(p)) : (IF def = <<>> THEN TRUE ELSE Compatible(def[1], x)) /\ def' = Append(def, x)
Broke == FoldLeft(Plant, DS(p), def)
Inv == LET d == DS(p)  b == Broke  hit == {nm \in CheckNames : Breaches(b, nm) # <<>>} IN
  /\ hit = {def[k].c : k \in DOMAIN def}
  /\ \A nm \in CheckNames : LET bs == Breaches(b, nm)  r == Report(bs) IN
       /\ (r.level = 0) = (bs = <<>>) /\ r.num = Len(bs) /\ Len(r.loc) = MinOf(r.num, MaxReport)
       /\ r.num = Cardinality({k \in DOMAIN def : def[k].c = nm}) \/ nm \in {"waveorder"}
  /\ AllPassed(b) = (def = <<>>) /\ Breached(b) = Cardinality(hit)
  /\ def = <<>> => /\ \A f \in {FDef, [FDef EXCEPT !.tid = 1], [FDef EXCEPT !.wave = <<50000, 50000>>], [FDef EXCEPT !.vis = 0]} :
                        IsV2(d) => AllPassed(FilterFn(d, f))
                   /\ LET o == MergeFn(<<d, Tpl([p EXCEPT !.av = 1, !.wv = 1])>>) IN
                        \A nm \in CheckNames \ {"header"} : Breaches(o, nm) = <<>>
=============================================================================
