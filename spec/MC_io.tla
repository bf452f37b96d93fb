-------------------------------- MODULE MC_io --------------------------------
(***************************************************************************)
(* Files: writing and reading are inverse, the reading cursor visits every *)
(* table once, and damage at any one place is noticed.                     *)
(* A state is a dataset (parameters) with at most one damage or            *)
(* rearrangement of the file written for it.                               *)
(***************************************************************************)
EXTENDS Warn, Templates
CONSTANT Deep
VARIABLES p, chg

Params == {[P0 EXCEPT !.v = v, !.an = an, !.cn = cn, !.tn = tn, !.pol = pol, !.dv = dv, !.opt = opt, !.kinds = ks, !.wv = wv] :
   v \in {1, 2}, an \in {"A", ""}, cn \in {"", "C"}, tn \in IF Deep THEN {<<"S">>, <<"S", "T">>} ELSE {<<"S">>}, pol \in {0, 1}, dv \in IF Deep THEN {0, 3} ELSE {3}, opt \in {0, 1},
   ks \in {{"vis", "vis2", "t3", "flux"}} \cup (IF Deep THEN SUBSET {"vis", "vis2", "t3", "flux"} ELSE {}), wv \in IF Deep THEN {0, 3} ELSE {0}}
(* two of everything *)
DS(q) == LET a == Tpl(q) IN
  IF q.dv = 3 THEN Cat(a, Tpl([q EXCEPT !.an = IF @ = "" THEN "" ELSE "B", !.wn = "J", !.cn = IF @ = "" THEN "" ELSE "D", !.wv = 1])) ELSE a

NoChg == [k |-> "none"]
Changes(f) == UNION {
   {[k |-> "key", h |-> h, x |-> x] : x \in DOMAIN f[h].keys \ {"_"}} \cup
   {[k |-> "col", h |-> h, x |-> x] : x \in DOMAIN f[h].cols \ {"_"}} : h \in 2..Len(f)}
  \cup {[k |-> "swap", h |-> h] : h \in 2..(Len(f) - 1)} \cup {[k |-> "image", h |-> h] : h \in 1..Len(f)}
  \cup {[k |-> "sum", h |-> h, x |-> x] : h \in 1..Len(f), x \in {"data", "hdu"}} \cup {[k |-> "rev", h |-> h] : h \in 2..Len(f)}
Drop(g, x) == [y \in DOMAIN g \ {x} |-> g[y]]
Apply(f, c) ==
  CASE c.k \in {"none", "sum"} -> f
    [] c.k = "rev" -> [f EXCEPT ![c.h].keys["OI_REVN"] = 9]
    [] c.k = "key" -> [f EXCEPT ![c.h].keys = Drop(@, c.x)]
    [] c.k = "col" -> [f EXCEPT ![c.h].cols = Drop(@, c.x)]
    [] c.k = "swap" -> [f EXCEPT ![c.h] = f[c.h + 1], ![c.h + 1] = f[c.h]]
    [] c.k = "image" -> SubSeq(f, 1, c.h) \o <<[f[1] EXCEPT !.ext = "OI_VIS"]>> \o SubSeq(f, c.h + 1, Len(f))

Init == p \in Params /\ chg = NoChg
Next == chg = NoChg /\ chg' \in Changes(Encode(DS(p))) /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, chg>>

Kinds == {"tg", "arr", "wav", "cor", "pol", "vis", "vis2", "t3", "flux"}
KindOf(h) == CHOOSE kd \in Kinds : IsTab(h, kd)
Ord(f, h, kd) == Cardinality({k \in 1..h : IsTab(f[k], kd)})

(* d: the dataset, f0: the file written for it, f: that file after the change *)
RoundTripOK(d, f0) == FileReadable(f0) /\ Decode(f0) = Normal(d) /\ Encode(Normal(d)) = f0 /\ Normal(Normal(d)) = Normal(d)
                      /\ Consistent(d) /\ Consistent(Normal(d))
(* the cursor: from the start, following "next" visits the tables of a kind in order, then reports the end *)
RECURSIVE Walk(_, _, _)
Walk(f, kd, pos) == LET r == ReadNext(f, pos, kd) IN IF r.st = "eof" THEN <<>> ELSE <<r.pos>> \o Walk(f, kd, r.pos)
WalkOK(f) == \A kd \in Kinds : Walk(f, kd, 1) = Positions(f, LAMBDA h : IsTab(h, kd))
NamedOK(f) == \A kd \in {"arr", "wav", "cor"} : \A k \in DOMAIN f : IsTab(f[k], kd) =>
                ReadNamed(f, kd, f[k].keys[NameKey(kd)]) = [st |-> "ok", pos |-> k]
(* what may be missing without the table becoming unreadable *)
Optional == {"EXTVER", "ARRNAME", "CORRNAME", "AMPTYP", "PHITYP", "AMPORDER", "PHIORDER", "TDIM", "FOV", "FOVTYPE",
             "VISREFMAP", "RVIS", "CATEGORY"}
DamageOK(f0, f) ==
  LET kd == KindOf(f0[chg.h]) IN
  IF Readable(kd, f[chg.h]) THEN chg.x \in Optional \/ (kd = "flux" /\ chg.x = "STA_INDEX")
  ELSE IF kd \in {"tg", "arr", "wav"} THEN ~FileReadable(f)
  ELSE FileReadable(f) /\ LET d == DecodeRaw(f0) IN
       DecodeRaw(f) = WithCount([d EXCEPT ![kd] = RemoveAt(@, Ord(f, chg.h, kd))])
(* order and foreign units do not matter, except for the order within a kind *)
SameKind(f, h) == \E kd \in Kinds : IsTab(f[h], kd) /\ IsTab(f[h + 1], kd)
SwapOK(f0, f) ==
  IF ~SameKind(f0, chg.h) THEN Decode(f) = Decode(f0)
  ELSE LET kd == KindOf(f0[chg.h])  d == DecodeRaw(f0)  n == Ord(f0, chg.h, kd) IN
       DecodeRaw(f) = [d EXCEPT ![kd] = [@ EXCEPT ![n] = d[kd][n + 1], ![n + 1] = d[kd][n]]]
(* suspect units are reported, each once, and nothing else is *)
SumsOf(f, c) == [k \in DOMAIN f |-> [q \in {1, 2} |-> IF c.k = "sum" /\ c.h = k /\ c.x = <<"data", "hdu">>[q] THEN -1 ELSE 1]]
WarnOK(f0, f) ==
  LET all == Gather(f, SumsOf(f, chg), UsedHdus(f)) \o Skips(f)
      walk == FoldSet(LAMBDA kd, acc : acc \o FoldLeft(LAMBDA a, k : a \o Reports(f, SumsOf(f, chg), k), <<>>, Walk(f, kd, 1)), <<>>, Kinds) IN
  CASE chg.k \in {"none", "swap", "image"} -> all = <<>> /\ walk = <<>>
    [] chg.k = "sum" -> /\ Len(all) = 1 /\ all[1].hdu = chg.h /\ all[1].t = chg.x
                        /\ walk = (IF chg.h = 1 THEN <<>> ELSE all)
    [] chg.k = "rev" -> FileReadable(f) => Len(all) = 1 /\ all[1].t = "revn" /\ all[1].ext = f0[chg.h].ext /\ walk = all
    [] OTHER -> FileReadable(f) => Len(all) = (IF Readable(KindOf(f0[chg.h]), f[chg.h]) THEN 0 ELSE 1)
Inv == LET d == DS(p)  f0 == Encode(d)  f == Apply(f0, chg) IN
  /\ WalkOK(f)
  /\ CASE chg.k = "none" -> RoundTripOK(d, f0) /\ NamedOK(f0)
       [] chg.k \in {"key", "col"} -> DamageOK(f0, f)
       [] chg.k = "swap" -> SwapOK(f0, f)
       [] chg.k \in {"image", "sum"} -> Decode(f) = Decode(f0)
       [] chg.k = "rev" -> FileReadable(f)
  /\ WarnOK(f0, f)
=============================================================================
