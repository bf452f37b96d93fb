------------------------------- MODULE MC_demo -------------------------------
(***************************************************************************)
(* The demonstration program: the file it writes is one that this library  *)
(* reads as the dataset described, and the listing of a file names, for    *)
(* each data table, what it refers to, wherever the tables lie and up to   *)
(* the first unusable or missing one.  Files listed: those of MC_io.       *)
(***************************************************************************)
EXTENDS MC_io, Demo

(* a dataset that a text can describe *)
DemoData(q) == Tpl([P0 EXCEPT !.cn = "C", !.pol = 1, !.tn = q.tn, !.wv = q.wv, !.dv = IF q.opt = 1 THEN 2 ELSE 0,
                              !.wn = IF q.an = "A" THEN "I" ELSE "J", !.av = q.v])
DemoWriteOK(d) == LET f == DemoFile(d)  x == [d EXCEPT !.hdr = DemoHeader(d)] IN
  /\ FileReadable(f) /\ Decode(f) = Decode(Encode(x)) /\ IsV2(Decode(f)) /\ Consistent(Decode(f))
  /\ Listing(f).ok /\ Len(Listing(f).l) = 5

(* what a complete listing says, from the dataset rather than the file *)
Line(ext, t, pol) == [k |-> ext, arr |-> t.arr, ins |-> IF pol THEN "" ELSE t.ins, cor |-> IF pol THEN "" ELSE t.cor]
FullList(d) == LET L(kd, ext, pol) == [k \in DOMAIN d[kd] |-> Line(ext, d[kd][k], pol)] IN
  L("vis", "OI_VIS", FALSE) \o L("vis2", "OI_VIS2", FALSE) \o L("t3", "OI_T3", FALSE) \o L("flux", "OI_FLUX", FALSE) \o L("pol", "OI_INSPOL", TRUE)
PrefixOf(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))
ListOK(f0, f) == LET d == Decode(f0)  l == Listing(f) IN
  CASE chg.k \in {"none", "image", "sum", "rev"} -> l.ok /\ l.l = FullList(d)
    [] chg.k = "swap" -> l.ok /\ SameBag(l.l, FullList(d)) /\ (~SameKind(f0, chg.h) => l.l = FullList(d))
    [] chg.k \in {"key", "col"} ->
         LET kd == KindOf(f0[chg.h])  usable == Readable(kd, f[chg.h]) IN
         /\ usable /\ chg.x \notin {"ARRNAME", "CORRNAME"} => l.ok /\ l.l = FullList(d)
         /\ (kd \in {"tg", "vis", "vis2", "t3", "flux", "pol"} /\ ~usable) => ~l.ok /\ PrefixOf(l.l, FullList(d))
         /\ (kd \in {"tg"} /\ ~usable) => l.l = <<>>
         /\ (kd \in {"arr", "wav", "cor"} /\ ~usable) =>
               LET used == \E x \in {"vis", "vis2", "t3", "flux", "pol"} : \E k \in DOMAIN d[x] :
                             CASE kd = "arr" -> d[x][k].arr = d.arr[Ord(f0, chg.h, kd)].name
                               [] kd = "wav" -> x # "pol" /\ d[x][k].ins = d.wav[Ord(f0, chg.h, kd)].name
                               [] kd = "cor" -> x # "pol" /\ d[x][k].cor = d.cor[Ord(f0, chg.h, kd)].name IN
               l.ok = ~used /\ PrefixOf(l.l, FullList(d))
DInv == LET f0 == Encode(DS(p))  f == Apply(f0, chg) IN
  /\ ListOK(f0, f)
  /\ chg.k = "none" => DemoWriteOK(DemoData(p))
=============================================================================
