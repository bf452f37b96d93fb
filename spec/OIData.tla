------------------------------- MODULE OIData -------------------------------
(***************************************************************************)
(* Values of the specification: OIFITS datasets, their tables and records, *)
(* and the elementary relations between them.                              *)
(*                                                                         *)
(* A dataset is a record                                                   *)
(*   hdr   primary header keywords (14 strings)                            *)
(*   tg    target table  [rev, usecat, t : Seq(target)]                    *)
(*   arr   Seq of array tables       [rev,name,frame,x,y,z,e : Seq(elem)]  *)
(*   wav   Seq of wavelength tables  [rev,name,w : Seq, b : Seq]           *)
(*   cor   Seq of correlation tables [rev,name,ndata,i,j,c]                *)
(*   pol   Seq of polarisation tables                                      *)
(*   vis, vis2, t3, flux   Seq of data tables with records r : Seq         *)
(*   n     the eight table counters of the implementation                  *)
(*                                                                         *)
(* All numbers are integers in a fixed unit per quantity (times in 1/4     *)
(* day, data in 1/64, wavelengths in 0.04 nm, diameters in 1/8192 m, ...). *)
(* NAN stands for "not a number"; values >= INTERN0 stand for some exact   *)
(* concrete value of which only the identity is known.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NAN     == 1999999999
PINF    == 1999999998
NINF    == 1999999997
INTERN0 == 2000000000
LIMINF  == 1500000000

Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

Ran(s) == {s[k] : k \in DOMAIN s}
Pick(s, sel) == [k \in DOMAIN sel |-> s[sel[k]]]
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
(* positions (ascending) at which T holds *)
Positions(s, T(_)) == SelectSeq([k \in DOMAIN s |-> k], LAMBDA k : T(s[k]))
FirstPos(s, T(_)) == LET p == Positions(s, T) IN IF p = <<>> THEN 0 ELSE p[1]
HasName(tabs, nm) == \E k \in DOMAIN tabs : tabs[k].name = nm
NamePos(tabs, nm) == FirstPos(tabs, LAMBDA t : t.name = nm)

Count(ds) == <<Len(ds.arr), Len(ds.wav), Len(ds.cor), Len(ds.pol),
               Len(ds.vis), Len(ds.vis2), Len(ds.t3), Len(ds.flux)>>
WithCount(ds) == [ds EXCEPT !.n = Count(ds)]

DataKinds == {"vis", "vis2", "t3", "flux"}

EmptyHeader == [origin |-> "", date |-> "", date_obs |-> "", content |-> "",
  telescop |-> "", instrume |-> "", observer |-> "", insmode |-> "",
  object |-> "", referenc |-> "", author |-> "", prog_id |-> "",
  procsoft |-> "", obstech |-> ""]
EmptyDataset == [hdr |-> EmptyHeader,
  tg |-> [rev |-> 2, usecat |-> 0, t |-> <<>>],
  arr |-> <<>>, wav |-> <<>>, cor |-> <<>>, pol |-> <<>>, vis |-> <<>>,
  vis2 |-> <<>>, t3 |-> <<>>, flux |-> <<>>, n |-> <<0,0,0,0,0,0,0,0>>]

(***************************************************************************)
(* Referential structure                                                   *)
(***************************************************************************)
DataTabs(ds) == ds.vis \o ds.vis2 \o ds.t3 \o ds.flux   (* only common fields may be used *)

ArrRefs(ds) == {ds.vis[k].arr : k \in DOMAIN ds.vis} \cup {ds.vis2[k].arr : k \in DOMAIN ds.vis2}
          \cup {ds.t3[k].arr : k \in DOMAIN ds.t3} \cup {ds.flux[k].arr : k \in DOMAIN ds.flux}
InsRefs(ds) == {ds.vis[k].ins : k \in DOMAIN ds.vis} \cup {ds.vis2[k].ins : k \in DOMAIN ds.vis2}
          \cup {ds.t3[k].ins : k \in DOMAIN ds.t3} \cup {ds.flux[k].ins : k \in DOMAIN ds.flux}
CorRefs(ds) == {ds.vis[k].cor : k \in DOMAIN ds.vis} \cup {ds.vis2[k].cor : k \in DOMAIN ds.vis2}
          \cup {ds.t3[k].cor : k \in DOMAIN ds.t3} \cup {ds.flux[k].cor : k \in DOMAIN ds.flux}
TidRefs(ds) == UNION { UNION {{t.r[q].tid : q \in DOMAIN t.r} : t \in Ran(tabs)}
                       : tabs \in {ds.pol, ds.vis, ds.vis2, ds.t3, ds.flux} }
TargetIds(ds) == {ds.tg.t[k].id : k \in DOMAIN ds.tg.t}
TargetPos(ds, tid) == FirstPos(ds.tg.t, LAMBDA t : t.id = tid)

UniqueNames(tabs) == \A j, k \in DOMAIN tabs : tabs[j].name = tabs[k].name => j = k
UniqueTargetIds(ds) == \A j, k \in DOMAIN ds.tg.t : ds.tg.t[j].id = ds.tg.t[k].id => j = k

(* every cross-reference of the dataset resolves *)
RefsResolve(ds) ==
  /\ \A nm \in ArrRefs(ds) \cup {ds.pol[k].arr : k \in DOMAIN ds.pol} : nm = "" \/ HasName(ds.arr, nm)
  /\ \A nm \in InsRefs(ds) : HasName(ds.wav, nm)
  /\ \A nm \in CorRefs(ds) : nm = "" \/ HasName(ds.cor, nm)
  /\ \A k \in DOMAIN ds.pol : \A q \in DOMAIN ds.pol[k].r : HasName(ds.wav, ds.pol[k].r[q].ins)
  /\ TidRefs(ds) \subseteq TargetIds(ds)
(* the number of channels of a data table is that of the wavelength table it refers to *)
WidthsAgree(ds) ==
  /\ \A k \in DOMAIN ds.vis : LET p == NamePos(ds.wav, ds.vis[k].ins) IN p > 0 => Len(ds.wav[p].w) = ds.vis[k].nw
  /\ \A k \in DOMAIN ds.vis2 : LET p == NamePos(ds.wav, ds.vis2[k].ins) IN p > 0 => Len(ds.wav[p].w) = ds.vis2[k].nw
  /\ \A k \in DOMAIN ds.t3 : LET p == NamePos(ds.wav, ds.t3[k].ins) IN p > 0 => Len(ds.wav[p].w) = ds.t3[k].nw
  /\ \A k \in DOMAIN ds.flux : LET p == NamePos(ds.wav, ds.flux[k].ins) IN p > 0 => Len(ds.wav[p].w) = ds.flux[k].nw
  /\ \A k \in DOMAIN ds.pol : \A q \in DOMAIN ds.pol[k].r :
       LET p == NamePos(ds.wav, ds.pol[k].r[q].ins) IN p > 0 => Len(ds.wav[p].w) = ds.pol[k].nw
Consistent(ds) == /\ UniqueNames(ds.arr) /\ UniqueNames(ds.wav) /\ UniqueNames(ds.cor)
                  /\ UniqueTargetIds(ds) /\ RefsResolve(ds) /\ WidthsAgree(ds)

(***************************************************************************)
(* Lookups: first match in table order, 0 when there is none               *)
(***************************************************************************)
LookupArray(ds, nm) == NamePos(ds.arr, nm)
LookupWave(ds, nm)  == NamePos(ds.wav, nm)
LookupCorr(ds, nm)  == NamePos(ds.cor, nm)
LookupTarget(ds, tid) == TargetPos(ds, tid)
LookupTargetName(ds, nm) == FirstPos(ds.tg.t, LAMBDA t : t.name = nm)
ElemPos(a, idx) == FirstPos(a.e, LAMBDA e : e.idx = idx)
LookupElement(ds, nm, idx) ==     (* <<array position, element position>> or <<0,0>> *)
  LET p == LookupArray(ds, nm) IN
  IF p = 0 THEN <<0, 0>>
  ELSE LET q == ElemPos(ds.arr[p], idx) IN IF q = 0 THEN <<0, 0>> ELSE <<p, q>>

(***************************************************************************)
(* Queries                                                                 *)
(***************************************************************************)
Unflagged(tabs) == SumSeq([k \in DOMAIN tabs |->
   SumSeq([q \in DOMAIN tabs[k].r |-> Cardinality({c \in DOMAIN tabs[k].r[q].f : tabs[k].r[q].f[c] = 0})])])
AllMjd(ds) == UNION { UNION {{t.r[q].mjd : q \in DOMAIN t.r} : t \in Ran(tabs)}
                      : tabs \in {ds.vis, ds.vis2, ds.t3, ds.flux} }
(* MJD in 1/1024 day; the implementation's sentinels for "no data" *)
Day == 1024
MinMjd(ds) == LET S == {m \in AllMjd(ds) : m < 100000 * Day} IN
              IF S = {} THEN 100000 * Day ELSE CHOOSE m \in S : \A x \in S : m <= x
MaxMjd(ds) == LET S == {m \in AllMjd(ds) : m > 0 /\ m < LIMINF} IN
              IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : m >= x
IsV2(ds) == ds.hdr.content = "OIFITS2"
IsV1(ds) == /\ ~IsV2(ds) /\ ds.tg.rev = 1
            /\ \A k \in DOMAIN ds.arr : ds.arr[k].rev = 1
            /\ \A k \in DOMAIN ds.wav : ds.wav[k].rev = 1
            /\ \A k \in DOMAIN ds.vis : ds.vis[k].rev = 1
            /\ \A k \in DOMAIN ds.vis2 : ds.vis2[k].rev = 1
            /\ \A k \in DOMAIN ds.t3 : ds.t3[k].rev = 1
IsAtomic(ds, maxq) ==   (* maxq: time span in 1/1024 day *)
  /\ Len(ds.arr) <= 1 /\ Len(ds.wav) = 1 /\ Len(ds.tg.t) = 1
  /\ AllMjd(ds) # {} => Abs(MaxMjd(ds) - MinMjd(ds)) <= maxq
  /\ AllMjd(ds) = {} => 100000 * Day <= maxq

(***************************************************************************)
(* Upgrade of tables to the current revision                               *)
(***************************************************************************)
Up(t, r) == IF t.rev < r THEN [t EXCEPT !.rev = r] ELSE t
UpTimed(t) == IF t.rev < 2
              THEN [t EXCEPT !.rev = 2, !.r = [q \in DOMAIN t.r |-> [t.r[q] EXCEPT !.time = 0]]]
              ELSE t
UpgradeAll(ds) == [ds EXCEPT
   !.tg = Up(ds.tg, 2),
   !.arr = [k \in DOMAIN ds.arr |-> Up(ds.arr[k], 2)],
   !.wav = [k \in DOMAIN ds.wav |-> Up(ds.wav[k], 2)],
   !.vis = [k \in DOMAIN ds.vis |-> UpTimed(ds.vis[k])],
   !.vis2 = [k \in DOMAIN ds.vis2 |-> UpTimed(ds.vis2[k])],
   !.t3 = [k \in DOMAIN ds.t3 |-> UpTimed(ds.t3[k])]]
=============================================================================
