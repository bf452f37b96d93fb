-------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* Merging datasets.  The result is determined up to the fresh names given *)
(* to tables whose name clashes; ExpectedMerge takes those from the        *)
(* observed result and requires them to be fresh.                          *)
(***************************************************************************)
EXTENDS OIData, Dates

Close(a, b) == a = b \/ a = NAN \/ b = NAN
CloseDia(a, b) == Close(a, b) \/ (a < LIMINF /\ b < LIMINF /\ Abs(a - b) <= 8)    (* 1e-3 m *)
CloseWave(a, b) == a = b \/ (a < LIMINF /\ b < LIMINF /\ Abs(a - b) <= 2)         (* < 1e-10 m *)

ElemMatches(e, c, cmpFov) ==
  /\ Close(e.sx, c.sx) /\ Close(e.sy, c.sy) /\ Close(e.sz, c.sz) /\ CloseDia(e.dia, c.dia)
  /\ cmpFov => Close(e.fov, c.fov) /\ e.fovtype = c.fovtype
(* array table c can stand for array table a *)
ArrMatches(a, c) ==
  /\ Close(a.x, c.x) /\ Close(a.y, c.y) /\ Close(a.z, c.z)
  /\ \A k \in DOMAIN a.e : LET q == ElemPos(c, a.e[k].idx) IN
       q > 0 /\ ElemMatches(a.e[k], c.e[q], a.rev >= 2 /\ c.rev >= 2)
WavMatches(a, c) == Len(a.w) = Len(c.w)
  /\ \A k \in DOMAIN a.w : CloseWave(a.w[k], c.w[k]) /\ CloseWave(a.b[k], c.b[k])

(* inputs' tables of one kind, in order, tagged with the input they come from *)
Tagged(ins, Kind(_)) == FlattenSeq([i \in DOMAIN ins |->
                          LET ts == Kind(ins[i]) IN [k \in DOMAIN ts |-> [src |-> i, tab |-> ts[k]]]])

(***************************************************************************)
(* Fold the tagged tables: a table matched by an earlier output table is   *)
(* represented by it, any other is appended, keeping its name unless it    *)
(* clashes (then any fresh name, taken from obs).                          *)
(***************************************************************************)
MergeTabs(tagged, obs, Matches(_, _), UpT(_)) ==
  FoldLeft(LAMBDA st, x :
    LET t == UpT(x.tab)
        m == FirstPos(st.out, LAMBDA c : Matches(x.tab, c))
        k == Len(st.out) + 1
        nm == IF ~HasName(st.out, t.name) THEN t.name
              ELSE IF k <= Len(obs) /\ obs[k].name # "" /\ ~HasName(st.out, obs[k].name) THEN obs[k].name
              ELSE "<a fresh name>"
    IN IF m > 0 THEN [st EXCEPT !.map = Append(@, [src |-> x.src, old |-> t.name, new |-> st.out[m].name])]
       ELSE [out |-> Append(st.out, [t EXCEPT !.name = nm]),
             map |-> Append(st.map, [src |-> x.src, old |-> t.name, new |-> nm])],
    [out |-> <<>>, map |-> <<>>], tagged)

NewName(map, src, old) ==
  IF old = "" THEN "" ELSE
  LET p == FirstPos(map, LAMBDA x : x.src = src /\ x.old = old) IN IF p = 0 THEN "<dangling>" ELSE map[p].new

MergedTargets(ins) ==
  LET all == FlattenSeq([i \in DOMAIN ins |-> ins[i].tg.t])
      firsts == SelectSeq([k \in DOMAIN all |-> k], LAMBDA k : \A j \in 1..(k-1) : all[j].name # all[k].name)
      recs == Pick(all, firsts)
  IN [rev |-> FoldLeft(LAMBDA a, d : MaxOf(a, d.tg.rev), 2, ins),
      usecat |-> FoldLeft(LAMBDA a, d : MaxOf(a, d.tg.usecat), 0, ins),
      t |-> [k \in DOMAIN recs |-> [recs[k] EXCEPT !.id = k]]]
NewTid(ins, src, tid) ==
  LET p == TargetPos(ins[src], tid)
      t == MergedTargets(ins).t
  IN IF p = 0 THEN 0 ELSE FirstPos(t, LAMBDA x : x.name = ins[src].tg.t[p].name)

ArrMerge(ins, obs) == MergeTabs(Tagged(ins, LAMBDA d : d.arr), obs, ArrMatches, LAMBDA t : Up(t, 2))
WavMerge(ins, obs) == MergeTabs(Tagged(ins, LAMBDA d : d.wav), obs, WavMatches, LAMBDA t : Up(t, 2))
CorMerge(ins, obs) == MergeTabs(Tagged(ins, LAMBDA d : d.cor), obs, LAMBDA a, c : FALSE, LAMBDA t : t)

(***************************************************************************)
(* Primary header                                                          *)
(***************************************************************************)
HdrVals(ins, key) == {ins[i].hdr[key] : i \in DOMAIN ins} \ {""}
MergedKey(ins, key, required) ==
  LET V == HdrVals(ins, key) IN
  IF V = {} THEN (IF required THEN "UNKNOWN" ELSE "")
  ELSE IF Cardinality(V) = 1 THEN CHOOSE v \in V : TRUE ELSE "MULTIPLE"
UsableDate(s) == IsIso(s) /\ LET t == IsoYMD(s) IN t[1] \in 1901..2099 /\ ValidDate(t[1], t[2], t[3])
MergedDateObs(ins, obs) ==      (* earliest usable DATE-OBS; unspecified when there is none *)
  LET D == {SubSeq(ins[i].hdr.date_obs, 1, 10) : i \in {k \in DOMAIN ins : UsableDate(ins[k].hdr.date_obs)}} IN
  IF D = {} THEN obs ELSE CHOOSE s \in D : \A x \in D : IsoMjd(s) <= IsoMjd(x)
MergedHeader(ins, obs) ==
  [origin |-> MergedKey(ins, "origin", TRUE), date |-> obs.date,
   date_obs |-> MergedDateObs(ins, obs.date_obs), content |-> "OIFITS2",
   telescop |-> MergedKey(ins, "telescop", TRUE), instrume |-> MergedKey(ins, "instrume", TRUE),
   observer |-> MergedKey(ins, "observer", TRUE), insmode |-> MergedKey(ins, "insmode", TRUE),
   object |-> MergedKey(ins, "object", TRUE), referenc |-> MergedKey(ins, "referenc", FALSE),
   author |-> MergedKey(ins, "author", FALSE), prog_id |-> MergedKey(ins, "prog_id", FALSE),
   procsoft |-> MergedKey(ins, "procsoft", FALSE), obstech |-> MergedKey(ins, "obstech", FALSE)]

(***************************************************************************)
(* Data tables: copied in input order, references rewritten                *)
(***************************************************************************)
ReTid(ins, src, recs) == [q \in DOMAIN recs |-> [recs[q] EXCEPT !.tid = NewTid(ins, src, @)]]
ReData(ins, am, wm, cm, x, t) ==
  [t EXCEPT !.arr = NewName(am, x.src, @), !.ins = NewName(wm, x.src, @),
            !.cor = NewName(cm, x.src, @), !.r = ReTid(ins, x.src, @)]
RePol(ins, am, wm, x) ==
  [x.tab EXCEPT !.arr = NewName(am, x.src, @),
     !.r = [q \in DOMAIN x.tab.r |-> [x.tab.r[q] EXCEPT !.tid = NewTid(ins, x.src, @),
                                                        !.ins = NewName(wm, x.src, @)]]]
ExpectedMerge(ins, obs) ==
  LET A == ArrMerge(ins, obs.arr)
      W == WavMerge(ins, obs.wav)
      C == CorMerge(ins, obs.cor)
      D(tg, F(_)) == [k \in DOMAIN tg |-> ReData(ins, A.map, W.map, C.map, tg[k], F(tg[k].tab))]
      pol == Tagged(ins, LAMBDA d : d.pol)
  IN WithCount([hdr |-> MergedHeader(ins, obs.hdr), tg |-> MergedTargets(ins),
      arr |-> A.out, wav |-> W.out, cor |-> C.out,
      pol |-> [k \in DOMAIN pol |-> RePol(ins, A.map, W.map, pol[k])],
      vis |-> D(Tagged(ins, LAMBDA d : d.vis), UpTimed),
      vis2 |-> D(Tagged(ins, LAMBDA d : d.vis2), UpTimed),
      t3 |-> D(Tagged(ins, LAMBDA d : d.t3), UpTimed),
      flux |-> D(Tagged(ins, LAMBDA d : d.flux), LAMBDA t : t),
      n |-> <<>>])
Mergeable(ins) == \A i \in DOMAIN ins : Consistent(ins[i])

(***************************************************************************)
(* A function choosing the fresh names (for model checking)                *)
(***************************************************************************)
RECURSIVE FreshFrom(_, _, _)
FreshFrom(S, nm, k) == LET c == nm \o "_" \o ToString(k) IN IF c \in S THEN FreshFrom(S, nm, k + 1) ELSE c
CanonTabs(tagged, Matches(_, _), UpT(_)) ==   (* the output tables, as MergeTabs with canonical names *)
  FoldLeft(LAMBDA out, x :
     LET t == UpT(x.tab) IN
     IF FirstPos(out, LAMBDA c : Matches(x.tab, c)) > 0 THEN out
     ELSE Append(out, [t EXCEPT !.name = IF HasName(out, t.name)
              THEN FreshFrom({out[k].name : k \in DOMAIN out}, t.name, Len(out) + 1) ELSE t.name]),
     <<>>, tagged)
MergeFn(ins) ==
  LET seed == [hdr |-> [EmptyHeader EXCEPT !.date = "[unset]", !.date_obs = "2132-08-31"],
               arr |-> CanonTabs(Tagged(ins, LAMBDA d : d.arr), ArrMatches, LAMBDA t : Up(t, 2)),
               wav |-> CanonTabs(Tagged(ins, LAMBDA d : d.wav), WavMatches, LAMBDA t : Up(t, 2)),
               cor |-> CanonTabs(Tagged(ins, LAMBDA d : d.cor), LAMBDA a, c : FALSE, LAMBDA t : t)]
  IN ExpectedMerge(ins, seed)

(***************************************************************************)
(* The properties of a merge, as predicates on any (inputs, result) pair   *)
(***************************************************************************)
TabsOf(ins, Kind(_)) == FlattenSeq([i \in DOMAIN ins |-> Kind(ins[i])])
StripTab(t) == [t EXCEPT !.arr = "", !.ins = "", !.cor = "",
                         !.r = [q \in DOMAIN t.r |-> [t.r[q] EXCEPT !.tid = 0]]]
StripPol(t) == [t EXCEPT !.arr = "", !.r = [q \in DOMAIN t.r |-> [t.r[q] EXCEPT !.tid = 0, !.ins = ""]]]
MapSeq(s, F(_)) == [k \in DOMAIN s |-> F(s[k])]
(* every table and record of every input appears exactly once, in order, values unaltered *)
MergeConserves(ins, o) ==
  /\ MapSeq(o.vis, StripTab) = MapSeq(TabsOf(ins, LAMBDA d : d.vis), LAMBDA t : StripTab(UpTimed(t)))
  /\ MapSeq(o.vis2, StripTab) = MapSeq(TabsOf(ins, LAMBDA d : d.vis2), LAMBDA t : StripTab(UpTimed(t)))
  /\ MapSeq(o.t3, StripTab) = MapSeq(TabsOf(ins, LAMBDA d : d.t3), LAMBDA t : StripTab(UpTimed(t)))
  /\ MapSeq(o.flux, StripTab) = MapSeq(TabsOf(ins, LAMBDA d : d.flux), StripTab)
  /\ MapSeq(o.pol, StripPol) = MapSeq(TabsOf(ins, LAMBDA d : d.pol), StripPol)
  /\ MapSeq(o.cor, LAMBDA t : [t EXCEPT !.name = ""]) =
     MapSeq(TabsOf(ins, LAMBDA d : d.cor), LAMBDA t : [t EXCEPT !.name = ""])
  /\ o.n = Count(o)

(* reference of an output table resolves to content equivalent to what the input's referred to *)
SameArrRef(d, old, o, new) ==
  IF old = "" THEN new = "" ELSE
  LET p == LookupArray(d, old)  q == LookupArray(o, new) IN p > 0 /\ q > 0 /\ ArrMatches(d.arr[p], o.arr[q])
SameWavRef(d, old, o, new) ==
  LET p == LookupWave(d, old)  q == LookupWave(o, new) IN p > 0 /\ q > 0 /\ WavMatches(d.wav[p], o.wav[q])
SameCorRef(d, old, o, new) ==
  IF old = "" THEN new = "" ELSE
  LET p == LookupCorr(d, old)  q == LookupCorr(o, new) IN
  p > 0 /\ q > 0 /\ [d.cor[p] EXCEPT !.name = ""] = [o.cor[q] EXCEPT !.name = ""]
SameTarget(d, old, o, new) ==
  LET p == TargetPos(d, old)  q == TargetPos(o, new) IN p > 0 /\ q > 0 /\ d.tg.t[p].name = o.tg.t[q].name
RefsKept(ins, tagged, o, outTabs) ==
  /\ Len(tagged) = Len(outTabs)
  /\ \A k \in DOMAIN tagged : LET d == ins[tagged[k].src]  t == tagged[k].tab  u == outTabs[k] IN
       /\ SameArrRef(d, t.arr, o, u.arr) /\ SameWavRef(d, t.ins, o, u.ins) /\ SameCorRef(d, t.cor, o, u.cor)
       /\ Len(t.r) = Len(u.r)
       /\ \A q \in DOMAIN t.r : SameTarget(d, t.r[q].tid, o, u.r[q].tid)
PolRefsKept(ins, tagged, o, outTabs) ==
  /\ Len(tagged) = Len(outTabs)
  /\ \A k \in DOMAIN tagged : LET d == ins[tagged[k].src]  t == tagged[k].tab  u == outTabs[k] IN
       /\ SameArrRef(d, t.arr, o, u.arr) /\ Len(t.r) = Len(u.r)
       /\ \A q \in DOMAIN t.r : SameTarget(d, t.r[q].tid, o, u.r[q].tid) /\ SameWavRef(d, t.r[q].ins, o, u.r[q].ins)
MergeRefs(ins, o) ==
  /\ RefsKept(ins, Tagged(ins, LAMBDA d : d.vis), o, o.vis)
  /\ RefsKept(ins, Tagged(ins, LAMBDA d : d.vis2), o, o.vis2)
  /\ RefsKept(ins, Tagged(ins, LAMBDA d : d.t3), o, o.t3)
  /\ RefsKept(ins, Tagged(ins, LAMBDA d : d.flux), o, o.flux)
  /\ PolRefsKept(ins, Tagged(ins, LAMBDA d : d.pol), o, o.pol)
(* auxiliary tables: no duplicates, unique names, nothing lost, nothing invented *)
MergeDedup(ins, o) ==
  /\ UniqueNames(o.arr) /\ UniqueNames(o.wav) /\ UniqueNames(o.cor)
  /\ o.tg = MergedTargets(ins)
  /\ o.arr = ArrMerge(ins, o.arr).out
  /\ o.wav = WavMerge(ins, o.wav).out
  /\ o.cor = CorMerge(ins, o.cor).out
MergeHeaderOK(ins, o) == o.hdr = MergedHeader(ins, o.hdr)
(* every table has the revision of version 2 *)
RevsAre(tabs, r) == \A k \in DOMAIN tabs : tabs[k].rev >= r
MergeRevs(o) == /\ o.tg.rev >= 2 /\ RevsAre(o.arr, 2) /\ RevsAre(o.wav, 2) /\ RevsAre(o.vis, 2)
                /\ RevsAre(o.vis2, 2) /\ RevsAre(o.t3, 2) /\ RevsAre(o.cor, 1) /\ RevsAre(o.pol, 1) /\ RevsAre(o.flux, 1)
=============================================================================
