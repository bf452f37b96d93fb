------------------------------- MODULE Filter -------------------------------
(***************************************************************************)
(* Filtering a dataset: exact selection of tables, records and channels,   *)
(* flagging, and removal of auxiliary tables that are no longer used.      *)
(*                                                                         *)
(* A filter is a record                                                    *)
(*   arr, ins, cor  glob patterns      tid  target id or -1                *)
(*   mjd, wave, bas <<lo, hi>>         uv   <<[b, w], [b, w]>>: b/w in      *)
(*   snr <<lo, hi>> in quarters             0.1 m per wavelength unit      *)
(*   vis, vis2, t3amp, t3phi, flux, flagged   0/1                          *)
(***************************************************************************)
EXTENDS OIData

FDef == [arr |-> "*", ins |-> "*", cor |-> "*", tid |-> -1, mjd |-> <<0, LIMINF>>,
         wave |-> <<0, 2500000>>, bas |-> <<0, 10000>>,
         uv |-> << [b |-> 0, w |-> 1], [b |-> LIMINF, w |-> 1] >>, snr |-> <<-20, LIMINF>>,
         vis |-> 1, vis2 |-> 1, t3amp |-> 1, t3phi |-> 1, flux |-> 1, flagged |-> 1]

(* glob matching: * any substring, ? any one character *)
Ch(s, k) == SubSeq(s, k, k)
RECURSIVE GlobAt(_, _, _, _)
GlobAt(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF Ch(p, i) = "*" THEN GlobAt(p, i + 1, s, j) \/ (j <= Len(s) /\ GlobAt(p, i, s, j + 1))
  ELSE j <= Len(s) /\ (Ch(p, i) = "?" \/ Ch(p, i) = Ch(s, j)) /\ GlobAt(p, i + 1, s, j + 1)
Glob(p, s) == GlobAt(p, 1, s, 1)

Outside(x, lo, hi) == x # NAN /\ (x < lo \/ x > hi)

(* integer square root by bisection *)
RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN SqrtIn(n, m, hi) ELSE SqrtIn(n, lo, m)
ISqrt(n) == SqrtIn(n, 0, 46341)

(* projected baseline (u, v in m) compared with limits in m *)
BasBad(u, v, f) == u # NAN /\ v # NAN /\
  LET q == u * u + v * v IN
  \/ f.bas[1] > 40000 \/ (f.bas[1] > 0 /\ q < f.bas[1] * f.bas[1])
  \/ f.bas[2] < 0 \/ (f.bas[2] <= 40000 /\ q > f.bas[2] * f.bas[2])
(* uv radius at wavelength w; thresholds are never met exactly (see DESIGN.md) *)
Radius10(q) == IF q <= 21000000 THEN ISqrt(100 * q) ELSE 10 * ISqrt(q)
UvBad(u, v, w, f) == u # NAN /\ v # NAN /\ w # NAN /\
  ( \/ f.uv[1].b > 0 /\ Radius10(u * u + v * v) * f.uv[1].w < f.uv[1].b * w
    \/ f.uv[2].b # LIMINF /\ Radius10(u * u + v * v) * f.uv[2].w > f.uv[2].b * w )
Bases3(r) == {<<r.u, r.v>>, <<r.u2, r.v2>>,
              <<IF NAN \in {r.u, r.u2} THEN NAN ELSE r.u + r.u2, IF NAN \in {r.v, r.v2} THEN NAN ELSE r.v + r.v2>>}
(* x < s * e and x > s * e, without computing the product *)
Below(x, s, e) == IF s = 0 THEN x < 0 ELSE IF s > 0 THEN x \div s < e ELSE e < -(x \div (-s)) 
Above(x, s, e) == IF s = 0 THEN x > 0 ELSE IF s > 0 THEN -((-x) \div s) > e ELSE -((-x) \div (-s)) > -e
(* signal-to-noise ratio d/e, limits in quarters *)
SnrBad(d, e, f) ==
  IF d = NAN \/ e = NAN THEN FALSE
  ELSE IF d \in {PINF, NINF} THEN e # PINF     (* infinite; inf/inf and 0/0 are not numbers and pass *)
  ELSE IF e = 0 THEN d # 0
  ELSE IF e = PINF THEN f.snr[1] > 0 \/ f.snr[2] < 0
  ELSE IF e > 0 THEN Below(4 * d, f.snr[1], e) \/ (f.snr[2] # LIMINF /\ Above(4 * d, f.snr[2], e))
  ELSE Above(4 * d, f.snr[1], e) \/ (f.snr[2] # LIMINF /\ Below(4 * d, f.snr[2], e))
(* phase: one radian over the error in degrees; 256 * 180/pi = 14667.7 *)
PhiBad(e, f) ==
  IF e = NAN THEN FALSE
  ELSE IF e = 0 THEN TRUE
  ELSE IF e = PINF THEN f.snr[1] > 0 \/ f.snr[2] < 0
  ELSE IF e > 0 THEN Below(14667, f.snr[1], e) \/ (f.snr[2] # LIMINF /\ Above(14668, f.snr[2], e))
  ELSE Above(14668, f.snr[1], e) \/ (f.snr[2] # LIMINF /\ Below(14667, f.snr[2], e))

(***************************************************************************)
(* Channels and records                                                    *)
(***************************************************************************)
Chans(w, f) == Positions(w, LAMBDA x : ~Outside(x, f.wave[1], f.wave[2]))
(* is datum c of record r rejected (on uv radius or SNR)? *)
VisBad(r, c, w, f)  == UvBad(r.u, r.v, w, f) \/ SnrBad(r.a[c], r.ae[c], f) \/ PhiBad(r.pe[c], f)
Vis2Bad(r, c, w, f) == UvBad(r.u, r.v, w, f) \/ SnrBad(r.a[c], r.ae[c], f)
T3Bad(r, c, w, f)   == \/ \E b \in Bases3(r) : UvBad(b[1], b[2], w, f)
                       \/ f.t3amp # 0 /\ SnrBad(r.a[c], r.ae[c], f)
                       \/ f.t3phi # 0 /\ PhiBad(r.pe[c], f)
TidOK(r, f) == f.tid < 0 \/ r.tid = f.tid
MjdOK(r, f) == ~Outside(r.mjd, f.mjd[1], f.mjd[2])
RecOK2(r, f) == TidOK(r, f) /\ MjdOK(r, f) /\ ~BasBad(r.u, r.v, f)
RecOK3(r, f) == TidOK(r, f) /\ MjdOK(r, f) /\ \A b \in Bases3(r) : ~BasBad(b[1], b[2], f)
NewFlag(r, c, bad) == IF r.f[c] # 0 THEN r.f[c] ELSE IF bad THEN 1 ELSE 0
OutTid(r, f) == IF f.tid >= 0 THEN 1 ELSE r.tid

VisRec(t, r, w, sel, f) ==
  LET n == Len(sel)  nin == t.nw IN
  [r EXCEPT !.tid = OutTid(r, f), !.a = Pick(@, sel), !.ae = Pick(@, sel), !.p = Pick(@, sel),
     !.pe = Pick(@, sel),
     !.f = [k \in 1..n |-> NewFlag(r, sel[k], VisBad(r, sel[k], w[sel[k]], f))],
     !.ref = IF t.useref = 0 THEN @
             ELSE [x \in 1..(n * n) |-> r.ref[sel[((x - 1) % n) + 1] + (sel[((x - 1) \div n) + 1] - 1) * nin]],
     !.rv = IF t.usecpx = 0 THEN @ ELSE Pick(@, sel), !.rve = IF t.usecpx = 0 THEN @ ELSE Pick(@, sel),
     !.iv = IF t.usecpx = 0 THEN @ ELSE Pick(@, sel), !.ive = IF t.usecpx = 0 THEN @ ELSE Pick(@, sel)]
Vis2Rec(t, r, w, sel, f) ==
  [r EXCEPT !.tid = OutTid(r, f), !.a = Pick(@, sel), !.ae = Pick(@, sel),
     !.f = [k \in DOMAIN sel |-> NewFlag(r, sel[k], Vis2Bad(r, sel[k], w[sel[k]], f))]]
T3Rec(t, r, w, sel, f) ==
  [r EXCEPT !.tid = OutTid(r, f),
     !.a = IF f.t3amp # 0 THEN Pick(@, sel) ELSE [k \in DOMAIN sel |-> NAN], !.ae = Pick(@, sel),
     !.p = IF f.t3phi # 0 THEN Pick(@, sel) ELSE [k \in DOMAIN sel |-> NAN], !.pe = Pick(@, sel),
     !.f = [k \in DOMAIN sel |-> NewFlag(r, sel[k], T3Bad(r, sel[k], w[sel[k]], f))]]
FluxRec(t, r, sel, f) ==
  [r EXCEPT !.tid = OutTid(r, f),
     !.a = [k \in DOMAIN sel |-> IF SnrBad(r.a[sel[k]], r.ae[sel[k]], f) THEN NAN ELSE r.a[sel[k]]],
     !.ae = Pick(@, sel), !.f = Pick(@, sel)]
SomeUnflagged(r) == \E c \in DOMAIN r.f : r.f[c] = 0
FlagOK(r, f) == f.flagged # 0 \/ SomeUnflagged(r)

(***************************************************************************)
(* Tables                                                                  *)
(***************************************************************************)
NamesOK(t, f) == Glob(f.arr, t.arr) /\ Glob(f.ins, t.ins) /\ Glob(f.cor, t.cor)
WaveOf(ds, ins) == LET p == LookupWave(ds, ins) IN IF p = 0 THEN <<>> ELSE ds.wav[p].w
SelOf(ds, ins, f) == IF Glob(f.ins, ins) THEN Chans(WaveOf(ds, ins), f) ELSE <<>>

Nonempty(t) == t.nw > 0 /\ t.r # <<>>
FilterTabs(ds, tabs, f, RecOK(_, _), Rec(_, _, _, _, _), useFlag) ==
  SelectSeq([k \in DOMAIN tabs |->
     LET t == tabs[k]
         sel == IF NamesOK(t, f) THEN SelOf(ds, t.ins, f) ELSE <<>>
         w == WaveOf(ds, t.ins)
         recs == IF sel = <<>> THEN <<>> ELSE SelectSeq(t.r, LAMBDA r : RecOK(r, f))
         outs == [q \in DOMAIN recs |-> Rec(t, recs[q], w, sel, f)]
     IN [t EXCEPT !.nw = Len(sel), !.r = IF useFlag THEN SelectSeq(outs, LAMBDA r : FlagOK(r, f)) ELSE outs]],
     Nonempty)
(* complex values are stored as re, im, re, im, ... *)
PickC(s, sel) == [x \in 1..(2 * Len(sel)) |-> s[2 * sel[(x + 1) \div 2] - (x % 2)]]
FluxOK(r, f) == TidOK(r, f) /\ MjdOK(r, f)
(* a table is divided if its records are left with different numbers of channels *)
Divide(ds, t, f) ==
  LET n == [q \in DOMAIN t.r |-> Len(SelOf(ds, t.r[q].ins, f))]
      first == Positions(n, LAMBDA x : x > 0)
      heads == SelectSeq(first, LAMBDA q : \A x \in 1..(q - 1) : n[x] # n[q])
  IN [h \in DOMAIN heads |-> [t EXCEPT !.nw = n[heads[h]], !.r = Pick(t.r, Positions(n, LAMBDA x : x = n[heads[h]]))]]
FilterPol(ds, f) ==
  SelectSeq(FlattenSeq([k \in DOMAIN ds.pol |->
     LET t == ds.pol[k]  parts == IF Glob(f.arr, t.arr) THEN Divide(ds, t, f) ELSE <<>> IN
     [h \in DOMAIN parts |->
        LET recs == SelectSeq(parts[h].r, LAMBDA r :
                   /\ TidOK(r, f)
                   /\ ~(r.mjdend # NAN /\ r.mjdend < f.mjd[1]) /\ ~(r.mjd # NAN /\ r.mjd > f.mjd[2])) IN
        [parts[h] EXCEPT !.r = [q \in DOMAIN recs |-> LET sel == SelOf(ds, recs[q].ins, f) IN
                  [recs[q] EXCEPT !.tid = OutTid(recs[q], f), !.jxx = PickC(@, sel), !.jyy = PickC(@, sel),
                                  !.jxy = PickC(@, sel), !.jyx = PickC(@, sel)]]]]]),
     Nonempty)

FilterTargets(tg, f) ==
  IF f.tid < 0 THEN tg
  ELSE [tg EXCEPT !.t = LET m == SelectSeq(tg.t, LAMBDA x : x.id = f.tid) IN
                        [k \in DOMAIN m |-> [m[k] EXCEPT !.id = 1]]]
FilterWav(ds, f) ==
  SelectSeq([k \in DOMAIN ds.wav |->
     LET t == ds.wav[k]  sel == SelOf(ds, t.name, f) IN [t EXCEPT !.w = Pick(@, sel), !.b = Pick(@, sel)]],
     LAMBDA t : t.w # <<>>)

Prune(ds) ==
  LET A == ArrRefs(ds) \ {""}  W == InsRefs(ds)  C == CorRefs(ds) \ {""} IN
  [ds EXCEPT !.arr = SelectSeq(@, LAMBDA t : t.name \in A),
             !.pol = SelectSeq(@, LAMBDA t : t.arr \in A),
             !.wav = SelectSeq(@, LAMBDA t : t.name \in W),
             !.cor = SelectSeq(@, LAMBDA t : t.name \in C)]

FilterFn(ds, f) ==
  WithCount(Prune([hdr |-> ds.hdr, tg |-> FilterTargets(ds.tg, f),
    arr |-> SelectSeq(ds.arr, LAMBDA t : Glob(f.arr, t.name)),
    cor |-> SelectSeq(ds.cor, LAMBDA t : Glob(f.cor, t.name)),
    wav |-> FilterWav(ds, f), pol |-> FilterPol(ds, f),
    vis |-> IF f.vis = 0 THEN <<>> ELSE FilterTabs(ds, ds.vis, f, RecOK2, VisRec, TRUE),
    vis2 |-> IF f.vis2 = 0 THEN <<>> ELSE FilterTabs(ds, ds.vis2, f, RecOK2, Vis2Rec, TRUE),
    t3 |-> IF f.t3amp = 0 /\ f.t3phi = 0 THEN <<>> ELSE FilterTabs(ds, ds.t3, f, RecOK3, T3Rec, TRUE),
    flux |-> IF f.flux = 0 THEN <<>>
             ELSE FilterTabs(ds, ds.flux, f, FluxOK, LAMBDA t, r, w, sel, g : FluxRec(t, r, sel, g), FALSE),
    n |-> <<>>]))

(***************************************************************************)
(* Properties of a filter result                                           *)
(***************************************************************************)
(* target references resolve or nothing of that target remains; names resolve; no orphans *)
NoOrphans(o) ==
  /\ \A k \in DOMAIN o.arr : o.arr[k].name \in ArrRefs(o)
  /\ \A k \in DOMAIN o.wav : o.wav[k].name \in InsRefs(o)
  /\ \A k \in DOMAIN o.cor : o.cor[k].name \in CorRefs(o)
  /\ \A k \in DOMAIN o.pol : o.pol[k].arr \in ArrRefs(o)
NoEmpty(o) ==
  /\ \A k \in DOMAIN o.wav : o.wav[k].w # <<>>
  /\ \A k \in DOMAIN o.vis : Nonempty(o.vis[k])
  /\ \A k \in DOMAIN o.vis2 : Nonempty(o.vis2[k])
  /\ \A k \in DOMAIN o.t3 : Nonempty(o.t3[k])
  /\ \A k \in DOMAIN o.flux : Nonempty(o.flux[k])
  /\ \A k \in DOMAIN o.pol : Nonempty(o.pol[k])
DataRefsResolve(o) ==
  /\ \A nm \in ArrRefs(o) : nm = "" \/ HasName(o.arr, nm)
  /\ \A nm \in InsRefs(o) : HasName(o.wav, nm)
  /\ \A nm \in CorRefs(o) : nm = "" \/ HasName(o.cor, nm)
  /\ TidRefs(o) \subseteq TargetIds(o)
  /\ UniqueNames(o.arr) /\ UniqueNames(o.wav) /\ UniqueNames(o.cor) /\ UniqueTargetIds(o)
FilterSound(o) == DataRefsResolve(o) /\ WidthsAgree(o) /\ NoOrphans(o) /\ NoEmpty(o) /\ o.n = Count(o)

(* a second pass with the same criteria changes nothing *)
Again(f) == IF f.tid < 0 THEN f ELSE [f EXCEPT !.tid = 1]
=============================================================================
