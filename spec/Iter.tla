-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* Iterators: the sequence of data an iterator of a given kind over a      *)
(* dataset yields under a filter, with the context reported for each.      *)
(* kind: 1 complex visibility, 2 squared visibility, 3 triple product.     *)
(***************************************************************************)
EXTENDS Filter

ChanOK(f, w, r, c, bad) == ~Outside(w, f.wave[1], f.wave[2]) /\ ~bad /\ (r.f[c] = 0 \/ f.flagged # 0)

Yields(ds, tabs, f, RecOK(_, _), Bad(_, _, _, _), Uv(_)) ==
  FlattenSeq([k \in DOMAIN tabs |->
    LET t == tabs[k]  w == WaveOf(ds, t.ins) IN
    IF ~NamesOK(t, f) THEN <<>>
    ELSE FlattenSeq([q \in DOMAIN t.r |->
      IF ~RecOK(t.r[q], f) THEN <<>>
      ELSE LET cs == SelectSeq([c \in 1..t.nw |-> c],
                               LAMBDA c : ChanOK(f, w[c], t.r[q], c, Bad(t.r[q], c, w[c], f)))
           IN [j \in DOMAIN cs |-> [ext |-> k, tab |-> k - 1, rec |-> q - 1, wv |-> cs[j] - 1,
                                    ew |-> w[cs[j]], uv |-> Uv(t.r[q])]]])])
IterSeq(ds, kind, f) ==
  IF kind = 1 THEN (IF f.vis = 0 THEN <<>> ELSE Yields(ds, ds.vis, f, RecOK2, VisBad, LAMBDA r : <<r.u, r.v, 0, 0>>))
  ELSE IF kind = 2 THEN (IF f.vis2 = 0 THEN <<>> ELSE Yields(ds, ds.vis2, f, RecOK2, Vis2Bad, LAMBDA r : <<r.u, r.v, 0, 0>>))
  ELSE (IF f.t3amp = 0 /\ f.t3phi = 0 THEN <<>>
        ELSE Yields(ds, ds.t3, f, RecOK3, T3Bad, LAMBDA r : <<r.u, r.v, r.u2, r.v2>>))

(* number of unflagged data an unflagged-only iteration visits = those left unflagged by the filter *)
IterAgreesWithFilter(ds, f) ==
  LET g == [f EXCEPT !.flagged = 0]  o == FilterFn(ds, g) IN
  /\ Len(IterSeq(ds, 1, g)) = Unflagged(o.vis)
  /\ Len(IterSeq(ds, 2, g)) = Unflagged(o.vis2)
  /\ Len(IterSeq(ds, 3, g)) = Unflagged(o.t3)
=============================================================================
