------------------------------ MODULE Criteria ------------------------------
(* Filters for model checking: single criteria whose limits the datasets of Templates meet exactly or narrowly miss. *)
EXTENDS Filter
(* single criteria *)
Crit == {[FDef EXCEPT !.arr = x] : x \in {"A", "B*", "?", "zz"}} \cup {[FDef EXCEPT !.ins = x] : x \in {"I", "[IJ]", "J", "*J*"}}
  \cup {[FDef EXCEPT !.cor = x] : x \in {"", "C", "D", "?*"}} \cup {[FDef EXCEPT !.tid = x] : x \in {1, 2, 3, 5, 7}}
  \cup {[FDef EXCEPT !.mjd = x] : x \in {<<50001 * Day, 50001 * Day>>, <<50001 * Day + 1, LIMINF>>, <<0, 50001 * Day - 1>>}}
  \cup {[FDef EXCEPT !.wave = x] : x \in {<<50000, 50000>>, <<40001, 2500000>>, <<0, 39999>>}}
  \cup {[FDef EXCEPT !.bas = x] : x \in {<<50, 50>>, <<51, 10000>>, <<0, 99>>, <<0, 30>>}}
  \cup {[FDef EXCEPT !.uv[1] = [b |-> 475, w |-> 50000]], [FDef EXCEPT !.uv[2] = [b |-> 475, w |-> 50000]]}
  \cup {[FDef EXCEPT !.snr = x] : x \in {<<8, 16>>, <<12, LIMINF>>, <<-20, 4>>}}
  \cup {[FDef EXCEPT !.vis = 0], [FDef EXCEPT !.vis2 = 0], [FDef EXCEPT !.t3amp = 0], [FDef EXCEPT !.t3phi = 0],
        [FDef EXCEPT !.t3amp = 0, !.t3phi = 0], [FDef EXCEPT !.flux = 0], [FDef EXCEPT !.flagged = 0]}
Both(a, b) == [k \in DOMAIN FDef |-> IF a[k] # FDef[k] THEN a[k] ELSE b[k]]
=============================================================================
