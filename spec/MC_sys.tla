------------------------------- MODULE MC_sys -------------------------------
(* Exhaustive exploration of short histories. *)
EXTENDS OISystem
CONSTANTS Deep, MaxOps
MSlots == 1..3
MFiles == IF Deep THEN {"a.fits", "b.fits"} ELSE {"a.fits"}
MIts == {1}
MParams == {[P0 EXCEPT !.cn = "C", !.pol = 1, !.wv = 3, !.tn = <<"S", "T">>], [P0 EXCEPT !.v = 1, !.av = 1, !.wv = 3],
            [P0 EXCEPT !.av = 1, !.cn = "C", !.cv = 1, !.opt = 1, !.dv = 1]}
MFilters == {FDef, [FDef EXCEPT !.tid = 1, !.flagged = 0], [FDef EXCEPT !.ins = "I", !.wave = <<50000, 50000>>, !.snr = <<8, 60>>]}
Bound == Len(hist) < MaxOps
MNext == Len(hist) < MaxOps /\ Change
MSpec == Init /\ [][MNext]_vars
View == <<mem, disk, its, last, Len(hist)>>
=============================================================================
