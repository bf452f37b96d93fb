------------------------------- MODULE Gen_sys -------------------------------
(* A history leading to every state of MC_sys. *)
EXTENDS MC_sys, Json, TLCExt
CONSTANTS Every, Salt
Chosen == TLCFP(<<hist, Salt>>) % Every = 0
GExport(h) == [k \in DOMAIN h |-> IF h[k].op = "build" THEN [op |-> "build", slot |-> h[k].slot, ds |-> Tpl(h[k].q)] ELSE h[k]]
Emit == (hist # <<>> /\ Chosen) => PrintT("CASE " \o ToJson(GExport(hist)))
=============================================================================
