------------------------------ MODULE Gen_status ------------------------------
(* Sequences of calls of MC_status. *)
EXTENDS MC_status, Json, TLCExt
CONSTANTS Every, Salt
Chosen == Len(hist) = MaxCalls /\ TLCFP(<<hist, Salt>>) % Every = 0
Emit == Chosen => PrintT("CASE " \o ToJson([d |-> D0, calls |-> hist]))
=============================================================================
