------------------------------- MODULE Gen_opt -------------------------------
(* Every sequence of options of MC_opt. *)
EXTENDS MC_opt, Json, TLCExt
CONSTANTS Every, Salt
Chosen == TLCFP(<<opts, Salt>>) % Every = 0
Emit == Chosen => PrintT("CASE " \o ToJson([opts |-> opts]))
=============================================================================
