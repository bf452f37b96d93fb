------------------------------ MODULE Gen_check ------------------------------
(* Every state of MC_check as a scenario: a dataset with at most two planted defects. *)
EXTENDS MC_check, Json, TLCExt
CONSTANTS Every, Salt
Chosen == TLCFP(<<<<p, def>>, Salt>>) % Every = 0
Emit == Chosen => PrintT("CASE " \o ToJson([d |-> Broke, n |-> Len(def)]))
=============================================================================
