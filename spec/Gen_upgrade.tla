----------------------------- MODULE Gen_upgrade -----------------------------
(* Every state of MC_upgrade as a scenario: a dataset with a mixture of table revisions. *)
EXTENDS MC_upgrade, Json, TLCExt
CONSTANTS Every, Salt
Chosen == TLCFP(<<<<p, rv>>, Salt>>) % Every = 0
Emit == Chosen => PrintT("CASE " \o ToJson([d |-> DS]))
=============================================================================
