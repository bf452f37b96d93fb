------------------------------ MODULE Gen_filter ------------------------------
(* Every state of MC_filter as a scenario: filter this dataset with this filter. *)
EXTENDS MC_filter, Json, TLCExt
CONSTANTS Every, Salt
Chosen == TLCFP(<<<<p, f>>, Salt>>) % Every = 0
Emit == Chosen => PrintT("CASE " \o ToJson([d |-> DS(p), f |-> f, again |-> Again(f)]))
=============================================================================
