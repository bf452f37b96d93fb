-------------------------------- MODULE Gen_io --------------------------------
(* Every state of MC_io as a scenario: a file with at most one change. *)
EXTENDS MC_io, Json, TLCExt
CONSTANTS Every, Salt
Chosen == TLCFP(<<<<p, chg>>, Salt>>) % Every = 0
Emit == Chosen => PrintT("CASE " \o ToJson([d |-> DS(p), v |-> p.v, chg |-> chg]))
=============================================================================
