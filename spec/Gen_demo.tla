------------------------------- MODULE Gen_demo -------------------------------
(* Every state of MC_demo as a scenario: a text to turn into a file, and a file with at most one change to list. *)
EXTENDS MC_demo, Json, TLCExt
CONSTANTS Every, Salt
Chosen == TLCFP(<<<<p, chg>>, Salt>>) % Every = 0
Emit == Chosen => PrintT("CASE " \o ToJson([d |-> DS(p), v |-> p.v, chg |-> chg, x |-> DemoData(p)]))
=============================================================================
