------------------------------ MODULE Gen_merge ------------------------------
(* Every state of MC_merge as a scenario: merge these datasets. *)
EXTENDS MC_merge, Json, TLCExt
CONSTANTS Every, Salt
Chosen == TLCFP(<<ps, Salt>>) % Every = 0
Emit == (step >= 2 /\ Chosen) =>
  PrintT("CASE " \o ToJson([in |-> [k \in DOMAIN ps |-> IF ps[k].two THEN Doubled(ps[k].q) ELSE Tpl(ps[k].q)]]))
=============================================================================
