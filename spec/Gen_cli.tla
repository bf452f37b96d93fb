------------------------------- MODULE Gen_cli -------------------------------
(* Sequences of commands leading to the states of MC_cli, with what the files hold at first. *)
EXTENDS MC_cli, Json, TLCExt
CONSTANTS Every, Salt
Chosen == Len(hist) = MaxCmds /\ TLCFP(<<<<start, hist>>, Salt>>) % Every = 0
Emit == Chosen => PrintT("CASE " \o ToJson(
  [init |-> [n \in DOMAIN start |-> [k |-> start[n].k, v |-> start[n].q.v, ds |-> Tpl(start[n].q)]], cmds |-> hist]))
=============================================================================
