----------------------------- MODULE MC_upgrade -----------------------------
(***************************************************************************)
(* Format versions: for every mixture of table revisions, the version      *)
(* predicates exclude each other, upgrading is idempotent, changes nothing *)
(* but revisions and times, and commutes with writing and reading.         *)
(***************************************************************************)
EXTENDS File, Templates
CONSTANT Deep
VARIABLES p, rv

Params == {[P0 EXCEPT !.v = v, !.an = an, !.tn = tn, !.dv = dv, !.cn = cn, !.pol = pol] :
   v \in {1, 2}, an \in {"A", ""}, tn \in {<<"S">>, <<"S", "T">>}, dv \in IF Deep THEN {0, 1, 3} ELSE {0, 1}, cn \in {"", "C"}, pol \in {0, 1}}
None0 == <<>>
Revisions == [{"tg", "arr", "wav", "vis", "vis2", "t3"} -> IF Deep THEN {1, 2, 3} ELSE {1, 2}]
SetRev(tabs, r) == [k \in DOMAIN tabs |-> [tabs[k] EXCEPT !.rev = r]]
DS == LET d == Tpl(p) IN IF rv = None0 THEN d ELSE
  [d EXCEPT !.tg.rev = rv["tg"], !.arr = SetRev(@, rv["arr"]), !.wav = SetRev(@, rv["wav"]), !.vis = SetRev(@, rv["vis"]),
            !.vis2 = SetRev(@, rv["vis2"]), !.t3 = SetRev(@, rv["t3"])]
Init == p \in Params /\ rv = None0
Next == rv = None0 /\ rv' \in Revisions /\ UNCHANGED p

(* everything but revisions and times *)
Bare(tabs) == [k \in DOMAIN tabs |-> [tabs[k] EXCEPT !.rev = 0]]
BareT(tabs) == [k \in DOMAIN tabs |-> [tabs[k] EXCEPT !.rev = 0, !.r = [q \in DOMAIN @ |-> [@[q] EXCEPT !.time = 0]]]]
Essence(d) == [d EXCEPT !.tg.rev = 0, !.arr = Bare(@), !.wav = Bare(@), !.vis = BareT(@), !.vis2 = BareT(@), !.t3 = BareT(@)]
(* a file whose tables have the revisions of the dataset; such a file read back is the dataset *)
Rev1Keys(h, r) == [h EXCEPT !.keys = [@ EXCEPT !["OI_REVN"] = r]]
Inv == LET d == DS  u == UpgradeAll(d)  h == V1Header(d, d.hdr) IN
  /\ ~(IsV1(d) /\ IsV2(d))
  /\ UpgradeAll(u) = u
  /\ Essence(u) = Essence(d)
  /\ Consistent(u)
  /\ Encode(u) = Encode(d)
  /\ Decode(Encode(u)) = Normal(u)
  /\ Decode(Encode(d)) = Normal(u)
  /\ IsV2(Decode(Encode(d)))
  /\ V1Header(d, h) = h /\ V1Header([d EXCEPT !.hdr = h], EmptyHeader) = V1Header(d, EmptyHeader)
  /\ IsV1(d) => h.origin = "UNKNOWN" /\ h.object # "" /\ IsIso(h.date_obs) /\ Day * IsoMjd(h.date_obs) <= MinMjd(d)
=============================================================================
