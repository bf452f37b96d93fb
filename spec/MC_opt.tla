------------------------------- MODULE MC_opt -------------------------------
(***************************************************************************)
(* Filter options: for every sequence of options, only the criteria named  *)
(* differ from the default, the last value given for each counts, and the  *)
(* order of different options does not matter.                             *)
(***************************************************************************)
EXTENDS Text
CONSTANTS Deep, MaxOpts
VARIABLE opts

O(n, s, v) == [o |-> n, s |-> s, n |-> v]
All == {O("arrname", "A*", 0), O("arrname", "", 0), O("insname", "[IJ]", 0), O("insname", "I", 0), O("corrname", "", 0), O("corrname", "?", 0),
        O("target-id", "", 1), O("target-id", "", 3), O("mjd-min", "", 50001 * Day), O("mjd-min", "", 50002 * Day + 512), O("mjd-max", "", 50001 * Day),
        O("wave-min", "", 40000), O("wave-min", "", 0), O("wave-max", "", 50000), O("bas-min", "", 50), O("bas-min", "", -1), O("bas-max", "", 100), O("bas-max", "", 50),
        O("snr-min", "", 8), O("snr-min", "", -400), O("snr-max", "", 40), O("accept-vis", "", 0), O("accept-vis", "", 1), O("accept-vis2", "", 0),
        O("accept-t3amp", "", 0), O("accept-t3phi", "", 0), O("accept-t3phi", "", 1), O("accept-flux", "", 0), O("accept-flagged", "", 0), O("accept-flagged", "", 1)}
Init == opts = <<>>
Next == Len(opts) < MaxOpts /\ \E x \in All : opts' = Append(opts, x)
Spec == Init /\ [][Next]_opts

(* the criterion that each option is about *)
Field == [x \in {"arrname", "insname", "corrname", "target-id", "mjd-min", "mjd-max", "wave-min", "wave-max", "bas-min", "bas-max", "snr-min", "snr-max",
                 "accept-vis", "accept-vis2", "accept-t3amp", "accept-t3phi", "accept-flux", "accept-flagged"} |->
  CASE x = "arrname" -> <<"arr", 0>> [] x = "insname" -> <<"ins", 0>> [] x = "corrname" -> <<"cor", 0>> [] x = "target-id" -> <<"tid", 0>>
    [] x = "mjd-min" -> <<"mjd", 1>> [] x = "mjd-max" -> <<"mjd", 2>> [] x = "wave-min" -> <<"wave", 1>> [] x = "wave-max" -> <<"wave", 2>>
    [] x = "bas-min" -> <<"bas", 1>> [] x = "bas-max" -> <<"bas", 2>> [] x = "snr-min" -> <<"snr", 1>> [] x = "snr-max" -> <<"snr", 2>>
    [] x = "accept-vis" -> <<"vis", 0>> [] x = "accept-vis2" -> <<"vis2", 0>> [] x = "accept-t3amp" -> <<"t3amp", 0>> [] x = "accept-t3phi" -> <<"t3phi", 0>>
    [] x = "accept-flux" -> <<"flux", 0>> [] x = "accept-flagged" -> <<"flagged", 0>>]
Crit1(f, w) == IF w[2] = 0 THEN f[w[1]] ELSE f[w[1]][w[2]]
Said(o) == {k \in DOMAIN opts : opts[k].o = o}
LastOf(S) == CHOOSE k \in S : \A m \in S : m <= k
Strings == {"arrname", "insname", "corrname"}
Inv == LET f == OptFilter(opts) IN
  /\ DOMAIN f = DOMAIN FDef
  /\ \A o \in DOMAIN Field :
       IF Said(o) = {} THEN Crit1(f, Field[o]) = Crit1(FDef, Field[o])
       ELSE LET x == opts[LastOf(Said(o))] IN IF o \in Strings THEN Crit1(f, Field[o]) = x.s ELSE Crit1(f, Field[o]) = x.n
  /\ f.uv = FDef.uv
  (* neighbours may be exchanged unless they are about the same criterion *)
  /\ \A k \in 1..(Len(opts) - 1) : opts[k].o # opts[k + 1].o =>
       OptFilter([opts EXCEPT ![k] = opts[k + 1], ![k + 1] = opts[k]]) = f
  (* what is overridden may be left out *)
  /\ \A k \in DOMAIN opts : (\E m \in Said(opts[k].o) : m > k) => OptFilter(SubSeq(opts, 1, k - 1) \o SubSeq(opts, k + 1, Len(opts))) = f
=============================================================================
