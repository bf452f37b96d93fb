-------------------------------- MODULE Demo --------------------------------
(***************************************************************************)
(* The demonstration program oitable-demo: it writes the OIFITS file that  *)
(* a text describes, then lists the data tables of an OIFITS file, looking *)
(* up the tables they refer to.                                            *)
(***************************************************************************)
EXTENDS File

DemoHeader(d) ==
  [origin |-> "ESO", date |-> "", date_obs |-> d.vis[1].date, content |-> "OIFITS2", telescop |-> d.arr[1].name,
   instrume |-> d.wav[1].name, observer |-> "Astronomer", insmode |-> "Low_JHK", object |-> d.tg.t[1].name,
   referenc |-> "", author |-> "", prog_id |-> "", procsoft |-> "", obstech |-> ""]
(* d holds one table of every kind *)
DemoFile(d) == <<HeaderHdu(DemoHeader(d)), TargetHdu(d.tg), VisHdu(d.vis[1], 1), Vis2Hdu(d.vis2[1], 1), T3Hdu(d.t3[1], 1),
                 FluxHdu(d.flux[1], 1), ArrayHdu(d.arr[1], 1), WaveHdu(d.wav[1], 1), CorrHdu(d.cor[1], 1), PolHdu(d.pol[1], 1)>>

(* the listing: stops with an error at the first unusable or missing table *)
Found(file, kind, nm) == ReadNamed(file, kind, nm).st = "ok"
ListOne(file, kind, k, acc) ==
  IF ~acc.ok THEN acc
  ELSE IF ~Readable(kind, file[k]) THEN [acc EXCEPT !.ok = FALSE]
  ELSE LET t == DecTab(kind, file[k]) IN
       IF kind = "pol" THEN [ok |-> Found(file, "arr", t.arr), l |-> Append(acc.l, [k |-> "OI_INSPOL", arr |-> t.arr, ins |-> "", cor |-> ""])]
       ELSE [ok |-> Found(file, "wav", t.ins) /\ (t.arr # "" => Found(file, "arr", t.arr)) /\ (t.cor # "" => Found(file, "cor", t.cor)),
             l |-> Append(acc.l, [k |-> ExtName(kind), arr |-> t.arr, ins |-> t.ins, cor |-> t.cor])]
ListKind(file, kind, acc) ==
  FoldLeft(LAMBDA a, k : IF IsTab(file[k], kind) THEN ListOne(file, kind, k, a) ELSE a, acc, [k \in DOMAIN file |-> k])
Listing(file) ==
  IF ReadFirst(file, "tg").st # "ok" THEN [ok |-> FALSE, l |-> <<>>]
  ELSE FoldLeft(LAMBDA a, kind : ListKind(file, kind, a), [ok |-> TRUE, l |-> <<>>], <<"vis", "vis2", "t3", "flux", "pol">>)
=============================================================================
