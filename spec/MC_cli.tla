------------------------------- MODULE MC_cli -------------------------------
(***************************************************************************)
(* Short sequences of commands over a few files: no command touches a file *)
(* other than its output, none replaces a file without being told to,      *)
(* failing ones change nothing, and what the successful ones write is      *)
(* readable, current, consistent and what the operations promise.          *)
(***************************************************************************)
EXTENDS Cli, Criteria, Templates
CONSTANTS Deep, MaxCmds
VARIABLES disk, start, last, hist
vars == <<disk, start, last, hist>>

(* what a file may hold at first *)
Kinds0 == {[k |-> "v2", q |-> [P0 EXCEPT !.cn = "C", !.pol = 1, !.opt = 1]], [k |-> "v2", q |-> [P0 EXCEPT !.av = 1, !.tn = <<"T", "S">>, !.dv = 1, !.wv = 3]],
           [k |-> "v1", q |-> [P0 EXCEPT !.v = 1]], [k |-> "v1", q |-> [P0 EXCEPT !.v = 1, !.an = ""]],
           [k |-> "mixed", q |-> [P0 EXCEPT !.kinds = {"vis2", "t3"}]],
           [k |-> "notarget", q |-> P0], [k |-> "junk", q |-> P0], [k |-> "absent", q |-> P0]}
DropKey(h, x) == [h EXCEPT !.keys = [y \in DOMAIN @ \ {x} |-> @[y]]]
OldKinds == {"tg", "arr", "wav", "vis", "vis2", "t3"}
Old(h) == \E kd \in OldKinds : IsTab(h, kd)
AsV1(f) == [k \in DOMAIN f |-> IF k = 1 THEN DropKey(f[k], "CONTENT") ELSE IF Old(f[k]) THEN [f[k] EXCEPT !.keys["OI_REVN"] = 1] ELSE f[k]]
(* only the target table is old, and the header does not say which version *)
AsMixed(f) == [k \in DOMAIN f |-> IF k = 1 THEN DropKey(f[k], "CONTENT") ELSE IF IsTab(f[k], "tg") THEN [f[k] EXCEPT !.keys["OI_REVN"] = 1] ELSE f[k]]
FileOf(x) == LET f == Encode(Tpl(x.q)) IN
  CASE x.k = "v2" -> f [] x.k = "v1" -> AsV1(f) [] x.k = "mixed" -> AsMixed(f)
    [] x.k = "notarget" -> SelectSeq(f, LAMBDA h : ~IsTab(h, "tg")) [] x.k = "junk" -> <<>>
Begun(s) == [n \in {m \in DOMAIN s : s[m].k # "absent"} |-> FileOf(s[n])]

FA == "a.fits"  FB == "b.fits"  FC == "c.fits"  FX == "absent.fits"
Cmd0 == [tool |-> "check", argsok |-> 1, in |-> <<FA>>, out |-> "", opts |-> <<>>, clobber |-> 0, hdr |-> <<"", "", "">>]
O(n, s, v) == [o |-> n, s |-> s, n |-> v]
OptSets == {<<>>, <<O("target-id", "", 1), O("accept-flagged", "", 0)>>, <<O("insname", "J", 0), O("insname", "I", 0), O("wave-min", "", 50000)>>}
           \cup IF Deep THEN {<<O("accept-vis", "", 0), O("accept-flux", "", 0)>>, <<O("arrname", "zz", 0)>>, <<O("bas-max", "", 50), O("snr-min", "", 8)>>} ELSE {}
Hdr0 == <<"ESO", "me", "LOW">>
Cmds ==
  {[Cmd0 EXCEPT !.tool = "merge", !.in = i, !.out = o] : i \in {<<FA, FB>>, <<FB, FA>>, <<FA, FA>>, <<FA, FC>>, <<FC, FA, FB>>, <<FA, FX>>}, o \in {FA, FC}}
  \cup {[Cmd0 EXCEPT !.tool = "filter", !.opts = f, !.in = <<i>>, !.out = o, !.clobber = cl] : f \in OptSets, i \in {FA, FC, FX}, o \in {FA, FC}, cl \in {0, 1}}
  \cup {[Cmd0 EXCEPT !.tool = "upgrade", !.in = <<i>>, !.out = o, !.hdr = Hdr0] : i \in {FA, FC, FX}, o \in {FA, FC}}
  \cup {[Cmd0 EXCEPT !.in = <<i>>] : i \in {FA, FC, FX}}
  \cup {[Cmd0 EXCEPT !.tool = t, !.argsok = 0, !.out = IF t = "check" THEN "" ELSE FC, !.hdr = Hdr0] : t \in {"merge", "filter", "upgrade", "check"}}

Init == /\ start \in {[n \in {FA, FB} |-> IF n = FA THEN x ELSE y] : x \in Kinds0, y \in IF Deep THEN Kinds0 ELSE {z \in Kinds0 : z.k \in {"v1", "junk"} \/ z.q.av = 1}}
        /\ disk = Begun(start) /\ last = [cmd |-> Cmd0, v |-> "none"] /\ hist = <<>>
Result(c) == LET x == CliData(disk, c) IN IF c.tool = "merge" THEN CliResult(x, c, MergeFn(x)) ELSE CliResult(x, c, <<>>)
Run(c) == LET v == CliVerdict(disk, c, CliData(disk, c)) IN
  /\ disk' = IF v = "ok" /\ CliWrites(c) THEN (c.out :> Encode(Result(c))) @@ [n \in DOMAIN disk \ {c.out} |-> disk[n]] ELSE disk
  /\ last' = [cmd |-> c, v |-> v]
  /\ hist' = Append(hist, c) /\ UNCHANGED start
Next == Len(hist) < MaxCmds /\ \E c \in Cmds : Run(c)
Spec == Init /\ [][Next]_vars
View == <<disk, start, last, Len(hist)>>

(***************************************************************************)
(* Every command is defined; written files are sound                       *)
(***************************************************************************)
Defined == last.v # "any"
New == {n \in DOMAIN disk : n \notin DOMAIN start \/ start[n].k = "absent" \/ disk[n] # FileOf(start[n])}
Sound == \A n \in New : LET d == Decode(disk[n]) IN
  FileReadable(disk[n]) /\ IsV2(d) /\ Consistent(d) /\ d.n = Count(d) /\ (d.tg.t # <<>> => Encode(d) = disk[n])

(* every step: what may change, and what must have *)
Step == LET c == last'.cmd  v == last'.v IN
  /\ \A n \in DOMAIN disk : n \in DOMAIN disk' /\ (disk'[n] # disk[n] => n = c.out /\ c.tool = "filter" /\ c.clobber = 1 /\ v = "ok")
  /\ DOMAIN disk' \subseteq DOMAIN disk \cup (IF v = "ok" /\ CliWrites(c) THEN {c.out} ELSE {})
  /\ (v = "ok" /\ CliWrites(c)) <=> (c.out # "" /\ c.out \in DOMAIN disk' /\ v = "ok")
  /\ v \in {"usage", "fail"} => disk' = disk /\ CliExit(v) # 0
  /\ (\E k \in DOMAIN c.in : c.in[k] \notin DOMAIN disk) => v # "ok"
  /\ (v = "ok" /\ c.tool = "filter") =>
       LET o == Decode(disk'[c.out])  f == OptFilter(c.opts)  d == Decode(disk[c.in[1]]) IN
       FilterSound(o) /\ FilterFn(o, Again(f)) = o /\ (c.opts = <<>> => DefaultKeeps([d EXCEPT !.tg.rev = 2], [o EXCEPT !.tg.rev = 2]) \/ ~IsV2(d))
  /\ (v = "ok" /\ c.tool = "merge") =>
       LET o == Decode(disk'[c.out])  ins == CliData(disk, c) IN MergeRefs(ins, o) /\ MergeDedup(ins, o) /\ MergeConserves(ins, o)
  /\ (v = "ok" /\ c.tool = "upgrade") =>
       LET o == Decode(disk'[c.out])  d == Decode(disk[c.in[1]]) IN
       /\ o.hdr.origin = c.hdr[1] /\ o.hdr.telescop = d.hdr.telescop /\ IsV2(o) /\ ~IsV2(d)
       /\ \A kd \in {"vis", "vis2", "t3"} : Len(o[kd]) = Len(d[kd]) /\ \A k \in DOMAIN d[kd] : o[kd][k].r = [q \in DOMAIN d[kd][k].r |-> [d[kd][k].r[q] EXCEPT !.time = 0]]
  (* the order of inputs decides names and order only: never whether it works, nor how much there is *)
  /\ c.tool = "merge" => LET rev == [c EXCEPT !.in = [k \in DOMAIN c.in |-> c.in[Len(c.in) + 1 - k]]] IN
       /\ CliVerdict(disk, rev, CliData(disk, rev)) = v
       /\ (v = "ok" => LET o == Decode(disk'[c.out])  r == MergeFn(CliData(disk, rev)) IN
             o.n = r.n /\ {o.tg.t[k].name : k \in DOMAIN o.tg.t} = {r.tg.t[k].name : k \in DOMAIN r.tg.t})
  /\ c.tool = "check" => (v = "ok" => LET r == CliReport(Decode(disk[c.in[1]])) IN r.passed <=> r.n = 0)
StepOK == [][Step]_vars
=============================================================================
