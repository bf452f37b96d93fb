-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of a recorded implementation trace against the specification *)
(* The trace is a sequence of events; every event is an operation of the   *)
(* library with its observable outcome.  State:                            *)
(*   i     position in the trace                                           *)
(*   mem   datasets in memory (slot -> dataset)                            *)
(*   disk  files (name -> HDU sequence)    fh/pos: open file and cursor    *)
(*   its   iterators (id -> remaining expected sequence)                   *)
(*   blk   storage in use at the moments when no dataset existed           *)
(* For each event the set of broken obligations (tags) is computed; the    *)
(* state continues from what was observed, so that one deviation is        *)
(* reported once.                                                          *)
(***************************************************************************)
EXTENDS OIData, Dates, Merge, Filter, Iter, Check, File, Warn, Demo, Text, Cli, Storage, Json, IOUtils

VARIABLES i, mem, disk, its, fh, pos, blk, hush
vars == <<i, mem, disk, its, fh, pos, blk, hush>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Broken(tag, ok) == IF ok THEN {} ELSE {tag}

(* no dataset listed as observed after the operation has changed *)
Unmod(e) == \A s \in DOMAIN e.post \ {"_"} : s \in DOMAIN mem => e.post[s] = mem[s]

(***************************************************************************)
(* Obligations per operation                                               *)
(***************************************************************************)
JWrite(e) ==
  IF e.st0 # 0 THEN Broken("status", e.st = e.st0 /\ e.rv = e.st0
         /\ IF e.file \in DOMAIN disk THEN e.fhash = disk[e.file].hash ELSE e.fsize = -1)
  ELSE IF e.file \in DOMAIN disk
       THEN Broken("overwrite", e.st # 0 /\ e.rv = e.st /\ e.fhash = disk[e.file].hash)
  ELSE IF e.creatable = 0 THEN Broken("status", e.st # 0 /\ e.rv = e.st)
  ELSE IF e.creatable = 2          (* the device may fill up: success must mean a complete file *)
       THEN Broken(IF e.fsize >= e.full - 4096 THEN "status.tail" ELSE "status",
                   e.rv = e.st /\ (e.st = 0 /\ e.parsed >= 0 => e.parsed = 1 /\ e.hdus = Encode(mem[e.slot])))
  ELSE Broken("write", e.st = 0 /\ e.rv = 0)
       \cup (IF e.st = 0 /\ e.parsed >= 0 THEN Broken("form", e.parsed = 1 /\ e.hdus = Encode(mem[e.slot])) ELSE {})
       \cup (IF e.st = 0 THEN Broken("warn", SameBag(e.said, WriteAllReports(mem[e.slot]))) ELSE {})

JRead(e) ==
  IF e.st0 # 0 THEN Broken("status", e.st = e.st0 /\ e.rv = e.st0 /\ e.touched = 0)
  ELSE IF e.file \notin DOMAIN disk THEN Broken("status", e.st # 0 /\ e.rv = e.st)
  ELSE IF ~FileReadable(disk[e.file].hdus) THEN Broken("badfile", e.st # 0 /\ e.rv = e.st)
  ELSE IF e.st # 0 THEN {"read"}
  ELSE Broken("read", e.rv = 0 /\ e.obs = Decode(disk[e.file].hdus))
       \cup Broken("warn", ReadReportsOK(disk[e.file].hdus, disk[e.file].sums, e.said))

JMerge(e) ==
  LET ins == [k \in DOMAIN e.in |-> mem[e.in[k]]] IN
  IF ~Mergeable(ins) THEN {"skip"}
  ELSE LET o == e.obs IN
       Broken("merge.data", MergeConserves(ins, o)) \cup Broken("merge.refs", MergeRefs(ins, o))
       \cup Broken("merge.dedup", MergeDedup(ins, o)) \cup Broken("merge.header", MergeHeaderOK(ins, o) /\ MergeRevs(o))
       \cup Broken("merge.all", o = ExpectedMerge(ins, o))

JFilter(e) ==
  LET d == mem[e.in] IN
  IF ~Consistent(d) THEN {"skip"}
  ELSE LET x == FilterFn(d, e.flt)  o == e.obs IN
       Broken("filter.sel", o = x)
       \cup Broken("filter.sound", FilterSound(o))
       \cup (IF e.isdef = 1 \/ e.flt = FDef THEN Broken("filter.default", DefaultKeeps(d, o)) ELSE {})
       \cup (IF "again" \in DOMAIN e THEN Broken("filter.again", o = d) ELSE {})

IterMatch(x, y, null) ==
  /\ y.ok = 1 /\ y.ew = x.ew /\ y.uv = x.uv
  /\ null = 0 => y.ext = x.ext /\ y.tab = x.tab /\ y.rec = x.rec /\ y.prec = x.rec /\ y.wv = x.wv
JIterNext(e) ==
  IF e.id \notin DOMAIN its THEN {"skip"}
  ELSE LET s == its[e.id] IN
       Broken("iter", \A k \in DOMAIN e.y :
          IF k <= Len(s) THEN IterMatch(s[k], e.y[k], e.null) ELSE e.y[k].ok = 0)

JCheck(e) ==
  LET d == mem[e.slot] IN
  UNION {LET r == e.res[nm]  x == Report(Breaches(d, nm)) IN
         Broken("check." \o nm, r.ret = x.level /\ r.level = x.level /\ r.num = x.num /\ r.loc = x.loc)
         \cup Broken("check.text", (r.text = 1) = (x.num > 0)
                       /\ (x.num > 0 => r.shown = x.num /\ r.lines = x.loc /\ r.desc # ""))
         : nm \in CheckNames}

LookupRes(d, q) ==
  CASE q.k = "arr" -> LookupArray(d, q.name) - 1
    [] q.k = "wav" -> LookupWave(d, q.name) - 1
    [] q.k = "cor" -> LookupCorr(d, q.name) - 1
    [] q.k = "tid" -> LookupTarget(d, q.id) - 1
    [] q.k = "tname" -> LookupTargetName(d, q.name) - 1
    [] q.k = "elem" -> LET x == LookupElement(d, q.name, q.id) IN
                       IF x = <<0, 0>> THEN -1 ELSE (x[1] - 1) * 1000 + x[2] - 1
JLookup(e) == LET d == mem[e.slot] IN
  UNION {Broken("lookup." \o e.q[k].k, e.q[k].res = LookupRes(d, e.q[k])) : k \in DOMAIN e.q}

JQuery(e) == LET d == mem[e.slot] IN
  Broken("count", e.nvis = Unflagged(d.vis) /\ e.nvis2 = Unflagged(d.vis2) /\ e.nvis2b = e.nvis2 /\ e.nt3 = Unflagged(d.t3))
  \cup Broken("version", (e.one = 1) = IsV1(d) /\ (e.two = 1) = IsV2(d))
  \cup Broken("atomic", \A k \in DOMAIN e.atom : (e.atom[k].r = 1) = IsAtomic(d, e.atom[k].d))

StOf(st) == IF st = 0 THEN "ok" ELSE IF st = 107 THEN "eof" ELSE "error"
TRes(e) == IF e.op = "tname" THEN ReadNamed(fh.hdus, e.kind, e.name)
           ELSE IF e.kind = "tg" THEN ReadFirst(fh.hdus, "tg") ELSE ReadNext(fh.hdus, pos, e.kind)
JTRead(e) ==
  IF e.st0 # 0 THEN Broken("status", e.st = e.st0 /\ e.rv = e.st0 /\ e.hdu = pos)
  ELSE IF e.kind = "hdr" THEN Broken("tread", e.st = 0 /\ e.rv = 0 /\ e.hdu = 1 /\ e.tab = DecHeader(fh.hdus[1]))
                              \cup Broken("warn", SameBag(e.said, Reports(fh.hdus, fh.sums, 1)))
  ELSE LET x == TRes(e) IN
       Broken("tread", StOf(e.st) = x.st /\ e.rv = e.st /\ (x.pos > 0 => e.hdu = x.pos)
              /\ (e.st = 0 => e.tab = DecTab(e.kind, fh.hdus[x.pos])))
       \cup Broken("tstatus", StOf(e.st) = x.st /\ e.rv = e.st)
       \cup Broken("warn", CASE x.st = "ok" -> SameBag(e.said, Reports(fh.hdus, fh.sums, x.pos))
                             [] x.st = "eof" -> e.said = <<>>
                             [] OTHER -> TRUE)
JTWrite(e) ==
  IF e.st0 # 0 THEN Broken("status", e.st = e.st0 /\ e.rv = e.st0 /\ e.nhdu = Len(fh.hdus))
  ELSE Broken("twrite", e.st = 0 /\ e.rv = 0
              /\ e.nhdu = Len(fh.hdus) + (IF e.kind = "hdr" /\ Len(fh.hdus) > 0 THEN 0 ELSE 1))
       \cup (IF e.st = 0 /\ e.kind # "hdr" THEN Broken("warn", SameBag(e.said, WriteReports(
                 IF e.kind = "tg" THEN mem[e.slot].tg ELSE mem[e.slot][e.kind][e.idx + 1], e.kind))) ELSE {})

JDates(e) ==
  IF e.op = "mjd2date"
  THEN Broken("mjd2date", \A k \in DOMAIN e.q : LET x == e.q[k] IN <<x[2], x[3], x[4]>> = DateOf(x[1]))
  ELSE Broken("date2mjd", \A k \in DOMAIN e.q : LET x == e.q[k] IN x[4] = Mjd(x[1], x[2], x[3]))

(* command-line utilities *)
(* no file other than the output is touched *)
CliOthers(e) == \A k \in DOMAIN e.args : LET x == e.args[k] IN
  x.name # e.out => IF x.name \in DOMAIN disk THEN x.fhash = disk[x.name].hash ELSE x.fsize = -1
JCli(e) == Broken("overwrite", CliOthers(e)) \cup
  LET D == TLCEval([n \in DOMAIN disk |-> disk[n].hdus])
      x == CliData(D, e)
      v == CliVerdict(D, e, x)
      exists == e.out \in DOMAIN disk
      untouched == IF exists THEN e.fhash = disk[e.out].hash ELSE e.fsize = -1
      T(ok) == Broken("cli." \o e.tool, ok)
      text(ok) == Broken("cli.text", ok)
  IN
  CASE v = "any" -> {"skip"}
    [] v \in {"usage", "fail"} -> T(e.rc = CliExit(v) /\ untouched) \cup (IF exists THEN Broken("overwrite", e.rc # 0 /\ untouched) ELSE {})
    [] ~CliWrites(e) -> LET r == CliReport(x[1]) IN
         T(e.rc = 0 /\ (e.allpassed = 1) = r.passed /\ e.nres = r.n) \cup text(SummaryOK(x[1], e.sums[1]))
    [] OTHER -> T(e.rc = 0 /\ e.rst = 0) \cup (IF e.rst # 0 THEN {} ELSE
         LET o == CliResult(x, e, e.obs) IN
         T(e.obs = Written(o)) \cup
         CASE e.tool = "merge" -> text(SummaryOK([o EXCEPT !.hdr.date = e.sums[1].hdr[2]], e.sums[1]))
           [] e.tool = "filter" -> text(SummaryOK(x[1], e.sums[1]) /\ SummaryOK(o, e.sums[2]) /\ FilterTextOK(OptFilter(e.opts), e.fltsum))
           [] OTHER -> {})

(* the demonstration program *)
JDemo(e) ==
  IF e.out \in DOMAIN disk THEN Broken("demo", e.rc # 0 /\ e.fhash = disk[e.out].hash)
  ELSE LET f == DemoFile(e.ds)
           known == e.in = e.out \/ e.in \in DOMAIN disk
           r == IF known THEN Listing(IF e.in = e.out THEN f ELSE disk[e.in].hdus) ELSE [ok |-> FALSE, l |-> <<>>] IN
       Broken("demo", e.parsed = 1 /\ e.hdus = f) \cup Broken("demo.list", e.lines = r.l /\ (e.rc = 0) = r.ok)

(* operations on a dataset that an earlier, already reported, failure has left without a meaning are not judged *)
Uses(e) == CASE e.op \in {"write", "iterinit", "check", "lookup", "query", "sethdr", "upgrade", "twrite", "summary"} -> {e.slot}
             [] e.op \in {"filter", "dup"} -> {e.in}
             [] e.op = "merge" -> {e.in[k] : k \in DOMAIN e.in}
             [] OTHER -> {}
Known(e) == /\ Uses(e) \subseteq DOMAIN mem
            /\ e.op = "fopen" /\ e.mode = 1 => e.file \in DOMAIN disk
            /\ e.op \in {"tnext", "tname", "twrite", "fclose", "fseek"} => fh # <<>>

Tags(e) ==
  IF ~Known(e) THEN {"skip"} ELSE
  (CASE e.op \in {"begin", "end", "build", "putfile", "fopen", "fseek", "limit", "move"} -> {}
    [] e.op = "fclose" -> IF e.mode = 0 /\ e.parsed >= 0 THEN Broken("form", e.parsed = 1 /\ e.hdus = fh.hdus) ELSE {}
    [] e.op = "crash" -> {"crash." \o e.during}
    [] e.op = "init" -> Broken("init", e.obs = EmptyDataset)
    [] e.op \in {"free", "scribble", "hush"} -> {}
    [] e.op = "storage" -> IF DOMAIN mem # {} THEN {"skip"} ELSE Broken("leak", ~Growing(Append(blk, e.blocks)))
    [] e.op = "dump" -> Broken("dump", e.slot \in DOMAIN mem => e.obs = mem[e.slot])
    [] e.op = "write" -> JWrite(e) [] e.op = "read" -> JRead(e)
    [] e.op = "merge" -> JMerge(e) [] e.op = "filter" -> JFilter(e)
    [] e.op = "iterinit" -> Broken("iterflt", e.nullf = 0 \/ e.flt = FDef)
    [] e.op = "iternext" -> JIterNext(e)
    [] e.op = "check" -> JCheck(e) [] e.op = "lookup" -> JLookup(e) [] e.op = "query" -> JQuery(e)
    [] e.op = "sethdr" -> Broken("sethdr", e.obs = [mem[e.slot] EXCEPT !.hdr = V1Header(mem[e.slot], @)])
    [] e.op = "dup" -> Broken("dup", e.obs = mem[e.in])
    [] e.op = "upgrade" -> Broken("upgrade", e.obs = UpgradeAll(mem[e.slot]))
    [] e.op \in {"tnext", "tname"} -> JTRead(e) [] e.op = "twrite" -> JTWrite(e)
    [] e.op \in {"mjd2date", "date2mjd"} -> JDates(e)
    [] e.op = "optparse" -> Broken("optparse", OptParseOK(e))
    [] e.op = "cli" -> JCli(e) [] e.op = "demo" -> JDemo(e)
    [] e.op = "summary" -> Broken("summary", SummaryOK(mem[e.slot], e.sum))
    [] e.op = "fmtfilter" -> Broken("fmtfilter", FilterTextOK(e.flt, e.sum)))
  \cup (IF "errs" \in DOMAIN e /\ ~(e.op = "write" /\ e.creatable = 2) THEN Broken("errmsg", ErrorsOK(e.errs, hush, e.st0, e.st, e.op = "tnext" /\ e.st = 107,
              IF e.op = "read" /\ e.st = 0 /\ e.file \in DOMAIN disk THEN Len(Skips(disk[e.file].hdus)) ELSE 0)) ELSE {})
  \cup (IF "post" \in DOMAIN e THEN Broken("unmod." \o e.op, Unmod(e)) ELSE {})

(***************************************************************************)
(* State after the event                                                   *)
(***************************************************************************)
Init == i = 0 /\ mem = <<>> /\ disk = <<>> /\ its = <<>> /\ fh = <<>> /\ pos = 0 /\ blk = <<>> /\ hush = 1

SetMem(s, d) == mem' = (s :> d) @@ mem
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Effect(e) ==
  CASE ~Known(e) -> /\ IF e.op \in {"filter", "merge", "sethdr", "dup", "upgrade"} THEN SetMem(e.slot, e.obs) ELSE UNCHANGED mem
                    /\ its' = IF e.op = "iterinit" THEN Without(its, e.id) ELSE its
                    /\ UNCHANGED <<disk, fh, pos>>
    [] e.op = "begin" -> mem' = <<>> /\ disk' = <<>> /\ its' = <<>> /\ fh' = <<>> /\ pos' = 0
    [] e.op \in {"build", "init", "dump", "merge", "filter", "sethdr", "dup", "upgrade"} ->
         SetMem(e.slot, e.obs) /\ UNCHANGED <<disk, its, fh, pos>>
    [] e.op \in {"free", "scribble"} -> mem' = Without(mem, e.slot) /\ UNCHANGED <<disk, its, fh, pos>>
    [] e.op = "putfile" -> disk' = (e.file :> [hdus |-> e.hdus, sums |-> e.sums, hash |-> e.fhash]) @@ disk /\ UNCHANGED <<mem, its, fh, pos>>
    [] e.op = "move" ->
         /\ disk' = IF e.rc = 0 /\ e.file \in DOMAIN disk THEN (e.to :> disk[e.file]) @@ Without(disk, e.file) ELSE disk
         /\ UNCHANGED <<mem, its, fh, pos>>
    [] e.op = "write" ->
         /\ IF e.st = 0 THEN disk' = (e.file :> [hdus |-> Encode(mem[e.slot]), sums |-> <<>>, hash |-> e.fhash]) @@ disk
            ELSE UNCHANGED disk
         /\ UNCHANGED <<mem, its, fh, pos>>
    [] e.op = "read" -> (IF e.st = 0 THEN SetMem(e.slot, e.obs) ELSE UNCHANGED mem) /\ UNCHANGED <<disk, its, fh, pos>>
    [] e.op = "iterinit" ->
         /\ its' = (IF Consistent(mem[e.slot])
                    THEN (e.id :> IterSeq(mem[e.slot], e.kind, IF e.nullf = 1 THEN FDef ELSE e.flt)) @@ its
                    ELSE Without(its, e.id))
         /\ UNCHANGED <<mem, disk, fh, pos>>
    [] e.op = "iternext" ->
         /\ its' = IF e.id \in DOMAIN its
                   THEN [its EXCEPT ![e.id] = IF Len(e.y) >= Len(@) THEN <<>> ELSE SubSeq(@, Len(e.y) + 1, Len(@))]
                   ELSE its
         /\ UNCHANGED <<mem, disk, fh, pos>>
    [] e.op = "fopen" ->
         /\ fh' = [name |-> e.file, hdus |-> IF e.mode = 0 THEN <<>> ELSE disk[e.file].hdus,
                  sums |-> IF e.mode = 0 THEN <<>> ELSE disk[e.file].sums]
         /\ pos' = IF e.mode = 0 THEN 0 ELSE 1
         /\ UNCHANGED <<mem, disk, its>>
    [] e.op = "fclose" -> disk' = (fh.name :> [hdus |-> fh.hdus, sums |-> fh.sums, hash |-> e.fhash]) @@ disk /\ fh' = <<>> /\ pos' = 0 /\ UNCHANGED <<mem, its>>
    [] e.op = "fseek" -> pos' = e.hdu /\ UNCHANGED <<mem, disk, its, fh>>
    [] e.op \in {"tnext", "tname"} -> pos' = e.hdu /\ UNCHANGED <<mem, disk, its, fh>>
    [] e.op = "twrite" ->
         /\ fh' = IF e.st # 0 THEN fh
                  ELSE [fh EXCEPT !.hdus = IF e.kind = "hdr" THEN <<HeaderHdu(mem[e.slot].hdr)>> \o Tail(@ \o IF @ = <<>> THEN <<0>> ELSE <<>>)
                                           ELSE Append(@, HduOf(mem[e.slot], e.kind, e.idx + 1, e.extver))]
         /\ UNCHANGED <<mem, disk, its, pos>>
    [] e.op = "demo" ->
         /\ disk' = (IF e.out \in DOMAIN disk THEN disk ELSE (e.out :> [hdus |-> DemoFile(e.ds), sums |-> <<>>, hash |-> e.fhash]) @@ disk)
         /\ UNCHANGED <<mem, its, fh, pos>>
    [] e.op = "cli" ->
         /\ IF e.rc = 0 /\ e.out # "" /\ e.rst = 0
            THEN disk' = (e.out :> [hdus |-> Encode(e.obs), sums |-> <<>>, hash |-> e.fhash]) @@ disk ELSE UNCHANGED disk
         /\ UNCHANGED <<mem, its, fh, pos>>
    [] OTHER -> UNCHANGED <<mem, disk, its, fh, pos>>

(* what the specification expects, for reports (environment variable EXPLAIN) *)
Explain(e) ==
  CASE e.op = "read" /\ e.file \in DOMAIN disk -> Decode(disk[e.file].hdus)
    [] e.op = "write" -> Encode(mem[e.slot])
    [] e.op = "fclose" -> fh.hdus
    [] e.op = "demo" -> DemoFile(e.ds)
    [] e.op = "upgrade" -> UpgradeAll(mem[e.slot])
    [] e.op = "dup" -> mem[e.in]
    [] e.op = "filter" -> FilterFn(mem[e.in], e.flt)
    [] e.op = "merge" -> ExpectedMerge([k \in DOMAIN e.in |-> mem[e.in[k]]], e.obs)
    [] e.op = "check" -> [nm \in CheckNames |-> Report(Breaches(mem[e.slot], nm))]
    [] e.op = "lookup" -> [k \in DOMAIN e.q |-> LookupRes(mem[e.slot], e.q[k])]
    [] e.op = "iternext" /\ e.id \in DOMAIN its -> its[e.id]
    [] e.op \in {"tnext", "tname"} /\ e.kind # "hdr" -> LET x == TRes(e) IN
         [r |-> x, t |-> IF x.st = "ok" THEN DecTab(e.kind, fh.hdus[x.pos]) ELSE <<>>]
    [] e.op = "cli" /\ e.tool = "check" /\ e.argsok = 1 ->
         LET d == Decode(disk[e.in[1]].hdus) IN [nm \in CheckNames |-> Report(Breaches(d, nm))]
    [] OTHER -> 0

Next == /\ i < Len(Log)
        /\ i' = i + 1
        /\ LET e == Log[i']  t == Tags(e) IN
             /\ t # {} => PrintT("BAD " \o ToJson([i |-> i', tags |-> SetToSeq(t)]))
             /\ (t # {} /\ "EXPLAIN" \in DOMAIN IOEnv) => PrintT("EXP " \o ToJson([i |-> i', x |-> Explain(e)]))
             /\ Effect(e)
             /\ blk' = IF e.op = "begin" THEN <<>> ELSE IF e.op = "storage" /\ DOMAIN mem = {} THEN Append(blk, e.blocks) ELSE blk
             /\ hush' = IF e.op = "begin" THEN 1 ELSE IF e.op = "hush" THEN e.n ELSE hush
        /\ i' = Len(Log) => PrintT("DONE " \o ToString(i'))
Spec == Init /\ [][Next]_vars
=============================================================================
