-------------------------------- MODULE Warn --------------------------------
(***************************************************************************)
(* What is reported while reading.  sums[k] is the pair of (data checksum, *)
(* HDU checksum) verdicts for HDU k: 1 matches, 0 not recorded, -1 wrong;  *)
(* sums is empty for a file whose checksums all match.                     *)
(* A report is [t, hdu, ext, n]: t "data"/"hdu" with n = EXTVER, or        *)
(* "revn" with n = the revision found, or "skip" for a table left out.     *)
(***************************************************************************)
EXTENDS File, FiniteSetsExt

Sum(sums, k, c) == IF k \in DOMAIN sums THEN sums[k][c] ELSE 1
LatestRev(ext) == IF ext \in {"OI_CORR", "OI_INSPOL", "OI_FLUX"} THEN 1 ELSE 2
Ver(h) == Key(h, "EXTVER", 0)
SumReports(file, sums, k) ==
  (IF Sum(sums, k, 1) = -1 THEN <<[t |-> "data", hdu |-> k, ext |-> file[k].ext, n |-> Ver(file[k])]>> ELSE <<>>)
  \o (IF Sum(sums, k, 2) = -1 THEN <<[t |-> "hdu", hdu |-> k, ext |-> file[k].ext, n |-> Ver(file[k])]>> ELSE <<>>)
RevReports(file, k) ==
  IF k > 1 /\ Key(file[k], "OI_REVN", 0) > LatestRev(file[k].ext)
  THEN <<[t |-> "revn", hdu |-> 0, ext |-> file[k].ext, n |-> file[k].keys["OI_REVN"]]>> ELSE <<>>
Reports(file, sums, k) == SumReports(file, sums, k) \o RevReports(file, k)

(* occurrences of report x in sequence s *)
Times(s, x) == Cardinality({q \in DOMAIN s : s[q] = x})
Same(s, r) == \A q \in DOMAIN s : Times(s, s[q]) = Times(r, s[q])
SameBag(s, r) == Len(s) = Len(r) /\ Same(s, r)

WarnKinds == {"arr", "wav", "cor", "pol", "vis", "vis2", "t3", "flux"}
(* the HDUs whose content a whole-file read delivers, and those it looks at in vain *)
UsedHdus(file) == {1, NextPos(file, 0, "tg")} \cup {k \in DOMAIN file : \E kind \in WarnKinds : IsTab(file[k], kind) /\ Readable(kind, file[k])}
BadHdus(file) == {k \in DOMAIN file : \E kind \in WarnKinds : IsTab(file[k], kind) /\ ~Readable(kind, file[k])}
Gather(file, sums, S) == FoldSet(LAMBDA k, acc : acc \o Reports(file, sums, k), <<>>, S)
Skips(file) == LET S == BadHdus(file) IN
               FoldSet(LAMBDA k, acc : acc \o <<[t |-> "skip", hdu |-> 0, ext |-> file[k].ext, n |-> 0]>>, <<>>, S)
(* a table that is left out may or may not have been found suspect before *)
ReadReportsOK(file, sums, said) ==
  LET must == Gather(file, sums, UsedHdus(file)) \o Skips(file)
      may == Gather(file, sums, BadHdus(file)) IN
  /\ \A q \in DOMAIN must : Times(said, must[q]) >= Times(must, must[q])
  /\ \A q \in DOMAIN said : Times(said, said[q]) <= Times(must, said[q]) + Times(may, said[q])

(***************************************************************************)
(* Writing: tables held in another revision are written in the latest one, *)
(* which is reported, as are data tables without array name.               *)
(***************************************************************************)
WriteReports(t, kind) ==
  (IF t.rev # LatestRev(ExtName(kind)) THEN <<[t |-> "wrev", hdu |-> 0, ext |-> ExtName(kind), n |-> LatestRev(ExtName(kind))]>> ELSE <<>>)
  \o (IF kind \in {"vis", "vis2", "t3"} /\ t.arr = "" THEN <<[t |-> "noarr", hdu |-> 0, ext |-> ExtName(kind), n |-> 0]>> ELSE <<>>)
WriteAllReports(d) ==
  WriteReports(d.tg, "tg")
  \o FlattenSeq([q \in 1..8 |-> LET kind == <<"arr", "wav", "cor", "pol", "vis", "vis2", "t3", "flux">>[q] IN
                   FlattenSeq([k \in DOMAIN d[kind] |-> WriteReports(d[kind][k], kind)])])

(***************************************************************************)
(* Errors: every failing call says so and explains its status, unless      *)
(* hushed; successful calls say nothing, but for tables left out, and      *)
(* neither do calls that do nothing because of an earlier error, nor those *)
(* that find no further table.                                             *)
(* errs is [heads: number of messages, sts: the status codes explained]    *)
(***************************************************************************)
NoErrs(errs) == errs.heads = 0 /\ errs.sts = <<>>
SaysFailure(errs, st) == errs.heads >= 1 /\ Len(errs.sts) = errs.heads /\ errs.sts[Len(errs.sts)] = st
ErrorsOK(errs, hush, st0, st, eof, left) ==
  IF hush # 0 \/ st0 # 0 \/ eof THEN NoErrs(errs)
  ELSE IF st # 0 THEN SaysFailure(errs, st)
  ELSE errs.heads = left /\ Len(errs.sts) = left
=============================================================================
