-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command-line utilities, as transitions of the files on disk.        *)
(*                                                                         *)
(* A command is [tool, argsok, in, out, opts, clobber, hdr]: argsok says   *)
(* whether the arguments are usable at all, in is the sequence of input    *)
(* file names, out the output file ("" for the check command), opts the    *)
(* filter options, hdr the header values given to the upgrade command.     *)
(* D is the disk: file name -> sequence of HDUs (<<>> for a file that is   *)
(* not FITS).                                                              *)
(***************************************************************************)
EXTENDS Text, TLC

CliInputsOK(D, c) == \A k \in DOMAIN c.in : c.in[k] \in DOMAIN D /\ FileReadable(D[c.in[k]])
CliData(D, c) == TLCEval([k \in DOMAIN c.in |-> Decode(D[c.in[k]])])
(* x stands for CliData(D, c) below: what the inputs hold; it is meaningful only if they can be read.
   The datasets on which the operation is defined: *)
CliDefined(x, c) ==
  CASE c.tool = "merge" -> Mergeable(x) [] c.tool = "filter" -> Consistent(x[1]) [] OTHER -> TRUE
(* "usage": the arguments are refused;  "fail": nothing is done, and said so;  "any": not specified;  "ok" *)
CliVerdict(D, c, x) ==
  IF c.argsok = 0 THEN "usage"
  ELSE IF ~CliInputsOK(D, c) THEN "fail"
  ELSE IF ~CliDefined(x, c) THEN "any"
  ELSE LET exists == c.out \in DOMAIN D  d == x[1] IN
  CASE c.tool = "merge" -> IF exists THEN "fail" ELSE "ok"
    [] c.tool = "filter" -> IF exists /\ c.clobber = 0 THEN "fail" ELSE "ok"
    [] c.tool = "upgrade" -> IF exists \/ IsV2(d) \/ d.arr = <<>> THEN "fail" ELSE "ok"
    [] c.tool = "check" -> "ok"
CliExit(v) == CASE v = "usage" -> 2 [] v = "fail" -> 1 [] v = "ok" -> 0

(* the dataset that a successful command writes; merging is defined up to the names it chooses, of which o has one choice *)
CliResult(x, c, o) == TLCEval(
  CASE c.tool = "merge" -> ExpectedMerge(x, o)
    [] c.tool = "filter" -> FilterFn(x[1], OptFilter(c.opts))
    [] c.tool = "upgrade" -> [x[1] EXCEPT !.hdr.origin = c.hdr[1], !.hdr.observer = c.hdr[2], !.hdr.insmode = c.hdr[3]])
CliWrites(c) == c.tool # "check"
CliReport(d) == [passed |-> AllPassed(d), n |-> Breached(d)]
=============================================================================
