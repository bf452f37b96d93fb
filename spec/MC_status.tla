----------------------------- MODULE MC_status -----------------------------
(***************************************************************************)
(* The inherited status: a program that passes one status variable from    *)
(* call to call.  After the first failure every further call does nothing  *)
(* until the program clears the status, so that work interrupted by a      *)
(* failure never goes on in a different place.  A call is fresh if the     *)
(* program clears the status before it.                                    *)
(***************************************************************************)
EXTENDS Warn, Templates
CONSTANTS Deep, MaxCalls
VARIABLES st,      (* the status variable: "ok", "eof" or "error" *)
          fh,      (* the open file: [w: 0 none, 1 reading, 2 writing; f: its name; pos: 0 if unspecified] *)
          disk,    (* name -> HDUs *)
          got,     (* the tables delivered by the latest run of calls without clearing: file and position of each *)
          msgs,    (* error messages printed *)
          last, hist
vars == <<st, fh, disk, got, msgs, last, hist>>

Q0 == [P0 EXCEPT !.cn = "C", !.pol = 1, !.wv = 3, !.tn = <<"S", "T">>]
D0 == Cat(Tpl(Q0), Tpl([Q0 EXCEPT !.an = "B", !.wn = "J", !.cn = "D", !.wv = 0]))
Good == Encode(D0)
(* the first visibility table has lost its INSNAME, there is no polarisation and no second correlation table *)
Lost(f) == LET g == SelectSeq(f, LAMBDA h : ~IsTab(h, "pol") /\ ~(IsTab(h, "cor") /\ h.keys["CORRNAME"] = "D"))
               k == CHOOSE m \in DOMAIN g : IsTab(g[m], "vis") /\ \A x \in 1..(m - 1) : ~IsTab(g[x], "vis") IN
           [g EXCEPT ![k].keys = [y \in DOMAIN @ \ {"INSNAME"} |-> @[y]]]
Hurt == Lost(Good)
F0 == [n \in {"good.fits", "hurt.fits", "junk.fits"} |-> CASE n = "good.fits" -> Good [] n = "hurt.fits" -> Hurt [] n = "junk.fits" -> <<>>]
Closed == [w |-> 0, f |-> "", pos |-> 0]

Init == st = "ok" /\ fh = Closed /\ disk = F0 /\ got = <<>> /\ msgs = 0 /\ last = [o |-> "start"] /\ hist = <<>>
S0(fresh) == IF fresh THEN "ok" ELSE st
G0(fresh) == IF fresh THEN <<>> ELSE got
(* a call that takes the status: res is [st, ...] it would have with a clear status *)
Outcome(c, s) == /\ st' = (IF S0(c.fresh) # "ok" THEN S0(c.fresh) ELSE s)
                 /\ msgs' = msgs + (IF S0(c.fresh) = "ok" /\ s = "error" THEN 1 ELSE 0)
                 /\ last' = [o |-> c.o, s0 |-> S0(c.fresh)] /\ hist' = Append(hist, c)
Works(c) == S0(c.fresh) = "ok"

ReadFile(c) == LET ok == c.f \in DOMAIN disk /\ FileReadable(disk[c.f]) IN
  /\ Outcome(c, IF ok THEN "ok" ELSE "error")
  /\ got' = (IF Works(c) /\ ok THEN Append(G0(c.fresh), <<c.f, 0>>) ELSE G0(c.fresh)) /\ UNCHANGED <<fh, disk>>
WriteFile(c) == LET ok == c.f \notin DOMAIN disk IN
  /\ Outcome(c, IF ok THEN "ok" ELSE "error")
  /\ disk' = (IF Works(c) /\ ok THEN (c.f :> Good) @@ disk ELSE disk)
  /\ got' = G0(c.fresh) /\ UNCHANGED fh
TableRead(c) == /\ fh.w = 1 /\ (c.o = "next" /\ c.kind # "tg" /\ Works(c) => fh.pos # 0)
  /\ LET f == disk[fh.f]
         r == IF c.o = "named" THEN ReadNamed(f, c.kind, c.name) ELSE IF c.kind = "tg" THEN ReadFirst(f, "tg") ELSE ReadNext(f, fh.pos, c.kind) IN
     /\ Outcome(c, r.st)
     /\ fh' = (IF ~Works(c) THEN fh ELSE [fh EXCEPT !.pos = IF r.st = "ok" THEN r.pos ELSE 0])
     /\ got' = (IF Works(c) /\ r.st = "ok" THEN Append(G0(c.fresh), <<fh.f, r.pos>>) ELSE G0(c.fresh))
  /\ UNCHANGED disk
TableWrite(c) == /\ fh.w = 2
  /\ Outcome(c, "ok")
  /\ disk' = (IF Works(c) THEN [disk EXCEPT ![fh.f] = Append(@, HduOf(D0, c.kind, 1, 1))] ELSE disk)
  /\ got' = G0(c.fresh) /\ UNCHANGED fh
(* done by the program itself, whatever the status *)
Other(c) == last' = [o |-> c.o] /\ hist' = Append(hist, c) /\ UNCHANGED <<st, got, msgs>>
Open(f) == fh.w = 0 /\ fh' = [w |-> 1, f |-> f, pos |-> 1] /\ UNCHANGED disk /\ Other([o |-> "open", f |-> f])
Create(f) == fh.w = 0 /\ f \notin DOMAIN disk /\ fh' = [w |-> 2, f |-> f, pos |-> 1] /\ disk' = (f :> <<HeaderHdu(D0.hdr)>>) @@ disk
             /\ st' = "ok" /\ got' = <<>> /\ last' = [o |-> "create"] /\ hist' = Append(hist, [o |-> "create", f |-> f]) /\ UNCHANGED msgs
Seek(p) == fh.w = 1 /\ fh' = [fh EXCEPT !.pos = p] /\ UNCHANGED disk /\ Other([o |-> "seek", p |-> p])
Close == fh.w # 0 /\ fh' = Closed /\ UNCHANGED disk /\ Other([o |-> "close"])

C(o, f, kind, name, fresh) == [o |-> o, f |-> f, kind |-> kind, name |-> name, fresh |-> fresh]
RKinds == {"vis", "cor", "pol"} \cup IF Deep THEN {"tg", "arr", "wav", "vis2", "t3", "flux"} ELSE {}
Next == /\ Len(hist) < MaxCalls
        /\ \/ \E b \in BOOLEAN : \/ \E f \in {"good.fits", "hurt.fits", "junk.fits", "none.fits"} : ReadFile(C("read", f, "", "", b))
                                 \/ \E f \in {"good.fits", "new.fits"} : WriteFile(C("write", f, "", "", b))
                                 \/ \E kd \in RKinds : TableRead(C("next", "", kd, "", b))
                                 \/ \E x \in {<<"cor", "C">>, <<"cor", "D">>, <<"wav", "J">>, <<"arr", "Z">>} : TableRead(C("named", "", x[1], x[2], b))
                                 \/ \E kd \in {"tg", "wav", "vis2"} : TableWrite(C("twrite", "", kd, "", b))
           \/ \E f \in {"good.fits", "hurt.fits"} : Open(f)
           \/ Create("own.fits") \/ Seek(1) \/ Close
Spec == Init /\ [][Next]_vars
View == <<st, fh, disk, got, msgs, last, Len(hist)>>

(* what was delivered is from the files as they are, each table readable, and in order as long as one walks by "next" *)
GotOK == \A k \in DOMAIN got : got[k][2] # 0 => got[k][2] \in DOMAIN disk[got[k][1]]
FilesOK == FileReadable(Good) /\ FileReadable(Hurt) /\ ~FileReadable(<<>>) /\ \A n \in DOMAIN F0 : disk[n] = F0[n]
Calls == {"read", "write", "next", "named", "twrite"}
Step == last'.o \in Calls =>
  IF last'.s0 # "ok"
  THEN st' = last'.s0 /\ disk' = disk /\ fh' = fh /\ msgs' = msgs /\ (got' = got \/ got' = <<>>)
  ELSE /\ (st' = "error") = (msgs' = msgs + 1)
       /\ st' # "ok" => disk' = disk
       /\ \A n \in DOMAIN disk : n \in DOMAIN disk' /\ (disk'[n] # disk[n] => fh.w = 2 /\ n = fh.f /\ Len(disk'[n]) = Len(disk[n]) + 1)
StepOK == [][Step]_vars
=============================================================================
