-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Human-readable output (summaries, filter descriptions) and the command  *)
(* line.  Texts arrive parsed into records by the trace converter; here is *)
(* what each must say about the dataset or filter it describes.            *)
(***************************************************************************)
EXTENDS OIData, Merge, Filter, Check, File

(* p is the printed value in tenths of nm of a wavelength of n units (0.04 nm) *)
WavePrinted(p, n) == Abs(5 * p - 2 * n) <= 2
MinW(w) == LET S == Ran(w) \ {NAN} IN CHOOSE x \in S : \A y \in S : x <= y
MaxW(w) == LET S == Ran(w) \ {NAN} IN CHOOSE x \in S : \A y \in S : x >= y
WavesPlain(t) == Ran(t.w) \ {NAN} # {} /\ \A x \in Ran(t.w) \ {NAN} : x > 0 /\ x < 100000000

SumHeader(h) == <<h.origin, h.date, h.date_obs, h.telescop, h.instrume, h.observer, h.object, h.insmode, h.obstech>>
SumLines(s, tabs, L(_, _, _)) ==
  /\ s.n = Len(tabs) /\ Len(s.l) = Len(tabs)
  /\ \A k \in DOMAIN tabs : s.l[k].k = k /\ L(s.l[k], tabs[k], k)
SumData(l, t, k) == /\ l.date = t.date /\ l.ins = t.ins /\ l.arr = t.arr /\ l.cor = t.cor
                    /\ l.nr = Len(t.r) /\ l.nw = t.nw
SummaryOK(d, s) ==
  /\ s.ver = (IF IsV2(d) THEN 2 ELSE 1)
  /\ s.hdr = SumHeader(d.hdr)
  /\ SumLines(s.arr, d.arr, LAMBDA l, t, k : l.name = t.name /\ l.ne = Len(t.e))
  /\ SumLines(s.wav, d.wav, LAMBDA l, t, k : l.name = t.name /\ l.nc = Len(t.w)
                 /\ (WavesPlain(t) => WavePrinted(l.lo, MinW(t.w)) /\ WavePrinted(l.hi, MaxW(t.w))))
  /\ SumLines(s.cor, d.cor, LAMBDA l, t, k : l.name = t.name /\ l.nc = Len(t.i) /\ l.nd = t.ndata)
  /\ SumLines(s.pol, d.pol, LAMBDA l, t, k : l.name = t.arr)
  /\ SumLines(s.vis, d.vis, SumData) /\ SumLines(s.vis2, d.vis2, SumData)
  /\ SumLines(s.t3, d.t3, SumData) /\ SumLines(s.flux, d.flux, SumData)

(* two decimals; the default upper limit is ten million days *)
MjdPrinted(x, m) == IF m = LIMINF THEN x = 1000000000 ELSE Abs(Day * (x - 100 * (m \div Day)) - 100 * (m % Day)) <= Day \div 2
FilterTextOK(f, s) ==
  /\ s.ok = 1
  /\ s.arr = f.arr /\ s.ins = f.ins /\ s.cor = f.cor /\ s.tid = (IF f.tid < 0 THEN -1 ELSE f.tid)
  /\ \A k \in 1..2 : /\ MjdPrinted(s.mjd[k], f.mjd[k]) /\ WavePrinted(s.wave[k], f.wave[k])
                     /\ s.bas[k] = 10 * f.bas[k]
                     /\ IF f.snr[k] = LIMINF THEN s.snr[k] = LIMINF ELSE Abs(4 * s.snr[k] - 10 * f.snr[k]) <= 2
  /\ \A x \in {"vis", "vis2", "t3amp", "t3phi", "flux", "flagged"} : (s[x] = 1) = (f[x] # 0)

(***************************************************************************)
(* Filter options: every parse starts from the default filter, the last    *)
(* occurrence of an option wins.  An option is [o, s, n]: name, string     *)
(* value, numeric value in model units.                                    *)
(***************************************************************************)
SetOpt(f, x) ==
  CASE x.o = "arrname" -> [f EXCEPT !.arr = x.s] [] x.o = "insname" -> [f EXCEPT !.ins = x.s]
    [] x.o = "corrname" -> [f EXCEPT !.cor = x.s] [] x.o = "target-id" -> [f EXCEPT !.tid = x.n]
    [] x.o = "mjd-min" -> [f EXCEPT !.mjd[1] = x.n] [] x.o = "mjd-max" -> [f EXCEPT !.mjd[2] = x.n]
    [] x.o = "wave-min" -> [f EXCEPT !.wave[1] = x.n] [] x.o = "wave-max" -> [f EXCEPT !.wave[2] = x.n]
    [] x.o = "bas-min" -> [f EXCEPT !.bas[1] = x.n] [] x.o = "bas-max" -> [f EXCEPT !.bas[2] = x.n]
    [] x.o = "uvrad-min" -> [f EXCEPT !.uv[1] = x.n] [] x.o = "uvrad-max" -> [f EXCEPT !.uv[2] = x.n]
    [] x.o = "snr-min" -> [f EXCEPT !.snr[1] = x.n] [] x.o = "snr-max" -> [f EXCEPT !.snr[2] = x.n]
    [] x.o = "accept-vis" -> [f EXCEPT !.vis = x.n] [] x.o = "accept-vis2" -> [f EXCEPT !.vis2 = x.n]
    [] x.o = "accept-t3amp" -> [f EXCEPT !.t3amp = x.n] [] x.o = "accept-t3phi" -> [f EXCEPT !.t3phi = x.n]
    [] x.o = "accept-flux" -> [f EXCEPT !.flux = x.n] [] x.o = "accept-flagged" -> [f EXCEPT !.flagged = x.n]
    [] OTHER -> f
OptFilter(opts) == FoldLeft(SetOpt, FDef, opts)
OptParseOK(e) == IF e.bad = 1 THEN e.ok = 0
                 ELSE e.ok = 1 /\ e.left = e.wantleft /\ e.flt = OptFilter(e.opts)

(***************************************************************************)
(* The default filter passes ordinary data unchanged                       *)
(***************************************************************************)
OrdPair(a, e, fl) == fl # 0 \/ a = NAN \/ e = NAN \/ (e > 0 /\ a \notin {PINF, NINF} /\ (e = PINF \/ ~Below(a, -5, e)))
OrdBase(u, v) == u = NAN \/ v = NAN \/ u * u + v * v <= 100000000
OrdMjd(m) == m = NAN \/ (m >= 0 /\ m <= LIMINF)
OrdPhi(e, fl) == fl # 0 \/ e = NAN \/ e > 0
Ordinary(d) ==
  /\ \A k \in DOMAIN d.wav : d.wav[k].w # <<>> /\ \A x \in Ran(d.wav[k].w) : x = NAN \/ (x >= 0 /\ x <= 2500000)
  /\ \A k \in DOMAIN d.vis : Nonempty(d.vis[k]) /\ \A r \in Ran(d.vis[k].r) :
       OrdMjd(r.mjd) /\ OrdBase(r.u, r.v)
       /\ \A c \in DOMAIN r.f : OrdPair(r.a[c], r.ae[c], r.f[c]) /\ OrdPhi(r.pe[c], r.f[c])
  /\ \A k \in DOMAIN d.vis2 : Nonempty(d.vis2[k]) /\ \A r \in Ran(d.vis2[k].r) :
       OrdMjd(r.mjd) /\ OrdBase(r.u, r.v) /\ \A c \in DOMAIN r.f : OrdPair(r.a[c], r.ae[c], r.f[c])
  /\ \A k \in DOMAIN d.t3 : Nonempty(d.t3[k]) /\ \A r \in Ran(d.t3[k].r) :
       OrdMjd(r.mjd) /\ (\A b \in Bases3(r) : OrdBase(b[1], b[2]))
       /\ \A c \in DOMAIN r.f : OrdPair(r.a[c], r.ae[c], r.f[c]) /\ OrdPhi(r.pe[c], r.f[c])
  /\ \A k \in DOMAIN d.flux : Nonempty(d.flux[k]) /\ \A r \in Ran(d.flux[k].r) :
       OrdMjd(r.mjd) /\ \A c \in DOMAIN r.f : OrdPair(r.a[c], r.ae[c], 0)
  /\ \A k \in DOMAIN d.pol : Nonempty(d.pol[k]) /\ \A r \in Ran(d.pol[k].r) : OrdMjd(r.mjd) /\ OrdMjd(r.mjdend)
DefaultKeeps(d, o) == Ordinary(d) => o = WithCount(Prune(d))

(***************************************************************************)
(* The command-line utilities: exit status, effect on the output file      *)
(***************************************************************************)
AllPassed(d) == \A nm \in CheckNames : Breaches(d, nm) = <<>>
Breached(d) == Cardinality({nm \in CheckNames : Breaches(d, nm) # <<>>})
Written(d) == Decode(Encode(d))
=============================================================================
