------------------------------ MODULE Templates ------------------------------
(***************************************************************************)
(* Small datasets for model checking: a family indexed by a parameter      *)
(* record, chosen so that names clash, contents agree or differ, optional  *)
(* items are in use or not, and thresholds of the filters are met exactly. *)
(*                                                                         *)
(*   v     format version            an, av  array name ("" = none), variant *)
(*   wn,wv wavelength name, variant  cn, cv  correlation name ("" = none)  *)
(*   tn    sequence of target names  hd      header variant                *)
(*   kinds set of data kinds         pol     0/1 polarisation table        *)
(*   dv    variant of the data       opt     0/1 optional columns          *)
(***************************************************************************)
EXTENDS OIData

P0 == [v |-> 2, an |-> "A", av |-> 0, wn |-> "I", wv |-> 0, cn |-> "", cv |-> 0, tn |-> <<"S">>, hd |-> 0,
       kinds |-> {"vis", "vis2", "t3", "flux"}, pol |-> 0, dv |-> 0, opt |-> 0]

THdr(p) == IF p.v = 1 THEN [EmptyHeader EXCEPT !.telescop = p.an, !.instrume = p.wn, !.object = p.tn[1],
                              !.date_obs = "1995-10-10", !.origin = "UNKNOWN", !.observer = "UNKNOWN", !.insmode = "UNKNOWN"]
  ELSE [EmptyHeader EXCEPT !.content = "OIFITS2", !.origin = <<"ESO", "ESO", "CHARA">>[p.hd + 1], !.date = "2020-01-01",
     !.date_obs = <<"2019-12-31", "2020-02-29", "2019-06-01">>[p.hd + 1], !.telescop = <<"VLTI", "VLTI", "">>[p.hd + 1],
     !.instrume = <<"GRAVITY", "PIONIER", "GRAVITY">>[p.hd + 1], !.observer = "me", !.insmode = "LOW", !.object = p.tn[1],
     !.author = <<"", "x", "">>[p.hd + 1]]

TTarget(p, k) == [id |-> IF p.dv = 1 THEN 2 * k + 1 ELSE k, name |-> p.tn[k], ra |-> 640 * k, dec |-> -64 * k, eqx |-> 128000,
   raerr |-> 1, decerr |-> 1, sysvel |-> 64, veltyp |-> "LSR", veldef |-> "OPTICAL", pmra |-> 3, pmdec |-> 5, pmraerr |-> 1,
   pmdecerr |-> 1, plx |-> 7, plxerr |-> 1, spectyp |-> "G2V", cat |-> IF p.v = 2 /\ p.opt = 1 THEN "SCI" ELSE ""]
TTg(p) == [rev |-> p.v, usecat |-> IF p.v = 2 /\ p.opt = 1 THEN 1 ELSE 0, t |-> [k \in DOMAIN p.tn |-> TTarget(p, k)]]
Tid(p, k) == TTarget(p, ((k - 1) % Len(p.tn)) + 1).id

TElem(p, k) == [tel |-> "T" \o ToString(k), sta |-> "S" \o ToString(k), idx |-> k, dia |-> 8192 + (IF p.av = 2 THEN 8 ELSE 0),
   sx |-> 64 * k + (IF p.av = 1 THEN 64 ELSE 0), sy |-> 0, sz |-> 64,
   fov |-> IF p.v = 1 THEN NAN ELSE 32, fovtype |-> "FWHM"]
TArr(p) == IF p.an = "" THEN <<>> ELSE <<[rev |-> p.v, name |-> p.an, frame |-> "GEOCENTRIC", x |-> 64, y |-> 128, z |-> 192,
   e |-> [k \in 1..(IF p.av = 3 THEN 2 ELSE 3) |-> TElem(p, k)]]>>
(* wavelengths: variant 1 differs, 2 is within the tolerance, 3 has fewer channels *)
TWaves(p) == CASE p.wv = 0 -> <<40000, 50000, 60000>> [] p.wv = 1 -> <<40000, 50000, 60500>>
                [] p.wv = 2 -> <<40001, 50000, 60000>> [] p.wv = 3 -> <<50000>>
TWav(p) == <<[rev |-> p.v, name |-> p.wn, w |-> TWaves(p), b |-> [k \in DOMAIN TWaves(p) |-> 2500]]>>
HasCor(p) == p.v = 2 /\ p.cn # ""
TCor(p) == IF ~HasCor(p) THEN <<>> ELSE <<[rev |-> 1, name |-> p.cn, ndata |-> 2, i |-> <<1>>, j |-> <<2>>, c |-> <<16 + p.cv>>]>>
Nw(p) == Len(TWaves(p))
Nums(p, base) == [c \in 1..Nw(p) |-> base + c]
Errs(p, k) == [c \in 1..Nw(p) |-> IF p.dv = 2 /\ c = k THEN 0 ELSE IF p.dv = 3 /\ c = 1 THEN NAN ELSE 4 * c]
Flg(p, k) == [c \in 1..Nw(p) |-> IF p.dv = 1 /\ (c = k \/ k = 2) THEN 1 ELSE 0]
CName(p) == IF HasCor(p) THEN p.cn ELSE ""
CIx(p, x) == IF HasCor(p) THEN x ELSE 0
Mj(k) == (50000 + k) * Day
TVis(p) == [rev |-> p.v, date |-> "2019-12-31", arr |-> p.an, ins |-> p.wn, cor |-> CName(p),
   amptyp |-> IF p.v = 2 THEN "absolute" ELSE "", phityp |-> IF p.v = 2 THEN (IF p.opt = 1 THEN "differential" ELSE "absolute") ELSE "",
   amporder |-> -1, phiorder |-> IF p.opt = 1 /\ p.v = 2 THEN 2 ELSE -1, useref |-> IF p.v = 2 THEN p.opt ELSE 0,
   usecpx |-> IF p.v = 2 THEN p.opt ELSE 0, cunit |-> IF p.v = 2 /\ p.opt = 1 THEN "Jy" ELSE "", aunit |-> "", nw |-> Nw(p),
   r |-> [k \in 1..2 |-> [tid |-> Tid(p, k), time |-> IF p.v = 1 THEN 64 ELSE 0, mjd |-> Mj(k), it |-> 64,
      a |-> Nums(p, 32), ae |-> Errs(p, k), ca |-> CIx(p, 1), p |-> Nums(p, -64), pe |-> Errs(p, k), cp |-> CIx(p, 2),
      ref |-> IF p.v = 2 /\ p.opt = 1 THEN [x \in 1..(Nw(p) * Nw(p)) |-> IF x % 2 = 0 THEN 1 ELSE 0] ELSE <<>>,
      rv |-> IF p.v = 2 /\ p.opt = 1 THEN Nums(p, 8) ELSE <<>>, rve |-> IF p.v = 2 /\ p.opt = 1 THEN Errs(p, k) ELSE <<>>,
      crv |-> IF p.opt = 1 THEN CIx(p, 1) ELSE 0,
      iv |-> IF p.v = 2 /\ p.opt = 1 THEN Nums(p, 9) ELSE <<>>, ive |-> IF p.v = 2 /\ p.opt = 1 THEN Errs(p, k) ELSE <<>>,
      civ |-> IF p.opt = 1 THEN CIx(p, 2) ELSE 0,
      u |-> 30 * k, v |-> 40 * k, s |-> <<1, 2>>, f |-> Flg(p, k)]]]
TVis2(p) == [rev |-> p.v, date |-> "2019-12-31", arr |-> p.an, ins |-> p.wn, cor |-> CName(p), nw |-> Nw(p),
   r |-> [k \in 1..2 |-> [tid |-> Tid(p, k), time |-> IF p.v = 1 THEN 64 ELSE 0, mjd |-> Mj(k), it |-> 64,
      a |-> Nums(p, 16 * k), ae |-> Errs(p, k), ca |-> CIx(p, 1), u |-> 30 * k, v |-> 40 * k, s |-> <<k, k + 1>>, f |-> Flg(p, k)]]]
TT3(p) == [rev |-> p.v, date |-> "2020-01-01", arr |-> p.an, ins |-> p.wn, cor |-> CName(p), nw |-> Nw(p),
   r |-> [k \in 1..2 |-> [tid |-> Tid(p, k), time |-> IF p.v = 1 THEN 64 ELSE 0, mjd |-> Mj(k), it |-> 64,
      a |-> Nums(p, 8 * k), ae |-> Errs(p, k), ca |-> CIx(p, 1), p |-> Nums(p, 100), pe |-> Errs(p, 3 - k), cp |-> CIx(p, 2),
      u |-> 30 * k, v |-> 40 * k, u2 |-> 30, v2 |-> -40, s |-> <<1, 2, 3>>, f |-> Flg(p, k)]]]
TFlux(p) == [rev |-> 1, date |-> "2020-01-02", arr |-> p.an, ins |-> p.wn, cor |-> CName(p),
   fov |-> NAN, fovtype |-> "", cal |-> IF p.an = "" THEN "C" ELSE "U", funit |-> "Jy", nw |-> Nw(p),
   r |-> [k \in 1..2 |-> [tid |-> Tid(p, k), mjd |-> Mj(k), it |-> 64, a |-> Nums(p, 640), ae |-> Errs(p, k), ca |-> CIx(p, 1),
      sta |-> IF p.an = "" THEN -1 ELSE k, f |-> Flg(p, k)]]]
TPol(p) == IF p.v = 1 \/ p.pol = 0 \/ p.an = "" THEN <<>>
   ELSE <<[rev |-> 1, date |-> "2020-01-02", npol |-> 1, arr |-> p.an, orient |-> "LABORATORY", model |-> "m", nw |-> Nw(p),
     r |-> [k \in 1..2 |-> [tid |-> Tid(p, k), ins |-> p.wn, mjd |-> Mj(k), mjdend |-> Mj(k + 1),
        jxx |-> [c \in 1..(2 * Nw(p)) |-> c], jyy |-> [c \in 1..(2 * Nw(p)) |-> 2 * c], jxy |-> [c \in 1..(2 * Nw(p)) |-> 0],
        jyx |-> [c \in 1..(2 * Nw(p)) |-> -c], sta |-> k]]]>>
Tpl(p) == WithCount([hdr |-> THdr(p), tg |-> TTg(p), arr |-> TArr(p), wav |-> TWav(p), cor |-> TCor(p), pol |-> TPol(p),
   vis |-> IF "vis" \in p.kinds THEN <<TVis(p)>> ELSE <<>>, vis2 |-> IF "vis2" \in p.kinds THEN <<TVis2(p)>> ELSE <<>>,
   t3 |-> IF "t3" \in p.kinds THEN <<TT3(p)>> ELSE <<>>,
   flux |-> IF "flux" \in p.kinds /\ p.v = 2 THEN <<TFlux(p)>> ELSE <<>>, n |-> <<>>])

(* two tables of each kind: the union of two such datasets without any sharing (names must differ) *)
Cat(d, e) == WithCount([d EXCEPT !.arr = @ \o e.arr, !.wav = @ \o e.wav, !.cor = @ \o e.cor, !.pol = @ \o e.pol,
   !.vis = @ \o e.vis, !.vis2 = @ \o e.vis2, !.t3 = @ \o e.t3, !.flux = @ \o e.flux])
=============================================================================
