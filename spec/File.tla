-------------------------------- MODULE File --------------------------------
(***************************************************************************)
(* OIFITS files.  A file is a sequence of header-data units; HDU 1 is the  *)
(* primary header.  An HDU is a record                                     *)
(*   ext   EXTNAME ("" when absent)      bin  1 for a binary table         *)
(*   keys  keyword -> value              nrow number of rows               *)
(*   cols  column name -> [ty, rep, unit, v]  where v is a sequence with   *)
(*         one entry per row: a string when ty = "A", else a sequence of   *)
(*         values (two per element when ty = "C")                          *)
(*   bad  the names of numeric keywords whose value is not a number        *)
(* keys and cols have a dummy entry "_" so that they are never empty.      *)
(*                                                                         *)
(* Encode gives the file written for a dataset, Decode* what reading a     *)
(* file (written by anyone) yields.                                        *)
(***************************************************************************)
EXTENDS OIData, Dates

Has(h, k) == k \in DOMAIN h.keys
HasCol(h, c) == c \in DOMAIN h.cols
Key(h, k, dflt) == IF Has(h, k) THEN h.keys[k] ELSE dflt
None == [_ |-> 0]

(***************************************************************************)
(* Encoding                                                                *)
(***************************************************************************)
Col(nm, ty, rep, unit, v) == nm :> [ty |-> ty, rep |-> rep, unit |-> unit, v |-> v]
NoCol == "_" :> 0
OptKey(c, k, v) == IF c THEN k :> v ELSE "_" :> 0
KeyStr(k, v) == k :> v

(* a column holding one value per record *)
One(recs, nm, ty, unit, F(_)) == Col(nm, ty, 1, unit, [q \in DOMAIN recs |-> <<F(recs[q])>>])
Str(recs, nm, width, F(_)) == Col(nm, "A", width, "", [q \in DOMAIN recs |-> F(recs[q])])
Vec(recs, nm, ty, rep, unit, F(_)) == Col(nm, ty, rep, unit, [q \in DOMAIN recs |-> F(recs[q])])

Hdu(ext, keys, cols, n) == [ext |-> ext, bin |-> 1, bad |-> <<>>, keys |-> keys @@ ("_" :> 0), cols |-> cols @@ NoCol, nrow |-> n]

HeaderHdu(h) ==
  [ext |-> "", bin |-> 0, bad |-> <<>>, nrow |-> 0, cols |-> NoCol,
   keys |-> ("ORIGIN" :> h.origin) @@ ("DATE" :> "<now>") @@ ("DATE-OBS" :> h.date_obs)
     @@ ("TELESCOP" :> h.telescop) @@ ("INSTRUME" :> h.instrume) @@ ("OBSERVER" :> h.observer)
     @@ ("CONTENT" :> "OIFITS2") @@ ("INSMODE" :> h.insmode) @@ ("OBJECT" :> h.object)
     @@ OptKey(h.referenc # "", "REFERENC", h.referenc) @@ OptKey(h.author # "", "AUTHOR", h.author)
     @@ OptKey(h.prog_id # "", "PROG_ID", h.prog_id) @@ OptKey(h.procsoft # "", "PROCSOFT", h.procsoft)
     @@ OptKey(h.obstech # "", "OBSTECH", h.obstech) @@ ("_" :> 0)]

TargetHdu(tg) == LET t == tg.t IN
  Hdu("OI_TARGET", "OI_REVN" :> 2,
      One(t, "TARGET_ID", "I", "", LAMBDA x : x.id) @@ Str(t, "TARGET", 32, LAMBDA x : x.name)
   @@ One(t, "RAEP0", "D", "deg", LAMBDA x : x.ra) @@ One(t, "DECEP0", "D", "deg", LAMBDA x : x.dec)
   @@ One(t, "EQUINOX", "E", "yr", LAMBDA x : x.eqx) @@ One(t, "RA_ERR", "D", "deg", LAMBDA x : x.raerr)
   @@ One(t, "DEC_ERR", "D", "deg", LAMBDA x : x.decerr) @@ One(t, "SYSVEL", "D", "m/s", LAMBDA x : x.sysvel)
   @@ Str(t, "VELTYP", 8, LAMBDA x : x.veltyp) @@ Str(t, "VELDEF", 8, LAMBDA x : x.veldef)
   @@ One(t, "PMRA", "D", "deg/yr", LAMBDA x : x.pmra) @@ One(t, "PMDEC", "D", "deg/yr", LAMBDA x : x.pmdec)
   @@ One(t, "PMRA_ERR", "D", "deg/yr", LAMBDA x : x.pmraerr)
   @@ One(t, "PMDEC_ERR", "D", "deg/yr", LAMBDA x : x.pmdecerr)
   @@ One(t, "PARALLAX", "E", "deg", LAMBDA x : x.plx) @@ One(t, "PARA_ERR", "E", "deg", LAMBDA x : x.plxerr)
   @@ Str(t, "SPECTYP", 32, LAMBDA x : x.spectyp)
   @@ (IF tg.usecat # 0 THEN Str(t, "CATEGORY", 3, LAMBDA x : x.cat) ELSE NoCol), Len(t))

ArrayHdu(a, ver) == LET e == a.e IN
  Hdu("OI_ARRAY", ("OI_REVN" :> 2) @@ ("EXTVER" :> ver) @@ ("ARRNAME" :> a.name) @@ ("FRAME" :> a.frame)
        @@ ("ARRAYX" :> a.x) @@ ("ARRAYY" :> a.y) @@ ("ARRAYZ" :> a.z),
      Str(e, "TEL_NAME", 16, LAMBDA x : x.tel) @@ Str(e, "STA_NAME", 16, LAMBDA x : x.sta)
   @@ One(e, "STA_INDEX", "I", "", LAMBDA x : x.idx) @@ One(e, "DIAMETER", "E", "m", LAMBDA x : x.dia)
   @@ Vec(e, "STAXYZ", "D", 3, "m", LAMBDA x : <<x.sx, x.sy, x.sz>>)
   @@ One(e, "FOV", "D", "arcsec", LAMBDA x : x.fov) @@ Str(e, "FOVTYPE", 6, LAMBDA x : x.fovtype), Len(e))

WaveHdu(t, ver) ==
  Hdu("OI_WAVELENGTH", ("OI_REVN" :> 2) @@ ("EXTVER" :> ver) @@ ("INSNAME" :> t.name),
      One(t.w, "EFF_WAVE", "E", "m", LAMBDA x : x) @@ One(t.b, "EFF_BAND", "E", "m", LAMBDA x : x), Len(t.w))

CorrHdu(t, ver) ==
  Hdu("OI_CORR", ("OI_REVN" :> 1) @@ ("EXTVER" :> ver) @@ ("CORRNAME" :> t.name) @@ ("NDATA" :> t.ndata),
      One(t.i, "IINDX", "J", "", LAMBDA x : x) @@ One(t.j, "JINDX", "J", "", LAMBDA x : x)
   @@ One(t.c, "CORR", "D", "", LAMBDA x : x), Len(t.i))

PolHdu(t, ver) == LET r == t.r IN
  Hdu("OI_INSPOL", ("OI_REVN" :> 1) @@ ("EXTVER" :> ver) @@ ("DATE-OBS" :> t.date) @@ ("NPOL" :> t.npol)
        @@ ("ARRNAME" :> t.arr) @@ ("ORIENT" :> t.orient) @@ ("MODEL" :> t.model),
      One(r, "TARGET_ID", "I", "", LAMBDA x : x.tid) @@ Str(r, "INSNAME", 70, LAMBDA x : x.ins)
   @@ One(r, "MJD_OBS", "D", "day", LAMBDA x : x.mjd) @@ One(r, "MJD_END", "D", "day", LAMBDA x : x.mjdend)
   @@ Vec(r, "JXX", "C", t.nw, "", LAMBDA x : x.jxx) @@ Vec(r, "JYY", "C", t.nw, "", LAMBDA x : x.jyy)
   @@ Vec(r, "JXY", "C", t.nw, "", LAMBDA x : x.jxy) @@ Vec(r, "JYX", "C", t.nw, "", LAMBDA x : x.jyx)
   @@ One(r, "STA_INDEX", "I", "", LAMBDA x : x.sta), Len(r))

DataKeys(t, rev, ver) == ("OI_REVN" :> rev) @@ ("EXTVER" :> ver) @@ ("DATE-OBS" :> t.date)
   @@ OptKey(t.arr # "", "ARRNAME", t.arr) @@ ("INSNAME" :> t.ins) @@ OptKey(t.cor # "", "CORRNAME", t.cor)
CorCol(t, nm, F(_)) == IF t.cor = "" THEN NoCol ELSE One(t.r, nm, "J", "", F)
CommonCols(r, nw) ==
      One(r, "TARGET_ID", "I", "", LAMBDA x : x.tid) @@ One(r, "MJD", "D", "day", LAMBDA x : x.mjd)
   @@ One(r, "INT_TIME", "D", "s", LAMBDA x : x.it) @@ Vec(r, "FLAG", "L", nw, "", LAMBDA x : x.f)

VisHdu(t, ver) ==
  LET r == t.r  n == t.nw
      au == IF t.amptyp = "correlated flux" THEN t.aunit ELSE ""
      cu == t.cunit IN
  Hdu("OI_VIS", DataKeys(t, 2, ver) @@ OptKey(t.amptyp # "", "AMPTYP", t.amptyp)
        @@ OptKey(t.phityp # "", "PHITYP", t.phityp) @@ OptKey(t.amporder >= 0, "AMPORDER", t.amporder)
        @@ OptKey(t.phiorder >= 0, "PHIORDER", t.phiorder)
        @@ OptKey(t.useref # 0, "TDIM", "(" \o ToString(n) \o "," \o ToString(n) \o ")"),
      CommonCols(r, n) @@ One(r, "TIME", "D", "s", LAMBDA x : 0)
   @@ Vec(r, "VISAMP", "D", n, au, LAMBDA x : x.a) @@ Vec(r, "VISAMPERR", "D", n, au, LAMBDA x : x.ae)
   @@ Vec(r, "VISPHI", "D", n, "deg", LAMBDA x : x.p) @@ Vec(r, "VISPHIERR", "D", n, "deg", LAMBDA x : x.pe)
   @@ CorCol(t, "CORRINDX_VISAMP", LAMBDA x : x.ca) @@ CorCol(t, "CORRINDX_VISPHI", LAMBDA x : x.cp)
   @@ (IF t.useref = 0 THEN NoCol ELSE Vec(r, "VISREFMAP", "L", n * n, "", LAMBDA x : x.ref))
   @@ (IF t.usecpx = 0 THEN NoCol
       ELSE Vec(r, "RVIS", "D", n, cu, LAMBDA x : x.rv) @@ Vec(r, "RVISERR", "D", n, cu, LAMBDA x : x.rve)
         @@ Vec(r, "IVIS", "D", n, cu, LAMBDA x : x.iv) @@ Vec(r, "IVISERR", "D", n, cu, LAMBDA x : x.ive)
         @@ CorCol(t, "CORRINDX_RVIS", LAMBDA x : x.crv) @@ CorCol(t, "CORRINDX_IVIS", LAMBDA x : x.civ))
   @@ One(r, "UCOORD", "D", "m", LAMBDA x : x.u) @@ One(r, "VCOORD", "D", "m", LAMBDA x : x.v)
   @@ Vec(r, "STA_INDEX", "I", 2, "", LAMBDA x : x.s), Len(r))

Vis2Hdu(t, ver) == LET r == t.r  n == t.nw IN
  Hdu("OI_VIS2", DataKeys(t, 2, ver),
      CommonCols(r, n) @@ One(r, "TIME", "D", "s", LAMBDA x : 0)
   @@ Vec(r, "VIS2DATA", "D", n, "", LAMBDA x : x.a) @@ Vec(r, "VIS2ERR", "D", n, "", LAMBDA x : x.ae)
   @@ CorCol(t, "CORRINDX_VIS2DATA", LAMBDA x : x.ca)
   @@ One(r, "UCOORD", "D", "m", LAMBDA x : x.u) @@ One(r, "VCOORD", "D", "m", LAMBDA x : x.v)
   @@ Vec(r, "STA_INDEX", "I", 2, "", LAMBDA x : x.s), Len(r))

T3Hdu(t, ver) == LET r == t.r  n == t.nw IN
  Hdu("OI_T3", DataKeys(t, 2, ver),
      CommonCols(r, n) @@ One(r, "TIME", "D", "s", LAMBDA x : 0)
   @@ Vec(r, "T3AMP", "D", n, "", LAMBDA x : x.a) @@ Vec(r, "T3AMPERR", "D", n, "", LAMBDA x : x.ae)
   @@ Vec(r, "T3PHI", "D", n, "deg", LAMBDA x : x.p) @@ Vec(r, "T3PHIERR", "D", n, "deg", LAMBDA x : x.pe)
   @@ CorCol(t, "CORRINDX_T3AMP", LAMBDA x : x.ca) @@ CorCol(t, "CORRINDX_T3PHI", LAMBDA x : x.cp)
   @@ One(r, "U1COORD", "D", "m", LAMBDA x : x.u) @@ One(r, "V1COORD", "D", "m", LAMBDA x : x.v)
   @@ One(r, "U2COORD", "D", "m", LAMBDA x : x.u2) @@ One(r, "V2COORD", "D", "m", LAMBDA x : x.v2)
   @@ Vec(r, "STA_INDEX", "I", 3, "", LAMBDA x : x.s), Len(r))

FluxHdu(t, ver) == LET r == t.r  n == t.nw IN
  Hdu("OI_FLUX", DataKeys(t, 1, ver) @@ ("CALSTAT" :> t.cal) @@ OptKey(t.fovtype # "", "FOV", t.fov)
        @@ OptKey(t.fovtype # "", "FOVTYPE", t.fovtype),
      CommonCols(r, n)
   @@ Vec(r, "FLUXDATA", "D", n, t.funit, LAMBDA x : x.a) @@ Vec(r, "FLUXERR", "D", n, t.funit, LAMBDA x : x.ae)
   @@ CorCol(t, "CORRINDX_FLUXDATA", LAMBDA x : x.ca)
   @@ (IF t.arr = "" THEN NoCol ELSE One(r, "STA_INDEX", "I", "", LAMBDA x : x.sta)), Len(r))

Numbered(tabs, F(_, _)) == [k \in DOMAIN tabs |-> F(tabs[k], k)]
Encode(ds) == <<HeaderHdu(ds.hdr), TargetHdu(ds.tg)>> \o Numbered(ds.arr, ArrayHdu) \o Numbered(ds.wav, WaveHdu)
  \o Numbered(ds.cor, CorrHdu) \o Numbered(ds.pol, PolHdu) \o Numbered(ds.vis, VisHdu)
  \o Numbered(ds.vis2, Vis2Hdu) \o Numbered(ds.t3, T3Hdu) \o Numbered(ds.flux, FluxHdu)
HduOf(ds, kind, k, ver) ==
  CASE kind = "tg" -> TargetHdu(ds.tg) [] kind = "arr" -> ArrayHdu(ds.arr[k], ver)
    [] kind = "wav" -> WaveHdu(ds.wav[k], ver) [] kind = "cor" -> CorrHdu(ds.cor[k], ver)
    [] kind = "pol" -> PolHdu(ds.pol[k], ver) [] kind = "vis" -> VisHdu(ds.vis[k], ver)
    [] kind = "vis2" -> Vis2Hdu(ds.vis2[k], ver) [] kind = "t3" -> T3Hdu(ds.t3[k], ver)
    [] kind = "flux" -> FluxHdu(ds.flux[k], ver)

(***************************************************************************)
(* Decoding one table.  Readable says whether everything mandatory is      *)
(* there; only then is the table's content defined.                        *)
(***************************************************************************)
At(h, c, q) == h.cols[c].v[q][1]
Seqv(h, c, q) == h.cols[c].v[q]
Sv(h, c, q) == h.cols[c].v[q]
Cut(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
HasKeys(h, K) == \A k \in K : Has(h, k)
HasCols(h, C) == \A c \in C : HasCol(h, c)
StrOK(h, c, w) == HasCol(h, c) => h.cols[c].ty = "A" /\ h.cols[c].rep <= w
Rows(h) == 1..h.nrow
Rev(h) == h.keys["OI_REVN"]

ReadableTarget(h) ==
  /\ HasKeys(h, {"OI_REVN"})
  /\ HasCols(h, {"TARGET_ID", "TARGET", "RAEP0", "DECEP0", "EQUINOX", "RA_ERR", "DEC_ERR", "SYSVEL", "VELTYP",
                 "VELDEF", "PMRA", "PMDEC", "PMRA_ERR", "PMDEC_ERR", "PARALLAX", "PARA_ERR", "SPECTYP"})
  /\ h.cols["TARGET"].ty = "A" /\ h.cols["SPECTYP"].ty = "A" /\ StrOK(h, "VELTYP", 8) /\ StrOK(h, "VELDEF", 8)
  /\ Rev(h) >= 2 /\ Rows(h) # {} => StrOK(h, "CATEGORY", 3)
DecTarget(h) == LET cat == Rev(h) >= 2 /\ HasCol(h, "CATEGORY") /\ Rows(h) # {} IN
  [rev |-> Rev(h), usecat |-> IF cat THEN 1 ELSE 0, t |-> [q \in Rows(h) |->
    [id |-> At(h, "TARGET_ID", q), name |-> Cut(Sv(h, "TARGET", q), 32), ra |-> At(h, "RAEP0", q),
     dec |-> At(h, "DECEP0", q), eqx |-> At(h, "EQUINOX", q), raerr |-> At(h, "RA_ERR", q),
     decerr |-> At(h, "DEC_ERR", q), sysvel |-> At(h, "SYSVEL", q), veltyp |-> Sv(h, "VELTYP", q),
     veldef |-> Sv(h, "VELDEF", q), pmra |-> At(h, "PMRA", q), pmdec |-> At(h, "PMDEC", q),
     pmraerr |-> At(h, "PMRA_ERR", q), pmdecerr |-> At(h, "PMDEC_ERR", q), plx |-> At(h, "PARALLAX", q),
     plxerr |-> At(h, "PARA_ERR", q), spectyp |-> Cut(Sv(h, "SPECTYP", q), 32),
     cat |-> IF cat THEN Sv(h, "CATEGORY", q) ELSE ""]]]

ReadableArray(h) ==
  /\ HasKeys(h, {"OI_REVN", "ARRNAME", "FRAME", "ARRAYX", "ARRAYY", "ARRAYZ"})
  /\ HasCols(h, {"TEL_NAME", "STA_NAME", "STA_INDEX", "DIAMETER", "STAXYZ"})
  /\ StrOK(h, "TEL_NAME", 16) /\ StrOK(h, "STA_NAME", 16)
  /\ Rev(h) >= 2 => HasCols(h, {"FOV", "FOVTYPE"}) /\ StrOK(h, "FOVTYPE", 6)
DecArray(h) ==
  [rev |-> Rev(h), name |-> h.keys["ARRNAME"], frame |-> h.keys["FRAME"], x |-> h.keys["ARRAYX"],
   y |-> h.keys["ARRAYY"], z |-> h.keys["ARRAYZ"], e |-> [q \in Rows(h) |->
    [tel |-> Sv(h, "TEL_NAME", q), sta |-> Sv(h, "STA_NAME", q), idx |-> At(h, "STA_INDEX", q),
     dia |-> At(h, "DIAMETER", q), sx |-> Seqv(h, "STAXYZ", q)[1], sy |-> Seqv(h, "STAXYZ", q)[2],
     sz |-> Seqv(h, "STAXYZ", q)[3], fov |-> IF Rev(h) >= 2 THEN At(h, "FOV", q) ELSE NAN,
     fovtype |-> IF Rev(h) >= 2 THEN Sv(h, "FOVTYPE", q) ELSE "FWHM"]]]

ReadableWave(h) == HasKeys(h, {"OI_REVN", "INSNAME"}) /\ HasCols(h, {"EFF_WAVE", "EFF_BAND"})
DecWave(h) == [rev |-> Rev(h), name |-> h.keys["INSNAME"], w |-> [q \in Rows(h) |-> At(h, "EFF_WAVE", q)],
               b |-> [q \in Rows(h) |-> At(h, "EFF_BAND", q)]]

ReadableCorr(h) == HasKeys(h, {"OI_REVN", "CORRNAME", "NDATA"}) /\ HasCols(h, {"IINDX", "JINDX", "CORR"})
DecCorr(h) == [rev |-> Rev(h), name |-> h.keys["CORRNAME"], ndata |-> h.keys["NDATA"],
  i |-> [q \in Rows(h) |-> At(h, "IINDX", q)], j |-> [q \in Rows(h) |-> At(h, "JINDX", q)],
  c |-> [q \in Rows(h) |-> At(h, "CORR", q)]]

ReadablePol(h) ==
  /\ HasKeys(h, {"OI_REVN", "DATE-OBS", "NPOL", "ARRNAME", "ORIENT", "MODEL"})
  /\ HasCols(h, {"TARGET_ID", "INSNAME", "MJD_OBS", "MJD_END", "JXX", "JYY", "JXY", "JYX", "STA_INDEX"})
  /\ StrOK(h, "INSNAME", 70)
DecPol(h) == [rev |-> Rev(h), date |-> h.keys["DATE-OBS"], npol |-> h.keys["NPOL"], arr |-> h.keys["ARRNAME"],
  orient |-> h.keys["ORIENT"], model |-> h.keys["MODEL"], nw |-> h.cols["JXX"].rep, r |-> [q \in Rows(h) |->
    [tid |-> At(h, "TARGET_ID", q), ins |-> Sv(h, "INSNAME", q), mjd |-> At(h, "MJD_OBS", q),
     mjdend |-> At(h, "MJD_END", q), jxx |-> Seqv(h, "JXX", q), jyy |-> Seqv(h, "JYY", q),
     jxy |-> Seqv(h, "JXY", q), jyx |-> Seqv(h, "JYX", q), sta |-> At(h, "STA_INDEX", q)]]]

DataCols == {"TARGET_ID", "MJD", "INT_TIME", "FLAG"}
Correlated(h, minrev) == Rev(h) >= minrev /\ Has(h, "CORRNAME")
CorName(h, minrev) == IF Correlated(h, minrev) THEN h.keys["CORRNAME"] ELSE ""
Cx(h, minrev, c, q) == IF CorName(h, minrev) # "" THEN At(h, c, q) ELSE 0

ReadableVis(h) ==
  /\ HasKeys(h, {"OI_REVN", "DATE-OBS", "INSNAME"})
  /\ HasCols(h, DataCols \cup {"TIME", "VISAMP", "VISAMPERR", "VISPHI", "VISPHIERR", "UCOORD", "VCOORD", "STA_INDEX"})
  /\ Rev(h) # 1 =>
       /\ Has(h, "CORRNAME") => HasCols(h, {"CORRINDX_VISAMP", "CORRINDX_VISPHI"})
       /\ HasCol(h, "RVIS") => /\ h.cols["RVIS"].unit # "" /\ HasCols(h, {"RVISERR", "IVIS", "IVISERR"})
                               /\ Has(h, "CORRNAME") => HasCols(h, {"CORRINDX_RVIS", "CORRINDX_IVIS"})
DecVis(h) ==
  LET v2 == Rev(h) # 1
      ref == v2 /\ HasCol(h, "VISREFMAP")
      cpx == v2 /\ HasCol(h, "RVIS")
      cor == IF v2 THEN Key(h, "CORRNAME", "") ELSE ""
      C(c, q) == IF cor # "" THEN At(h, c, q) ELSE 0
  IN [rev |-> Rev(h), date |-> h.keys["DATE-OBS"], arr |-> Key(h, "ARRNAME", ""), ins |-> h.keys["INSNAME"],
      cor |-> cor, amptyp |-> IF v2 THEN Key(h, "AMPTYP", "") ELSE "",
      phityp |-> IF v2 THEN Key(h, "PHITYP", "") ELSE "",
      amporder |-> IF v2 THEN Key(h, "AMPORDER", -1) ELSE -1,
      phiorder |-> IF v2 THEN Key(h, "PHIORDER", -1) ELSE -1,
      useref |-> IF ref THEN 1 ELSE 0, usecpx |-> IF cpx THEN 1 ELSE 0,
      cunit |-> IF cpx THEN h.cols["RVIS"].unit ELSE "", aunit |-> h.cols["VISAMP"].unit,
      nw |-> h.cols["VISAMP"].rep, r |-> [q \in Rows(h) |->
      [tid |-> At(h, "TARGET_ID", q), time |-> At(h, "TIME", q), mjd |-> At(h, "MJD", q), it |-> At(h, "INT_TIME", q),
       a |-> Seqv(h, "VISAMP", q), ae |-> Seqv(h, "VISAMPERR", q), ca |-> C("CORRINDX_VISAMP", q),
       p |-> Seqv(h, "VISPHI", q), pe |-> Seqv(h, "VISPHIERR", q), cp |-> C("CORRINDX_VISPHI", q),
       ref |-> IF ref THEN Seqv(h, "VISREFMAP", q) ELSE <<>>,
       rv |-> IF cpx THEN Seqv(h, "RVIS", q) ELSE <<>>, rve |-> IF cpx THEN Seqv(h, "RVISERR", q) ELSE <<>>,
       crv |-> IF cpx THEN C("CORRINDX_RVIS", q) ELSE 0,
       iv |-> IF cpx THEN Seqv(h, "IVIS", q) ELSE <<>>, ive |-> IF cpx THEN Seqv(h, "IVISERR", q) ELSE <<>>,
       civ |-> IF cpx THEN C("CORRINDX_IVIS", q) ELSE 0,
       u |-> At(h, "UCOORD", q), v |-> At(h, "VCOORD", q), s |-> Seqv(h, "STA_INDEX", q), f |-> Seqv(h, "FLAG", q)]]]

ReadableVis2(h) ==
  /\ HasKeys(h, {"OI_REVN", "DATE-OBS", "INSNAME"})
  /\ HasCols(h, DataCols \cup {"TIME", "VIS2DATA", "VIS2ERR", "UCOORD", "VCOORD", "STA_INDEX"})
  /\ Correlated(h, 2) => HasCol(h, "CORRINDX_VIS2DATA")
DecVis2(h) ==
  [rev |-> Rev(h), date |-> h.keys["DATE-OBS"], arr |-> Key(h, "ARRNAME", ""), ins |-> h.keys["INSNAME"],
   cor |-> CorName(h, 2), nw |-> h.cols["VIS2DATA"].rep, r |-> [q \in Rows(h) |->
      [tid |-> At(h, "TARGET_ID", q), time |-> At(h, "TIME", q), mjd |-> At(h, "MJD", q), it |-> At(h, "INT_TIME", q),
       a |-> Seqv(h, "VIS2DATA", q), ae |-> Seqv(h, "VIS2ERR", q), ca |-> Cx(h, 2, "CORRINDX_VIS2DATA", q),
       u |-> At(h, "UCOORD", q), v |-> At(h, "VCOORD", q), s |-> Seqv(h, "STA_INDEX", q), f |-> Seqv(h, "FLAG", q)]]]

ReadableT3(h) ==
  /\ HasKeys(h, {"OI_REVN", "DATE-OBS", "INSNAME"})
  /\ HasCols(h, DataCols \cup {"TIME", "T3AMP", "T3AMPERR", "T3PHI", "T3PHIERR", "U1COORD", "V1COORD", "U2COORD",
                               "V2COORD", "STA_INDEX"})
  /\ Correlated(h, 2) => HasCols(h, {"CORRINDX_T3AMP", "CORRINDX_T3PHI"})
DecT3(h) ==
  [rev |-> Rev(h), date |-> h.keys["DATE-OBS"], arr |-> Key(h, "ARRNAME", ""), ins |-> h.keys["INSNAME"],
   cor |-> CorName(h, 2), nw |-> h.cols["T3AMP"].rep, r |-> [q \in Rows(h) |->
      [tid |-> At(h, "TARGET_ID", q), time |-> At(h, "TIME", q), mjd |-> At(h, "MJD", q), it |-> At(h, "INT_TIME", q),
       a |-> Seqv(h, "T3AMP", q), ae |-> Seqv(h, "T3AMPERR", q), ca |-> Cx(h, 2, "CORRINDX_T3AMP", q),
       p |-> Seqv(h, "T3PHI", q), pe |-> Seqv(h, "T3PHIERR", q), cp |-> Cx(h, 2, "CORRINDX_T3PHI", q),
       u |-> At(h, "U1COORD", q), v |-> At(h, "V1COORD", q), u2 |-> At(h, "U2COORD", q), v2 |-> At(h, "V2COORD", q),
       s |-> Seqv(h, "STA_INDEX", q), f |-> Seqv(h, "FLAG", q)]]]

ReadableFlux(h) ==
  /\ HasKeys(h, {"OI_REVN", "DATE-OBS", "INSNAME", "CALSTAT"})
  /\ HasCols(h, DataCols \cup {"FLUXDATA", "FLUXERR"}) /\ h.cols["FLUXDATA"].unit # ""
  /\ Has(h, "CORRNAME") => HasCol(h, "CORRINDX_FLUXDATA")
DecFlux(h) ==
  [rev |-> Rev(h), date |-> h.keys["DATE-OBS"], arr |-> Key(h, "ARRNAME", ""), ins |-> h.keys["INSNAME"],
   cor |-> CorName(h, -100), fov |-> IF Key(h, "FOVTYPE", "") = "" THEN NAN ELSE Key(h, "FOV", NAN),
   fovtype |-> Key(h, "FOVTYPE", ""), cal |-> Cut(h.keys["CALSTAT"], 1), funit |-> h.cols["FLUXDATA"].unit,
   nw |-> h.cols["FLUXDATA"].rep, r |-> [q \in Rows(h) |->
      [tid |-> At(h, "TARGET_ID", q), mjd |-> At(h, "MJD", q), it |-> At(h, "INT_TIME", q),
       a |-> Seqv(h, "FLUXDATA", q), ae |-> Seqv(h, "FLUXERR", q), ca |-> Cx(h, -100, "CORRINDX_FLUXDATA", q),
       sta |-> IF HasCol(h, "STA_INDEX") THEN At(h, "STA_INDEX", q) ELSE -1, f |-> Seqv(h, "FLAG", q)]]]

HKey(h, k) == Key(h, k, "")
DecHeader(h) == [origin |-> HKey(h, "ORIGIN"), date |-> HKey(h, "DATE"), date_obs |-> HKey(h, "DATE-OBS"),
  content |-> HKey(h, "CONTENT"), telescop |-> HKey(h, "TELESCOP"), instrume |-> HKey(h, "INSTRUME"),
  observer |-> HKey(h, "OBSERVER"), insmode |-> HKey(h, "INSMODE"), object |-> HKey(h, "OBJECT"),
  referenc |-> HKey(h, "REFERENC"), author |-> HKey(h, "AUTHOR"), prog_id |-> HKey(h, "PROG_ID"),
  procsoft |-> HKey(h, "PROCSOFT"), obstech |-> HKey(h, "OBSTECH")]

ExtName(kind) == CASE kind = "tg" -> "OI_TARGET" [] kind = "arr" -> "OI_ARRAY" [] kind = "wav" -> "OI_WAVELENGTH"
  [] kind = "cor" -> "OI_CORR" [] kind = "pol" -> "OI_INSPOL" [] kind = "vis" -> "OI_VIS"
  [] kind = "vis2" -> "OI_VIS2" [] kind = "t3" -> "OI_T3" [] kind = "flux" -> "OI_FLUX"
NameKey(kind) == CASE kind = "arr" -> "ARRNAME" [] kind = "wav" -> "INSNAME" [] kind = "cor" -> "CORRNAME"
(* storage types: numbers cannot be had from logical columns, nor logical values from any other *)
Unless(c, S) == IF c THEN {} ELSE S
CorrIdx(h, minrev, S) == Unless(~Correlated(h, minrev), S)
NumCols(kind, h) ==
  CASE kind = "tg" -> {"TARGET_ID", "RAEP0", "DECEP0", "EQUINOX", "RA_ERR", "DEC_ERR", "SYSVEL", "PMRA", "PMDEC",
                       "PMRA_ERR", "PMDEC_ERR", "PARALLAX", "PARA_ERR"}
    [] kind = "arr" -> {"STA_INDEX", "DIAMETER", "STAXYZ"} \cup Unless(Rev(h) < 2, {"FOV"})
    [] kind = "wav" -> {"EFF_WAVE", "EFF_BAND"}
    [] kind = "cor" -> {"IINDX", "JINDX", "CORR"}
    [] kind = "pol" -> {"TARGET_ID", "MJD_OBS", "MJD_END", "JXX", "JYY", "JXY", "JYX", "STA_INDEX"}
    [] kind = "vis" -> {"TARGET_ID", "MJD", "INT_TIME", "TIME", "VISAMP", "VISAMPERR", "VISPHI", "VISPHIERR", "UCOORD",
                        "VCOORD", "STA_INDEX"}
         \cup Unless(Rev(h) = 1 \/ ~Has(h, "CORRNAME"), {"CORRINDX_VISAMP", "CORRINDX_VISPHI"})
         \cup Unless(Rev(h) = 1 \/ ~HasCol(h, "RVIS"), {"RVIS", "RVISERR", "IVIS", "IVISERR"}
               \cup Unless(~Has(h, "CORRNAME"), {"CORRINDX_RVIS", "CORRINDX_IVIS"}))
    [] kind = "vis2" -> {"TARGET_ID", "MJD", "INT_TIME", "TIME", "VIS2DATA", "VIS2ERR", "UCOORD", "VCOORD", "STA_INDEX"}
         \cup CorrIdx(h, 2, {"CORRINDX_VIS2DATA"})
    [] kind = "t3" -> {"TARGET_ID", "MJD", "INT_TIME", "TIME", "T3AMP", "T3AMPERR", "T3PHI", "T3PHIERR", "U1COORD",
                       "V1COORD", "U2COORD", "V2COORD", "STA_INDEX"}
         \cup CorrIdx(h, 2, {"CORRINDX_T3AMP", "CORRINDX_T3PHI"})
    [] kind = "flux" -> {"TARGET_ID", "MJD", "INT_TIME", "FLUXDATA", "FLUXERR"}
         \cup CorrIdx(h, -100, {"CORRINDX_FLUXDATA"}) \cup Unless(~HasCol(h, "STA_INDEX"), {"STA_INDEX"})
LogCols(kind, h) ==
  CASE kind = "vis" -> {"FLAG"} \cup Unless(Rev(h) = 1 \/ ~HasCol(h, "VISREFMAP"), {"VISREFMAP"})
    [] kind \in {"vis2", "t3", "flux"} -> {"FLAG"} [] OTHER -> {}
TypesOK(kind, h) == /\ \A c \in NumCols(kind, h) : h.cols[c].ty # "L"
                    /\ \A c \in LogCols(kind, h) : h.cols[c].ty = "L"
(* keywords that are not looked at may be unusable *)
BadKeys(kind, h) == {h.bad[k] : k \in DOMAIN h.bad}
  \ IF kind = "vis" /\ Has(h, "OI_REVN") /\ Rev(h) = 1 THEN {"AMPORDER", "PHIORDER"} ELSE {}
Complete(kind, h) == CASE kind = "tg" -> ReadableTarget(h) [] kind = "arr" -> ReadableArray(h)
  [] kind = "wav" -> ReadableWave(h) [] kind = "cor" -> ReadableCorr(h) [] kind = "pol" -> ReadablePol(h)
  [] kind = "vis" -> ReadableVis(h) [] kind = "vis2" -> ReadableVis2(h) [] kind = "t3" -> ReadableT3(h)
  [] kind = "flux" -> ReadableFlux(h)
Readable(kind, h) == Complete(kind, h) /\ BadKeys(kind, h) = {} /\ TypesOK(kind, h)
DecTab(kind, h) == CASE kind = "tg" -> DecTarget(h) [] kind = "arr" -> DecArray(h)
  [] kind = "wav" -> DecWave(h) [] kind = "cor" -> DecCorr(h) [] kind = "pol" -> DecPol(h)
  [] kind = "vis" -> DecVis(h) [] kind = "vis2" -> DecVis2(h) [] kind = "t3" -> DecT3(h)
  [] kind = "flux" -> DecFlux(h)

(***************************************************************************)
(* The reading cursor.  pos is the current HDU; the result of a read is    *)
(* [st, pos] with st "ok", "eof" or "error"                                *)
(***************************************************************************)
IsTab(h, kind) == h.bin = 1 /\ h.ext = ExtName(kind)
NextPos(file, pos, kind) ==
  LET S == {k \in (pos + 1)..Len(file) : IsTab(file[k], kind)} IN
  IF S = {} THEN 0 ELSE CHOOSE k \in S : \A x \in S : k <= x
ReadAt(file, kind, p) == IF Readable(kind, file[p]) THEN [st |-> "ok", pos |-> p] ELSE [st |-> "error", pos |-> p]
ReadNext(file, pos, kind) ==
  LET p == NextPos(file, pos, kind) IN IF p = 0 THEN [st |-> "eof", pos |-> Len(file)] ELSE ReadAt(file, kind, p)
ReadFirst(file, kind) ==
  LET p == NextPos(file, 0, kind) IN IF p = 0 THEN [st |-> "error", pos |-> 0] ELSE ReadAt(file, kind, p)
ReadNamed(file, kind, nm) ==
  LET S == {k \in DOMAIN file : IsTab(file[k], kind) /\ Has(file[k], NameKey(kind)) /\ file[k].keys[NameKey(kind)] = nm} IN
  IF S = {} THEN [st |-> "error", pos |-> 0]
  ELSE ReadAt(file, kind, CHOOSE k \in S : \A x \in S : k <= x)

(***************************************************************************)
(* Reading a whole file                                                    *)
(***************************************************************************)
Tabs(file, kind) == LET hs == SelectSeq(file, LAMBDA h : IsTab(h, kind) /\ Readable(kind, h)) IN
                    [k \in DOMAIN hs |-> DecTab(kind, hs[k])]
AllReadable(file, kind) == \A k \in DOMAIN file : IsTab(file[k], kind) => Readable(kind, file[k])
FileReadable(file) == /\ ReadFirst(file, "tg").st = "ok"
                      /\ AllReadable(file, "arr") /\ AllReadable(file, "wav")

(* header of a file that is not OIFITS 2 *)
OnlyOr(S, none) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE none
V1Header(ds, hdr) ==
  [hdr EXCEPT
     !.telescop = IF Len(ds.arr) = 1 THEN ds.arr[1].name ELSE IF Len(ds.arr) = 0 THEN "UNKNOWN" ELSE "MULTIPLE",
     !.instrume = IF Len(ds.wav) = 1 THEN ds.wav[1].name ELSE "MULTIPLE",
     !.object = IF Len(ds.tg.t) = 1 THEN ds.tg.t[1].name ELSE "MULTIPLE",
     !.date_obs = LET d == DateOf(MinMjd(ds) \div Day) IN Iso(d[1], d[2], d[3]),
     !.origin = "UNKNOWN", !.observer = "UNKNOWN", !.insmode = "UNKNOWN"]
DecodeRaw(file) ==
  WithCount([hdr |-> DecHeader(file[1]), tg |-> DecTab("tg", file[NextPos(file, 0, "tg")]),
     arr |-> Tabs(file, "arr"), wav |-> Tabs(file, "wav"), cor |-> Tabs(file, "cor"), pol |-> Tabs(file, "pol"),
     vis |-> Tabs(file, "vis"), vis2 |-> Tabs(file, "vis2"), t3 |-> Tabs(file, "t3"), flux |-> Tabs(file, "flux"),
     n |-> <<>>])
Decode(file) == LET d == DecodeRaw(file) IN IF IsV2(d) THEN d ELSE [d EXCEPT !.hdr = V1Header(d, d.hdr)]

(***************************************************************************)
(* What a dataset looks like after being written and read back             *)
(***************************************************************************)
ToV2(t) == [t EXCEPT !.rev = 2]
NoTime(t) == [t EXCEPT !.rev = 2, !.r = [q \in DOMAIN t.r |-> [t.r[q] EXCEPT !.time = 0]]]
Normal(ds) ==
  [ds EXCEPT !.hdr = [@ EXCEPT !.content = "OIFITS2", !.date = "<now>"],
     !.tg = [ToV2(@) EXCEPT !.usecat = IF ds.tg.t = <<>> THEN 0 ELSE @],      (* in use by no target: not in use *)
     !.arr = [k \in DOMAIN @ |-> ToV2(@[k])], !.wav = [k \in DOMAIN @ |-> ToV2(@[k])],
     !.cor = [k \in DOMAIN @ |-> [@[k] EXCEPT !.rev = 1]], !.pol = [k \in DOMAIN @ |-> [@[k] EXCEPT !.rev = 1]],
     !.vis = [k \in DOMAIN @ |-> [NoTime(@[k]) EXCEPT
                 !.aunit = IF ds.vis[k].amptyp = "correlated flux" THEN @ ELSE "",
                 !.amporder = MaxOf(@, -1), !.phiorder = MaxOf(@, -1)]],
     !.vis2 = [k \in DOMAIN @ |-> NoTime(@[k])], !.t3 = [k \in DOMAIN @ |-> NoTime(@[k])],
     !.flux = [k \in DOMAIN @ |-> [@[k] EXCEPT !.rev = 1,
                 !.r = IF ds.flux[k].arr # "" THEN @ ELSE [q \in DOMAIN @ |-> [@[q] EXCEPT !.sta = -1]]]],
     !.n = Count(ds)]
(* writing then reading loses nothing that is meaningful *)
RoundTrip(ds) == FileReadable(Encode(ds)) /\ Decode(Encode(ds)) = Normal(ds)
=============================================================================
