-------------------------------- MODULE Check --------------------------------
(***************************************************************************)
(* The fourteen standard-conformance checks.  Each is the sequence of      *)
(* breaches [lv, loc] found, in table order; the reported result is their  *)
(* maximum level, their number and the first locations.                    *)
(* Levels: 0 none, 1 warning, 2 not OIFITS.                                *)
(***************************************************************************)
EXTENDS OIData

B(lv, loc) == [lv |-> lv, loc |-> loc]
If(c, b) == IF c THEN <<b>> ELSE <<>>
Num(n) == ToString(n)
TabLoc(nm, k) == nm \o " #" \o Num(k)
RecLoc(nm, k, q) == TabLoc(nm, k) \o " record " \o Num(q)
ChLoc(nm, k, q, c) == RecLoc(nm, k, q) \o " channel " \o Num(c)

EachTab(tabs, F(_, _)) == FlattenSeq([k \in DOMAIN tabs |-> F(tabs[k], k)])
EachRec(tabs, F(_, _, _, _)) == FlattenSeq([k \in DOMAIN tabs |->
     FlattenSeq([q \in DOMAIN tabs[k].r |-> F(tabs[k], k, tabs[k].r[q], q)])])
EachChan(tabs, nm, Bad(_, _)) == EachRec(tabs, LAMBDA t, k, r, q :
     FlattenSeq([c \in DOMAIN r.f |-> If(r.f[c] = 0 /\ Bad(r, c), B(2, ChLoc(nm, k, q, c)))]))

Revs(tabs, nm, rev) == EachTab(tabs, LAMBDA t, k : If(t.rev # rev, B(2, TabLoc(nm, k))))
CkTables(d) ==
  IF IsV2(d) THEN
       If(d.n[1] = 0, B(2, "No OI_ARRAY")) \o If(d.n[2] = 0, B(2, "No OI_WAVELENGTH"))
    \o If(d.n[5] = 0 /\ d.n[6] = 0 /\ d.n[7] = 0 /\ d.n[8] = 0, B(2, "No data"))
    \o If(d.tg.rev # 2, B(2, "OI_TARGET"))
    \o Revs(d.arr, "OI_ARRAY", 2) \o Revs(d.wav, "OI_WAVELENGTH", 2) \o Revs(d.vis, "OI_VIS", 2)
    \o Revs(d.vis2, "OI_VIS2", 2) \o Revs(d.t3, "OI_T3", 2) \o Revs(d.flux, "OI_FLUX", 1)
    \o Revs(d.cor, "OI_CORR", 1) \o Revs(d.pol, "OI_INSPOL", 1)
  ELSE If(d.n[2] = 0, B(2, "No OI_WAVELENGTH"))
    \o If(d.n[5] = 0 /\ d.n[6] = 0 /\ d.n[7] = 0, B(2, "No data"))
    \o If(d.tg.rev # 1, B(2, "OI_TARGET"))
    \o Revs(d.arr, "OI_ARRAY", 1) \o Revs(d.wav, "OI_WAVELENGTH", 1) \o Revs(d.vis, "OI_VIS", 1)
    \o Revs(d.vis2, "OI_VIS2", 1) \o Revs(d.t3, "OI_T3", 1)

CkHeader(d) == LET K(key, nm) == If(d.hdr[key] = "", B(2, nm)) IN
  IF ~IsV2(d) THEN <<>>
  ELSE K("origin", "ORIGIN") \o K("date", "DATE") \o K("date_obs", "DATE-OBS") \o K("telescop", "TELESCOP")
    \o K("instrume", "INSTRUME") \o K("observer", "OBSERVER") \o K("insmode", "INSMODE") \o K("object", "OBJECT")

CkKeywords(d) ==
     EachTab(d.arr, LAMBDA t, k : If(t.frame \notin {"GEOCENTRIC", "SKY"}, B(2, TabLoc("OI_ARRAY", k) \o " FRAME")))
  \o EachTab(d.vis, LAMBDA t, k :
        If(IsV2(d) /\ t.amptyp \notin {"", "absolute", "differential", "correlated flux"}, B(2, TabLoc("OI_VIS", k) \o " AMPTYP"))
     \o If(IsV2(d) /\ t.phityp \notin {"", "absolute", "differential"}, B(2, TabLoc("OI_VIS", k) \o " PHITYP")))
  \o EachTab(d.flux, LAMBDA t, k : If(t.cal \notin {"C", "U"}, B(2, TabLoc("OI_FLUX", k) \o " CALSTAT"))
     \o If(t.fovtype \notin {"", "FWHM", "RADIUS"}, B(2, TabLoc("OI_FLUX", k) \o " FOVTYPE")))

CkVisrefmap(d) == EachTab(d.vis, LAMBDA t, k :
  IF t.amptyp = "differential" \/ t.phityp = "differential"
  THEN If(t.useref = 0, B(2, TabLoc("OI_VIS", k))) ELSE If(t.useref # 0, B(1, TabLoc("OI_VIS", k))))

CkUniqueTargets(d) == FlattenSeq([k \in DOMAIN d.tg.t |->
  If(\E j \in 1..(k - 1) : d.tg.t[j].name = d.tg.t[k].name, B(1, "TARGET_ID=" \o Num(d.tg.t[k].id)))])

CkTargetsPresent(d) == LET ids == TargetIds(d)
                           P(tabs, nm) == EachRec(tabs, LAMBDA t, k, r, q : If(r.tid \notin ids, B(2, RecLoc(nm, k, q))))
                       IN P(d.vis, "OI_VIS") \o P(d.vis2, "OI_VIS2") \o P(d.t3, "OI_T3") \o P(d.flux, "OI_FLUX")

CkArrname(d) == LET A(tabs, nm) == EachTab(tabs, LAMBDA t, k : If(t.arr = "", B(2, TabLoc(nm, k)))) IN
  IF ~IsV2(d) THEN <<>>
  ELSE A(d.pol, "OI_INSPOL") \o A(d.vis, "OI_VIS") \o A(d.vis2, "OI_VIS2") \o A(d.t3, "OI_T3")
    \o EachTab(d.flux, LAMBDA t, k : If(t.cal = "U" /\ t.arr = "", B(2, TabLoc("OI_FLUX", k))))

NoElem(d, arr, idx) == LookupElement(d, arr, idx) = <<0, 0>>
CkElements(d) ==
  LET S(tabs, nm) == EachRec(tabs, LAMBDA t, k, r, q :
        IF t.arr = "" THEN <<>>
        ELSE FlattenSeq([j \in DOMAIN r.s |-> If(NoElem(d, t.arr, r.s[j]), B(2, RecLoc(nm, k, q)))])) IN
     EachTab(d.pol, LAMBDA t, k : IF t.arr = "" THEN <<B(2, TabLoc("OI_INSPOL", k))>>
       ELSE FlattenSeq([q \in DOMAIN t.r |-> If(NoElem(d, t.arr, t.r[q].sta), B(2, RecLoc("OI_INSPOL", k, q)))]))
  \o S(d.vis, "OI_VIS") \o S(d.vis2, "OI_VIS2") \o S(d.t3, "OI_T3")
  \o EachRec(d.flux, LAMBDA t, k, r, q :
       If(t.arr # "" /\ r.sta # -1 /\ NoElem(d, t.arr, r.sta), B(2, RecLoc("OI_FLUX", k, q))))

CkCorr(d) == LET C(tabs, nm) == EachTab(tabs, LAMBDA t, k : If(t.cor # "" /\ ~HasName(d.cor, t.cor), B(2, TabLoc(nm, k)))) IN
  C(d.vis, "OI_VIS") \o C(d.vis2, "OI_VIS2") \o C(d.t3, "OI_T3") \o C(d.flux, "OI_FLUX")

CkFlagging(d) == EachChan(d.vis, "OI_VIS", LAMBDA r, c : r.ae[c] < 0 \/ r.pe[c] < 0)
              \o EachChan(d.vis2, "OI_VIS2", LAMBDA r, c : r.ae[c] < 0)
              \o EachChan(d.t3, "OI_T3", LAMBDA r, c : r.ae[c] < 0 \/ r.pe[c] < 0)
CkT3amp(d) == EachChan(d.t3, "OI_T3", LAMBDA r, c : r.a[c] \notin {NAN, NINF} /\ r.ae[c] # NAN /\ r.a[c] - 64 > r.ae[c])
CkWaveorder(d) == EachTab(d.wav, LAMBDA t, k : FlattenSeq([c \in DOMAIN t.w |->
  If(c > 1 /\ (\/ t.w[c] # NAN /\ t.w[c - 1] # NAN /\ t.w[c] < t.w[c - 1]
               \/ c < Len(t.w) /\ t.w[c] # NAN /\ t.w[c + 1] # NAN /\ t.w[c] > t.w[c + 1]),
     B(1, "OI_WAVELENGTH INSNAME=" \o t.name \o " channel " \o Num(c)))]))
CkTime(d) == LET T(tabs, nm) == EachRec(tabs, LAMBDA t, k, r, q : If(r.time # 0 /\ r.time # NAN, B(1, RecLoc(nm, k, q)))) IN
  IF ~IsV2(d) THEN <<>> ELSE T(d.vis, "OI_VIS") \o T(d.vis2, "OI_VIS2") \o T(d.t3, "OI_T3")
CkFlux(d) == EachTab(d.flux, LAMBDA t, k : LET L(x) == B(2, TabLoc("OI_FLUX", k) \o " " \o x) IN
  IF t.cal = "C" THEN If(t.arr # "", L("ARRNAME")) \o If(t.r # <<>> /\ t.r[1].sta # -1, L("STA_INDEX"))
  ELSE IF t.cal = "U" THEN If(t.arr = "", L("ARRNAME")) \o If(t.r # <<>> /\ t.r[1].sta = -1, L("STA_INDEX"))
                        \o If(t.fovtype # "", L("FOVTYPE"))
  ELSE <<>>)

MaxReport == 10
LocLen == 70      (* a location is a FITS header value string *)
Report(bs) ==
  [level |-> FoldLeft(LAMBDA a, b : MaxOf(a, b.lv), 0, bs), num |-> Len(bs),
   loc |-> [k \in 1..MinOf(Len(bs), MaxReport) |-> IF k = MaxReport THEN "[List truncated]"
                                                  ELSE SubSeq(bs[k].loc, 1, MinOf(Len(bs[k].loc), LocLen))]]

CheckNames == {"tables", "header", "keywords", "visrefmap", "unique_targets", "targets_present", "arrname",
               "elements_present", "corr_present", "flagging", "t3amp", "waveorder", "time", "flux"}
Breaches(d, nm) ==
  CASE nm = "tables" -> CkTables(d) [] nm = "header" -> CkHeader(d) [] nm = "keywords" -> CkKeywords(d)
    [] nm = "visrefmap" -> CkVisrefmap(d) [] nm = "unique_targets" -> CkUniqueTargets(d)
    [] nm = "targets_present" -> CkTargetsPresent(d) [] nm = "arrname" -> CkArrname(d)
    [] nm = "elements_present" -> CkElements(d) [] nm = "corr_present" -> CkCorr(d)
    [] nm = "flagging" -> CkFlagging(d) [] nm = "t3amp" -> CkT3amp(d) [] nm = "waveorder" -> CkWaveorder(d)
    [] nm = "time" -> CkTime(d) [] nm = "flux" -> CkFlux(d)
CheckFn(d) == [nm \in CheckNames |-> Report(Breaches(d, nm))]
=============================================================================
