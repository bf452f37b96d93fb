/*
 * oih - scenario interpreter for OIFITSlib.
 *
 * Reads scenarios (a token stream) and executes every operation with the real
 * library, logging after each operation one JSON line with what a user of the
 * library can observe (arguments, return values, full contents of the datasets
 * involved).  Nothing is judged here: the log is the implementation's trace,
 * which is validated against the TLA+ specification in ../spec.
 *
 * Every scenario runs in a forked child, so a crash (abort, sanitizer report,
 * signal) becomes an event of the trace.
 *
 * Strings are %XX-encoded tokens ("~" is the empty string).
 */
#include "oifile.h"
#include "oifilter.h"
#include "oimerge.h"
#include "oiiter.h"
#include "oicheck.h"
#include "datemjd.h"
#include <ctype.h>
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>

#define NSLOT 16
#define NITER 8
static oi_fits slot[NSLOT];
static FILE *out;
static struct rlimit wlimit = {512UL << 20, RLIM_INFINITY}, nolimit = {512UL << 20, RLIM_INFINITY};

/* ---- number of blocks in use ---- */
static long nblock = -1;
#ifndef __SANITIZE_ADDRESS__
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) nblock++; return p; }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); if (p) nblock++; return p; }
void *realloc(void *q, size_t n)
{
  void *p = __libc_realloc(q, n);
  if (!q && p) nblock++;
  else if (q && n == 0 && !p) nblock--;
  return p;
}
void free(void *p) { if (p) nblock--; __libc_free(p); }
#endif

/* ---- token reader ---- */
static char **tk;
static long ntk, itk;

static const char *tok(void)
{
  if (itk >= ntk) { fprintf(stderr, "oih: script truncated\n"); exit(99); }
  return tk[itk++];
}
static long ti(void) { return strtol(tok(), NULL, 10); }
/* an incoming status: a number, or @ for what the previous call left */
static int carried;
static int tst(void) { const char *t = tok(); return *t == '@' ? carried : (int)strtol(t, NULL, 10); }
static double td(void) { return strtod(tok(), NULL); }
static void ts(char *dst, size_t size)
{
  const char *s = tok();
  size_t n = 0;
  if (strcmp(s, "~") != 0)
    for (; *s; s++)
    {
      int c = (unsigned char)*s;
      if (c == '%') { char h[3] = {s[1], s[2], 0}; c = (int)strtol(h, NULL, 16); s += 2; }
      if (n + 1 >= size) { fprintf(stderr, "oih: string too long for field\n"); exit(99); }
      dst[n++] = (char)c;
    }
  dst[n] = 0;
}
static char *tdup(void)
{
  char buf[4096];
  ts(buf, sizeof buf);
  return strdup(buf);
}

/* ---- JSON writer ---- */
static void js(const char *s)
{
  fputc('"', out);
  for (; *s; s++)
  {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') { fputc('\\', out); fputc(c, out); }
    else if (c < 32 || c > 126) fprintf(out, "\\u%04x", c);
    else fputc(c, out);
  }
  fputc('"', out);
}
/* fixed-size field: never read past its end, even if unterminated */
static void jsn(const char *s, size_t size)
{
  char buf[256];
  size_t n = strnlen(s, size);
  memcpy(buf, s, n);
  buf[n] = 0;
  js(buf);
}
static void jd(double x)
{
  if (isnan(x)) fputs("\"nan\"", out);
  else if (isinf(x)) fputs(x > 0 ? "\"inf\"" : "\"-inf\"", out);
  else fprintf(out, "%.17g", x);
}
static void jks(const char *k, const char *s, size_t size) { fprintf(out, "\"%s\":", k); jsn(s, size); fputc(',', out); }
static void jkd(const char *k, double x) { fprintf(out, "\"%s\":", k); jd(x); fputc(',', out); }
static void jki(const char *k, long x) { fprintf(out, "\"%s\":%ld,", k, x); }
static void jkda(const char *k, const double *x, long n)
{
  fprintf(out, "\"%s\":[", k);
  for (long i = 0; i < n; i++) { if (i) fputc(',', out); jd(x[i]); }
  fputs("],", out);
}
static void jkfa(const char *k, const float *x, long n)
{
  fprintf(out, "\"%s\":[", k);
  for (long i = 0; i < n; i++) { if (i) fputc(',', out); jd(x[i]); }
  fputs("],", out);
}
static void jkia(const char *k, const int *x, long n)
{
  fprintf(out, "\"%s\":[", k);
  for (long i = 0; i < n; i++) fprintf(out, i ? ",%d" : "%d", x[i]);
  fputs("],", out);
}
static void jkba(const char *k, const BOOL *x, long n)
{
  fprintf(out, "\"%s\":[", k);
  for (long i = 0; i < n; i++) fprintf(out, i ? ",%d" : "%d", x[i] != 0);
  fputs("],", out);
}
static void jkca(const char *k, const float complex *x, long n)
{
  fprintf(out, "\"%s\":[", k);
  for (long i = 0; i < n; i++)
  {
    if (i) fputc(',', out);
    jd(crealf(x[i])); fputc(',', out); jd(cimagf(x[i]));
  }
  fputs("],", out);
}
#define JKS(k, f) jks(k, f, sizeof(f))
#define JEND fputs("\"_\":0}", out)

/* ---- dump tables ---- */
static void dump_header(const oi_header *h)
{
  fputc('{', out);
  JKS("origin", h->origin); JKS("date", h->date); JKS("date_obs", h->date_obs);
  JKS("content", h->content); JKS("telescop", h->telescop); JKS("instrume", h->instrume);
  JKS("observer", h->observer); JKS("insmode", h->insmode); JKS("object", h->object);
  JKS("referenc", h->referenc); JKS("author", h->author); JKS("prog_id", h->prog_id);
  JKS("procsoft", h->procsoft); JKS("obstech", h->obstech);
  JEND;
}
static void dump_target(const oi_target *t)
{
  fputc('{', out);
  jki("rev", t->revision); jki("usecat", t->usecategory != 0);
  fputs("\"t\":[", out);
  for (int i = 0; i < t->ntarget; i++)
  {
    const target *p = &t->targ[i];
    fputs(i ? ",{" : "{", out);
    jki("id", p->target_id); JKS("name", p->target);
    jkd("ra", p->raep0); jkd("dec", p->decep0); jkd("eqx", p->equinox);
    jkd("raerr", p->ra_err); jkd("decerr", p->dec_err); jkd("sysvel", p->sysvel);
    JKS("veltyp", p->veltyp); JKS("veldef", p->veldef);
    jkd("pmra", p->pmra); jkd("pmdec", p->pmdec);
    jkd("pmraerr", p->pmra_err); jkd("pmdecerr", p->pmdec_err);
    jkd("plx", p->parallax); jkd("plxerr", p->para_err);
    JKS("spectyp", p->spectyp);
    if (t->usecategory) JKS("cat", p->category); else js("cat"), fputs(":\"\",", out);
    JEND;
  }
  fputs("],", out);
  JEND;
}
static void dump_array(const oi_array *a)
{
  fputc('{', out);
  jki("rev", a->revision); JKS("name", a->arrname); JKS("frame", a->frame);
  jkd("x", a->arrayx); jkd("y", a->arrayy); jkd("z", a->arrayz);
  fputs("\"e\":[", out);
  for (int i = 0; i < a->nelement; i++)
  {
    const element *p = &a->elem[i];
    fputs(i ? ",{" : "{", out);
    JKS("tel", p->tel_name); JKS("sta", p->sta_name); jki("idx", p->sta_index);
    jkd("dia", p->diameter); jkd("sx", p->staxyz[0]); jkd("sy", p->staxyz[1]);
    jkd("sz", p->staxyz[2]); jkd("fov", p->fov); JKS("fovtype", p->fovtype);
    JEND;
  }
  fputs("],", out);
  JEND;
}
static void dump_wave(const oi_wavelength *w)
{
  fputc('{', out);
  jki("rev", w->revision); JKS("name", w->insname);
  jkfa("w", w->eff_wave, w->nwave); jkfa("b", w->eff_band, w->nwave);
  JEND;
}
static void dump_corr(const oi_corr *c)
{
  fputc('{', out);
  jki("rev", c->revision); JKS("name", c->corrname); jki("ndata", c->ndata);
  jkia("i", c->iindx, c->ncorr); jkia("j", c->jindx, c->ncorr); jkda("c", c->corr, c->ncorr);
  JEND;
}
static void dump_inspol(const oi_inspol *t)
{
  fputc('{', out);
  jki("rev", t->revision); JKS("date", t->date_obs); jki("npol", t->npol);
  JKS("arr", t->arrname); JKS("orient", t->orient); JKS("model", t->model);
  jki("nw", t->nwave);
  fputs("\"r\":[", out);
  for (long i = 0; i < t->numrec; i++)
  {
    const oi_inspol_record *p = &t->record[i];
    fputs(i ? ",{" : "{", out);
    jki("tid", p->target_id); JKS("ins", p->insname);
    jkd("mjd", p->mjd_obs); jkd("mjdend", p->mjd_end);
    jkca("jxx", p->jxx, t->nwave); jkca("jyy", p->jyy, t->nwave);
    jkca("jxy", p->jxy, t->nwave); jkca("jyx", p->jyx, t->nwave);
    jki("sta", p->sta_index);
    JEND;
  }
  fputs("],", out);
  JEND;
}
static void dump_vis(const oi_vis *t)
{
  int c = t->corrname[0] != 0, x = t->usecomplex != 0;
  fputc('{', out);
  jki("rev", t->revision); JKS("date", t->date_obs); JKS("arr", t->arrname);
  JKS("ins", t->insname); JKS("cor", t->corrname); JKS("amptyp", t->amptyp);
  JKS("phityp", t->phityp); jki("amporder", t->amporder); jki("phiorder", t->phiorder);
  jki("useref", t->usevisrefmap != 0); jki("usecpx", x);
  if (x) JKS("cunit", t->complexunit); else fputs("\"cunit\":\"\",", out);
  JKS("aunit", t->ampunit); jki("nw", t->nwave);
  fputs("\"r\":[", out);
  for (long i = 0; i < t->numrec; i++)
  {
    const oi_vis_record *p = &t->record[i];
    int n = t->nwave;
    fputs(i ? ",{" : "{", out);
    jki("tid", p->target_id); jkd("time", p->time); jkd("mjd", p->mjd); jkd("it", p->int_time);
    jkda("a", p->visamp, n); jkda("ae", p->visamperr, n); jki("ca", c ? p->corrindx_visamp : 0);
    jkda("p", p->visphi, n); jkda("pe", p->visphierr, n); jki("cp", c ? p->corrindx_visphi : 0);
    jkba("ref", p->visrefmap, t->usevisrefmap ? (long)n * n : 0);
    jkda("rv", p->rvis, x ? n : 0); jkda("rve", p->rviserr, x ? n : 0);
    jki("crv", c && x ? p->corrindx_rvis : 0);
    jkda("iv", p->ivis, x ? n : 0); jkda("ive", p->iviserr, x ? n : 0);
    jki("civ", c && x ? p->corrindx_ivis : 0);
    jkd("u", p->ucoord); jkd("v", p->vcoord);
    jkia("s", p->sta_index, 2); jkba("f", p->flag, n);
    JEND;
  }
  fputs("],", out);
  JEND;
}
static void dump_vis2(const oi_vis2 *t)
{
  int c = t->corrname[0] != 0;
  fputc('{', out);
  jki("rev", t->revision); JKS("date", t->date_obs); JKS("arr", t->arrname);
  JKS("ins", t->insname); JKS("cor", t->corrname); jki("nw", t->nwave);
  fputs("\"r\":[", out);
  for (long i = 0; i < t->numrec; i++)
  {
    const oi_vis2_record *p = &t->record[i];
    int n = t->nwave;
    fputs(i ? ",{" : "{", out);
    jki("tid", p->target_id); jkd("time", p->time); jkd("mjd", p->mjd); jkd("it", p->int_time);
    jkda("a", p->vis2data, n); jkda("ae", p->vis2err, n); jki("ca", c ? p->corrindx_vis2data : 0);
    jkd("u", p->ucoord); jkd("v", p->vcoord);
    jkia("s", p->sta_index, 2); jkba("f", p->flag, n);
    JEND;
  }
  fputs("],", out);
  JEND;
}
static void dump_t3(const oi_t3 *t)
{
  int c = t->corrname[0] != 0;
  fputc('{', out);
  jki("rev", t->revision); JKS("date", t->date_obs); JKS("arr", t->arrname);
  JKS("ins", t->insname); JKS("cor", t->corrname); jki("nw", t->nwave);
  fputs("\"r\":[", out);
  for (long i = 0; i < t->numrec; i++)
  {
    const oi_t3_record *p = &t->record[i];
    int n = t->nwave;
    fputs(i ? ",{" : "{", out);
    jki("tid", p->target_id); jkd("time", p->time); jkd("mjd", p->mjd); jkd("it", p->int_time);
    jkda("a", p->t3amp, n); jkda("ae", p->t3amperr, n); jki("ca", c ? p->corrindx_t3amp : 0);
    jkda("p", p->t3phi, n); jkda("pe", p->t3phierr, n); jki("cp", c ? p->corrindx_t3phi : 0);
    jkd("u", p->u1coord); jkd("v", p->v1coord); jkd("u2", p->u2coord); jkd("v2", p->v2coord);
    jkia("s", p->sta_index, 3); jkba("f", p->flag, n);
    JEND;
  }
  fputs("],", out);
  JEND;
}
static void dump_flux(const oi_flux *t)
{
  int c = t->corrname[0] != 0;
  char cal[2] = {t->calstat, 0};
  fputc('{', out);
  jki("rev", t->revision); JKS("date", t->date_obs); JKS("arr", t->arrname);
  JKS("ins", t->insname); JKS("cor", t->corrname);
  jkd("fov", t->fovtype[0] ? t->fov : NAN); JKS("fovtype", t->fovtype);
  JKS("cal", cal); JKS("funit", t->fluxunit); jki("nw", t->nwave);
  fputs("\"r\":[", out);
  for (long i = 0; i < t->numrec; i++)
  {
    const oi_flux_record *p = &t->record[i];
    int n = t->nwave;
    fputs(i ? ",{" : "{", out);
    jki("tid", p->target_id); jkd("mjd", p->mjd); jkd("it", p->int_time);
    jkda("a", p->fluxdata, n); jkda("ae", p->fluxerr, n); jki("ca", c ? p->corrindx_fluxdata : 0);
    jki("sta", p->sta_index); jkba("f", p->flag, n);
    JEND;
  }
  fputs("],", out);
  JEND;
}
#define DUMPLIST(key, list, type, fn)                                          \
  do {                                                                         \
    fprintf(out, "\"%s\":[", key);                                             \
    for (const GList *l = (list); l; l = l->next)                              \
    {                                                                          \
      fn((const type *)l->data);                                               \
      if (l->next) fputc(',', out);                                            \
    }                                                                          \
    fputs("],", out);                                                          \
  } while (0)
static void dump_oi(const oi_fits *o)
{
  fputs("{\"hdr\":", out); dump_header(&o->header);
  fputs(",\"tg\":", out); dump_target(&o->targets);
  fputc(',', out);
  DUMPLIST("arr", o->arrayList, oi_array, dump_array);
  DUMPLIST("wav", o->wavelengthList, oi_wavelength, dump_wave);
  DUMPLIST("cor", o->corrList, oi_corr, dump_corr);
  DUMPLIST("pol", o->inspolList, oi_inspol, dump_inspol);
  DUMPLIST("vis", o->visList, oi_vis, dump_vis);
  DUMPLIST("vis2", o->vis2List, oi_vis2, dump_vis2);
  DUMPLIST("t3", o->t3List, oi_t3, dump_t3);
  DUMPLIST("flux", o->fluxList, oi_flux, dump_flux);
  fprintf(out, "\"n\":[%d,%d,%d,%d,%d,%d,%d,%d]}", o->numArray, o->numWavelength,
          o->numCorr, o->numInspol, o->numVis, o->numVis2, o->numT3, o->numFlux);
}

/* ---- builders ---- */
static double *tdarr(long n, double *p) { for (long i = 0; i < n; i++) p[i] = td(); return p; }
static void tcarr(long n, float complex *p)
{
  for (long i = 0; i < n; i++) { float re = (float)td(), im = (float)td(); p[i] = re + im * I; }
}
static void tbarr(long n, BOOL *p) { for (long i = 0; i < n; i++) p[i] = (BOOL)ti(); }
#define TS(f) ts(f, sizeof(f))

static void build(oi_fits *o)
{
  long n, nr, nw, k;
  init_oi_fits(o);
  oi_header *h = &o->header;
  TS(h->origin); TS(h->date); TS(h->date_obs); TS(h->content); TS(h->telescop);
  TS(h->instrume); TS(h->observer); TS(h->insmode); TS(h->object); TS(h->referenc);
  TS(h->author); TS(h->prog_id); TS(h->procsoft); TS(h->obstech);
  o->targets.revision = (int)ti();
  int usecat = (int)ti();
  n = ti();
  if (n > 0) alloc_oi_target(&o->targets, (int)n);
  o->targets.usecategory = (BOOL)usecat;
  for (k = 0; k < n; k++)
  {
    target *p = &o->targets.targ[k];
    p->target_id = (int)ti(); TS(p->target); p->raep0 = td(); p->decep0 = td();
    p->equinox = (float)td(); p->ra_err = td(); p->dec_err = td(); p->sysvel = td();
    TS(p->veltyp); TS(p->veldef); p->pmra = td(); p->pmdec = td(); p->pmra_err = td();
    p->pmdec_err = td(); p->parallax = (float)td(); p->para_err = (float)td();
    TS(p->spectyp); TS(p->category);
  }
  n = ti();
  for (k = 0; k < n; k++)
  {
    oi_array *a = malloc(sizeof *a);
    memset(a, 0, sizeof *a);
    a->revision = (int)ti(); TS(a->arrname); TS(a->frame);
    a->arrayx = td(); a->arrayy = td(); a->arrayz = td();
    nr = ti();
    if (nr > 0) alloc_oi_array(a, (int)nr);
    for (long i = 0; i < nr; i++)
    {
      element *p = &a->elem[i];
      TS(p->tel_name); TS(p->sta_name); p->sta_index = (int)ti(); p->diameter = (float)td();
      tdarr(3, p->staxyz); p->fov = td(); TS(p->fovtype);
    }
    o->arrayList = g_list_append(o->arrayList, a); o->numArray++;
    if (!g_hash_table_lookup(o->arrayHash, a->arrname)) g_hash_table_insert(o->arrayHash, a->arrname, a);
  }
  n = ti();
  for (k = 0; k < n; k++)
  {
    oi_wavelength *a = malloc(sizeof *a);
    memset(a, 0, sizeof *a);
    a->revision = (int)ti(); TS(a->insname);
    nr = ti();
    if (nr > 0) alloc_oi_wavelength(a, (int)nr);
    for (long i = 0; i < nr; i++) { a->eff_wave[i] = (float)td(); a->eff_band[i] = (float)td(); }
    o->wavelengthList = g_list_append(o->wavelengthList, a); o->numWavelength++;
    if (!g_hash_table_lookup(o->wavelengthHash, a->insname)) g_hash_table_insert(o->wavelengthHash, a->insname, a);
  }
  n = ti();
  for (k = 0; k < n; k++)
  {
    oi_corr *a = malloc(sizeof *a);
    memset(a, 0, sizeof *a);
    a->revision = (int)ti(); TS(a->corrname); a->ndata = (int)ti();
    nr = ti();
    if (nr > 0) alloc_oi_corr(a, (int)nr);
    for (long i = 0; i < nr; i++) { a->iindx[i] = (int)ti(); a->jindx[i] = (int)ti(); a->corr[i] = td(); }
    o->corrList = g_list_append(o->corrList, a); o->numCorr++;
    if (!g_hash_table_lookup(o->corrHash, a->corrname)) g_hash_table_insert(o->corrHash, a->corrname, a);
  }
  n = ti();
  for (k = 0; k < n; k++)
  {
    oi_inspol *a = malloc(sizeof *a);
    a->revision = (int)ti(); TS(a->date_obs); a->npol = (int)ti(); TS(a->arrname);
    TS(a->orient); TS(a->model); nw = ti(); nr = ti();
    alloc_oi_inspol(a, nr, (int)nw);
    for (long i = 0; i < nr; i++)
    {
      oi_inspol_record *p = &a->record[i];
      p->target_id = (int)ti(); TS(p->insname); p->mjd_obs = td(); p->mjd_end = td();
      tcarr(nw, p->jxx); tcarr(nw, p->jyy); tcarr(nw, p->jxy); tcarr(nw, p->jyx);
      p->sta_index = (int)ti();
    }
    o->inspolList = g_list_append(o->inspolList, a); o->numInspol++;
  }
  n = ti();
  for (k = 0; k < n; k++)
  {
    oi_vis *a = malloc(sizeof *a);
    int rev = (int)ti();
    TS(a->date_obs); TS(a->arrname); TS(a->insname); TS(a->corrname); TS(a->amptyp); TS(a->phityp);
    a->amporder = (int)ti(); a->phiorder = (int)ti();
    int useref = (int)ti(), usecpx = (int)ti();
    TS(a->complexunit); TS(a->ampunit); nw = ti(); nr = ti();
    alloc_oi_vis(a, nr, (int)nw);
    a->revision = rev; a->usevisrefmap = (BOOL)useref; a->usecomplex = (BOOL)usecpx;
    for (long i = 0; i < nr; i++)
    {
      oi_vis_record *p = &a->record[i];
      p->target_id = (int)ti(); p->time = td(); p->mjd = td(); p->int_time = td();
      tdarr(nw, p->visamp); tdarr(nw, p->visamperr); p->corrindx_visamp = (int)ti();
      tdarr(nw, p->visphi); tdarr(nw, p->visphierr); p->corrindx_visphi = (int)ti();
      if (useref) { p->visrefmap = malloc(nw * nw * sizeof(BOOL)); tbarr(nw * nw, p->visrefmap); }
      if (usecpx)
      {
        p->rvis = tdarr(nw, malloc(nw * sizeof(DATA))); p->rviserr = tdarr(nw, malloc(nw * sizeof(DATA)));
        p->corrindx_rvis = (int)ti();
        p->ivis = tdarr(nw, malloc(nw * sizeof(DATA))); p->iviserr = tdarr(nw, malloc(nw * sizeof(DATA)));
        p->corrindx_ivis = (int)ti();
      }
      p->ucoord = td(); p->vcoord = td();
      p->sta_index[0] = (int)ti(); p->sta_index[1] = (int)ti();
      tbarr(nw, p->flag);
    }
    o->visList = g_list_append(o->visList, a); o->numVis++;
  }
  n = ti();
  for (k = 0; k < n; k++)
  {
    oi_vis2 *a = malloc(sizeof *a);
    a->revision = (int)ti(); TS(a->date_obs); TS(a->arrname); TS(a->insname); TS(a->corrname);
    nw = ti(); nr = ti();
    alloc_oi_vis2(a, nr, (int)nw);
    for (long i = 0; i < nr; i++)
    {
      oi_vis2_record *p = &a->record[i];
      p->target_id = (int)ti(); p->time = td(); p->mjd = td(); p->int_time = td();
      tdarr(nw, p->vis2data); tdarr(nw, p->vis2err); p->corrindx_vis2data = (int)ti();
      p->ucoord = td(); p->vcoord = td();
      p->sta_index[0] = (int)ti(); p->sta_index[1] = (int)ti();
      tbarr(nw, p->flag);
    }
    o->vis2List = g_list_append(o->vis2List, a); o->numVis2++;
  }
  n = ti();
  for (k = 0; k < n; k++)
  {
    oi_t3 *a = malloc(sizeof *a);
    a->revision = (int)ti(); TS(a->date_obs); TS(a->arrname); TS(a->insname); TS(a->corrname);
    nw = ti(); nr = ti();
    alloc_oi_t3(a, nr, (int)nw);
    for (long i = 0; i < nr; i++)
    {
      oi_t3_record *p = &a->record[i];
      p->target_id = (int)ti(); p->time = td(); p->mjd = td(); p->int_time = td();
      tdarr(nw, p->t3amp); tdarr(nw, p->t3amperr); p->corrindx_t3amp = (int)ti();
      tdarr(nw, p->t3phi); tdarr(nw, p->t3phierr); p->corrindx_t3phi = (int)ti();
      p->u1coord = td(); p->v1coord = td(); p->u2coord = td(); p->v2coord = td();
      for (int j = 0; j < 3; j++) p->sta_index[j] = (int)ti();
      tbarr(nw, p->flag);
    }
    o->t3List = g_list_append(o->t3List, a); o->numT3++;
  }
  n = ti();
  for (k = 0; k < n; k++)
  {
    oi_flux *a = malloc(sizeof *a);
    a->revision = (int)ti(); TS(a->date_obs); TS(a->arrname); TS(a->insname); TS(a->corrname);
    a->fov = td(); TS(a->fovtype);
    char cal[4]; TS(cal); a->calstat = cal[0];
    TS(a->fluxunit); nw = ti(); nr = ti();
    alloc_oi_flux(a, nr, (int)nw);
    for (long i = 0; i < nr; i++)
    {
      oi_flux_record *p = &a->record[i];
      p->target_id = (int)ti(); p->mjd = td(); p->int_time = td();
      tdarr(nw, p->fluxdata); tdarr(nw, p->fluxerr); p->corrindx_fluxdata = (int)ti();
      p->sta_index = (int)ti();
      tbarr(nw, p->flag);
    }
    o->fluxList = g_list_append(o->fluxList, a); o->numFlux++;
  }
}

/* duplicate every table of a dataset with the library's dup_oi_*() */
static void dup_oi(const oi_fits *in, oi_fits *o)
{
  init_oi_fits(o);
  o->header = in->header;
  oi_target *t = dup_oi_target(&in->targets);
  o->targets = *t;
  free(t);
#define DUPL(list, type, num, fn)                                              \
  for (const GList *l = in->list; l; l = l->next)                              \
  { o->list = g_list_append(o->list, fn((const type *)l->data)); o->num++; }
  DUPL(arrayList, oi_array, numArray, dup_oi_array)
  DUPL(wavelengthList, oi_wavelength, numWavelength, dup_oi_wavelength)
  DUPL(corrList, oi_corr, numCorr, dup_oi_corr)
  DUPL(inspolList, oi_inspol, numInspol, dup_oi_inspol)
  DUPL(visList, oi_vis, numVis, dup_oi_vis)
  DUPL(vis2List, oi_vis2, numVis2, dup_oi_vis2)
  DUPL(t3List, oi_t3, numT3, dup_oi_t3)
  DUPL(fluxList, oi_flux, numFlux, dup_oi_flux)
  for (const GList *l = o->arrayList; l; l = l->next)
    if (!g_hash_table_lookup(o->arrayHash, ((oi_array *)l->data)->arrname))
      g_hash_table_insert(o->arrayHash, ((oi_array *)l->data)->arrname, l->data);
  for (const GList *l = o->wavelengthList; l; l = l->next)
    if (!g_hash_table_lookup(o->wavelengthHash, ((oi_wavelength *)l->data)->insname))
      g_hash_table_insert(o->wavelengthHash, ((oi_wavelength *)l->data)->insname, l->data);
  for (const GList *l = o->corrList; l; l = l->next)
    if (!g_hash_table_lookup(o->corrHash, ((oi_corr *)l->data)->corrname))
      g_hash_table_insert(o->corrHash, ((oi_corr *)l->data)->corrname, l->data);
}

/* overwrite all values reachable from a dataset (names and sizes excepted) */
static void scrib(void *p, size_t n) { if (p) memset(p, 0x41, n); }
static void scribble(oi_fits *o)
{
  scrib(o->targets.targ, o->targets.ntarget * sizeof(target));
  for (GList *l = o->arrayList; l; l = l->next)
  { oi_array *a = l->data; scrib(a->elem, a->nelement * sizeof(element)); a->arrayx += 3; scrib(a->frame, 5); }
  for (GList *l = o->wavelengthList; l; l = l->next)
  { oi_wavelength *a = l->data; scrib(a->eff_wave, a->nwave * sizeof(float)); scrib(a->eff_band, a->nwave * sizeof(float)); }
  for (GList *l = o->corrList; l; l = l->next)
  {
    oi_corr *a = l->data;
    scrib(a->iindx, a->ncorr * sizeof(int)); scrib(a->jindx, a->ncorr * sizeof(int)); scrib(a->corr, a->ncorr * sizeof(double));
  }
  for (GList *l = o->inspolList; l; l = l->next)
  {
    oi_inspol *a = l->data;
    size_t z = a->nwave * sizeof(float complex);
    for (long i = 0; i < a->numrec; i++)
    {
      oi_inspol_record *p = &a->record[i];
      scrib(p->jxx, z); scrib(p->jyy, z); scrib(p->jxy, z); scrib(p->jyx, z);
      p->target_id += 7; p->mjd_obs += 1; p->mjd_end += 1; p->sta_index += 3;
    }
  }
  for (GList *l = o->visList; l; l = l->next)
  {
    oi_vis *a = l->data;
    size_t z = a->nwave * sizeof(DATA);
    for (long i = 0; i < a->numrec; i++)
    {
      oi_vis_record *p = &a->record[i];
      scrib(p->visamp, z); scrib(p->visamperr, z); scrib(p->visphi, z); scrib(p->visphierr, z);
      if (a->usecomplex) { scrib(p->rvis, z); scrib(p->rviserr, z); scrib(p->ivis, z); scrib(p->iviserr, z); }
      if (a->usevisrefmap) for (long j = 0; j < (long)a->nwave * a->nwave; j++) p->visrefmap[j] = !p->visrefmap[j];
      for (int j = 0; j < a->nwave; j++) p->flag[j] = !p->flag[j];
      p->target_id += 7; p->mjd += 1; p->ucoord += 1;
    }
  }
  for (GList *l = o->vis2List; l; l = l->next)
  {
    oi_vis2 *a = l->data;
    size_t z = a->nwave * sizeof(DATA);
    for (long i = 0; i < a->numrec; i++)
    {
      oi_vis2_record *p = &a->record[i];
      scrib(p->vis2data, z); scrib(p->vis2err, z);
      for (int j = 0; j < a->nwave; j++) p->flag[j] = !p->flag[j];
      p->target_id += 7; p->mjd += 1; p->ucoord += 1;
    }
  }
  for (GList *l = o->t3List; l; l = l->next)
  {
    oi_t3 *a = l->data;
    size_t z = a->nwave * sizeof(DATA);
    for (long i = 0; i < a->numrec; i++)
    {
      oi_t3_record *p = &a->record[i];
      scrib(p->t3amp, z); scrib(p->t3amperr, z); scrib(p->t3phi, z); scrib(p->t3phierr, z);
      for (int j = 0; j < a->nwave; j++) p->flag[j] = !p->flag[j];
      p->target_id += 7; p->mjd += 1; p->u1coord += 1;
    }
  }
  for (GList *l = o->fluxList; l; l = l->next)
  {
    oi_flux *a = l->data;
    size_t z = a->nwave * sizeof(DATA);
    for (long i = 0; i < a->numrec; i++)
    {
      oi_flux_record *p = &a->record[i];
      scrib(p->fluxdata, z); scrib(p->fluxerr, z);
      for (int j = 0; j < a->nwave; j++) p->flag[j] = !p->flag[j];
      p->target_id += 7; p->mjd += 1; p->sta_index += 3;
    }
  }
}

/* ---- filter spec: "def" or explicit values ---- */
static oi_filter_spec *read_filter(oi_filter_spec *f)
{
  init_oi_filter(f);
  const char *s = tok();
  if (strcmp(s, "null") == 0) return NULL;
  if (strcmp(s, "def") == 0) return f;
  TS(f->arrname); TS(f->insname); TS(f->corrname);
  f->target_id = (int)ti();
  f->mjd_range[0] = td(); f->mjd_range[1] = td();
  f->wave_range[0] = (float)td(); f->wave_range[1] = (float)td();
  f->bas_range[0] = td(); f->bas_range[1] = td();
  f->uvrad_range[0] = td(); f->uvrad_range[1] = td();
  f->snr_range[0] = (float)td(); f->snr_range[1] = (float)td();
  f->accept_vis = (int)ti(); f->accept_vis2 = (int)ti(); f->accept_t3amp = (int)ti();
  f->accept_t3phi = (int)ti(); f->accept_flux = (int)ti(); f->accept_flagged = (int)ti();
  return f;
}
static void dump_filter(const oi_filter_spec *f)
{
  fputs("\"flt\":{", out);
  JKS("arr", f->arrname); JKS("ins", f->insname); JKS("cor", f->corrname); jki("tid", f->target_id);
  jkda("mjd", f->mjd_range, 2); jkfa("wave", f->wave_range, 2); jkda("bas", f->bas_range, 2);
  jkda("uv", f->uvrad_range, 2); jkfa("snr", f->snr_range, 2);
  jki("vis", f->accept_vis); jki("vis2", f->accept_vis2); jki("t3amp", f->accept_t3amp);
  jki("t3phi", f->accept_t3phi); jki("flux", f->accept_flux); jki("flagged", f->accept_flagged);
  JEND; fputc(',', out);
}

/* ---- iterators ---- */
static _oi_iter iters[NITER];
static int iterkind[NITER];
static const oi_fits *iterdata[NITER];
static oi_filter_spec iterflt[NITER];

static long list_index(const GList *list, const void *p)
{
  long i = 0;
  for (; list; list = list->next, i++) if (list->data == p) return i;
  return -1;
}

/* ---- checks ---- */
static const struct { const char *name; check_func fn; } checks[] = {
  {"tables", check_tables}, {"header", check_header}, {"keywords", check_keywords},
  {"visrefmap", check_visrefmap}, {"unique_targets", check_unique_targets},
  {"targets_present", check_targets_present}, {"arrname", check_arrname},
  {"elements_present", check_elements_present}, {"corr_present", check_corr_present},
  {"flagging", check_flagging}, {"t3amp", check_t3amp}, {"waveorder", check_waveorder},
  {"time", check_time}, {"flux", check_flux}};

/* ---- open FITS handle for table-level I/O ---- */
static fitsfile *fh;
static char fhname[4096];

static void ev(const char *op) { fprintf(out, "{\"op\":\"%s\",", op); }
static void evend(void) { fputs("\"_\":0}\n", out); fflush(out); }
static void post(int k) { fprintf(out, "\"s%d\":", k); dump_oi(&slot[k]); fputc(',', out); }
static void posts(const char *spec) /* comma list of slots, or "-" */
{
  fputs("\"post\":{", out);
  if (strcmp(spec, "-") != 0)
    for (const char *s = spec; *s;)
    {
      int k = (int)strtol(s, (char **)&s, 10);
      if (*s == ',') s++;
      post(k);
    }
  fputs("\"_\":0},", out);
}
static void files_post(const char *path)
{
  FILE *f = fopen(path, "rb");
  long size = -1;
  unsigned long h = 5381;
  if (f)
  {
    int c;
    size = 0;
    while ((c = fgetc(f)) != EOF) { size++; h = (h * 33 + (unsigned)c) & 0x3fffffff; }
    fclose(f);
  }
  fprintf(out, "\"fsize\":%ld,\"fhash\":%lu,", size, size < 0 ? 0UL : h);
}

/* what the library printed (standard output and error) since the last call */
static long saidpos;
static void said_mark(void)
{
  fflush(stdout);
  fflush(stderr);
  saidpos = (long)lseek(1, 0, SEEK_END);
}
static void said(void)
{
  char buf[65536];
  fflush(stdout);
  fflush(stderr);
  ssize_t n = pread(1, buf, sizeof buf - 1, saidpos);
  buf[n > 0 ? n : 0] = 0;
  fputs("\"said\":", out); js(buf); fputc(',', out);
}

static void run_one(const char *op)
{
  STATUS st;
  if (!strcmp(op, "build"))
  {
    int k = (int)ti();
    build(&slot[k]);
    ev("build"); jki("slot", k); post(k); evend();
  }
  else if (!strcmp(op, "init"))
  {
    int k = (int)ti();
    memset(&slot[k], 0x5a, sizeof slot[k]);
    init_oi_fits(&slot[k]);
    ev("init"); jki("slot", k); post(k); evend();
  }
  else if (!strcmp(op, "free"))
  {
    int k = (int)ti();
    const char *d = tok();
    free_oi_fits(&slot[k]);
    memset(&slot[k], 0, sizeof slot[k]);
    ev("free"); jki("slot", k); posts(d); evend();
  }
  else if (!strcmp(op, "scribble"))
  {
    int k = (int)ti();
    const char *d = tok();
    scribble(&slot[k]);
    ev("scribble"); jki("slot", k); posts(d); evend();
  }
  else if (!strcmp(op, "dump"))
  {
    int k = (int)ti();
    ev("dump"); jki("slot", k); post(k); evend();
  }
  else if (!strcmp(op, "write"))
  {
    int k = (int)ti();
    char *f = tdup();
    const char *d;
    st = tst();
    d = tok();
    int st0 = st;
    fflush(out);
    setrlimit(RLIMIT_FSIZE, &wlimit);
    said_mark();
    STATUS rv = write_oi_fits(f, slot[k], &st);
    carried = st;
    setrlimit(RLIMIT_FSIZE, &nolimit);
    ev("write"); said(); jki("slot", k); fputs("\"file\":", out); js(f); fputc(',', out);
    jki("st0", st0); jki("st", st); jki("rv", rv); files_post(f); posts(d); evend();
    free(f);
  }
  else if (!strcmp(op, "read"))
  {
    int k = (int)ti();
    char *f = tdup();
    st = tst();
    int st0 = st;
    oi_fits tmp;
    memset(&tmp, 0x5a, sizeof tmp);
    said_mark();
    STATUS rv = read_oi_fits(f, &tmp, &st);
    carried = st;
    ev("read"); said(); jki("slot", k); fputs("\"file\":", out); js(f); fputc(',', out);
    jki("st0", st0); jki("st", st); jki("rv", rv);
    if (st == 0) { slot[k] = tmp; post(k); }
    else
    {
      /* did the call touch the caller's struct? */
      const unsigned char *p = (const unsigned char *)&tmp;
      int touched = 0;
      for (size_t i = 0; i < sizeof tmp; i++) if (p[i] != 0x5a) { touched = 1; break; }
      jki("touched", touched);
    }
    evend();
    free(f);
  }
  else if (!strcmp(op, "merge"))
  {
    int k = (int)ti(), n = (int)ti(), in[16];
    GList *l = NULL;
    for (int i = 0; i < n; i++) { in[i] = (int)ti(); l = g_list_append(l, &slot[in[i]]); }
    const char *d = tok();
    oi_fits tmp;
    memset(&tmp, 0x5a, sizeof tmp);
    merge_oi_fits_list(l, &tmp);
    g_list_free(l);
    slot[k] = tmp;
    ev("merge"); jki("slot", k); jkia("in", in, n); post(k); posts(d); evend();
  }
  else if (!strcmp(op, "mergev")) /* variadic interface */
  {
    int k = (int)ti(), n = (int)ti(), in[16];
    for (int i = 0; i < n; i++) in[i] = (int)ti();
    const char *d = tok();
    oi_fits tmp;
    memset(&tmp, 0x5a, sizeof tmp);
    if (n == 2) merge_oi_fits(&tmp, &slot[in[0]], &slot[in[1]], NULL);
    else if (n == 3) merge_oi_fits(&tmp, &slot[in[0]], &slot[in[1]], &slot[in[2]], NULL);
    else merge_oi_fits(&tmp, &slot[in[0]], &slot[in[1]], &slot[in[2]], &slot[in[3]], NULL);
    slot[k] = tmp;
    ev("merge"); jki("slot", k); jkia("in", in, n); post(k); posts(d); evend();
  }
  else if (!strcmp(op, "filter"))
  {
    int k = (int)ti(), in = (int)ti();
    oi_filter_spec f;
    read_filter(&f);
    const char *d = tok();
    oi_fits tmp;
    memset(&tmp, 0x5a, sizeof tmp);
    apply_oi_filter(&slot[in], &f, &tmp);
    slot[k] = tmp;
    ev("filter"); jki("slot", k); jki("in", in); dump_filter(&f); post(k); posts(d); evend();
  }
  else if (!strcmp(op, "iterinit"))
  {
    int id = (int)ti(), kind = (int)ti(), k = (int)ti();
    oi_filter_spec *p = read_filter(&iterflt[id]);
    if (iterkind[id] != kind) memset(&iters[id], 0x5a, sizeof iters[id]);  /* else: initialised again as it is */
    iterkind[id] = kind;
    iterdata[id] = &slot[k];
    if (kind == 1) oi_vis_iter_init(&iters[id], &slot[k], p);
    else if (kind == 2) oi_vis2_iter_init(&iters[id], &slot[k], p);
    else oi_t3_iter_init(&iters[id], &slot[k], p);
    ev("iterinit"); jki("id", id); jki("kind", kind); jki("slot", k); jki("nullf", p == NULL);
    dump_filter(&iterflt[id]); evend();
  }
  else if (!strcmp(op, "iternext"))
  {
    int id = (int)ti(), n = (int)ti(), mode = (int)ti(); /* mode bit 0: pass NULL for all outputs */
    ev("iternext"); jki("id", id); jki("null", mode & 1);
    fputs("\"y\":[", out);
    for (int i = 0; i < n; i++)
    {
      int extver = -77, iwave = -77;
      long irec = -77, itab = -2, prec = -2;
      void *tab = NULL;
      bool ok;
      double ew = 0, u = 0, v = 0, u2 = 0, v2 = 0;
      const oi_fits *o = iterdata[id];
      if (iterkind[id] == 1)
      {
        oi_vis *t = NULL; oi_vis_record *r = NULL;
        ok = (mode & 1) ? oi_vis_iter_next(&iters[id], NULL, NULL, NULL, NULL, NULL)
                        : oi_vis_iter_next(&iters[id], &extver, &t, &irec, &r, &iwave);
        if (ok) oi_vis_iter_get_uv(&iters[id], &ew, &u, &v);
        tab = t; if (t) { itab = list_index(o->visList, t); prec = r ? (long)(r - t->record) : -2; }
      }
      else if (iterkind[id] == 2)
      {
        oi_vis2 *t = NULL; oi_vis2_record *r = NULL;
        ok = (mode & 1) ? oi_vis2_iter_next(&iters[id], NULL, NULL, NULL, NULL, NULL)
                        : oi_vis2_iter_next(&iters[id], &extver, &t, &irec, &r, &iwave);
        if (ok) oi_vis2_iter_get_uv(&iters[id], &ew, &u, &v);
        tab = t; if (t) { itab = list_index(o->vis2List, t); prec = r ? (long)(r - t->record) : -2; }
      }
      else
      {
        oi_t3 *t = NULL; oi_t3_record *r = NULL;
        ok = (mode & 1) ? oi_t3_iter_next(&iters[id], NULL, NULL, NULL, NULL, NULL)
                        : oi_t3_iter_next(&iters[id], &extver, &t, &irec, &r, &iwave);
        if (ok) oi_t3_iter_get_uv(&iters[id], &ew, &u, &v, &u2, &v2);
        tab = t; if (t) { itab = list_index(o->t3List, t); prec = r ? (long)(r - t->record) : -2; }
      }
      (void)tab;
      fprintf(out, "%s{\"ok\":%d,\"ext\":%d,\"tab\":%ld,\"rec\":%ld,\"prec\":%ld,\"wv\":%d,", i ? "," : "",
              ok, extver, itab, irec, prec, iwave);
      jkd("ew", ew); jkd("u", u); jkd("v", v); jkd("u2", u2); jkd("v2", v2);
      JEND;
    }
    fputs("],", out);
    evend();
  }
  else if (!strcmp(op, "check"))
  {
    int k = (int)ti();
    const char *d = tok();
    ev("check"); jki("slot", k);
    fputs("\"res\":{", out);
    /* keep the results of all checks, then report and release them in a different order */
    enum { NCHECK = sizeof checks / sizeof checks[0] };
    oi_check_result rs[NCHECK];
    oi_breach_level lvs[NCHECK];
    memset(rs, 0x5a, sizeof rs);
    for (size_t i = 0; i < NCHECK; i++) lvs[i] = checks[i].fn(&slot[k], &rs[i]);
    for (size_t q = 0; q < NCHECK; q++)
    {
      size_t i = q < (NCHECK + 1) / 2 ? 2 * q : 2 * (q - (NCHECK + 1) / 2) + 1;
      oi_check_result r = rs[i];
      oi_breach_level lv = lvs[i];
      fprintf(out, "%s\"%s\":{", q ? "," : "", checks[i].name);
      jki("ret", lv); jki("level", r.level); jki("num", r.numBreach);
      int n = r.numBreach < MAX_REPORT ? r.numBreach : MAX_REPORT;
      fputs("\"loc\":[", out);
      for (int j = 0; j < n; j++) { if (j) fputc(',', out); js(r.location[j] ? r.location[j] : "(null)"); }
      fputs("],", out);
      const char *txt = format_check_result(&r);
      jki("text", txt != NULL);
      fputs("\"desc\":", out); js(r.description ? r.description : ""); fputc(',', out);
      fputs("\"fmt\":", out); js(txt ? txt : ""); fputc(',', out);
      JEND;
      fflush(out);
      free_check_result(&r);
    }
    fputs("},", out);
    posts(d); evend();
  }
  else if (!strcmp(op, "lookup"))
  {
    int k = (int)ti(), n = (int)ti();
    oi_fits *o = &slot[k];
    ev("lookup"); jki("slot", k);
    fputs("\"q\":[", out);
    for (int i = 0; i < n; i++)
    {
      const char *kind = tok();
      char *name = tdup();
      int id = (int)ti();
      long res = -2;
      if (!strcmp(kind, "arr")) { void *p = oi_fits_lookup_array(o, name); res = p ? list_index(o->arrayList, p) : -1; if (p && res < 0) res = -3; }
      else if (!strcmp(kind, "wav")) { void *p = oi_fits_lookup_wavelength(o, name); res = p ? list_index(o->wavelengthList, p) : -1; if (p && res < 0) res = -3; }
      else if (!strcmp(kind, "cor")) { void *p = oi_fits_lookup_corr(o, name); res = p ? list_index(o->corrList, p) : -1; if (p && res < 0) res = -3; }
      else if (!strcmp(kind, "tid")) { target *p = oi_fits_lookup_target(o, id); res = p ? p - o->targets.targ : -1; }
      else if (!strcmp(kind, "tname")) { target *p = oi_fits_lookup_target_by_name(o, name); res = p ? p - o->targets.targ : -1; }
      else if (!strcmp(kind, "elem"))
      {
        element *p = oi_fits_lookup_element(o, name, id);
        res = p ? -3 : -1;
        if (p)
          for (const GList *l = o->arrayList; l; l = l->next)
          {
            oi_array *a = l->data;
            if (p >= a->elem && p < a->elem + a->nelement)
            { res = list_index(o->arrayList, a) * 1000 + (p - a->elem); break; }
          }
      }
      fprintf(out, "%s{\"k\":\"%s\",\"id\":%d,\"res\":%ld,\"name\":", i ? "," : "", kind, id, res);
      js(name); fputs("}", out);
      free(name);
    }
    fputs("],", out);
    evend();
  }
  else if (!strcmp(op, "query"))
  {
    int k = (int)ti(), n = (int)ti();
    long nv = -7, nv2 = -7, nt = -7;
    count_oi_fits_data(&slot[k], &nv, &nv2, &nt);
    ev("query"); jki("slot", k); jki("nvis", nv); jki("nvis2", nv2); jki("nt3", nt);
    nv2 = -7;
    count_oi_fits_data(&slot[k], NULL, &nv2, NULL);
    jki("nvis2b", nv2);
    jki("one", is_oi_fits_one(&slot[k]) != 0); jki("two", is_oi_fits_two(&slot[k]) != 0);
    fputs("\"atom\":[", out);
    for (int i = 0; i < n; i++)
    {
      double d = td();
      fprintf(out, "%s{\"d\":", i ? "," : ""); jd(d);
      fprintf(out, ",\"r\":%d}", is_atomic(&slot[k], d) != 0);
    }
    fputs("],", out);
    evend();
  }
  else if (!strcmp(op, "sethdr"))
  {
    int k = (int)ti();
    set_oi_header(&slot[k]);
    ev("sethdr"); jki("slot", k); post(k); evend();
  }
  else if (!strcmp(op, "summary"))
  {
    int k = (int)ti();
    ev("summary"); jki("slot", k); fputs("\"text\":", out); js(format_oi_fits_summary(&slot[k])); fputc(',', out);
    evend();
  }
  else if (!strcmp(op, "fmtfilter"))
  {
    oi_filter_spec f;
    read_filter(&f);
    ev("fmtfilter"); dump_filter(&f); fputs("\"text\":", out); js(format_oi_filter(&f)); fputc(',', out);
    evend();
  }
  else if (!strcmp(op, "dup"))
  {
    int k = (int)ti(), in = (int)ti();
    const char *d = tok();
    dup_oi(&slot[in], &slot[k]);
    ev("dup"); jki("slot", k); jki("in", in); post(k); posts(d); evend();
  }
  else if (!strcmp(op, "upgrade"))
  {
    int k = (int)ti();
    oi_fits *o = &slot[k];
    upgrade_oi_target(&o->targets);
    for (GList *l = o->arrayList; l; l = l->next) upgrade_oi_array(l->data);
    for (GList *l = o->wavelengthList; l; l = l->next) upgrade_oi_wavelength(l->data);
    for (GList *l = o->visList; l; l = l->next) upgrade_oi_vis(l->data);
    for (GList *l = o->vis2List; l; l = l->next) upgrade_oi_vis2(l->data);
    for (GList *l = o->t3List; l; l = l->next) upgrade_oi_t3(l->data);
    ev("upgrade"); jki("slot", k); post(k); evend();
  }
  else if (!strcmp(op, "mjd2date"))
  {
    int n = (int)ti();
    ev("mjd2date"); fputs("\"q\":[", out);
    for (int i = 0; i < n; i++)
    {
      long m = ti(), y = -1, mo = -1, d = -1;
      mjd2date(m, &y, &mo, &d);
      fprintf(out, "%s[%ld,%ld,%ld,%ld]", i ? "," : "", m, y, mo, d);
    }
    fputs("],", out); evend();
  }
  else if (!strcmp(op, "date2mjd"))
  {
    int n = (int)ti();
    ev("date2mjd"); fputs("\"q\":[", out);
    for (int i = 0; i < n; i++)
    {
      long y = ti(), mo = ti(), d = ti();
      fprintf(out, "%s[%ld,%ld,%ld,%ld]", i ? "," : "", y, mo, d, date2mjd(y, mo, d));
    }
    fputs("],", out); evend();
  }
  /* ---- table-level I/O on an open file ---- */
  else if (!strcmp(op, "fopen"))
  {
    char *f = tdup();
    int mode = (int)ti(); /* 0 create, 1 read */
    st = 0;
    if (mode == 0) fits_create_file(&fh, f, &st); else fits_open_file(&fh, f, READONLY, &st);
    snprintf(fhname, sizeof fhname, "%s", f);
    ev("fopen"); fputs("\"file\":", out); js(f); fputc(',', out); jki("mode", mode); jki("st", st); evend();
    free(f);
  }
  else if (!strcmp(op, "fclose"))
  {
    st = 0;
    fits_close_file(fh, &st);
    fh = NULL;
    ev("fclose"); jki("st", st); files_post(fhname); evend();
  }
  else if (!strcmp(op, "fseek"))
  {
    int h = (int)ti(), ht;
    st = 0;
    fits_movabs_hdu(fh, h, &ht, &st);
    ev("fseek"); jki("hdu", h); jki("st", st); evend();
  }
  else if (!strcmp(op, "tnext") || !strcmp(op, "tname"))
  {
    /* tnext KIND st0 / tname KIND NAME st0 */
    int byname = !strcmp(op, "tname");
    const char *kind = tok();
    char *name = byname ? tdup() : strdup("");
    st = tst();
    int st0 = st, pos = -1;
    STATUS rv = -1;
    said_mark();
    ev(op); fprintf(out, "\"kind\":\"%s\",", kind); fputs("\"name\":", out); js(name); fputc(',', out);
    jki("st0", st0);
#define TREAD(type, call, dumpfn, freefn)                                      \
    { type t; memset(&t, 0, sizeof t); rv = call; jki("st", st); jki("rv", rv); \
      if (st == 0) { fputs("\"tab\":", out); dumpfn(&t); fputc(',', out); freefn(&t); } }
#define NOFREE(x)
    if (!strcmp(kind, "hdr")) TREAD(oi_header, read_oi_header(fh, &t, &st), dump_header, NOFREE)
    else if (!strcmp(kind, "tg")) TREAD(oi_target, read_oi_target(fh, &t, &st), dump_target, free_oi_target)
    else if (!strcmp(kind, "arr") && byname) TREAD(oi_array, read_oi_array(fh, name, &t, &st), dump_array, free_oi_array)
    else if (!strcmp(kind, "arr")) TREAD(oi_array, read_next_oi_array(fh, &t, &st), dump_array, free_oi_array)
    else if (!strcmp(kind, "wav") && byname) TREAD(oi_wavelength, read_oi_wavelength(fh, name, &t, &st), dump_wave, free_oi_wavelength)
    else if (!strcmp(kind, "wav")) TREAD(oi_wavelength, read_next_oi_wavelength(fh, &t, &st), dump_wave, free_oi_wavelength)
    else if (!strcmp(kind, "cor") && byname) TREAD(oi_corr, read_oi_corr(fh, name, &t, &st), dump_corr, free_oi_corr)
    else if (!strcmp(kind, "cor")) TREAD(oi_corr, read_next_oi_corr(fh, &t, &st), dump_corr, free_oi_corr)
    else if (!strcmp(kind, "pol")) TREAD(oi_inspol, read_next_oi_inspol(fh, &t, &st), dump_inspol, free_oi_inspol)
    else if (!strcmp(kind, "vis")) TREAD(oi_vis, read_next_oi_vis(fh, &t, &st), dump_vis, free_oi_vis)
    else if (!strcmp(kind, "vis2")) TREAD(oi_vis2, read_next_oi_vis2(fh, &t, &st), dump_vis2, free_oi_vis2)
    else if (!strcmp(kind, "t3")) TREAD(oi_t3, read_next_oi_t3(fh, &t, &st), dump_t3, free_oi_t3)
    else if (!strcmp(kind, "flux")) TREAD(oi_flux, read_next_oi_flux(fh, &t, &st), dump_flux, free_oi_flux)
    else { fprintf(stderr, "oih: bad kind %s\n", kind); exit(99); }
    carried = st;
    fits_get_hdu_num(fh, &pos);
    jki("hdu", pos);
    said();
    evend();
    free(name);
  }
  else if (!strcmp(op, "twrite"))
  {
    /* twrite KIND slot idx extver st0 */
    const char *kind = tok();
    int k = (int)ti(), i = (int)ti(), x = (int)ti();
    st = tst();
    int st0 = st;
    oi_fits *o = &slot[k];
    STATUS rv = -1;
    int nh = -1, st2 = 0;
    said_mark();
    if (!strcmp(kind, "hdr")) rv = write_oi_header(fh, o->header, &st);
    else if (!strcmp(kind, "tg")) rv = write_oi_target(fh, o->targets, &st);
    else if (!strcmp(kind, "arr")) rv = write_oi_array(fh, *(oi_array *)g_list_nth_data(o->arrayList, i), x, &st);
    else if (!strcmp(kind, "wav")) rv = write_oi_wavelength(fh, *(oi_wavelength *)g_list_nth_data(o->wavelengthList, i), x, &st);
    else if (!strcmp(kind, "cor")) rv = write_oi_corr(fh, *(oi_corr *)g_list_nth_data(o->corrList, i), x, &st);
    else if (!strcmp(kind, "pol")) rv = write_oi_inspol(fh, *(oi_inspol *)g_list_nth_data(o->inspolList, i), x, &st);
    else if (!strcmp(kind, "vis")) rv = write_oi_vis(fh, *(oi_vis *)g_list_nth_data(o->visList, i), x, &st);
    else if (!strcmp(kind, "vis2")) rv = write_oi_vis2(fh, *(oi_vis2 *)g_list_nth_data(o->vis2List, i), x, &st);
    else if (!strcmp(kind, "t3")) rv = write_oi_t3(fh, *(oi_t3 *)g_list_nth_data(o->t3List, i), x, &st);
    else if (!strcmp(kind, "flux")) rv = write_oi_flux(fh, *(oi_flux *)g_list_nth_data(o->fluxList, i), x, &st);
    else { fprintf(stderr, "oih: bad kind %s\n", kind); exit(99); }
    carried = st;
    fits_get_num_hdus(fh, &nh, &st2);
    ev("twrite"); said(); fprintf(out, "\"kind\":\"%s\",", kind); jki("slot", k); jki("idx", i); jki("extver", x);
    jki("st0", st0); jki("st", st); jki("rv", rv); jki("nhdu", nh); evend();
  }
  else if (!strcmp(op, "optparse"))
  {
    /* parse filter options as an application would, log resulting filter */
    int n = (int)ti();
    char **argv = calloc((size_t)n + 2, sizeof *argv);
    argv[0] = strdup("app");
    for (int i = 0; i < n; i++) argv[i + 1] = tdup();
    int argc = n + 1;
    GError *err = NULL;
    GOptionContext *c = g_option_context_new("- test");
    GOptionGroup *g = get_oi_filter_option_group();
    g_option_context_add_group(c, g);
    ev("optparse");
    fputs("\"argv\":[", out);
    for (int i = 0; i < n; i++) { if (i) fputc(',', out); js(argv[i + 1]); }
    fputs("],", out);
    gboolean ok = g_option_context_parse(c, &argc, &argv, &err);
    jki("ok", ok != 0); jki("left", argc - 1);
    if (ok) dump_filter(get_user_oi_filter());
    evend();
  }
  else if (!strcmp(op, "hush"))
  {
    oi_hush_errors = (int)ti();
    ev("hush"); jki("n", oi_hush_errors); evend();
  }
  else if (!strcmp(op, "storage")) /* blocks in use, judged when no dataset is left */
  {
    ev("storage"); jki("blocks", nblock); evend();
  }
  else if (!strcmp(op, "move")) /* replace a file by another */
  {
    char *a = tdup(), *b = tdup();
    ev("move"); fputs("\"file\":", out); js(a); fputs(",\"to\":", out); js(b); fputc(',', out);
    jki("rc", rename(a, b)); evend();
    free(a); free(b);
  }
  else if (!strcmp(op, "limit")) /* limit the size of files written, as a full disk would */
  {
    long n = ti();
    struct rlimit rl = {n < 0 ? 512UL << 20 : (rlim_t)n, RLIM_INFINITY};
    signal(SIGXFSZ, SIG_IGN);
    wlimit = rl;
    ev("limit"); jki("n", n); evend();
  }
  else if (!strcmp(op, "demo"))
  {
    /* demo TEXT OUT IN : the demonstration program, which asks for these names */
    char *tx = tdup(), *of = tdup(), *inf = tdup(), path[4096];
    snprintf(path, sizeof path, "%s/../oifitslib/oitable-demo", getenv("OIH_UTIL"));
    FILE *f = fopen("demo.stdin", "w");
    fprintf(f, "%s\n%s\n%s\n", tx, of, inf);
    fclose(f);
    fflush(out);
    pid_t pid = fork();
    if (pid == 0)
    {
      int fd = open("cli.stdout", O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 1);
      fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      fd = open("demo.stdin", O_RDONLY);
      dup2(fd, 0);
      alarm(20);
      execl(path, path, (char *)NULL);
      _exit(99);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 99) exit(99);
    ev("demo"); fputs("\"out\":", out); js(of); fputs(",\"in\":", out); js(inf); fputc(',', out);
    jki("rc", WIFEXITED(ws) ? WEXITSTATUS(ws) : 1000 + WTERMSIG(ws));
    files_post(of);
    char *text = calloc(1, 1 << 20);
    f = fopen("cli.stdout", "rb");
    if (f) { size_t m = fread(text, 1, (1 << 20) - 1, f); text[m] = 0; fclose(f); }
    fputs("\"text\":", out); js(text); fputc(',', out);
    free(text);
    evend();
    free(tx); free(of); free(inf);
  }
  else if (!strcmp(op, "cli"))
  {
    /* cli TOOL slot OUTFILE n args* : run a utility, then read its output file */
    const char *tool = tok();
    int k = (int)ti();
    char *of = tdup();
    int n = (int)ti();
    char **av = calloc((size_t)n + 2, sizeof *av), path[4096];
    snprintf(path, sizeof path, "%s/oifits-%s", getenv("OIH_UTIL"), tool);
    av[0] = path;
    for (int i = 0; i < n; i++) av[i + 1] = tdup();
    fflush(out);
    pid_t pid = fork();
    if (pid == 0)
    {
      int fd = open("cli.stdout", O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 1);
      fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      alarm(20);
      execv(path, av);
      _exit(99);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 99) exit(99);
    ev("cli"); fprintf(out, "\"tool\":\"%s\",", tool); jki("slot", k);
    fputs("\"out\":", out); js(of); fputc(',', out);
    jki("rc", WIFEXITED(ws) ? WEXITSTATUS(ws) : 1000 + WTERMSIG(ws));
    files_post(of);
    fputs("\"args\":[", out);
    for (int i = 0, c = 0; i < n; i++)
      if (av[i + 1][0] && av[i + 1][0] != '-' && !strchr(av[i + 1], '/') && strstr(av[i + 1], ".fits"))
      {
        fputs(c++ ? ",{\"name\":" : "{\"name\":", out); js(av[i + 1]); fputc(',', out);
        files_post(av[i + 1]); fputs("\"_\":0}", out);
      }
    fputs("],", out);
    char *text = calloc(1, 1 << 20);
    FILE *f = fopen("cli.stdout", "rb");
    if (f) { size_t m = fread(text, 1, (1 << 20) - 1, f); text[m] = 0; fclose(f); }
    fputs("\"text\":", out); js(text); fputc(',', out);
    free(text);
    st = -1;
    if (*of && access(of, F_OK) == 0)
    {
      oi_fits tmp;
      st = 0;
      read_oi_fits(of, &tmp, &st);
      if (st == 0) { slot[k] = tmp; post(k); }
    }
    jki("rst", st);
    evend();
  }
  else { fprintf(stderr, "oih: unknown op '%s'\n", op); exit(99); }
}

int main(int argc, char **argv)
{
  if (argc < 3) { fprintf(stderr, "usage: oih SCRIPT TRACE\n"); return 99; }
  FILE *f = fopen(argv[1], "rb");
  if (!f) { perror(argv[1]); return 99; }
  fseek(f, 0, SEEK_END);
  long size = ftell(f);
  rewind(f);
  char *buf = malloc((size_t)size + 1);
  if (fread(buf, 1, (size_t)size, f) != (size_t)size) return 99;
  buf[size] = 0;
  fclose(f);
  long cap = 1 << 16;
  tk = malloc((size_t)cap * sizeof *tk);
  for (char *p = strtok(buf, " \n\t"); p; p = strtok(NULL, " \n\t"))
  {
    if (ntk == cap) tk = realloc(tk, (size_t)(cap *= 2) * sizeof *tk);
    tk[ntk++] = p;
  }
  int ofd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (ofd < 0) { perror(argv[2]); return 99; }
  out = fdopen(ofd, "a");
  oi_hush_errors = 1;
  g_log_set_always_fatal(0);
  /* library chatter on stdout/stderr is not part of the trace */
  long i = 0;
  int stuck = 0;
  while (i < ntk)
  {
    if (strcmp(tk[i], "scenario") != 0) { fprintf(stderr, "oih: expected 'scenario' got '%s'\n", tk[i]); return 99; }
    long start = i + 2;
    const char *id = tk[i + 1];
    long end = start;
    while (end < ntk && strcmp(tk[end], "scenario") != 0) end++;
    fprintf(out, "{\"op\":\"begin\",\"sc\":\"%s\"}\n", id);
    fflush(out);
    pid_t pid = fork();
    if (pid == 0)
    {
      alarm(30);
#ifndef __SANITIZE_ADDRESS__
      struct rlimit as = {4UL << 30, RLIM_INFINITY};
      setrlimit(RLIMIT_AS, &as);
#endif
      setrlimit(RLIMIT_FSIZE, &nolimit);
      mkdir(id, 0755);
      if (chdir(id) != 0) { perror(id); _exit(99); }
      int sfd = open("oih.said", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
      if (sfd < 0) { perror("oih.said"); _exit(99); }
      dup2(sfd, 1);
      dup2(sfd, 2);
      close(sfd);
      itk = start;
      ntk = end;
      while (itk < ntk)
      {
        const char *op = tk[itk++];
        run_one(op);
      }
      fflush(out);
      _exit(0);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 99) return 99;
    int sig = WIFSIGNALED(ws) ? WTERMSIG(ws) : 0, rc = WIFEXITED(ws) ? WEXITSTATUS(ws) : -1;
    /* a leading newline terminates a partly written event line */
    fprintf(out, "\n{\"op\":\"%s\",\"sig\":%d,\"rc\":%d}\n", (sig || rc) ? "crash" : "end", sig, rc);
    fflush(out);
    i = end;
    if (sig == SIGALRM && ++stuck >= 2) break; /* not worth waiting for the rest */
  }
  fclose(out);
  return 0;
}
