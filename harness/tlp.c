/* Trace lists: L05 packing, L06 unpacking from record lists */
#include "libmseed.h"
#include "vp.h"
#include <math.h>
typedef unsigned char uc;
#ifdef STUBEH
#include "ehstub.h"
#endif
#define MAXR 16
static uc *recs[MAXR]; static int rlens[MAXR], nrecs;
static void handler (char *r, int n, void *priv)
{
  VP_ASSERT (priv == (void *)recs, "handler data"); VP_ASSERT (nrecs < MAXR, "number of records"); uc *c = vp_alloc (n); memcpy (c, r, n); recs[nrecs] = c; rlens[nrecs++] = n;
}
static void mk (MS3Record *m, const char *sid, int64_t t, int n, char type, void *d) { memset (m, 0, sizeof *m); strcpy (m->sid, sid); m->pubversion = 2; m->starttime = t; m->samprate = 1.0; m->samplecnt = n; m->numsamples = n; m->sampletype = type; m->datasamples = d; m->reclen = 100; }
static const char ty[] = "ifdt"; static const int ws[] = { 4, 4, 8, 1 }; static const int dencs[] = { DE_INT32, DE_FLOAT32, DE_FLOAT64, DE_TEXT };
#define S 1000000000LL
#define T0 951868790000000000LL
typedef struct { const char *sid; int64_t t; uc v[1200]; int n, done; } stream;
static int w, tk, fit, v2; static char *xh; static int xhl;
static void add (MS3TraceList *l, stream *s, int n)
{
  uc *d = vp_alloc (n * w); for (int i = 0; i < n * w; i++) d[i] = s->v[s->n * w + i] = vp_u8 (); MS3Record m; mk (&m, s->sid, s->t + s->n * S, n, ty[tk], d); s->n += n;
  VP_ASSERT (mstl3_addmsr (l, &m, 0, 0, 0, NULL) != NULL, "record is added");
}
/* records from index r on hold the samples of s from s->done on, leaving at most keep; returns the index behind them */
static int holds (stream *s, int r, int keep, int64_t *tot)
{
  int end = s->n; while (r < nrecs && s->done < end) {
    MS3Record *o = NULL; VP_ASSERT (msr3_parse ((char *)recs[r], rlens[r], &o, MSF_UNPACKDATA | MSF_VALIDATECRC, 0) == MS_NOERROR, "record parses"); if (o->starttime != s->t + s->done * S || strcmp (o->sid, s->sid)) { VP_ASSERT (keep, "every sample is packed, in order, with its start time"); break; } VP_ASSERT (o->formatversion == (v2 ? 2 : 3) && o->pubversion == 2 && !strcmp (o->sid, s->sid), "version and identifier"); int c = (int)o->numsamples; VP_ASSERT (c > 0 && s->done + c <= end && o->sampletype == ty[tk], "samples of the record");
    int ok = 1; for (int i = 0; i < c * w; i++) ok &= ((uc *)o->datasamples)[i] == s->v[s->done * w + i]; VP_ASSERT (ok, "samples in order"); VP_ASSERT (o->samprate == 1.0 && o->encoding == dencs[tk], "rate and encoding");
    if (!v2) VP_ASSERT (o->extralength == xhl && (!xhl || !memcmp (o->extra, xh, xhl)), "extra headers"); s->done += c; *tot += c; r++;
  }
  VP_ASSERT (s->n - s->done <= keep, "at most one record is left unpacked"); return r;
}
static void left (MS3TraceSeg *g, stream *s, int from, int pre)
{
  int n = s->n - from; VP_ASSERT (g->numsamples == n && g->samplecnt == n, "samples left"); VP_ASSERT (g->starttime == s->t + from * S, "start of what is left"); VP_ASSERT (g->endtime == s->t + (s->n - 1) * S, "end of the segment");
  int ok = 1; for (int i = 0; i < n * w; i++) ok &= ((uc *)g->datasamples)[i] == s->v[from * w + i]; VP_ASSERT (ok, "samples left are in order"); VP_ASSERT (n ? g->datasize >= (uint64_t)(n * w) && (pre || g->datasize == (uint64_t)(n * w)) : !g->datasamples && !g->datasize, "buffer of what is left");
}
void h_tlpack (void)
{
  static stream a, a2, b; static const int fls[] = { 0, MSF_FLUSHDATA, MSF_MAINTAINMSTL, MSF_MAINTAINMSTL | MSF_FLUSHDATA }; memset (&a, 0, sizeof a); memset (&a2, 0, sizeof a2); memset (&b, 0, sizeof b);
  leapsecondlist = NULL; MS3TraceList *l = mstl3_init (NULL); v2 = vp_concretize (vp_u8 () & 1); tk = vp_concretize (vp_u8 () & 3); w = ws[tk]; int rl = v2 ? 128 : 56 + 2 * w; int f1 = fls[vp_concretize (vp_u8 () & 3)], pre = vp_concretize (vp_u8 () & 1), more = vp_concretize (vp_u8 () & 3), two = more & 1, other = more >> 1;
  fit = v2 ? 72 / w : 2; libmseed_prealloc_block_size = pre ? 64 : 0; const int ns[] = { 1, fit - 1, fit, fit + 1, 2 * fit, 2 * fit + 1 }, n2[] = { 0, 1, fit }; int k1 = vp_concretize (vp_u8 () % 6), k2 = vp_concretize (vp_u8 () % 3); if (fit == 2) VP_ASSUME (k1 != 1); if (v2 && tk != 0) VP_ASSUME (k1 == 2 || k1 == 3);
  xh = NULL; xhl = 0; if (!v2 && more == 3) { xh = vp_alloc (8); memcpy (xh, "{\"A\":1}", 8); xhl = 7; rl += 7; }
  a.sid = a2.sid = "FDSN:XX_A__B_H_Z"; b.sid = "FDSN:XX_B__B_H_Z"; a.t = T0; a2.t = T0 + 1000 * S; b.t = T0 + 500 * S; nrecs = 0;
  add (l, &a, ns[k1]); if (two) add (l, &a2, 3); if (other) add (l, &b, fit); int64_t tot = 0, got = -7; uint32_t vf = v2 ? MSF_PACKVER2 : 0;
  int64_t r = mstl3_pack (l, handler, recs, rl, DE_INT32, &got, f1 | vf, 0, xh); VP_ASSERT (r == nrecs, "number of records");
  int fl = f1 & MSF_FLUSHDATA, mt = f1 & MSF_MAINTAINMSTL; int at = holds (&a, 0, fl ? 0 : fit, &tot); if (two) at = holds (&a2, at, fl ? 0 : fit, &tot); if (other) at = holds (&b, at, fl ? 0 : fit, &tot);
  VP_ASSERT (at == nrecs && got == tot, "nothing but the samples is packed"); MS3TraceID *id = l->traces.next[0]; if (mt) { a.done = a2.done = b.done = 0; } left (id->first, &a, a.done, pre); if (two) left (id->first->next, &a2, a2.done, pre); if (other) left (id->next[0]->first, &b, b.done, pre);
  VP_REACH (mt ? "kept" : fl ? "flushed" : "partial");
  if (n2[k2]) add (l, &a, n2[k2]); VP_ASSERT (id->numsegments == 1u + two && l->numtraceids == 1u + other, "continuous data extends the segment"); nrecs = 0; tot = 0; if (xh) VP_ASSERT (!memcmp (xh, "{\"A\":1}", 8), "extra headers of the caller");
  r = mstl3_pack (l, handler, recs, rl, DE_INT32, &got, MSF_FLUSHDATA | vf, 0, NULL); xhl = 0; VP_ASSERT (r == nrecs, "number of records"); int em = (a.done == a.n) + (two && a2.done == 3) + (other && b.done == b.n), e2 = 0, nr = 0; /* header-only records of empty segments hold no sample */
  for (int i = 0; i < nrecs; i++) { MS3Record *o = NULL; VP_ASSERT (msr3_parse ((char *)recs[i], rlens[i], &o, 0, 0) == MS_NOERROR, "record parses"); if (o->samplecnt == 0) e2++; else { recs[nr] = recs[i]; rlens[nr++] = rlens[i]; } } nrecs = nr; VP_ASSERT (e2 <= em, "empty records");
  at = holds (&a, 0, 0, &tot); if (two) at = holds (&a2, at, 0, &tot); if (other) at = holds (&b, at, 0, &tot); VP_ASSERT (at == nrecs && got == tot, "nothing but the samples is packed"); left (id->first, &a, a.n, pre); mstl3_free (&l, 0); VP_REACH ("end");
}
/* a record length without room for a sample is refused, nothing is lost */
void h_tlfail (void)
{
  static stream a; memset (&a, 0, sizeof a); leapsecondlist = NULL; MS3TraceList *l = mstl3_init (NULL); v2 = vp_concretize (vp_u8 () & 1); tk = vp_concretize (vp_u8 () & 3); w = ws[tk]; a.sid = "FDSN:XX_A__B_H_Z"; a.t = T0; nrecs = 0; libmseed_prealloc_block_size = 0; add (l, &a, 3); xh = NULL; xhl = 0;
  int rl = v2 ? 60 + vp_concretize (vp_u8 () % 5) : 52 + vp_concretize (vp_u8 () % 5), x = !v2 && vp_concretize (vp_u8 () & 1); if (x) { xh = vp_alloc (8); memcpy (xh, "{\"A\":1}", 8); } int64_t got = -7; int64_t r = mstl3_pack (l, handler, recs, rl, DE_INT32, &got, MSF_FLUSHDATA | (v2 ? MSF_PACKVER2 : 0), 0, xh);
  VP_ASSERT (r == -1 && nrecs == 0, "refused"); left (l->traces.next[0]->first, &a, 0, 0); if (xh) VP_ASSERT (!memcmp (xh, "{\"A\":1}", 8), "extra headers of the caller"); mstl3_free (&l, 0); VP_REACH ("end");
}
/* L06: records written down here, in any order, decoded while reading and from the record list */
static void putv (uc *p, uint64_t v, int n, int big) { for (int i = 0; i < n; i++) p[big ? n - 1 - i : i] = (uc)(v >> (8 * i)); }
static int mkrec (uc *buf, int src, int enc, int pbig, int sec, int ns)
{
  int ww = enc == DE_TEXT ? 1 : enc == DE_FLOAT64 ? 8 : enc == DE_INT32 || enc == DE_FLOAT32 ? 4 : enc == DE_GEOSCOPE24 ? 3 : 2, steim = enc == DE_STEIM1, pl = steim ? 64 : ns * ww; uc pay[64]; memset (pay, 0, 64); if (src == 2 || steim) pbig = steim;
  if (steim) { uint32_t v = vp_u32 () % 1000; uc df = vp_u8 (); putv (pay, 1u << 24, 4, 1); putv (pay + 4, v, 4, 1); putv (pay + 8, (int32_t)v + (ns == 2 ? (int8_t)df : 0), 4, 1); pay[13] = df; } else for (int i = 0; i < pl; i++) pay[i] = vp_u8 ();
  if (src < 2) {
    int hbig = src; memset (buf, 0, 128); memcpy (buf, "000001Q S    00BHZXX", 20); putv (buf + 20, 2012, 2, hbig); putv (buf + 22, 61, 2, hbig); buf[24] = 23; buf[25] = 59; buf[26] = (uc)sec; putv (buf + 30, ns, 2, hbig); putv (buf + 32, 1, 2, hbig); putv (buf + 34, 1, 2, hbig); buf[39] = 1; putv (buf + 44, 64, 2, hbig); putv (buf + 46, 48, 2, hbig); putv (buf + 48, 1000, 2, hbig); buf[52] = enc; buf[53] = (uc)pbig; buf[54] = 7; memcpy (buf + 64, pay, 64); return 128;
  }
  int n = 40 + 18 + pl; memset (buf, 0, n); buf[0] = 'M'; buf[1] = 'S'; buf[2] = 3; putv (buf + 8, 2012, 2, 0); putv (buf + 10, 61, 2, 0); buf[12] = 23; buf[13] = 59; buf[14] = (uc)sec; buf[15] = enc; double r1 = 1.0; memcpy (buf + 16, &r1, 8); putv (buf + 24, ns, 4, 0); buf[32] = 2; buf[33] = 18; putv (buf + 36, pl, 4, 0); memcpy (buf + 40, "FDSN:XX_S_00_B_H_Z", 18); memcpy (buf + 58, pay, pl); return n;
}
static const uc ues[] = { DE_INT32, DE_INT16, DE_STEIM1, DE_CDSN, DE_GEOSCOPE24, DE_FLOAT32, DE_FLOAT64, DE_TEXT };
void h_tlunpack (void)
{
  static const uc ords[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; leapsecondlist = NULL; libmseed_prealloc_block_size = 0;
  int ei = vp_concretize (vp_u8 () & 7), e2 = vp_concretize (vp_u8 () & 1), src = vp_concretize (vp_u8 () % 3), pbig = vp_concretize (vp_u8 () & 1), o = vp_concretize (vp_u8 () % 6), how = vp_concretize (vp_u8 () % 3), mix = vp_concretize (vp_u8 () & 1), enc = ues[ei], enc2 = ei < 4 ? ues[e2] : enc; if (src == 2) VP_ASSUME (pbig == 0 && ei != 3 && ei != 4); if (e2) VP_ASSUME (ei < 4); /* v3 records carry the encodings of v3 */
  uc buf[400]; int at = 0, secs[3] = { 10, 12, 13 }, nss[3] = { 2, 1, 2 }; for (int i = 0; i < 3; i++) { int k = ords[o][i]; at += mkrec (buf + at, k == 1 && mix ? 2 - src : src, k == 1 ? enc2 : enc, k == 1 && mix ? !pbig : pbig, secs[k], nss[k]); }
  uc *b = vp_alloc (at); memcpy (b, buf, at); MS3TraceList *d = NULL, *l = NULL; int64_t r1 = mstl3_readbuffer (&d, (char *)b, at, 0, MSF_UNPACKDATA, NULL, 0), r2 = mstl3_readbuffer (&l, (char *)b, at, 0, MSF_RECORDLIST, NULL, 0); VP_ASSERT (r1 == 3 && r2 == 3, "three records");
  MS3TraceSeg *g = d->traces.next[0]->first, *h = l->traces.next[0]->first; VP_ASSERT (d->traces.next[0]->numsegments == 1 && l->traces.next[0]->numsegments == 1 && g->numsamples == 5 && h->samplecnt == 5 && h->numsamples == 0, "one segment of five samples"); VP_ASSERT (h->recordlist && h->recordlist->recordcnt == 3, "three record pointers");
  int w = ms_samplesize (g->sampletype), sz = how == 0 ? 0 : how == 1 ? 5 * w : 5 * w - 1; uc *out = sz ? vp_alloc (sz) : NULL; int64_t n = mstl3_unpack_recordlist (l->traces.next[0], h, out, sz, 0);
  if (how == 2) { VP_ASSERT (n == -1 && !h->datasamples, "an output buffer that is too small is refused"); VP_REACH ("small"); return; }
  VP_ASSERT (n == 5, "all samples"); VP_ASSERT (h->sampletype == g->sampletype, "sample type"); if (!out) { VP_ASSERT (h->datasamples && h->numsamples == 5 && h->datasize == (uint64_t)(5 * w), "segment buffer"); VP_ASSERT (mstl3_unpack_recordlist (l->traces.next[0], h, NULL, 0, 0) == -1, "samples already there are not replaced"); }
  uc *x = out ? out : h->datasamples, *y = g->datasamples; int ok = 1; for (int i = 0; i < 5 * w; i++) ok &= x[i] == y[i]; VP_ASSERT (ok, "same samples as decoded while reading"); mstl3_free (&d, 1); mstl3_free (&l, 1); VP_REACH ("end");
}
/* four records: segments that are joined, then extended; each record decoded on its own for comparison */
void h_tlunpack4 (void)
{
  leapsecondlist = NULL; libmseed_prealloc_block_size = vp_concretize (vp_u8 () & 1) ? 64 : 0; static const uc fe[] = { DE_INT16, DE_FLOAT64, DE_INT32 }; int enc = fe[vp_concretize (vp_u8 () % 3)], src = vp_concretize (vp_u8 () % 3), how = vp_concretize (vp_u8 () & 1), used = 0, ord[4]; for (int i = 0; i < 4; i++) { ord[i] = vp_concretize (vp_u8 () & 3); VP_ASSUME (!(used & 1 << ord[i])); used |= 1 << ord[i]; }
  uc buf[520]; int at = 0, ats[4], lens[4], secs[4] = { 10, 12, 13, 15 }, nss[4] = { 2, 1, 2, 1 }; for (int i = 0; i < 4; i++) { int k = ord[i]; ats[k] = at; at += lens[k] = mkrec (buf + at, k == 1 ? 2 - src : src, enc, src == 1, secs[k], nss[k]); }
  uc *b = vp_alloc (at); memcpy (b, buf, at); MS3TraceList *l = NULL; VP_ASSERT (mstl3_readbuffer (&l, (char *)b, at, 0, MSF_RECORDLIST, NULL, 0) == 4, "four records"); MS3TraceID *id = l->traces.next[0]; MS3TraceSeg *h = id->first; VP_ASSERT (id->numsegments == 1 && h->samplecnt == 6 && h->numsamples == 0, "one segment"); VP_ASSERT (h->recordlist && h->recordlist->recordcnt == 4, "four record pointers");
  int z = enc == DE_FLOAT64 ? 8 : 4; uc *out = how ? vp_alloc (6 * z) : NULL; int64_t n = mstl3_unpack_recordlist (id, h, out, how ? 6 * z : 0, 0); VP_ASSERT (n == 6, "all samples"); uc *x = out ? out : h->datasamples; int p = 0;
  for (int k = 0; k < 4; k++) { MS3Record *m = NULL; VP_ASSERT (msr3_parse ((char *)b + ats[k], lens[k], &m, MSF_UNPACKDATA, 0) == MS_NOERROR && m->numsamples == nss[k], "record"); uc *y = m->datasamples; int ok = 1; for (int i = 0; i < nss[k] * z; i++) ok &= x[p * z + i] == y[i]; VP_ASSERT (ok, "samples of each record, in time order"); p += nss[k]; } VP_REACH ("end");
}
/* L06: the same from a file, the record list pointing into it; with a time window */
#ifdef FILES
#include <stdio.h>
#include "fakefs.h"
static void *small (size_t n) { return malloc (n == MAXRECLEN ? 420 : n); }
void h_tlfile (void)
{
  static const uc ords[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; leapsecondlist = NULL; libmseed_prealloc_block_size = 0; libmseed_memory.malloc = small;
  int ei = vp_concretize (vp_u8 () % 3), src = vp_concretize (vp_u8 () % 3), o = vp_concretize (vp_u8 () % 6), win = vp_concretize (vp_u8 () & 3), junk = vp_concretize (vp_u8 () & 1); static const uc fe[] = { DE_INT32, DE_INT16, DE_FLOAT64 };
  static uc buf[500]; int at = 0, secs[3] = { 10, 12, 13 }, nss[3] = { 2, 1, 2 }; for (int i = 0; i < 3; i++) { int k = ords[o][i]; if (junk) { memset (buf + at, '#', 9); at += 9; } at += mkrec (buf + at, k == 1 ? 2 - src : src, fe[ei], src == 1, secs[k], nss[k]); }
  memset (ff_, 0, sizeof ff_); uc *b = vp_alloc (at); memcpy (b, buf, at); ff_[0].name = "f"; ff_[0].d = b; ff_[0].n = at; uint32_t sk = junk ? MSF_SKIPNOTDATA : 0;
  int64_t S0 = 1330646340LL * S; int64_t lo = win & 1 ? S0 + 11 * S + S / 2 : NSTUNSET, hi = win & 2 ? S0 + 12 * S + S / 2 : NSTUNSET; int first = win & 1 ? 1 : 0, lastn = win & 2 ? 2 : 3, ns = 0; for (int k = first; k < lastn; k++) ns += nss[k];
  MS3TraceList *d = NULL, *l = NULL, *a = NULL; VP_ASSERT (ms3_readtracelist (&a, "f", NULL, 0, MSF_UNPACKDATA | sk, 0) == MS_NOERROR && a->traces.next[0]->first->numsamples == 5, "whole file"); VP_ASSERT (ff_[0].open == 0, "closed");
  VP_ASSERT (ms3_readtracelist_timewin (&d, "f", NULL, lo, hi, 0, MSF_UNPACKDATA | sk, 0) == MS_NOERROR, "read"); VP_ASSERT (ms3_readtracelist_timewin (&l, "f", NULL, lo, hi, 0, MSF_RECORDLIST | sk, 0) == MS_NOERROR, "read"); VP_ASSERT (d->traces.next[0]->numsegments == 1 && l->traces.next[0]->numsegments == 1, "one segment");
  MS3TraceSeg *w = a->traces.next[0]->first, *g = d->traces.next[0]->first, *h = l->traces.next[0]->first; VP_ASSERT (g->numsamples == ns && h->samplecnt == ns && h->numsamples == 0, "records of the window"); VP_ASSERT (g->starttime == S0 + secs[first] * S, "first record of the window");
  VP_ASSERT (mstl3_unpack_recordlist (l->traces.next[0], h, NULL, 0, 0) == ns && h->numsamples == ns && ff_[0].open == 0, "all samples"); VP_ASSERT (h->sampletype == g->sampletype, "sample type");
  int z = ms_samplesize (g->sampletype), ok = 1; uc *x = h->datasamples, *y = g->datasamples, *q = (uc *)w->datasamples + z * (first ? 2 : 0); for (int i = 0; i < ns * z; i++) ok &= (x[i] == y[i]) & (y[i] == q[i]); VP_ASSERT (ok, "same samples as decoded while reading"); mstl3_free (&d, 1); mstl3_free (&l, 1); VP_REACH ("end");
}
#endif
