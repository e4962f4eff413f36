/* Trace lists: L01 accounting, L02 merging, L03 sample order, L04 conversion, L05 packing, L06 deferred unpacking, L07 identifiers */
#include "libmseed.h"
#include "vp.h"
#include <math.h>
typedef unsigned char uc;
static double bitsd (uint64_t u) { double d; memcpy (&d, &u, 8); return d; }
static double ttol; static double rtol; static double ftt (const MS3Record *m) { return ttol; } static double frt (const MS3Record *m) { return rtol; }
static const char *names[] = { "FDSN:XX_A__B_H_Z", "FDSN:XX_B__B_H_Z", "FDSN:XX_A__B_H_E", "A" };
static void mk (MS3Record *m, const char *sid, int pv, int64_t t, double rate, int n) { memset (m, 0, sizeof *m); strcpy (m->sid, sid); m->pubversion = (uc)pv; m->starttime = t; m->samprate = rate; m->samplecnt = n; m->encoding = DE_INT32; m->reclen = 100; }
/* the structure of one identifier */
static int64_t check_id (MS3TraceID *id)
{
  VP_ASSERT (id->first && id->last && !id->first->prev && !id->last->next, "ends of the segment list"); unsigned n = 0; int64_t cnt = 0, lo = 0, hi = 0;
  for (MS3TraceSeg *s = id->first, *p = NULL; s; p = s, s = s->next) { VP_ASSERT (++n < 16, "finite"); VP_ASSERT (s->prev == p, "links agree"); if (!s->next) VP_ASSERT (s == id->last, "last segment"); if (p) VP_ASSERT (p->starttime <= s->starttime, "segments in time order"); VP_ASSERT (s->starttime <= s->endtime, "segment span"); cnt += s->samplecnt; if (n == 1) { lo = s->starttime; hi = s->endtime; } else { lo = s->starttime < lo ? s->starttime : lo; hi = s->endtime > hi ? s->endtime : hi; } }
  VP_ASSERT (id->numsegments == n, "segment count"); VP_ASSERT ((id->earliest == lo) & (id->latest == hi), "earliest and latest"); return cnt;
}
static int nsegs (MS3TraceID *id) { return (int)id->numsegments; }
#ifndef ZAT
#define ZAT 2
#endif
#ifndef TLS
#define TLS vp_concretize (vp_u8 () % 3)
#endif
#ifndef NREC
#define NREC 3
#endif
#define R30 (1000000000.0 / 1073741824.0) /* sample period 2^30 ns */
/* L01: records of two identifiers and versions at any times */
void h_account (void)
{
  leapsecondlist = NULL; MS3TraceList *l = mstl3_init (NULL); int64_t tot[2][3]; memset (tot, 0, sizeof tot); int split = vp_concretize (vp_u8 () & 1), heal = vp_concretize (vp_u8 () & 1), tl = TLS; MS3Tolerance tol = { 0 }; if (tl) { tol.time = ftt; ttol = tl == 1 ? 0.0 : 1.0737418245; }
  int64_t ts[NREC], te[NREC]; int nid[NREC], pvs[NREC];
#ifdef ONEID
  VP_ASSUME (split == 0);
#else
  VP_ASSUME (tl == 0 && heal == 1);
#endif
  static const int cnts[] = { 1, 4, 0 };
  for (int i = 0; i < NREC; i++) {
    
#ifdef ONEID
    int who = 0, n = cnts[vp_concretize (vp_u8 () % (i == ZAT ? 3 : 2))], rt = i == 1 ? vp_concretize (vp_u8 () % 2) : 0;
#else
    int who = i == 0 ? 0 : vp_concretize (vp_u8 () % 3), n = cnts[1 - (i & 1)], rt = 0;
#endif
    int64_t t = ((int64_t)(vp_u8 () & 31) << 28) + (1LL << 59);
    MS3Record m; nid[i] = who == 1; pvs[i] = who == 2 ? 2 : 1; mk (&m, names[nid[i]], pvs[i], t, rt ? 2 * R30 : R30, n); ts[i] = t; te[i] = t + (n > 1 ? (n - 1) * (1LL << (rt ? 29 : 30)) : 0);
    MS3TraceSeg *s = mstl3_addmsr (l, &m, split, heal, 0, tl ? &tol : NULL); VP_ASSERT (s != NULL, "record is added"); tot[nid[i]][split ? pvs[i] : 0] += n;
    VP_ASSERT ((s->starttime <= ts[i]) & (s->endtime >= te[i]), "returned segment covers the record");
  }
  int seen = 0; for (MS3TraceID *id = l->traces.next[0]; id; id = id->next[0]) {
    int k = !strcmp (id->sid, names[1]); VP_ASSERT (k || !strcmp (id->sid, names[0]), "identifier"); int pv = split ? id->pubversion : 0, want = 0; VP_ASSERT (pv < 3, "version"); for (int i = 0; i < NREC; i++) if (nid[i] == k && pvs[i] > want) want = pvs[i]; if (!split) VP_ASSERT (id->pubversion == want, "largest publication version");
    VP_ASSERT (check_id (id) == tot[k][pv], "number of samples"); seen++; int any = 0;
    int64_t lo = 0, hi = 0; for (int i = 0; i < NREC; i++) if (nid[i] == k && (!split || pvs[i] == pv)) { lo = !any || ts[i] < lo ? ts[i] : lo; hi = !any || te[i] > hi ? te[i] : hi; any = 1; } VP_ASSERT ((id->earliest == lo) & (id->latest == hi), "extremes of the records");
  }
  int ids = 0; for (int k = 0; k < 2; k++) for (int p = 0; p < 3; p++) { int has = 0; for (int i = 0; i < NREC; i++) has |= nid[i] == k && (split ? pvs[i] : 0) == p; ids += has; }
  VP_ASSERT (seen == ids && l->numtraceids == (uint32_t)ids, "number of identifiers"); mstl3_free (&l, 0); VP_ASSERT (l == NULL, "freed"); VP_REACH ("end");
}
/* L02: one segment, one more record */
void h_merge (void)
{
  static const double rates[] = { 1.0, 1.00009, 1.0002, 0.99991, 0.9998, 2.0, 100.0, -2.0, 0.5, 0.3 }; static const int64_t per[] = { 1000000000, 999910008, 999800040, 1000090008, 1000200040, 500000000, 10000000, 2000000000, 2000000000, 3333333333 };
  static const double tts[] = { -1, 0.0, 0.1, 0.000000001, 0.75, 2.0 }, rts[] = { -1, 0.0, 0.00005, 0.0003, 1.0 };
  leapsecondlist = NULL; MS3TraceList *l = mstl3_init (NULL); int ra = vp_concretize (vp_u8 () % 10), rb = vp_concretize (vp_u8 () % 10), na = vp_concretize (vp_u8 () & 1) ? 5 : 1, nb = vp_concretize (vp_u8 () & 1) ? 3 : 1, ti = vp_concretize (vp_u8 () % 6), ri = vp_concretize (vp_u8 () % 5), heal = vp_concretize (vp_u8 () & 1);
  if (ra != rb) VP_ASSUME (ra == 0 && ti == 0); else VP_ASSUME (ri == 0 && heal == 0);
  MS3Tolerance tol = { 0 }; if (ti) { tol.time = ftt; ttol = tts[ti]; } if (ri) { tol.samprate = frt; rtol = rts[ri]; }
  MS3Record a, b; int64_t t0 = 1000000000000000000LL; mk (&a, names[0], 1, t0, rates[ra], na); MS3TraceSeg *s = mstl3_addmsr (l, &a, 0, heal, 0, &tol); VP_ASSERT (s && l->traces.next[0]->numsegments == 1, "first segment"); int64_t ea = s->endtime;
  int64_t t = t0 + (int64_t)(int32_t)vp_u32 () * 16 + (vp_u8 () & 15); mk (&b, names[0], 1, t, rates[rb], nb);
  double hb = rb == 7 ? 0.5 : rates[rb], ha = ra == 7 ? 0.5 : rates[ra]; int64_t p = per[rb], eb = t + (int64_t)(nb - 1) * p; if (rb == 9 && nb == 3) eb = msr3_endtime (&b);
  int64_t tn = ti ? (int64_t)(tts[ti] * 1000000000.0) : p / 2; int sim = ri > 1 ? fabs (hb - ha) <= rts[ri] : fabs (1.0 - hb / ha) < 0.0001;
  int64_t g1 = t - ea - p, g2 = t0 - eb - p; int aft = sim & (g1 <= tn) & (g1 >= -tn), bef = sim & (g2 <= tn) & (g2 >= -tn);
  s = mstl3_addmsr (l, &b, 0, heal, 0, &tol); VP_ASSERT (s != NULL, "record is added"); MS3TraceID *id = l->traces.next[0]; VP_ASSERT (!id->next[0], "one identifier");
  if (vp_concretize (aft | bef)) {
    VP_ASSERT (id->numsegments == 1 && id->first == s && id->last == s, "record within tolerance extends the segment"); VP_ASSERT (s->samplecnt == na + nb, "sample count"); VP_ASSERT (aft ? (s->starttime == t0) & (s->endtime == eb) : (s->starttime == t) & (s->endtime == ea), "span"); VP_REACH ("merged");
  } else { VP_ASSERT (id->numsegments == 2 && id->first->samplecnt + id->last->samplecnt == na + nb, "record outside tolerance forms a new segment"); VP_ASSERT ((s->starttime == t) & (s->endtime == eb) & (s->samplecnt == nb), "new segment"); VP_REACH ("apart"); }
}
/* L02: a record that closes a gap */
void h_heal (void)
{
  leapsecondlist = NULL; MS3TraceList *l = mstl3_init (NULL); int heal = vp_concretize (vp_u8 () & 1), order = vp_concretize (vp_u8 () & 1), far = vp_concretize (vp_u8 () & 1), rt = vp_concretize (vp_u8 () % 3); int64_t t0 = 1000000000000000000LL, S = 1000000000LL; MS3Record a, b, c;
  mk (&a, names[0], 1, t0, 1.0, 5); mk (&c, names[0], 1, t0 + 10 * S, rt == 1 ? 1.00005 : rt == 2 ? 1.1 : 1.0, 5); MS3TraceSeg *s = mstl3_addmsr (l, order ? &a : &c, 0, heal, 0, NULL); s = mstl3_addmsr (l, order ? &c : &a, 0, heal, 0, NULL); int64_t ec = msr3_endtime (&c);
  if (far) { MS3Record z; mk (&z, names[0], 1, t0 - 100 * S, 1.0, 2); mstl3_addmsr (l, &z, 0, heal, 0, NULL); mk (&z, names[0], 1, t0 + 100 * S, 1.0, 2); mstl3_addmsr (l, &z, 0, heal, 0, NULL); }
  int n0 = far ? 4 : 2; MS3TraceID *id = l->traces.next[0]; VP_ASSERT (id->numsegments == (unsigned)n0, "two segments");
  int64_t d = (int32_t)vp_u32 (); int64_t t = t0 + 5 * S + d; mk (&b, names[0], 1, t, 1.0, 5); int64_t e = t + 4 * S, g1 = d, g2 = t0 + 10 * S - e - S; s = mstl3_addmsr (l, &b, 0, heal, 0, NULL); VP_ASSERT (s != NULL, "record is added");
  int j1 = vp_concretize ((g1 <= S / 2) & (g1 >= -S / 2)), j2 = vp_concretize ((g2 <= S / 2) & (g2 >= -S / 2)) && rt != 2; 
  if (j1 && j2 && heal) { VP_ASSERT (id->numsegments == (unsigned)n0 - 1, "adjacent segments are joined"); VP_ASSERT (s->starttime == t0 && s->endtime == ec && s->samplecnt == 15, "joined segment"); VP_REACH ("joined"); }
  else if (j1 || j2) { VP_ASSERT (id->numsegments == (unsigned)n0, "one segment is extended"); VP_ASSERT (s->samplecnt == 10, "extended segment"); VP_REACH ("extended"); }
  else { VP_ASSERT (id->numsegments == (unsigned)n0 + 1 && s->samplecnt == 5, "new segment"); VP_REACH ("new"); }
  VP_ASSERT (check_id (id) == 15 + (far ? 4 : 0), "total"); 
}
/* L03: records of two samples at slots of a common grid, any order */
#ifndef SLOTS
#define SLOTS 5
#endif
void h_order (void)
{
  static const char ty[] = "ifdt"; leapsecondlist = NULL; MS3TraceList *l = mstl3_init (NULL); int heal = vp_concretize (vp_u8 () & 1), tk = vp_concretize (vp_u8 () % 4), w = tk == 2 ? 8 : tk == 3 ? 1 : 4; libmseed_prealloc_block_size = vp_concretize (vp_u8 () & 1) ? 16 : 0; MS3RecordPtr *rp; int rec = vp_concretize (vp_u8 () & 1);
  int done[SLOTS] = { 0 }, len[SLOTS]; uc *val[SLOTS]; int nr = 1 + vp_concretize (vp_u8 () % SLOTS); int64_t t0 = 1000000000000000000LL, S = 1000000000LL;
  static const int start[] = { 0, 2, 3, 5, 7, 8, 10 }, cnt[] = { 2, 1, 2, 2, 1, 2, 1 };
  for (int i = 0; i < nr; i++) {
    int k = vp_concretize (vp_u8 () % SLOTS); VP_ASSUME (!done[k]); done[k] = 1; len[k] = cnt[k]; val[k] = vp_alloc (cnt[k] * w); for (int j = 0; j < cnt[k] * w; j++) val[k][j] = vp_u8 ();
    MS3Record m; mk (&m, names[0], 1, t0 + start[k] * S, 1.0, cnt[k]); m.sampletype = ty[tk]; m.numsamples = cnt[k]; m.datasamples = val[k]; m.reclen = 100 + k; MS3TraceSeg *s = mstl3_addmsr_recordptr (l, &m, rec ? &rp : NULL, 0, heal, 0, NULL); VP_ASSERT (s != NULL, "record is added"); if (rec) VP_ASSERT (rp && rp->msr && rp->msr->starttime == m.starttime && rp->endtime == t0 + (start[k] + cnt[k] - 1) * S, "record pointer"); 
  }
  MS3TraceID *id = l->traces.next[0]; check_id (id); int used[SLOTS] = { 0 };
  for (MS3TraceSeg *s = id->first; s; s = s->next) {
    VP_ASSERT (s->sampletype == ty[tk], "sample type"); int k = 0; while (k < SLOTS && t0 + start[k] * S != s->starttime) k++; VP_ASSERT (k < SLOTS && done[k], "segment starts at a record"); int64_t at = 0; MS3RecordPtr *q = rec ? s->recordlist->first : NULL; uint64_t nq = 0;
    for (; k < SLOTS && done[k] && !used[k] && t0 + (start[k] + len[k] - 1) * S <= s->endtime; k++) { used[k] = 1; VP_ASSERT (at + len[k] <= s->numsamples, "number of samples"); int ok = 1; for (int j = 0; j < len[k] * w; j++) ok &= ((uc *)s->datasamples)[at * w + j] == val[k][j]; VP_ASSERT (ok, "samples in time order"); at += len[k]; if (rec) { VP_ASSERT (q && q->msr->reclen == 100 + k, "record list in time order"); if (!q->next) VP_ASSERT (s->recordlist->last == q, "last record"); q = q->next; nq++; } }
    VP_ASSERT (s->numsamples == at && s->samplecnt == at, "all samples of the segment"); VP_ASSERT (s->datasize >= (uint64_t)(at * w) && (libmseed_prealloc_block_size || s->datasize == (uint64_t)(at * w)), "buffer size"); if (rec) VP_ASSERT (!q && s->recordlist->recordcnt == nq, "record count"); if (heal && s->next) VP_ASSERT (s->next->starttime > s->endtime + S, "adjacent segments joined");
  }
  for (int k = 0; k < SLOTS; k++) VP_ASSERT (used[k] == done[k], "every record is in a segment"); mstl3_free (&l, 0); VP_REACH ("end");
}
/* L04 */
void h_convert (void)
{
  static const char ty[] = "ifd"; int from = vp_concretize (vp_u8 () % 3), to = vp_concretize (vp_u8 () % 3), tr = vp_concretize (vp_u8 () & 1), n = 1 + vp_concretize (vp_u8 () % 3), at = vp_concretize (vp_u8 () % n); libmseed_prealloc_block_size = vp_concretize (vp_u8 () & 1) ? 64 : 0;
#ifdef FROM
  VP_ASSUME (ty[from] == FROM);
#endif
  MS3TraceSeg s; memset (&s, 0, sizeof s); int w = from == 2 ? 8 : 4; uint64_t v[3] = { 5, 7, 9 }; if (from == 1) { v[0] = 0x40a00000; v[1] = 0xc0e00000; v[2] = 0x41100000; } else if (from == 2) { v[0] = 0x4014000000000000; v[1] = 0xc01c000000000000; v[2] = 0x4022000000000000; }
  v[at] = from == 2 ? vp_u64 () : vp_u32 ();
#ifdef ONEEXP /* one binary exponent at a time: easier to decide */
  VP_ASSUME (from != 0 && to == 0 && tr); { int k = n == 1 ? vp_concretize (vp_u8 () % 58) : 22 + 3 * vp_concretize (vp_u8 () & 3); uint64_t e = (from == 2 ? 999 : 103) + k; v[at] = from == 2 ? (v[at] & 0x800fffffffffffffULL) | e << 52 : (v[at] & 0x807fffffULL) | e << 23; }
#endif
  s.datasamples = vp_alloc (n * w); s.datasize = n * w; for (int i = 0; i < n; i++) memcpy ((uc *)s.datasamples + i * w, &v[i], w); s.numsamples = s.samplecnt = n; s.sampletype = ty[from];
  int r = mstl3_convertsamples (&s, ty[to], tr);
  if (from != 0 && to == 0) {
    double x; if (from == 1) { float f; uint32_t u = (uint32_t)v[at]; memcpy (&f, &u, 4); x = f; } else x = bitsd (v[at]);
    int range = vp_concretize ((x > -2147483648.5) & (x < 2147483647.5));
    if (!tr && !range) { VP_ASSERT (r != 0, "conversion of a value outside the integers is refused"); }
    if (!range) { VP_REACH ("range"); if (r == 0) return; }
    if (!tr && range) { double fr = x - (double)(int32_t)x; int lossy = vp_concretize (fabs (fr) > 0.000001); VP_ASSERT (lossy ? r != 0 : r == 0, "conversion that loses a fraction is refused"); if (lossy) VP_REACH ("refused"); }
    if (r == 0) { int32_t got = ((int32_t *)s.datasamples)[at]; VP_ASSERT (fabs (x - (double)got) <= 0.5, "nearest integer"); VP_ASSERT (s.sampletype == 'i', "sample type"); for (int i = 0; i < n; i++) if (i != at) VP_ASSERT (((int32_t *)s.datasamples)[i] == (i == 0 ? 5 : i == 1 ? -7 : 9), "other samples"); VP_REACH ("int"); }
    if (tr && range) VP_ASSERT (r == 0, "truncation is allowed");
  } else {
    VP_ASSERT (r == 0, "conversion"); VP_ASSERT (s.sampletype == ty[to], "sample type");
    if (from == to) { for (int i = 0; i < n; i++) { uint64_t g = 0; memcpy (&g, (uc *)s.datasamples + i * w, w); VP_ASSERT (g == v[i], "nothing changes"); } }
    else for (int i = 0; i < n; i++) { uint32_t u = (uint32_t)v[i]; float f; memcpy (&f, &u, 4); double x = from == 0 ? (double)(int32_t)v[i] : from == 1 ? (double)f : bitsd (v[i]); uint64_t a = 0, b = 0;
      if (to == 2) { memcpy (&a, (uc *)s.datasamples + 8 * i, 8); memcpy (&b, &x, 8); } else { float y = from == 0 ? (float)(int32_t)v[i] : (float)x; memcpy (&a, (uc *)s.datasamples + 4 * i, 4); memcpy (&b, &y, 4); } VP_ASSERT (a == b, "nearest value"); }
    VP_REACH ("float");
  }
  if (r) { VP_ASSERT (s.sampletype == ty[from], "type after refusal"); for (int i = 0; i < n; i++) { uint64_t g = 0; memcpy (&g, (uc *)s.datasamples + i * w, w); VP_ASSERT (g == v[i], "refused conversion leaves the samples"); } }
  VP_ASSERT (s.numsamples == n && s.samplecnt == n && s.datasize >= (uint64_t)(n * (s.sampletype == 'd' ? 8 : 4)), "count and size");
}
/* L07 */
static int height (uint64_t st) { int h = 1; while (h < MSTRACEID_SKIPLIST_HEIGHT) { st = 6364136223846793005ULL * st + 1; if ((uint32_t)(st >> 32) < UINT32_MAX / 2) h++; else break; } return h; }
#ifndef NIDS
#define NIDS 3
#endif
#ifndef NH
#define NH 3
#endif
#ifndef NSN
#define NSN 5
#endif
void h_ids (void)
{
  static const char *sn[] = { "B", "BA", "A", "C", "B_" }; static const int hs[] = { 1, 3, 2, 8 }; static uint64_t st[9]; int have = 0; for (uint64_t i = 1; have < 4 && i < 5000; i++) { int h = height (i * 0x9e3779b97f4a7c15ULL); for (int j = 0; j < 4; j++) if (h == hs[j] && !st[h]) { st[h] = i * 0x9e3779b97f4a7c15ULL; have++; } }
  MS3TraceList *l = mstl3_init (NULL); leapsecondlist = NULL; char in[NIDS][8]; int pv[NIDS]; int n = 1 + vp_concretize (vp_u8 () % NIDS), m = 0, split = vp_concretize (vp_u8 () & 1);
  for (int i = 0; i < n; i++) {
    char sid[8]; int p = split ? 1 + vp_concretize (vp_u8 () & 1) : 1;
#ifdef SYMSID
    int c = vp_u8 (), d = vp_u8 (); VP_ASSUME ((c == 'A') | (c == 'z') | (c == 0xe9)); sid[0] = (char)c; sid[1] = (char)d; sid[2] = 0;
#else
    strcpy (sid, sn[vp_concretize (vp_u8 () % NSN)]);
#endif
    l->prngstate = st[hs[vp_concretize (vp_u8 () % NH)]]; MS3Record r; mk (&r, sid, p, 1000000000000000000LL + i * 100000000000LL, 1.0, 2); VP_ASSERT (mstl3_addmsr (l, &r, split, 0, 0, NULL) != NULL, "record is added"); if (!split) p = 0;
    int dup = 0; for (int j = 0; j < m; j++) if (!strcmp (in[j], sid) && pv[j] == p) dup = 1; if (!dup) { strcpy (in[m], sid); pv[m++] = p; }
  }
  VP_ASSERT (l->numtraceids == (uint32_t)m, "number of identifiers"); int k = 0; MS3TraceID *pr = NULL;
  for (MS3TraceID *id = l->traces.next[0]; id; pr = id, id = id->next[0]) { VP_ASSERT (++k <= m, "each identifier once"); int c = pr ? strcmp (pr->sid, id->sid) : -1; VP_ASSERT (c < 0 || (split && c == 0 && pr->pubversion < id->pubversion), "ascending order"); int f = 0; for (int j = 0; j < m; j++) f |= !strcmp (in[j], id->sid) && (!split || pv[j] == id->pubversion); VP_ASSERT (f, "identifier was added"); }
  VP_ASSERT (k == m, "every identifier is visited");
  for (int j = 0; j < m; j++) { MS3TraceID *id = mstl3_findID (l, in[j], split ? (uc)pv[j] : 0, NULL); VP_ASSERT (id && !strcmp (id->sid, in[j]) && (!split || id->pubversion == pv[j]), "identifier is found"); }
#ifdef SYMSID
  char o[4]; o[0] = 'A'; o[1] = (char)vp_u8 (); o[2] = 0; int p = 1;
  { 
#else
  for (int i = 0; i < 5; i++) for (int p = 1; p < 4; p++) { const char *o = sn[i];
#endif
    int f = 0; for (int j = 0; j < m; j++) f |= !strcmp (in[j], o) && (!split || pv[j] == p); MS3TraceID *id = mstl3_findID (l, o, split ? (uc)p : 0, NULL); VP_ASSERT ((id != NULL) == !!f, "found exactly when added"); }
  VP_REACH ("end");
}
/* L01: three segments apart, then records between them, at any place near their edges */
void h_links (void)
{
  static const uc ords[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
  leapsecondlist = NULL; MS3TraceList *l = mstl3_init (NULL); int heal = vp_concretize (vp_u8 () & 1), o = vp_concretize (vp_u8 () % 6), other = vp_concretize (vp_u8 () & 1), nj = 1 + vp_concretize (vp_u8 () & 1), f = vp_concretize (vp_u8 () & 1); int64_t T = 1LL << 59, P = 1LL << 30, tot = 0; MS3Record m; int64_t lo = T, hi = T + 24 * P;
  for (int i = 0; i < 3; i++) { mk (&m, names[0], 1, T + ords[o][i] * 10 * P, R30, 5); VP_ASSERT (mstl3_addmsr (l, &m, 0, heal, 0, NULL) != NULL, "record is added"); tot += 5; if (other) { mk (&m, names[1], 1, T, R30, 1); mstl3_addmsr (l, &m, 0, heal, 0, NULL); } }
  MS3TraceID *id = l->traces.next[0]; VP_ASSERT (id->numsegments == 3 && check_id (id) == tot, "three segments");
  for (int j = 0; j < nj; j++) {
    int g = f ^ j; int64_t d = (int64_t)(int8_t)vp_u8 () << 24, t = T + (5 + 10 * g) * P + d; int n = 5; mk (&m, names[0], 1, t, R30, n); unsigned n0 = id->numsegments; MS3TraceSeg *s = mstl3_addmsr (l, &m, 0, heal, 0, NULL); VP_ASSERT (s != NULL, "record is added"); tot += n;
    VP_ASSERT (check_id (id) == tot, "number of samples"); VP_ASSERT ((s->starttime <= t) & (s->endtime >= t + 4 * P), "returned segment covers the record"); int near = vp_concretize ((d <= P / 2) & (d >= -P / 2)); if (near && heal) { VP_ASSERT (id->numsegments == n0 - 1, "joined"); VP_REACH ("joined"); } else VP_ASSERT (id->numsegments == n0 + !near, near ? "extended" : "apart"); (void)lo; (void)hi;
  }
  mk (&m, names[0], 1, T + 25 * P, R30, 2); MS3TraceSeg *s = mstl3_addmsr (l, &m, 0, heal, 0, NULL); VP_ASSERT (s == id->last && check_id (id) == tot + 2, "last segment is extended"); mstl3_free (&l, 0); VP_REACH ("end");
}
/* L02: a record next to one of two segments that overlap each other */
void h_among (void)
{
  leapsecondlist = NULL; MS3TraceList *l = mstl3_init (NULL); int lay = vp_concretize (vp_u8 () & 3), heal = vp_concretize (vp_u8 () & 1), ti = vp_concretize (vp_u8 () & 3), swap = vp_concretize (vp_u8 () & 1), more = vp_concretize (vp_u8 () & 1); static const double tts[] = { -1, 0.0, 0.1, 1.0 }; MS3Tolerance tol = { 0 }; if (ti) { tol.time = ftt; ttol = tts[ti]; }
  int64_t t0 = 1000000000000000000LL, S = 1000000000LL; static const struct { int at, n; double rt; } A[] = { { 0, 51, 1 }, { 0, 51, 1 }, { 0, 51, 1 }, { 2, 9, 1 } }, B[] = { { 10, 3, 1 }, { 10, 101, 2 }, { 10, 3, 1 }, { 0, 9, 2 } }; MS3Record a, b, r; mk (&a, names[0], 1, t0 + A[lay].at * S, A[lay].rt, A[lay].n); mk (&b, names[0], 1, t0 + B[lay].at * S, B[lay].rt, B[lay].n);
  mstl3_addmsr (l, swap ? &b : &a, 0, heal, 0, &tol); mstl3_addmsr (l, swap ? &a : &b, 0, heal, 0, &tol); unsigned n0 = 2; int64_t tot = A[lay].n + B[lay].n; if (more) { MS3Record z; mk (&z, names[0], 1, t0 + 1000 * S, 1.0, 2); mstl3_addmsr (l, &z, 0, heal, 0, &tol); n0++; tot += 2; } MS3TraceID *id = l->traces.next[0]; VP_ASSERT (id->numsegments == n0, "segments that overlap stay apart");
  int64_t d = (int32_t)vp_u32 (); int fwd = lay < 2, n = 3; int64_t t = fwd ? a.starttime + A[lay].n * S + d : a.starttime - n * S - d; mk (&r, names[0], 1, t, 1.0, n); int64_t tn = ti ? (int64_t)(tts[ti] * 1e9) : S / 2; int near = vp_concretize ((d <= tn) & (d >= -tn));
  MS3TraceSeg *s = mstl3_addmsr (l, &r, 0, heal, 0, &tol); VP_ASSERT (s != NULL, "record is added"); VP_ASSERT (id->numsegments == n0 + !near, "extends exactly when adjacent"); VP_ASSERT (check_id (id) == tot + n, "number of samples"); VP_ASSERT (s->samplecnt == n + (near ? A[lay].n : 0), "the segment next to it"); VP_ASSERT (fwd ? s->endtime == t + (n - 1) * S : s->starttime == t, "span"); if (near) VP_REACH ("near"); else VP_REACH ("new");
}
