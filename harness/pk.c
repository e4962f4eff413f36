/* Packing: P02, P03 (round trip and layout), P07 (CRC), P10 (splitting), P11 (repacking) */
#include "libmseed.h"
#include "vp.h"
#include <math.h>
typedef unsigned char uc;
#ifdef STUBEH
#include "ehstub.h"
#endif
static uint64_t get (const uc *p, int n, int big) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[big ? n - 1 - i : i] << (8 * i); return v; }
static int r_leap (int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int64_t r_jan1 (int y) { int64_t p = y - 1; return p * 365 + p / 4 - p / 100 + p / 400 - 719162; }
static uint64_t dbits (double d) { uint64_t u; memcpy (&u, &d, 8); return u; }
static double bitsd (uint64_t u) { double d; memcpy (&d, &u, 8); return d; }

/* ---- the records handed over ---- */
#define MAXR 12
static uc *recs[MAXR]; static int rlens[MAXR], nrecs;
static void handler (char *r, int n, void *priv)
{
  VP_ASSERT (priv == (void *)recs, "handler data"); VP_ASSERT (nrecs < MAXR, "number of records"); uc *c = vp_alloc (n);
  memcpy (c, r, n); recs[nrecs] = c; rlens[nrecs++] = n;
}

/* ---- a start time with its components ---- */
typedef struct { int year, yday, hour, min, sec; uint32_t nsec, fs, us, ns; int64_t t; } tc;
#ifndef DAYS
#define DAYS { 2012, 366 }, { 1970, 1 }, { 2000, 60 }, { 2261, 365 }
#endif
static tc ptime (int any)
{
  static const int days[][2] = { DAYS }; tc c; int k = vp_concretize (vp_u8 () % (sizeof (days) / sizeof (days[0]))); c.year = days[k][0]; c.yday = days[k][1];
  uint8_t h = vp_u8 (), m = vp_u8 (), s = vp_u8 (); uint32_t n = vp_u32 ();
  if (any) { c.hour = h % 24; c.min = m % 60; c.sec = s % 60; if (any == 2) { c.fs = n % 10000; c.us = vp_u8 () % 100; c.ns = vp_u16 () % 1000; c.nsec = c.fs * 100000u + c.us * 1000u + c.ns; } else c.nsec = n % 1000000000u; }
  else { c.hour = 23; c.min = 59; c.sec = 59; c.fs = 9999; c.us = 99; c.ns = 999; c.nsec = 999999999; }
  c.t = ((((r_jan1 (c.year) + c.yday - 1) * 24 + c.hour) * 60 + c.min) * 60 + c.sec) * 1000000000LL + c.nsec; return c;
}
static const char *sids[] = { "FDSN:XX_S__B_H_Z", "", "Z", "FDSN:ABCDEFGH_IJKLMNOP_QRSTUVWX_Y_Z_X_and_more_to_63_characters" };
/* ---- samples: any values, of the type the encoding takes ---- */
static const int encs[] = { DE_TEXT, DE_INT16, DE_INT32, DE_FLOAT32, DE_FLOAT64, DE_STEIM1, DE_STEIM2 };
static int ssize, eint; static char stype;
static void *samples (int enc, int n)
{
  stype = enc == DE_TEXT ? 't' : enc == DE_FLOAT32 ? 'f' : enc == DE_FLOAT64 ? 'd' : 'i'; ssize = stype == 't' ? 1 : stype == 'd' ? 8 : 4;
  uc *p = vp_alloc (n * ssize);
  for (int i = 0; i < n; i++) {
    if (enc == DE_INT16) { int32_t v = (int16_t)vp_u16 (); memcpy (p + 4 * i, &v, 4); }
    else if (enc == DE_STEIM1 || enc == DE_STEIM2) { int32_t v = (int32_t)vp_u32 (); VP_ASSUME ((v >= -200000000) & (v <= 200000000)); memcpy (p + 4 * i, &v, 4); }
    else if (ssize == 4) { uint32_t v = vp_u32 (); memcpy (p + 4 * i, &v, 4); }
    else if (ssize == 8) { uint64_t v = vp_u64 (); memcpy (p + 8 * i, &v, 8); }
    else p[i] = vp_u8 ();
  }
  return p;
}
static int same (const void *a, const void *b, int n, int w)
{
  int ok = 1; for (int i = 0; i < n; i++) if (w == 8) ok &= ((const uint64_t *)a)[i] == ((const uint64_t *)b)[i]; else if (w == 4) ok &= ((const uint32_t *)a)[i] == ((const uint32_t *)b)[i]; else ok &= ((const uc *)a)[i] == ((const uc *)b)[i];
  return ok;
}

/* P02: one miniSEED 3 record */
void h_pack3 (void)
{
  MS3Record m; memset (&m, 0, sizeof m); leapsecondlist = NULL;
  int what = vp_concretize (vp_u8 () % 4); /* which part is symbolic: time, rate, bytes, samples */
  int si = vp_concretize (vp_u8 () % 4), xl = (int[]){ 0, 1, 7 }[vp_concretize (vp_u8 () % 3)], ns = vp_concretize (vp_u8 () % 4), enc = encs[vp_concretize (vp_u8 () % 7)], rl = (int[]){ -1, 512, 104 }[vp_concretize (vp_u8 () % 3)];
  if (what != 2) VP_ASSUME (xl == 7 && si != 1 && rl != 104); if (what != 3) VP_ASSUME (ns < 2 && enc == DE_INT32); else VP_ASSUME (rl == 512 && si == 0);
  tc c = ptime (what == 0); strcpy (m.sid, sids[si]); m.reclen = rl; m.formatversion = 3; m.starttime = c.t; m.encoding = enc; m.flags = vp_u8 (); m.pubversion = vp_u8 ();
  char *x = vp_alloc (8); for (int i = 0; i < xl; i++) x[i] = (char)vp_u8 (); m.extra = xl ? x : NULL; m.extralength = xl;
  static const double rates[] = { 100.0, 0.1, 0.9999999, 1e-9, -10.0, 0.0 }; uint64_t rb = vp_u64 (); int ri = vp_concretize (vp_u8 () % 7);
  if (what == 1) { if (ri == 6) { m.samprate = bitsd (rb); VP_ASSUME (((rb >> 52) & 0x7ff) != 0x7ff); VP_ASSUME (((rb >> 63) != 0) | (rb >= dbits (1.0)) | (rb == 0)); } else m.samprate = rates[ri]; }
  else { VP_ASSUME (ri == 0); m.samprate = 100.0; }
  void *d = samples (enc, ns); m.datasamples = d; m.numsamples = ns; m.sampletype = stype; m.samplecnt = ns;
  int64_t packed = -7; int sl = strlen (sids[si]);
  int r = msr3_pack (&m, handler, recs, &packed, MSF_FLUSHDATA, 0);
  if (40 + sl + xl + (ns ? enc >= 10 ? 64 : enc == DE_INT16 ? 2 : ssize : 0) > (rl < 0 ? 4096 : rl)) { VP_ASSERT (r == -1 && nrecs == 0, "header and one sample larger than the record are refused"); VP_REACH ("refused"); return; }
  VP_ASSERT (r == 1 && nrecs == 1, "one record"); VP_ASSERT (packed == ns, "number of samples packed");
  uc *b = recs[0]; int n = rlens[0];
#ifdef RAWCHECK
  if (sl >= 4 && c.year <= 2100) { VP_ASSERT (ms_parse_raw3 ((char *)b, n, 0) == 0, "raw inspection of a packed record reports no error"); VP_REACH ("raw"); } VP_REACH ("end"); return;
#endif
  VP_ASSERT ((b[0] == 'M') & (b[1] == 'S') & (b[2] == 3), "signature and version"); VP_ASSERT (b[3] == m.flags, "flags field");
  VP_ASSERT (get (b + 4, 4, 0) == c.nsec, "nanosecond field"); VP_ASSERT (get (b + 8, 2, 0) == (uint64_t)c.year, "year field"); VP_ASSERT (get (b + 10, 2, 0) == (uint64_t)c.yday, "day field");
  VP_ASSERT ((b[12] == c.hour) & (b[13] == c.min) & (b[14] == c.sec), "time of day fields"); VP_ASSERT (b[15] == (ns ? enc : DE_TEXT), "encoding field");
  double er = m.samprate; if (what == 1 && ri >= 1 && ri <= 3) er = -1.0 / er;
  VP_ASSERT (get (b + 16, 8, 0) == dbits (er), "sample rate field"); VP_ASSERT (get (b + 24, 4, 0) == (uint64_t)ns, "sample count field");
  VP_ASSERT (b[32] == m.pubversion, "publication version field"); VP_ASSERT (b[33] == sl, "identifier length field"); VP_ASSERT (get (b + 34, 2, 0) == (uint64_t)xl, "extra header length field");
  int dl = (int)get (b + 36, 4, 0); VP_ASSERT (n == 40 + sl + xl + dl && n <= (rl < 0 ? 4096 : rl), "record length");
  if (enc < 10) VP_ASSERT (dl == ns * (enc == DE_INT16 ? 2 : ssize), "payload length field"); else VP_ASSERT (dl == (ns ? 64 : 0), "payload length field");
  VP_ASSERT (same (b + 40, sids[si], sl, 1), "identifier"); VP_ASSERT (same (b + 40 + sl, x, xl, 1), "extra headers");
  if (enc < 10) for (int i = 0; i < ns; i++) { int w = enc == DE_INT16 ? 2 : ssize; uint64_t v = 0; memcpy (&v, (uc *)d + i * ssize, w); VP_ASSERT (get (b + 40 + sl + xl + i * w, w, 0) == v, "little-endian payload"); }
  MS3Record *o = NULL; r = msr3_parse ((char *)b, n, &o, MSF_UNPACKDATA | MSF_VALIDATECRC, 0);
  VP_ASSERT (r == MS_NOERROR, "record parses"); VP_ASSERT (o->reclen == n, "length"); VP_ASSERT (strcmp (o->sid, sids[si]) == 0, "identifier read back"); VP_ASSERT (o->formatversion == 3, "format version");
  VP_ASSERT (o->starttime == c.t, "start time read back"); VP_ASSERT (dbits (o->samprate) == dbits (er), "rate read back"); VP_ASSERT ((o->flags == m.flags) & (o->pubversion == m.pubversion), "flags and publication version read back");
  VP_ASSERT (o->encoding == (ns ? enc : DE_TEXT), "encoding read back"); VP_ASSERT (o->extralength == xl && (xl ? same (o->extra, x, xl, 1) & (o->extra[xl] == 0) : o->extra == NULL), "extra headers read back");
  VP_ASSERT (o->samplecnt == ns && o->numsamples == ns, "sample count read back"); if (ns) { VP_ASSERT (o->sampletype == stype, "sample type"); VP_ASSERT (same (o->datasamples, d, ns, ssize), "samples read back"); }
  VP_REACH ("end");
}

/* P03: one miniSEED 2 record */
static const char *sids2[] = { "FDSN:XX_S__B_H_Z", "FDSN:X_ABCDE_00_L_O_G", "FDSN:NN_STA_10_B_H_Z" };
static const char *fields2[] = { "S      BHZXX", "ABCDE00LOGX ", "STA  10BHZNN" };
void h_pack2 (void)
{
  MS3Record m; memset (&m, 0, sizeof m); leapsecondlist = NULL;
  int what = vp_concretize (vp_u8 () % 4);
  int si = vp_concretize (vp_u8 () % 3), ns = vp_concretize (vp_u8 () % 4), enc = encs[vp_concretize (vp_u8 () % 7)], rl = (int[]){ -1, 128, 512 }[vp_concretize (vp_u8 () % 3)];
  if (what != 2) VP_ASSUME (si == 0 && rl == 128); if (what != 3) VP_ASSUME (ns == 1 && enc == DE_INT32); else VP_ASSUME (rl == 512 && si == 1);
  tc c = ptime (what == 0 ? 2 : 0); strcpy (m.sid, sids2[si]); m.reclen = rl; m.formatversion = 2 + vp_concretize (vp_u8 () & 1); m.starttime = c.t; m.encoding = enc; m.pubversion = vp_u8 ();
  int uf = what == 2; m.flags = uf ? vp_u8 () : 0; if (uf) m.pubversion = 1 + vp_concretize (vp_u8 () & 3);
  static const double rates[] = { 100.0, 0.1, 40.0, -10.0, 1.0, 0.0, 16.6, 1000.0, 20000.0, 12345.678, -3.14159265, 0.03, 123.456, 400000.0, 3141.59265 }; m.samprate = rates[what == 1 ? vp_concretize (vp_u8 () % 15) : 0];
  void *d = samples (enc, ns); m.datasamples = d; m.numsamples = ns; m.sampletype = stype; m.samplecnt = ns;
  int64_t packed = -7; int r = msr3_pack (&m, handler, recs, &packed, MSF_FLUSHDATA | (m.formatversion == 3 ? MSF_PACKVER2 : 0), 0);
  int wl = rl < 0 ? 4096 : rl; VP_ASSERT (r == 1 && nrecs == 1, "one record"); VP_ASSERT (packed == ns, "number of samples packed"); uc *b = recs[0]; int n = rlens[0]; VP_ASSERT (n == wl, "record length");
#ifdef RAWCHECK
  if (c.year <= 2100) { VP_ASSERT (ms_parse_raw2 ((char *)b, n, 0, vp_concretize (vp_u8 () & 1) ? -1 : 1) == 0, "raw inspection of a packed record reports no error"); VP_REACH ("raw"); } VP_REACH ("end"); return;
#endif
  VP_ASSERT (same (b, "000000", 6, 1) & (b[7] == ' ') & same (b + 8, fields2[si], 12, 1), "sequence number and code fields");
  VP_ASSERT (b[6] == (m.pubversion == 1 ? 'R' : m.pubversion == 3 ? 'Q' : m.pubversion == 4 ? 'M' : 'D'), "quality field");
  int fs = c.fs, of = c.us;
  VP_ASSERT (get (b + 20, 2, 1) == (uint64_t)c.year && get (b + 22, 2, 1) == (uint64_t)c.yday, "year and day fields"); VP_ASSERT ((b[24] == c.hour) & (b[25] == c.min) & (b[26] == c.sec) & (b[27] == 0), "time of day fields");
  VP_ASSERT (get (b + 28, 2, 1) == (uint64_t)fs, "fraction field"); VP_ASSERT (get (b + 30, 2, 1) == (uint64_t)ns, "sample count field");
  VP_ASSERT ((b[36] == (m.flags & 1)) & (b[37] == ((m.flags & 4) << 3)) & (b[38] == ((m.flags & 2) << 6)), "flag fields"); VP_ASSERT (get (b + 40, 4, 1) == 0, "time correction field");
  VP_ASSERT (get (b + 46, 2, 1) == 48 && get (b + 48, 2, 1) == 1000, "blockette 1000 first"); int e = 0; while ((1 << e) < wl) e++;
  VP_ASSERT ((b[52] == (ns ? enc : DE_TEXT)) & (b[53] == 1) & (b[54] == e), "blockette 1000 fields");
  /* chain */
  int o = 48, cnt = 0, b1001 = 0, b100 = 0; while (o) { int ty = (int)get (b + o, 2, 1); cnt++; VP_ASSERT (cnt <= 3, "blockette count"); if (ty == 1001) { b1001 = o; VP_ASSERT (b[o + 5] == of, "blockette 1001 microseconds"); } else if (ty == 100) { b100 = o; } else VP_ASSERT (o == 48, "blockette type"); o = (int)get (b + o + 2, 2, 1); }
  VP_ASSERT (b[39] == cnt, "blockette count field"); VP_ASSERT (b1001 || of == 0, "microseconds kept");
  int off = (int)get (b + 44, 2, 1), end = b100 ? b100 + 12 : b1001 ? b1001 + 8 : 56; VP_ASSERT (ns ? off >= end && (enc < 10 || off % 64 == 0) : off == 0, "data offset field");
  if (ns && enc < 10) for (int i = 0; i < ns; i++) { int w = enc == DE_INT16 ? 2 : ssize; uint64_t v = 0; memcpy (&v, (uc *)d + i * ssize, w); VP_ASSERT (get (b + off + i * w, w, 1) == v, "big-endian payload"); }
  MS3Record *p = NULL; r = msr3_parse ((char *)b, n, &p, MSF_UNPACKDATA, 0);
  VP_ASSERT (r == MS_NOERROR, "record parses"); VP_ASSERT (p->reclen == n && p->formatversion == 2, "length"); VP_ASSERT (strcmp (p->sid, sids2[si]) == 0, "identifier read back");
  VP_ASSERT (p->starttime == c.t - (int64_t)c.ns, "start time read back"); double x = m.samprate, y = msr3_sampratehz (p); if (x < 0) x = -1.0 / x; VP_ASSERT (fabs (x - y) <= 0.000001 * x, "rate read back");
  VP_ASSERT (p->encoding == (ns ? enc : DE_TEXT), "encoding read back"); VP_ASSERT (p->flags == (m.flags & 7), "flags read back");
  VP_ASSERT (p->pubversion == (m.pubversion >= 1 && m.pubversion <= 4 ? m.pubversion : 2), "publication version read back"); VP_ASSERT (p->samplecnt == ns && p->numsamples == ns, "sample count read back");
  if (ns) { VP_ASSERT (p->sampletype == stype, "sample type"); VP_ASSERT (same (p->datasamples, d, ns, ssize), "samples read back"); }
  VP_REACH ("end");
}

/* P07 */
static uint32_t ref_crc (const uc *p, int n) { uint32_t c = 0xffffffffu; while (n--) { c ^= *p++; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0x82F63B78u & (0u - (c & 1))); } return ~c; }
static uc *crc_record (int *len, int which)
{
  MS3Record m; memset (&m, 0, sizeof m); strcpy (m.sid, "FDSN:A"); m.formatversion = 3; m.reclen = 128; m.starttime = 1325376000000000000LL; m.samprate = 1.0; m.flags = vp_u8 (); m.pubversion = vp_u8 ();
  int n = which == 1 ? 2 : which == 3 ? 0 : 1, enc = which == 2 ? DE_STEIM1 : which == 4 ? DE_FLOAT64 : DE_INT32; m.encoding = enc; void *d = samples (enc, n); char x[4] = { '{', '}', 0, 0 };
  if (which == 1) { m.extra = x; m.extralength = 2; } m.numsamples = m.samplecnt = n; m.datasamples = d; m.sampletype = stype; int64_t k = 0; nrecs = 0;
  VP_ASSERT (msr3_pack (&m, handler, recs, &k, MSF_FLUSHDATA, 0) == 1, "packs"); *len = rlens[0]; return recs[0];
}
void h_crc3 (void)
{
  int n, which = vp_concretize (vp_u8 () % 5); uc *b = crc_record (&n, which); MS3Record *o = NULL;
  uc z[160]; memcpy (z, b, n); memset (z + 28, 0, 4); uint32_t want = ref_crc (z, n); VP_ASSERT (get (b + 28, 4, 0) == want, "stored CRC is the CRC-32C with the field zeroed");
  int eq = vp_concretize (vp_u8 () & 1); uint32_t dd = vp_u32 (); VP_ASSUME (dd != 0); uint32_t put = eq ? want : want ^ dd; uc *c = vp_alloc (n); memcpy (c, b, n); memcpy (c + 28, &put, 4);
  int un = vp_concretize (vp_u8 () & 1); int r = msr3_parse ((char *)c, n, &o, MSF_VALIDATECRC | (un ? MSF_UNPACKDATA : 0), 0);
  if (eq) { VP_ASSERT (r == MS_NOERROR, "right CRC is accepted"); VP_ASSERT (o->crc == want, "CRC reported"); VP_REACH ("end"); }
  else { VP_ASSERT (r == MS_INVALIDCRC, "wrong CRC is rejected"); VP_REACH ("refused"); }
  memcpy (z, b, n); memcpy (z + 28, &put, 4); VP_ASSERT (same (c, z, n, 1), "bytes are left as they were");
}
void h_crcbyte (void)
{
  int n, which = vp_concretize (vp_u8 () % 4); uc *b = crc_record (&n, which); MS3Record *o = NULL; VP_ASSUME (n == (int)vp_concretize (n));
  int k = vp_concretize (vp_u8 () % n); uc d = vp_u8 (); VP_ASSUME (d != 0); VP_ASSUME (k < 33 || k > 39);
  uc *c = vp_alloc (n), *z = vp_alloc (n); memcpy (c, b, n); c[k] ^= d; memcpy (z, c, n);
  int r = msr3_parse ((char *)c, n, &o, MSF_VALIDATECRC, 0);
  VP_ASSERT (r != MS_NOERROR, "single-byte corruption is rejected"); VP_ASSERT (same (c, z, n, 1), "bytes are left as they were"); VP_REACH ("end");
}

static int64_t trunc_us (int64_t t, int v2) { return v2 ? t - ((t % 1000) + 1000) % 1000 : t; }
/* P10: splitting. Concrete start times (T01 and T05 decide the time arithmetic); any sample values */
void h_split (void)
{
  MS3Record m; memset (&m, 0, sizeof m); leapsecondlist = NULL; nrecs = 0;
  int v2 = vp_concretize (vp_u8 () & 1), flush = vp_concretize (vp_u8 () & 1), ei = vp_concretize (vp_u8 () % 7), enc = encs[ei], ci = vp_concretize (vp_u8 () % 9), ri = vp_concretize (vp_u8 () & 7), ti = vp_concretize (vp_u8 () % 5), si = vp_concretize (vp_u8 () & 1);
  if (ri || ti || si) VP_ASSUME (ei == 2 && (ci == 7 || ci == 4));
  static const double rates[] = { 100.0, 1.0, -10.0, 40.0, 64.0, 20000.0, 7.0, 3.0 }; static const int64_t per[] = { 10000000, 1000000000, 10000000000LL, 25000000, 15625000, 50000, 1000000000, 1000000000 }; int64_t den = ri == 6 ? 7 : ri == 7 ? 3 : 1;
  static const int64_t starts[] = { 1325375999999900000LL, -100000, 951868799990000000LL, 951868799123456000LL, 951868799999999999LL };
  int steim = enc >= 10, w = enc == DE_INT16 ? 2 : enc == DE_TEXT ? 1 : enc == DE_FLOAT64 ? 8 : 4; 
  int rl = v2 ? 128 : steim ? 46 + 64 + (si ? 63 : 0) : 46 + 2 * w + (si ? w - 1 : 0), room = v2 ? (steim ? 64 : 72) : rl - 46, fit = steim ? (enc == DE_STEIM1 ? 13 : 26) : room / w; /* Steim-2: 15-bit differences */
  int cs[] = { 0, 1, fit - 1, fit, fit + 1, 2 * fit - 1, 2 * fit, 2 * fit + 1, 3 * fit + 1 }, n = cs[ci]; if (enc == DE_STEIM2) VP_ASSUME (ci <= 4);
  strcpy (m.sid, v2 ? "FDSN:XX_S__B_H_Z" : "FDSN:A"); m.reclen = rl; m.formatversion = v2 ? 2 : 3; m.starttime = starts[ti]; m.samprate = rates[ri]; m.encoding = enc; m.pubversion = 2;
  uc *d; if (steim) { int32_t *q = vp_alloc (4 * n); for (int i = 0; i < n; i++) q[i] = (i & 1) * (enc == DE_STEIM1 ? 1 << 20 : 4000) + (enc == DE_STEIM1 || i == 0 || i == n - 1 ? vp_u8 () : 7); d = (uc *)q; stype = 'i'; ssize = 4; } else d = samples (enc, n);
  m.datasamples = d; m.numsamples = m.samplecnt = n; m.sampletype = stype; int64_t packed = -7;
  int r = msr3_pack (&m, handler, recs, &packed, flush ? MSF_FLUSHDATA : 0, 0); int64_t at = 0;
  VP_ASSERT (r == nrecs && r >= 0, "number of records"); VP_ASSERT (m.datasamples == d && m.numsamples == n, "samples of the caller untouched");
  if (n == 0) { VP_ASSERT (r == 1 && packed == 0, "header-only record"); VP_REACH ("none"); return; }
  for (int i = 0; i < nrecs; i++) {
    MS3Record *o = NULL; VP_ASSERT (v2 ? rlens[i] == rl : rlens[i] <= rl, "length within the maximum");
    VP_ASSERT (msr3_parse ((char *)recs[i], rlens[i], &o, MSF_UNPACKDATA | MSF_VALIDATECRC, 0) == MS_NOERROR, "record parses"); VP_ASSERT (o->reclen == rlens[i], "record length");
    int64_t c = o->numsamples; VP_ASSERT (c > 0 && c == o->samplecnt && at + c <= n, "sample count of the record"); if (!flush || i < nrecs - 1) VP_ASSERT (enc == DE_STEIM2 ? c >= 13 : (enc == DE_INT16 && !flush) || c == (v2 && !steim ? (128 - (int)get (recs[i] + 44, 2, 1)) / w : fit), "record is full");
    VP_ASSERT (same (o->datasamples, d + at * ssize, (int)c, ssize), "samples in order"); VP_ASSERT (o->starttime == trunc_us (starts[ti] + (2 * at * per[ri] + den) / (2 * den), v2), "start time of the record"); VP_ASSERT (strcmp (o->sid, m.sid) == 0 && o->encoding == enc, "header values");
    at += c;
  }
  VP_ASSERT (at == packed, "reported count is what the records hold"); if (flush) { VP_ASSERT (at == n, "every sample is packed"); VP_REACH ("flush"); } else { VP_REACH ("keep"); }
}

/* P11: repacking of a record written down here, headers into small buffers */
static void putv (uc *p, uint64_t v, int n, int big) { for (int i = 0; i < n; i++) p[big ? n - 1 - i : i] = (uc)(v >> (8 * i)); }
static int r_wire (int e) { return e == DE_TEXT ? 1 : e == DE_FLOAT64 ? 8 : e == DE_INT32 || e == DE_FLOAT32 ? 4 : e == DE_GEOSCOPE24 ? 3 : 2; }
void h_repack (void)
{
  static const uc es[] = { 0, 1, 3, 4, 5, 10, 11, 12, 13, 14, 16, 30, 32 };
  int src = vp_concretize (vp_u8 () % 3), enc = es[vp_concretize (vp_u8 () % 13)], pbig = vp_concretize (vp_u8 () & 1), ns = vp_concretize (vp_u8 () % 3), hbig = src == 1, steim = enc == 10 || enc == 11, w = r_wire (enc), big = steim || (src == 2 ? 0 : pbig); leapsecondlist = NULL;
  if (steim || src == 2) VP_ASSUME (pbig == 1); uc buf[128], pay[64]; memset (buf, 0, 128); memset (pay, 0, 64); int n, at, pl = steim ? 64 : ns * w;
  if (steim) { VP_ASSUME (ns); uint32_t v = vp_u32 () % 1000; uc df = vp_u8 (); putv (pay, ns == 2 ? 1u << 24 : 1u << 24, 4, 1); putv (pay + 4, v, 4, 1); putv (pay + 8, (int32_t)v + (ns == 2 ? (int8_t)df : 0), 4, 1); pay[13] = df; } /* four one-byte differences */
  else for (int i = 0; i < pl; i++) pay[i] = vp_u8 ();
  uc flags = vp_u8 (), pv = vp_u8 ();
  if (src < 2) {
    n = 128; at = 64; memcpy (buf, "000001Q S    00BHZXX", 20); putv (buf + 20, 2012, 2, hbig); putv (buf + 22, 61, 2, hbig); buf[24] = 23; buf[25] = 59; buf[26] = 58; putv (buf + 28, 1234, 2, hbig); putv (buf + 30, ns, 2, hbig); putv (buf + 32, 20, 2, hbig); putv (buf + 34, 1, 2, hbig); buf[36] = flags & 1; buf[37] = (flags & 4) << 3; buf[38] = (flags & 2) << 6;
    buf[39] = 1; putv (buf + 44, 64, 2, hbig); putv (buf + 46, 48, 2, hbig); putv (buf + 48, 1000, 2, hbig); buf[52] = enc; buf[53] = (uc)big; buf[54] = 7;
  } else {
    static const uc h[] = { 'M', 'S', 3, 0, 0x15, 0xcd, 0x5b, 0x07, 0xdc, 7, 61, 0, 23, 59, 58 }; memcpy (buf, h, 15); buf[3] = flags; buf[15] = enc; double r = 20.0; memcpy (buf + 16, &r, 8); putv (buf + 24, ns, 4, 0); buf[32] = pv; buf[33] = 6; buf[34] = 2; putv (buf + 36, pl, 4, 0); memcpy (buf + 40, "FDSN:A{}", 8); at = 48; n = at + pl;
  }
  memcpy (buf + at, pay, pl); uc *rec = vp_alloc (n); memcpy (rec, buf, n);
  MS3Record *a = NULL, *o = NULL; int pr = msr3_parse ((char *)rec, n, &a, MSF_UNPACKDATA, 0); VP_ASSUME (enc != DE_SRO || pr == MS_NOERROR); VP_ASSERT (pr == MS_NOERROR && a->reclen == n, "source parses"); VP_ASSERT (a->numsamples == ns, "source decodes");
  uint32_t off = 0, size = 0; VP_ASSERT (msr3_data_bounds (a, &off, &size) == 0, "bounds"); int need = 40 + (int)strlen (a->sid) + a->extralength + (int)size;
  int lens[] = { need, need - 1, need + 5, need - (int)strlen (a->sid), 40, 0 }, li = vp_concretize (vp_u8 () % 6), bl = lens[li]; uc *out = vp_alloc (bl);
  int chg = vp_concretize (vp_u8 () & 1); if (chg) { a->pubversion = pv; strcpy (a->sid, src < 2 ? "FDSN:ZZ_T_01_B_H_Z" : "FDSN:B"); need = 40 + (int)strlen (a->sid) + a->extralength + (int)size; } /* changed header values */
  int r = msr3_repack_mseed3 (a, (char *)out, bl, 0);
  if (bl < need) { VP_ASSERT (r == -1, "too small a buffer is refused"); VP_REACH ("refused"); return; }
  VP_ASSERT (r == need, "length of the repacked record");
  VP_ASSERT (msr3_parse ((char *)out, r, &o, MSF_UNPACKDATA | MSF_VALIDATECRC, 0) == MS_NOERROR, "repacked record parses with a valid CRC"); VP_ASSERT (o->formatversion == 3 && o->reclen == r, "version and length");
  VP_ASSERT (strcmp (o->sid, a->sid) == 0 && o->starttime == a->starttime && o->encoding == a->encoding && dbits (o->samprate) == dbits (a->samprate), "header values"); VP_ASSERT ((o->flags == a->flags) & (o->pubversion == a->pubversion), "flags and publication version");
  VP_ASSERT (o->extralength == a->extralength && (a->extralength == 0 || same (o->extra, a->extra, a->extralength, 1)), "extra headers"); VP_ASSERT (o->samplecnt == ns && o->numsamples == ns, "sample count");
  if (ns) { VP_ASSERT (o->sampletype == a->sampletype, "sample type"); VP_ASSERT (same (o->datasamples, a->datasamples, ns, ms_samplesize (a->sampletype)), "identical samples"); }
  VP_ASSERT (same (rec, buf, n, 1), "source unchanged"); VP_REACH ("end");
}
void h_header2buf (void)
{
  MS3Record m; memset (&m, 0, sizeof m); int bl = vp_concretize (vp_u8 () % 80), us = vp_concretize (vp_u8 () & 1), odd = vp_concretize (vp_u8 () & 1), v3 = vp_concretize (vp_u8 () & 1), xl = v3 ? vp_concretize (vp_u8 () & 1) * 7 : 0; char x[8]; memset (x, 'x', 8);
  strcpy (m.sid, sids2[0]); m.reclen = 128; m.starttime = 1325376000000000000LL + us * 1000; m.samprate = odd ? 12345.678 : 100.0; m.encoding = DE_INT32; m.extra = xl ? x : NULL; m.extralength = xl;
  uc *b = vp_alloc (bl); int need = v3 ? 40 + 16 + xl : 56 + 8 * us + 12 * odd, r = v3 ? msr3_pack_header3 (&m, (char *)b, bl, 0) : msr3_pack_header2 (&m, (char *)b, bl, 0);
  if (bl < need) { VP_ASSERT (r == -1, "too small a buffer is refused"); VP_REACH ("refused"); } else { VP_ASSERT (r == need, "header length"); VP_REACH ("end"); }
}
/* P10: more samples than the 16-bit count of a version 2 record */
void h_huge (void)
{
  MS3Record m; memset (&m, 0, sizeof m); leapsecondlist = NULL; nrecs = 0; static const int ns[] = { 65534, 65535, 65536, 66000 }; int n = ns[vp_concretize (vp_u8 () & 3)], flush = vp_concretize (vp_u8 () & 1); uc *d = vp_alloc (n); for (int i = 0; i < n; i++) d[i] = (uc)(1 + i % 120); d[0] = vp_u8 (); d[65533] = vp_u8 (); d[n - 1] = vp_u8 (); d[n - 2] = vp_u8 ();
  strcpy (m.sid, "FDSN:XX_S__B_H_Z"); m.reclen = 131072; m.formatversion = 2; m.starttime = 1325375999000000000LL; m.samprate = 100.0; m.encoding = DE_TEXT; m.pubversion = 2; m.datasamples = d; m.numsamples = m.samplecnt = n; m.sampletype = 't'; int64_t packed = -7, at = 0; int r = msr3_pack (&m, handler, recs, &packed, flush ? MSF_FLUSHDATA : 0, 0); VP_ASSERT (r == nrecs && r >= 0, "number of records");
  for (int i = 0; i < nrecs; i++) { MS3Record *o = NULL; VP_ASSERT (rlens[i] == 131072 && msr3_parse ((char *)recs[i], rlens[i], &o, MSF_UNPACKDATA, 0) == MS_NOERROR, "record parses"); VP_ASSERT (o->numsamples > 0 && at + o->numsamples <= n && memcmp (o->datasamples, d + at, 65000 < o->numsamples ? 65000 : o->numsamples) == 0, "samples in order"); VP_ASSERT (((uc *)o->datasamples)[o->numsamples - 1] == d[at + o->numsamples - 1] && o->starttime == m.starttime + at * 10000000, "last sample and start time"); at += o->numsamples; }
  VP_ASSERT (at == packed && (flush ? at == n : at >= n - 65536), "every sample"); VP_REACH ("end");
}
