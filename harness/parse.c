/* Parsing of records: memory safety (P04, P05, P06) and header mapping (P09) */
#include "libmseed.h"
#include "vp.h"
typedef unsigned char uc;
static void put (uc *p, uint64_t v, int n, int big) { for (int i = 0; i < n; i++) p[big ? n - 1 - i : i] = (uc)(v >> (8 * i)); }

#ifdef STUBEH
#include "ehstub.h"
#endif

static const uint16_t btype[] = { 100, 200, 201, 300, 310, 320, 390, 395, 400, 405, 500, 1000, 1001, 2000, 999 };
/* text fields of each type: offset, length pairs */
static const uint8_t btext[15][8] = { {0}, { 28, 24 }, { 36, 24 }, { 28, 3, 36, 12, 48, 12 }, { 28, 3, 36, 12, 48, 12 }, { 24, 3, 32, 12, 44, 12, 56, 8 }, { 24, 3 }, {0}, {0}, {0}, { 24, 16, 40, 32, 72, 128 }, {0}, {0}, {0}, {0} };
static const uint16_t bsize[] = { 12, 52, 60, 60, 60, 64, 28, 16, 16, 6, 200, 8, 8, 16, 8 };
static const uint8_t btime[15] = { 0, 18, 18, 4, 4, 4, 4, 4, 0, 0, 8, 0, 0, 0, 0 };
static uc *rec; static int BADDAY; static int len, big;
/* blockette of type index k at o, as far as it is inside the record, any numeric content, full-width text */
static void blkt (int o, int k, int next, int sym)
{
  for (int i = 4; i < bsize[k]; i++) if (o + i >= 48 && o + i < len) rec[o + i] = sym ? vp_u8 () : 0x5a;
  for (int t = 0; t < 8 && btext[k][t + 1]; t += 2) for (int i = 0; i < btext[k][t + 1]; i++) if (o + btext[k][t] + i < len) rec[o + btext[k][t] + i] = 'T';
  if (btime[k]) { uc t[10]; memset (t, 0, 10); put (t, 2012, 2, big); put (t + 2, BADDAY ? 400 : 61, 2, big); put (t + 8, 9999, 2, big); for (int i = 0; i < 10; i++) if (o + btime[k] + i >= 48 && o + btime[k] + i < len) rec[o + btime[k] + i] = t[i]; }
  if (btype[k] == 1000 && o >= 44 && o + 4 < len) rec[o + 4] = DE_FLOAT64;
  uc h[4]; put (h, btype[k], 2, big); put (h + 2, next, 2, big); for (int i = 0; i < 4; i++) if (o + i < len) rec[o + i] = h[i];
}
static void header2 (int off)
{
  rec = vp_alloc (len); memset (rec, 0, len); memcpy (rec, "000001D STATN00BHZNN", 20);
  put (rec + 20, 2012, 2, big); put (rec + 22, 61, 2, big); rec[24] = 23; rec[25] = 59; rec[26] = 60; put (rec + 28, 9999, 2, big);
  put (rec + 30, 10, 2, big); put (rec + 32, 20, 2, big); put (rec + 34, 1, 2, big); put (rec + 44, 64, 2, big); put (rec + 46, off, 2, big);
}
static void bounds (MS3Record *msr)
{
  uint32_t o = 0, s = 0; VP_ASSERT (msr->reclen <= len, "record length is within the buffer"); VP_ASSERT (msr->datalength <= (uint32_t)len, "payload length is within the record");
  if (msr3_data_bounds (msr, &o, &s) == 0) { VP_ASSERT ((o <= (uint32_t)len) & (s <= (uint32_t)len - o), "payload is within the record"); VP_REACH ("bounds"); }
}
#ifndef LENS2
#define LENS2 {64,128,256}
#endif
#ifndef OFFS
#define OFFS o
#endif
static const int lens2[] = LENS2;
/* one or two blockettes of any type anywhere, any link; miniSEED 2 */
void h_v2parse (void)
{
  len = lens2[vp_concretize (vp_u8 () % (sizeof (lens2) / sizeof (int)))]; big = vp_concretize (vp_u8 () & 1);
#ifdef NEAR
  static const int ends[] = { 48, 52, -1, -3, -4, -5, -6, -7, -8 }; int e = ends[vp_concretize (vp_u8 () % 9)], k = vp_concretize (vp_u8 () % 15), o;
  /* at the start, close to the end of the record, or ending close to the end */
  int how = vp_concretize (vp_u8 () % 2); if (how == 0) o = e < 0 ? len + e : e; else o = len - bsize[k] + (e < 0 ? -e : 0);
  if (o < 0) o = 48;
#else
  int o = vp_concretize (vp_u16 () % (len + 4)), k = vp_concretize (vp_u8 () % 15);
#endif
  header2 (o);
  int end = o + bsize[k]; int nx[] = { 0, o, o + 4, o + 8, end - 1, end, end + 4, len - 6, len - 4, len - 1, len, len + 1, 65535 }; int ni = vp_concretize (vp_u8 () % 13);
  if (o) blkt (o, k, nx[ni], o >= 48 && (btype[k] != 2000 || nx[ni] == 0 || nx[ni] >= end));
  static const uint16_t l2000[] = { 0, 1, 4, 6, 8, 16, 255, 65535 }; if (btype[k] == 2000 && o + 6 <= len && o >= 44) put (rec + o + 4, l2000[vp_concretize (vp_u8 () % 8)], 2, big);
  static const uint8_t second[] = { 11, 12, 10, 1, 13, 0 }; int k2 = vp_concretize (vp_u8 () % 7);
  if (k2 < 6 && ni >= 3 && ni <= 9 && nx[ni] > 0) blkt (nx[ni], second[k2], 0, nx[ni] >= end && o >= 48);
  MS3Record *msr = NULL; int r = msr3_parse ((char *)rec, len, &msr, MSF_ATENDOFFILE, 0);
  if (r == MS_NOERROR) { VP_ASSERT (msr != NULL, "record"); bounds (msr); VP_REACH ("ok"); }
  else VP_REACH ("refused");
}
/* decoding: any encoding code, data offset, sample count */
void h_v2data (void)
{
  static const uint8_t encs[] = { 0, 1, 3, 4, 5, 10, 11, 12, 13, 14, 15, 16, 19, 30, 31, 32, 33, 99, 255 }; static const uint16_t cnts[] = { 0, 1, 2, 3, 4, 5, 7, 16, 31, 64, 65, 1000, 65535 }; static const uint8_t fills[] = { 0, 0xff, 0x55 };
  len = 64 << vp_concretize (vp_u8 () & 1); big = vp_concretize (vp_u8 () & 1); int ei = vp_concretize (vp_u8 () % 19), ci = vp_concretize (vp_u8 () % 13), dof = vp_concretize (vp_u8 () % 19), f = vp_concretize (vp_u8 () % 3), b1000 = vp_concretize (vp_u8 () % 4), ord = vp_concretize (vp_u8 () % 2);
  const int offs[] = { 0, 1, 39, 40, 48, 55, 56, 57, 60, 62, 63, 64, 65, 66, len - 8, len - 1, len, len + 1, 65535 };
  header2 (b1000 ? 48 : 0); memset (rec + 56, fills[f], len - 56); put (rec + 30, cnts[ci], 2, big); put (rec + 44, offs[dof], 2, big);
  if (b1000) { put (rec + 48, 1000, 2, big); put (rec + 50, 0, 2, big); rec[52] = encs[ei]; rec[53] = ord; rec[54] = b1000 == 1 ? (len == 64 ? 6 : 7) : b1000 == 2 ? 6 : 40; rec[55] = 0; }
  MS3Record *msr = NULL; int r = msr3_parse ((char *)rec, len, &msr, MSF_ATENDOFFILE | MSF_UNPACKDATA, 0);
  if (r == MS_NOERROR) { bounds (msr); VP_ASSERT (msr->numsamples <= cnts[ci], "no more samples than stated"); if (msr->numsamples > 0) { VP_ASSERT (msr->datasamples != NULL && msr->datasize >= (size_t)msr->numsamples * ms_samplesize (msr->sampletype), "sample buffer"); VP_REACH ("samples"); } VP_REACH ("ok"); }
  else VP_REACH ("refused");
}
/* miniSEED 3: any header field values; lengths of the parts chosen, buffer exact, short or long */
void h_v3parse (void)
{
  static const uint8_t sids[] = { 0, 1, 5, 62, 63, 64, 65, 255 }; static const uint16_t xs[] = { 0, 1, 2, 7 }; static const uint32_t ds[] = { 0, 1, 4, 8, 64, 0xffffffff, 0xffffffd8, 10485760 };
  static const uint32_t cnts[] = { 0, 1, 2, 3, 5, 16, 17, 1000, 0x7fffffff, 0x80000000u, 0xffffffffu }; static const uint8_t encs[] = { 0, 1, 3, 4, 5, 10, 11, 12, 13, 14, 16, 19, 30, 33, 99, 255 };
  int sl = sids[vp_concretize (vp_u8 () % 8)], xl = xs[vp_concretize (vp_u8 () % 4)]; uint32_t dl = ds[vp_concretize (vp_u8 () % 8)], cnt = cnts[vp_concretize (vp_u8 () % 11)]; int enc = encs[vp_concretize (vp_u8 () % 16)], cut = vp_concretize (vp_u8 () % 4), flags = vp_concretize (vp_u8 () & 1);
  int real = 40 + sl + xl + (int)(dl > 64 ? 8 : dl); len = cut == 0 ? real : cut == 1 ? real - 1 : cut == 2 ? real + 3 : 39 + (int)(dl & 7); 
  rec = vp_alloc (len); memset (rec, 0x41, len);
  for (int i = 0; i < len && i < 40; i++) rec[i] = vp_u8 ();
  uc h[40]; memcpy (h, "MS\3", 3); put (h + 24, cnt, 4, 0); h[15] = (uc)enc; h[33] = (uc)sl; put (h + 34, xl, 2, 0); put (h + 36, dl, 4, 0);
  VP_ASSUME (len < 40 || ((rec[12] <= 23) & (rec[13] <= 59) & (rec[14] <= 60)));
  for (int i = 0; i < 40 && i < len; i++) if (i < 3 || i == 15 || (i >= 24 && i < 28) || i >= 33) rec[i] = h[i];
  MS3Record *msr = NULL; int r = msr3_parse ((char *)rec, len, &msr, flags == 1 ? MSF_UNPACKDATA : 0, 0);
  if (r == MS_NOERROR) {
    VP_ASSERT (msr->reclen == 40 + sl + xl + (int)dl && msr->reclen <= len, "length of the record"); bounds (msr);
    VP_ASSERT (strlen (msr->sid) == (size_t)sl && sl < LM_SIDLEN, "identifier"); VP_ASSERT (msr->extralength == xl && (xl == 0 || (msr->extra && strlen (msr->extra) == (size_t)xl)), "extra headers"); VP_ASSERT (msr->datalength == dl, "payload length");
    VP_ASSERT (msr->numsamples <= (int64_t)cnt, "no more samples than stated"); VP_REACH ("ok");
    if (msr->numsamples > 0) { VP_ASSERT (msr->datasize >= (size_t)msr->numsamples * ms_samplesize (msr->sampletype), "sample buffer"); VP_REACH ("samples"); }
  } else if (r > 0) VP_REACH ("more"); else VP_REACH ("refused");
}

/* P12: payload bounds of any header values */
void h_bounds (void)
{
  static const int16_t encs[] = { -1, 0, 1, 3, 4, 5, 10, 11, 12, 16, 19, 30, 99 }; MS3Record m; memset (&m, 0, sizeof m); uc *h = vp_alloc (64);
  for (int i = 0; i < 64; i++) h[i] = vp_u8 ();
  int v3 = vp_concretize (vp_u8 () & 1), ei = vp_concretize (vp_u8 () % 13); uint16_t xl = vp_u16 (); uint32_t dl = vp_u32 (), cnt = vp_u32 (); int32_t rl = (int32_t)vp_u32 ();
  m.record = (char *)h; m.formatversion = v3 ? 3 : 2; m.extralength = xl; m.datalength = dl; m.samplecnt = cnt; m.reclen = rl; m.encoding = encs[ei]; m.swapflag = vp_concretize (vp_u8 () & 3); strcpy (m.sid, "FDSN:X");
  if (ei == 6 || ei == 7) m.encoding = 13; /* Steim: h_bounds_steim */
  uint64_t off = v3 ? (uint64_t)40 + h[33] + xl : (m.swapflag & MSSWAP_HEADER) ? (uint64_t)(h[44] << 8 | h[45]) : (uint64_t)(h[45] << 8 | h[44]), size = v3 ? dl : (uint64_t)(int64_t)rl - off;
  int ok = v3 ? (rl >= 0) & (off + size <= (uint64_t)(int64_t)rl) : (rl >= 0) & (off <= (uint64_t)(int64_t)rl);
  uint32_t o = 7, s = 7; int r = msr3_data_bounds (&m, &o, &s);
  if (!v3 && vp_concretize (off == 0)) { VP_ASSERT ((r == 0) ? (o == 0) & (s == 0) : rl < 0, "no payload without an offset"); VP_REACH ("none"); return; }
  if (!vp_concretize (ok)) { VP_ASSERT (r != 0, "payload outside the record is an error"); VP_REACH ("outside"); return; }
  int sb = m.encoding == DE_TEXT ? 1 : m.encoding == DE_INT16 ? 2 : m.encoding == DE_INT32 || m.encoding == DE_FLOAT32 ? 4 : m.encoding == DE_FLOAT64 ? 8 : 0;
  if (sb) { uint64_t raw = (uint64_t)cnt * sb; size = raw < size ? raw : size; }
  VP_ASSERT (r == 0, "payload inside the record"); VP_ASSERT ((o == off) & (s == size), "offset and size of the format definition"); VP_REACH ("end");
}
void h_bounds_steim (void)
{
  int nf = vp_concretize (vp_u8 () % 4), extra = vp_concretize (vp_u8 () % 3), nz[3]; static const uint8_t ex[] = { 0, 1, 63 }; MS3Record m; memset (&m, 0, sizeof m);
  int sl = vp_concretize (vp_u8 () % 3), v3 = vp_concretize (vp_u8 () & 1), start = v3 ? 40 + sl : 64; len = start + 64 * nf + ex[extra]; rec = vp_alloc (len); memset (rec, 0, len); rec[33] = (uc)sl; if (!v3) rec[44] = 64;
  for (int f = 0; f < nf; f++) { nz[f] = vp_concretize (vp_u8 () & 1); if (nz[f]) { static const uint8_t ats[] = { 0, 1, 33, 63 }; int at = f == nf - 1 ? vp_concretize (vp_u8 () & 63) : ats[vp_concretize (vp_u8 () & 3)]; uc v = vp_u8 (); VP_ASSUME (v != 0); rec[start + 64 * f + at] = v; } }
  m.record = (char *)rec; m.formatversion = v3 ? 3 : 2; m.datalength = len - start; m.samplecnt = 5; m.reclen = len; m.encoding = vp_concretize (vp_u8 () & 1) ? DE_STEIM1 : DE_STEIM2; strcpy (m.sid, "FDSN:X");
  uint32_t o = 0, s = 0; VP_ASSERT (msr3_data_bounds (&m, &o, &s) == 0, "bounds"); VP_ASSERT (o == (uint32_t)start, "offset");
  uint32_t want = len - start; if (extra == 0) for (int f = nf - 1; f >= 0 && !nz[f]; f--) want -= 64;
  VP_ASSERT (s == want, "size without trailing empty frames"); VP_REACH ("end");
}
