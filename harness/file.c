/* Reading files: F01 records and offsets, F02 byte ranges, F03 non-data */
#include "libmseed.h"
#include "vp.h"
#include <stdio.h>
typedef unsigned char uc;
#ifdef STUBEH
#include "ehstub.h"
#endif
#include "fakefs.h"
static void putv (uc *p, uint64_t v, int n, int big) { for (int i = 0; i < n; i++) p[big ? n - 1 - i : i] = (uc)(v >> (8 * i)); }
/* kinds: 0 smallest version 3 with a sample, 1 version 2 of 128 bytes, 2 version 3 of 150 bytes, 3 version 2 big-endian of 256 bytes, 4 header-only version 3, 5 the same without an identifier */
static int mkrec (uc *b, int kind, int sec)
{
  static const int lens[] = { 46, 128, 150, 256, 44, 40 }; int n = lens[kind]; memset (b, 0, n);
  if (kind == 1 || kind == 3) { int big = kind == 3; memcpy (b, "000001Q S    00BHZXX", 20); putv (b + 20, 2012, 2, big); putv (b + 22, 61, 2, big); b[24] = 23; b[25] = 59; b[26] = (uc)sec; putv (b + 30, 1, 2, big); putv (b + 32, 1, 2, big); putv (b + 34, 1, 2, big); b[39] = 1; putv (b + 44, 64, 2, big); putv (b + 46, 48, 2, big); putv (b + 48, 1000, 2, big); b[52] = DE_INT16; b[53] = (uc)big; b[54] = kind == 1 ? 7 : 8; b[64 + big] = vp_u8 (); b[65 - big] = vp_u8 (); return n; }
  memcpy (b, "MS\3", 3); putv (b + 8, 2012, 2, 0); putv (b + 10, 61, 2, 0); b[12] = 23; b[13] = 59; b[14] = (uc)sec; b[15] = DE_INT16; double r1 = 1.0; memcpy (b + 16, &r1, 8); int ns = kind >= 4 ? 0 : (n - 44) / 2; putv (b + 24, ns, 4, 0); b[32] = 2; if (kind == 5) return n; b[33] = 4; putv (b + 36, n - 44, 4, 0); memcpy (b + 40, "FDSN", 4); if (ns) { b[44] = vp_u8 (); b[45] = vp_u8 (); } return n;
}
static uc data[1400]; static int at[5], ln[5], kinds[5], nrec, total;
static void mkfile (int n, int nk) { nrec = n; total = 0; for (int i = 0; i < n; i++) { kinds[i] = vp_concretize (vp_u8 () % nk); if (nk == 4 && kinds[i] == 3) kinds[i] = 5; at[i] = total; ln[i] = mkrec (data + total, kinds[i], i + 1); total += ln[i]; } }
static void *small (size_t n);
static void give (const char *name) { uc *d = vp_alloc (total); memcpy (d, data, total); memset (ff_, 0, sizeof ff_); ff_[0].name = name; ff_[0].d = d; ff_[0].n = total; ff_reads = 0; libmseed_memory.malloc = small; }
static void expect (MS3FileParam *p, MS3Record *m, int r, int i, int dec)
{
  VP_ASSERT (r == MS_NOERROR && m && p, "record is read"); VP_ASSERT (m->reclen == ln[i] && p->streampos == at[i] + ln[i], "length and offset of the record"); VP_ASSERT (m->starttime == 1330646340000000000LL + (i + 1) * 1000000000LL, "record in order"); VP_ASSERT (m->samplecnt == (kinds[i] >= 4 ? 0 : kinds[i] & 1 ? 1 : (ln[i] - 44) / 2), "samples of the record");
  if (dec && kinds[i] < 4) { const uc *s = data + at[i] + (kinds[i] & 1 ? 64 : 44); int big = kinds[i] == 3; VP_ASSERT (m->numsamples == m->samplecnt && ((int32_t *)m->datasamples)[0] == (int16_t)(s[big] | s[1 - big] << 8), "decoded sample"); }
}
/* the read buffer is as large as the file needs: nothing else may be written */
static void *small (size_t n) { return malloc (n == MAXRECLEN ? (size_t)(total > 128 ? total : 128) : n); }
/* F01: whole files, chunks, truncation, read errors */
void h_read (void)
{
  static const long ch[] = { 0, 1, 39, 40, 41, 64, 100, 129 }; static const int tails[] = { 0, 1, 39, 40, 43, 45 }; leapsecondlist = NULL; libmseed_prealloc_block_size = 0;
  mkfile (vp_concretize (vp_u8 () & 3), 6); int t = tails[vp_concretize (vp_u8 () % 6)], dec = vp_concretize (vp_u8 () & 1), fd = vp_concretize (vp_u8 () & 1), skip = vp_concretize (vp_u8 () & 1); ff_chunk = ch[vp_concretize (vp_u8 () & 7)]; if (t) { mkrec (data + total, 0, 59); total += t; }
  give ("f"); uint32_t fl = (dec ? MSF_UNPACKDATA : 0) | (skip ? MSF_SKIPNOTDATA : 0); MS3Record *m = NULL; MS3FileParam *p = NULL; if (fd) { p = ms3_mstl_init_fd (100); VP_ASSERT (p != NULL, "descriptor"); }
  for (int i = 0; i < nrec; i++) { int r = ms3_readmsr_r (&p, &m, "f", fl, 0); expect (p, m, r, i, dec); VP_ASSERT (p->recordcount == i + 1, "count of records"); }
  for (int k = 0; k < 2; k++) { int r = ms3_readmsr_r (&p, &m, "f", fl, 0); VP_ASSERT (nrec || t >= 40 ? r == MS_ENDOFFILE : r == MS_NOTSEED, "end of input"); VP_ASSERT (m == NULL, "no record at the end"); if (nrec) VP_REACH ("end"); else VP_REACH ("empty"); }
  VP_ASSERT (ms3_readmsr_r (&p, &m, NULL, 0, 0) == MS_NOERROR && p == NULL && ff_[0].open == 0, "closed"); VP_ASSERT (ff_[0].opens == !fd, "opened once");
}
/* F02: ranges given with the path */
static int num (char *o, long v) { char t[24]; int n = 0, k = 0; do t[n++] = (char)('0' + v % 10); while (v /= 10); while (n) o[k++] = t[--n]; return k; }
void h_range (void)
{
  leapsecondlist = NULL; libmseed_prealloc_block_size = 0; mkfile (3, 4); static const char *names[] = { "f", "a@1/f", "f@" }; const char *nm = names[vp_concretize (vp_u8 () % 3)]; give (nm); ff_chunk = vp_concretize (vp_u8 () & 1) ? 50 : 0;
  long st[] = { -1, 0, at[1], at[2], at[1] + 5, total, total + 50 }, en[] = { -1, at[1] - 1, at[1], at[1] + 38, at[1] + 39, at[1] + 45, at[2] - 1, at[2] + 39, total - 1, total + 100, 30, 1 }; int si = vp_concretize (vp_u8 () % 7), ei = vp_concretize (vp_u8 () % 12), skip = si == 4; if (skip) for (int o = kinds[1] == 1 ? 64 : 44, j = 0; j < 2; j++) VP_ASSUME (data[at[1] + o + j] >= 0x80); /* else the rest of the record may look like a header */ int form = vp_concretize (vp_u8 () & 1); long s = st[si], e = en[ei]; if (form) VP_ASSUME (e >= 0 || s >= 0);
  char path[64]; strcpy (path, nm); int k = (int)strlen (path); if (s >= 0 || e >= 0) { path[k++] = '@'; if (s >= 0) k += num (path + k, s); if (e >= 0) { path[k++] = '-'; if (form) { path[k++] = '0'; path[k++] = '0'; } k += num (path + k, e); } path[k] = 0; } else if (nm[1] && nm[1] == '@' && !nm[2]) return; /* an empty range: not specified */
  MS3Record *m = NULL; MS3FileParam *p = NULL; uint32_t fl = MSF_PNAMERANGE | MSF_UNPACKDATA | (skip ? MSF_SKIPNOTDATA : 0); if (s < 0) s = 0; int got = 0, r;
  for (int i = 0; i < nrec; i++) {
    if (at[i] < s) continue; if (e >= 0 && at[i] > e) break; int whole = e < 0 || at[i] + ln[i] - 1 <= e; r = ms3_readmsr_r (&p, &m, path, fl, 0);
    if (r == MS_NOERROR || whole) { expect (p, m, r, i, 1); got++; VP_REACH ("record"); } else break;
  }
  r = ms3_readmsr_r (&p, &m, path, fl, 0); VP_ASSERT (r == MS_ENDOFFILE || (!got && r == MS_NOTSEED), "nothing beyond the range"); VP_ASSERT (ff_[0].opens == 1, "file of that name"); ms3_readmsr_r (&p, &m, NULL, 0, 0); VP_REACH ("end");
}
/* a path of any characters behind an @ */
#ifndef PMAX
#define PMAX 4
#endif
void h_path (void)
{
  total = 0; mkfile (1, 1); give ("never"); char path[16]; static const char *pre[] = { "f@", "@", "f@3@", "f@7-2" }; int pi = vp_concretize (vp_u8 () & 3); strcpy (path, pre[pi]); int k = (int)strlen (path), b = k; int n = vp_concretize (vp_u8 () % (PMAX + 1)); for (int i = 0; i < n; i++) { path[k] = (char)vp_u8 (); VP_ASSUME (path[k] != 0 && path[k] != '/' && path[k] != ':'); k++; } path[k] = 0; (void)b;
  int a = -1; for (int i = 0; i < k; i++) if (vp_concretize (path[i] == '@')) a = i; int ok = 1, dash = 0, ds = 0, de = 0; int64_t s = 0, e = 0;
  for (int i = a + 1; i < k && ok; i++) { int dg = vp_concretize ((path[i] >= '0') & (path[i] <= '9')); if (dg && !dash) { s = s * 10 + (path[i] - '0'); ds++; } else if (dg) { e = e * 10 + (path[i] - '0'); de++; } else if (!dash && vp_concretize (path[i] == '-')) dash = 1; else ok = 0; }
  if (ok && !ds && !de) { VP_REACH ("empty"); return; } MS3Record *m = NULL; MS3FileParam *p = NULL; char *ex = vp_alloc (k + 1); memcpy (ex, path, k + 1);
  VP_ASSERT (ms3_readmsr_r (&p, &m, ex, MSF_PNAMERANGE, 0) == MS_GENERROR, "no such file"); int len = ok ? a : k; VP_ASSERT ((int)strlen (ff_last) == len, "length of the name"); int same = 1; for (int i = 0; i < len; i++) same &= ff_last[i] == path[i]; VP_ASSERT (same, "name of the file"); VP_ASSERT ((p->startoffset == (ok ? s : 0)) & (p->endoffset == (ok ? e : 0)), "offsets"); if (ok) VP_REACH ("range"); else VP_REACH ("name");
}
/* long paths and long numbers */
void h_pathlen (void)
{
  static const char *suf[] = { "", "@5", "@5-9", "@9223372036854775807", "@9223372036854775808", "@99999999999999999999", "@000000000000000000005", "@1-99999999999999999999", "@123456789012345678901234567890", "@x" }; static const int lens[] = { 1, 500, 507, 508, 509, 510, 511, 512, 513, 520, 600 };
  static char path[700]; total = 0; mkfile (1, 1); give ("never"); int n = lens[vp_concretize (vp_u8 () % 11)], si = vp_concretize (vp_u8 () % 10); memset (path, 'p', n); strcpy (path + n, suf[si]); MS3Record *m = NULL; MS3FileParam *p = NULL; ff_last[0] = 0;
  VP_ASSERT (ms3_readmsr_r (&p, &m, path, MSF_PNAMERANGE, 0) == MS_GENERROR, "no such file"); int len = si >= 1 && si <= 3 ? n : (int)strlen (path); if (len > 511) VP_REACH ("long"); else { VP_ASSERT ((int)strlen (ff_last) == len && !strncmp (ff_last, path, len), "name of the file"); if (si == 1 || si == 2) VP_ASSERT (p->startoffset == 5 && p->endoffset == (si == 2 ? 9 : 0), "offsets"); else if (si != 3) VP_ASSERT (p->startoffset == 0 && p->endoffset == 0, "no offsets"); VP_REACH ("end"); }
  if (ff_last[0]) VP_ASSERT ((int)strlen (ff_last) == len, "no other file is opened");
}
/* F03: junk between records */
static void junk (void)
{
  static const uc bad1[] = "MS\3\0aaaabbccdd", bad2[] = "000001Q ABCDE00BHZXX\7\334\0\1\30aaaa", bad3[] = "MSMSMS\2", bad4[] = "0000010000010000 1000001D"; int k = vp_concretize (vp_u8 () % 7); static const int n0[] = { 0, 1, 39, 70 }; 
  if (k < 4) { for (int i = 0; i < n0[k]; i++) { uc c = vp_u8 (); data[total++] = c | 0x80; } return; } const uc *b = k == 4 ? bad1 : k == 5 ? bad2 : bad4; int n = k == 4 ? 14 : k == 5 ? 29 : 25; if (k == 6) { memcpy (data + total, bad3, 7); total += 7; } memcpy (data + total, b, n); if (k == 4) data[total + 12] = 24 + vp_u8 () % 232; total += n; for (int i = 0; i < 3; i++) data[total++] = 'x';
}
void h_junk (void)
{
  leapsecondlist = NULL; libmseed_prealloc_block_size = 0; nrec = 1 + vp_concretize (vp_u8 () & 1); total = 0; for (int i = 0; i < nrec; i++) { junk (); at[i] = total; kinds[i] = vp_concretize (vp_u8 () % 3); ln[i] = mkrec (data + total, kinds[i], i + 1); total += ln[i]; } int end = total; junk (); int tail = total - end; give ("f"); ff_chunk = vp_concretize (vp_u8 () & 1) ? 60 : 0;
  int skip = vp_concretize (vp_u8 () & 1); uint32_t fl = MSF_UNPACKDATA | (skip ? MSF_SKIPNOTDATA : 0); MS3Record *m = NULL; MS3FileParam *p = NULL; int pos = 0, r;
  for (int i = 0; i < nrec; i++) { r = ms3_readmsr_r (&p, &m, "f", fl, 0); if (!skip && at[i] != pos) { VP_ASSERT (r == MS_NOTSEED && m == NULL, "non-data is reported"); VP_REACH ("report"); return; } expect (p, m, r, i, 1); VP_ASSERT (p->recordcount == i + 1, "count of records"); pos = at[i] + ln[i]; }
  r = ms3_readmsr_r (&p, &m, "f", fl, 0); VP_ASSERT (skip || tail < 40 ? r == MS_ENDOFFILE : r == MS_NOTSEED, "end of input"); ms3_readmsr_r (&p, &m, NULL, 0, 0); VP_ASSERT (ff_[0].open == 0, "closed"); VP_REACH ("end");
}
/* no record at all */
void h_nodata (void)
{
  leapsecondlist = NULL; total = 0; junk (); if (vp_concretize (vp_u8 () & 1)) junk (); give ("f"); int skip = vp_concretize (vp_u8 () & 1); MS3Record *m = NULL; MS3FileParam *p = NULL; VP_ASSERT (ms3_readmsr_r (&p, &m, "f", skip ? MSF_SKIPNOTDATA : 0, 0) == MS_NOTSEED && m == NULL, "no miniSEED"); ms3_readmsr_r (&p, &m, NULL, 0, 0); VP_REACH ("end");
}
/* F01: records left out by a selection do not disturb the others */
void h_select (void)
{
  leapsecondlist = NULL; libmseed_prealloc_block_size = 0; mkfile (3, 3); give ("f"); ff_chunk = vp_concretize (vp_u8 () & 1) ? 70 : 0; int dec = vp_concretize (vp_u8 () & 1), open = vp_concretize (vp_u8 () % 3), pv = vp_concretize (vp_u8 () & 1), left = nrec, got = 0; int64_t S0 = 1330646340000000000LL, H = 500000000LL, lo, hi;
  int a = vp_concretize (vp_u8 () & 7), b = a + vp_concretize (vp_u8 () & 3); lo = S0 + a * H; hi = S0 + b * H; MS3Selections s; MS3SelectTime t; memset (&s, 0, sizeof s); memset (&t, 0, sizeof t); strcpy (s.sidpattern, "*"); s.timewindows = &t; s.pubversion = (uc)(pv ? 2 : 0); t.starttime = open == 1 ? NSTUNSET : lo; t.endtime = open == 2 ? NSTUNSET : hi;
  MS3Record *m = NULL; MS3FileParam *p = NULL; uint32_t fl = dec ? MSF_UNPACKDATA : 0; int r;
  for (int i = 0; i < nrec; i++) {
    int ns = kinds[i] == 1 ? 1 : (ln[i] - 44) / 2; int64_t rs = S0 + (i + 1) * 2 * H, re = rs + (ns - 1) * 2 * H; int in = (open == 1 || re >= lo) && (open == 2 || rs <= hi) && !(pv && kinds[i] == 1); if (!in) continue;
    r = ms3_readmsr_selection (&p, &m, "f", fl, &s, 0); expect (p, m, r, i, dec); VP_ASSERT (p->recordcount == ++got, "count of records"); if (got == 2) VP_REACH ("two");
  }
  (void)left; r = ms3_readmsr_selection (&p, &m, "f", fl, &s, 0); VP_ASSERT (r == MS_ENDOFFILE || (!got && r == MS_NOTSEED), "nothing else is selected"); VP_ASSERT (m == NULL && p->streampos == total, "end of input"); ms3_readmsr_r (&p, &m, NULL, 0, 0); VP_ASSERT (ff_[0].open == 0, "closed"); VP_REACH ("end");
}
