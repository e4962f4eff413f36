/* P06: raw header inspection: memory safety, termination, agreement with packed records */
#include "libmseed.h"
#include "vp.h"
#include <stdarg.h>
typedef unsigned char uc;
/* log stand-in that reads everything the message refers to, as printf does */
static int nmsg; static volatile unsigned sink;
static void take (const char *f, va_list ap)
{
  VP_ASSERT (++nmsg < 4000, "number of messages");
  for (; *f; f++) {
    if (*f != '%') continue;
    int prec = -1, l = 0; f++; while (*f == '-' || *f == '0' || *f == '+' || *f == ' ') f++;
    if (*f == '*') { (void)va_arg (ap, int); f++; } else while (*f >= '0' && *f <= '9') f++;
    if (*f == '.') { f++; if (*f == '*') { prec = va_arg (ap, int); f++; } else for (prec = 0; *f >= '0' && *f <= '9'; f++) prec = prec * 10 + *f - '0'; }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') { l += *f == 'h' ? -1 : 1; f++; }
    if (*f == 's') { const char *s = va_arg (ap, const char *); for (int n = 0; prec < 0 || n < prec; n++) { sink += (uc)s[n]; if (!s[n]) break; } }
    else if (*f == 'g' || *f == 'f' || *f == 'e') (void)va_arg (ap, double);
    else if (*f != '%') { if (l > 0) (void)va_arg (ap, long); else (void)va_arg (ap, int); }
  }
}
int ms_rlog (const char *function, int level, const char *f, ...) { va_list ap; va_start (ap, f); take (f, ap); va_end (ap); return 0; }
int ms_rlog_l (MSLogParam *lp, const char *function, int level, const char *f, ...) { va_list ap; va_start (ap, f); take (f, ap); va_end (ap); return 0; }

static const uint16_t btype[] = { 100, 200, 201, 300, 310, 320, 390, 395, 400, 405, 500, 1000, 1001, 2000, 999 };
static const uint16_t bsize[] = { 12, 52, 60, 60, 60, 64, 28, 16, 16, 6, 200, 8, 8, 16, 8 };
static uc *rec; static int len, big;
static void put (int o, uint64_t v, int n) { for (int i = 0; i < n; i++) { int p = o + (big ? n - 1 - i : i); if (p >= 0 && p < len) rec[p] = (uc)(v >> (8 * i)); } }
static void header2 (int off)
{
  rec = vp_alloc (len); memset (rec, 0, len); memcpy (rec, "000001D STATN00BHZNN", 20);
  put (20, 2012, 2); put (22, 61, 2); rec[24] = 23; rec[25] = 59; rec[26] = 60; put (28, 9999, 2); put (30, 10, 2); put (32, 20, 2); put (34, 1, 2); rec[39] = 1; put (44, 64, 2); put (46, off, 2);
}
static void blkt (int o, int k, int next, int fill) { for (int i = 4; i < bsize[k]; i++) if (o + i >= 48 && o + i < len) rec[o + i] = (uc)fill; put (o, btype[k], 2); put (o + 2, next, 2); }
static const int8_t swaps[] = { -1, 0, 1 };
#ifndef LENS
#define LENS {64}
#endif
#ifdef NEAR
#define OFF 0
#else
#define OFF vp_concretize (vp_u16 () % (len - 44)) + 46
#endif
/* blockettes of any type anywhere with any link */
void h_raw2 (void)
{
  static const int lens[] = LENS; static const uc fills[] = { 0, 'A', 0xff };
  len = lens[vp_concretize (vp_u8 () % (sizeof (lens) / sizeof (int)))]; big = vp_concretize (vp_u8 () & 1); int k = vp_concretize (vp_u8 () % 15), o = OFF, fl = vp_concretize (vp_u8 () % 3), det = fl ? 2 : 0;
#ifdef NEAR
  static const int near[] = { 48, 52, -1, -3, -4, -5, -6, -7, -8, -9 }; int e = near[vp_concretize (vp_u8 () % 10)], how = vp_concretize (vp_u8 () & 1); o = e > 0 ? e : how ? len + e : len - bsize[k] - e - 4; if (o < 47) o = 47;
#endif
  header2 (o); int end = o + bsize[k]; int nx[] = { 0, o, o + 4, end - 1, end, end + 4, len - 6, len - 4, len - 1, len, 65535 }; int ni = vp_concretize (vp_u8 () % 11);
  blkt (o, k, nx[ni], fills[fl]);
  static const uint16_t l2000[] = { 0, 1, 4, 6, 8, 15, 16, 255, 65535 }, d2000[] = { 0, 14, 15, 16, 20, 65535 }; if (btype[k] == 2000) { int q = vp_concretize (vp_u8 () % 15); put (o + 4, q < 9 ? l2000[q] : 16, 2); put (o + 6, q < 9 ? 15 : d2000[q - 9], 2); }
  static const uc second[] = { 11, 12, 13, 10, 14 }; int k2 = ni >= 2 && ni <= 8 && nx[ni] >= 48 ? vp_concretize (vp_u8 () % 6) : 5; if (k2 < 5) blkt (nx[ni], second[k2], 0, 0);
  int r = ms_parse_raw2 ((char *)rec, len, det, -1); VP_ASSERT (r >= 0, "count of errors"); if (r) VP_REACH ("errors"); else VP_REACH ("clean");
}
/* any content of one blockette */
void h_raw2c (void)
{
  static const uint16_t sz[] = { 12, 52, 60, 60, 60, 64, 28, 16, 16, 6, 200, 8, 8, 24, 8 };
  int k = vp_concretize (vp_u8 () % 15), det = vp_concretize (vp_u8 () % 3); len = 48 + sz[k]; big = vp_concretize (vp_u8 () & 1); header2 (48); blkt (48, k, 0, 0);
  for (int i = 4; i < sz[k]; i++) { int text = k == 1 ? i >= 28 : k == 2 ? i >= 36 : k == 3 || k == 4 ? i >= 36 || (i >= 28 && i < 31) : k == 5 ? (i >= 24 && i < 27) || i >= 32 : k == 6 ? i >= 24 && i < 27 : k == 10 ? i >= 24 : 0; rec[48 + i] = text ? 'T' : vp_u8 (); }
  if (btype[k] == 2000) { put (52, 24, 2); static const uint16_t d[] = { 0, 15, 20, 24, 65535 }; put (54, d[vp_concretize (vp_u8 () % 5)], 2); for (int i = 15; i < 24; i++) rec[48 + i] = 'T'; }
  int r = ms_parse_raw2 ((char *)rec, len, det, big ? -1 : 0); VP_ASSERT (r >= 0, "count of errors"); VP_REACH ("end");
}
/* any content of one part of the fixed header, any length, any byte order hint */
void h_raw2h (void)
{
  static const uc at[] = { 0, 6, 8, 12, 15, 18, 20, 24, 28, 30, 32, 36, 37, 38, 39, 44, 47 }; static const int ln[] = { 0, 47, 48, 49, 52, 64 };
  int g = vp_concretize (vp_u8 () % 16), l = ln[vp_concretize (vp_u8 () % 6)], det = vp_concretize (vp_u8 () % 3), sw = vp_concretize (vp_u8 () % 3); big = vp_concretize (vp_u8 () & 1);
  len = 48; header2 (0); uc *all = rec; for (int i = at[g]; i < at[g + 1]; i++) all[i] = vp_u8 (); rec = vp_alloc (l); for (int i = 0; i < l; i++) rec[i] = i < 48 ? all[i] : 0;
  int r = ms_parse_raw2 ((char *)rec, l, det, swaps[sw]); VP_ASSERT (l >= 48 ? r >= 0 : r > 0, "count of errors"); VP_REACH ("end");
}
/* miniSEED 3 headers */
void h_raw3 (void)
{
  static const uc at[] = { 0, 3, 4, 8, 10, 12, 16, 24, 33 }, sl[] = { 0, 3, 4, 5, 15, 16, 20, 255 }, xs[] = { 0, 1, 2, 8, 9, 20, 255 }; static const int ln[] = { 0, 39, 40, 43, 44, 45, 60, 64, 65 };
  static const char json[] = "{\"a\":[1,{\"b\":\"c\\\"},\"}]}";
  int g = vp_concretize (vp_u8 () % 8), s = sl[vp_concretize (vp_u8 () % 8)], x = xs[vp_concretize (vp_u8 () % 7)], l = ln[vp_concretize (vp_u8 () % 9)], det = vp_concretize (vp_u8 () % 3);
  int body = vp_concretize (vp_u8 () % 3); rec = vp_alloc (l); for (int i = 0; i < l; i++) { int j = i - 40 - s; rec[i] = j < 0 ? 'S' : body == 0 ? (uc)json[j % (sizeof (json) - 1)] : body == 1 ? (j == 0 ? '{' : '}') : (uc)json[(j + 3) % (sizeof (json) - 1)]; }
  uc h[40]; memset (h, 0, 40); memcpy (h, "MS\3", 3); h[8] = 2012 & 255; h[9] = 2012 >> 8; h[10] = 1; h[33] = (uc)s; h[34] = (uc)x; for (int i = at[g]; i < at[g + 1]; i++) h[i] = vp_u8 (); for (int i = 0; i < 40 && i < l; i++) rec[i] = h[i];
  len = l; int r = ms_parse_raw3 ((char *)rec, l, det); VP_ASSERT (r >= 0, "count of errors"); VP_REACH ("end");
}
