/* Record level: detection, parsing of arbitrary bytes */
#include "libmseed.h"
#include "vp.h"
typedef unsigned char uc;
static uint32_t le (const uc *p, int n) { uint32_t v = 0; while (n--) v = v << 8 | p[n]; return v; }
static uint32_t be (const uc *p, int n) { uint32_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }

#ifndef LENS
#define LENS {39,40,47,48,51,52,56,60,64,68,113,114,176,177}
#endif
static const int lens[] = LENS;
#define NLENS ((int)(sizeof (lens) / sizeof (lens[0])))
static int picklen (void) { return lens[vp_concretize (vp_u8 () % NLENS)]; }

/* header signatures, from the format definitions; bitwise so that they do not fork */
static int sig3 (const uc *b) { return (b[0] == 'M') & (b[1] == 'S') & (b[2] == 3) & (b[12] <= 23) & (b[13] <= 59) & (b[14] <= 60); }
static int seq (uc c) { return ((c >= '0') & (c <= '9')) | (c == ' ') | (c == 0); }
static int sig2 (const uc *b)
{
  int ok = 1; for (int i = 0; i < 6; i++) ok &= seq (b[i]);
  return ok & ((b[6] == 'D') | (b[6] == 'R') | (b[6] == 'Q') | (b[6] == 'M')) & ((b[7] == ' ') | (b[7] == 0)) & (b[24] <= 23) & (b[25] <= 59) & (b[26] <= 60);
}

void h_detect (void)
{
  int len = picklen ();
  uc *b = vp_alloc (len); for (int i = 0; i < len; i++) b[i] = vp_u8 ();
#ifdef V2
  VP_ASSUME (len < 40 || sig2 (b)); /* other signatures: h_detect without V2 */
  /* case split of the blockette chain; beyond 64 bytes links are multiples of STRIDE */
  if (len >= 48) {
    uint32_t y0 = le (b + 20, 2), d0 = le (b + 22, 2); int sw = vp_concretize ((y0 < 1900) | (y0 > 2100) | (d0 < 1) | (d0 > 366));
    uint32_t at = 46; int depth = 0;
    for (;;) {
      uint32_t o = sw ? be (b + at, 2) : le (b + at, 2);
      if ((o < 48) | (o + 4 > (uint32_t)len)) break;
      VP_ASSUME (o % STRIDE == 0); VP_ASSUME (depth++ < DEPTH);
      o = vp_concretize (o); if (o + 2 <= at) break; at = o + 2;
    }
  }
#endif
  uint8_t v = 77;
  int64_t r = ms3_detect ((char *)b, len, &v);
  if (len < 40) { VP_ASSERT (r == -1, "too short for a header"); return; }
  if (sig3 (b)) {
    VP_ASSERT (v == 3, "v3 signature"); VP_REACH ("v3");
    VP_ASSERT (r == (int64_t)40 + b[33] + le (b + 34, 2) + (int64_t)le (b + 36, 4), "v3 length is header plus identifier, extra headers and payload");
    return;
  }
  if (!sig2 (b)) { VP_ASSERT (r == -1, "no header signature: not detected"); VP_REACH ("none"); return; }
  VP_ASSERT (v == 2, "v2 signature"); VP_REACH ("v2");
#ifdef V2
  if (len < 48) { VP_ASSERT (r == 0, "length unknown: more bytes needed"); return; }
  uint32_t y = le (b + 20, 2), d = le (b + 22, 2); int swap = !(y >= 1900 && y <= 2100 && d >= 1 && d <= 366);
#define U2(o) (swap ? be (b + (o), 2) : le (b + (o), 2))
  uint32_t o = U2 (46);
  while (o >= 48 && o + 4 <= (uint32_t)len) {
    uint32_t type = U2 (o), next = U2 (o + 2);
    if ((next >= 48) & (next + 4 <= (uint32_t)len)) next = vp_concretize (next);
    if (type == 1000 && o + 8 <= (uint32_t)len) {
      uc e = b[o + 6]; VP_REACH ("b1000");
      if (e <= 62) VP_ASSERT (r == (int64_t)1 << e, "v2 length from blockette 1000");
      return;
    }
    if (next && next <= o) { VP_ASSERT (r == -1, "backward blockette link is refused"); VP_REACH ("backward"); return; }
    if (next && next < o + 8) return; /* overlapping blockettes: either answer */
    o = next;
  }
  int found = 0;
  for (int k = 64; k + 48 < len; k += 64)
    if (sig2 (b + k)) { VP_ASSERT (r == k, "v2 length from the next header"); found = 1; VP_REACH ("nexthdr"); break; }
  if (!found) { VP_ASSERT (r == 0, "length unknown: more bytes needed"); VP_REACH ("unknown"); }
#endif
}
