/* P08: the checksum against the bitwise definition of CRC-32C. */
#include "vp.h"
#include "libmseed.h"
#ifndef MAXLEN
#define MAXLEN 40
#endif
static uint32_t ref (uint32_t crc, const uint8_t *p, unsigned n)
{
  crc = ~crc;
  for (unsigned i = 0; i < n; i++)
  {
    crc ^= p[i];
    for (int k = 0; k < 8; k++) crc = (crc >> 1) ^ (0x82F63B78u & (0u - (crc & 1u)));
  }
  return ~crc;
}
void h_crc (void)
{
  unsigned len = vp_u8 (), al = vp_u8 ();
  VP_ASSUME (len >= 1 && len <= MAXLEN && al < 8);
  len = vp_concretize (len); al = vp_concretize (al);
  uint32_t prev = vp_u32 ();
  uint8_t *m = vp_alloc (al + len), *p = m + al; /* exact size: reads past the data are reported */
  for (unsigned i = 0; i < len; i++) p[i] = vp_u8 ();
  VP_ASSERT (ms_crc32c (p, (int)len, prev) == ref (prev, p, len), "CRC-32C of the bytes");
  VP_REACH ("end");
}
void h_crc_split (void)
{
  unsigned a = vp_u8 (), b = vp_u8 (), al = vp_u8 ();
  VP_ASSUME (a >= 1 && a <= 17 && b >= 1 && b <= 17 && al < 4);
  a = vp_concretize (a); b = vp_concretize (b); al = vp_concretize (al);
  uint32_t prev = vp_u32 ();
  uint8_t *m = vp_alloc (al + a + b), *p = m + al;
  for (unsigned i = 0; i < a + b; i++) p[i] = vp_u8 ();
  uint32_t one = ms_crc32c (p, (int)(a + b), prev);
  VP_ASSERT (ms_crc32c (p + a, (int)b, ms_crc32c (p, (int)a, prev)) == one, "independent of chunking");
  VP_REACH ("end");
}
