/* C01-C05: sample encodings. Reference decoders below are written from the SEED manual (appendix B / chapter 8). */
#include "vp.h"
#include "libmseed.h"
#include "packdata.h"
#include "unpackdata.h"
#ifndef N
#define N 6
#endif
#ifndef FRAMES
#define FRAMES 1
#endif
#ifndef PRE
#define PRE 0
#endif
#ifndef VER
#define VER 1
#endif
static uint32_t w32 (const uint8_t *p, int big) { return big ? (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3] : (uint32_t)p[3] << 24 | (uint32_t)p[2] << 16 | (uint32_t)p[1] << 8 | p[0]; }
static uint16_t w16 (const uint8_t *p, int big) { return big ? (uint16_t)(p[0] << 8 | p[1]) : (uint16_t)(p[1] << 8 | p[0]); }
static int32_t sx (uint32_t v, int bits) { return (int32_t)(v << (32 - bits)) >> (32 - bits); }

/* Reference: differences of one frame by the SEED definition; returns count or -1 for an undefined code */
static int ref_frame (const uint8_t *f, int first, int big, int ver, int32_t *d)
{
  int n = 0;
  uint32_t w0 = w32 (f, big);
  for (int w = first ? 3 : 1; w < 16; w++)
  {
    unsigned c = vp_concretize ((w0 >> (30 - 2 * w)) & 3);
    const uint8_t *p = f + 4 * w;
    uint32_t v = w32 (p, big);
    if (c == 0) continue;
    if (c == 1) { for (int i = 0; i < 4; i++) d[n++] = (int8_t)p[i]; continue; }
    if (ver == 1)
    {
      if (c == 2) { d[n++] = (int16_t)w16 (p, big); d[n++] = (int16_t)w16 (p + 2, big); }
      else d[n++] = (int32_t)v;
      continue;
    }
    unsigned dn = vp_concretize (v >> 30);
    int bits, cnt;
    if (c == 2) { if (dn == 0) return -1; bits = dn == 1 ? 30 : dn == 2 ? 15 : 10; cnt = dn; }
    else { if (dn == 3) return -1; bits = 6 - (int)dn; cnt = 5 + (int)dn; }
    for (int i = 0; i < cnt; i++) d[n++] = sx (v >> (bits * (cnt - 1 - i)), bits);
  }
  return n;
}

static int64_t encode (int32_t *in, uint64_t n, void *out, uint64_t len, int32_t d0, uint32_t *wr, int swap)
{
  return VER == 1 ? msr_encode_steim1 (in, n, out, len, d0, wr, swap) : msr_encode_steim2 (in, n, out, len, d0, wr, "T", swap);
}
static int64_t decode (void *in, uint64_t inlen, uint64_t n, int32_t *out, uint64_t outlen, int swap)
{
  return VER == 1 ? msr_decode_steim1 (in, inlen, n, out, outlen, "T", swap) : msr_decode_steim2 (in, inlen, n, out, outlen, "T", swap);
}

/* Encode any N samples (first PRE differences forced wide so that later frames are reached), decode with the
 * library and with the reference, compare. PRE: number of forced-wide differences. */
void h_steim_rt (void)
{
  int32_t in[N + 1], out[N + 1], diff[N + 1], d[106];
  uint32_t written = 0;
#ifdef SWAP
  int swap = SWAP;
#else
  int swap = vp_u8 () & 1;
#endif
  uint32_t n = vp_u8 ();
#ifdef MINN
  VP_ASSUME (n >= MINN && n <= N);
#else
  VP_ASSUME (n >= 1 && n <= N);
#endif
  n = vp_concretize (n);
  uint32_t space = FRAMES * 64;
#ifdef SLACK
  space += vp_concretize (vp_u8 () & 63);
#endif
  uint8_t *payload = vp_alloc (space);
  for (int i = 0; i < N; i++)
  {
    diff[i] = vp_i32 ();
    if (i && i <= PRE)
    {
#ifdef PREFIX
      diff[i] = (i & 1) ? 40000 + i : -40000 - i; /* fixed wide differences, two constant patterns */
#else
      VP_ASSUME (diff[i] >= 0x8000 && diff[i] < 0x1fffffff);
#endif
    }
    in[i] = (int32_t)((i ? (uint32_t)in[i - 1] : 0u) + (uint32_t)diff[i]); /* bijective: all sequences */
  }
  int32_t diff0 = vp_i32 ();
#ifdef D0ZERO
  diff0 = 0;
#endif
  int64_t packed = encode (in, n, (int32_t *)payload, space, diff0, &written, swap);
#if VER == 2
  int bad = diff0 < -536870912 || diff0 > 536870911, any = bad;
  for (uint32_t i = 1; i < n; i++) any |= (diff[i] < -536870912 || diff[i] > 536870911);
  if (packed < 0) { VP_ASSERT (any, "refused although every difference fits in 30 bits"); VP_REACH ("refused"); return; }
  VP_ASSERT (!bad, "first difference out of range but not refused");
  for (uint32_t i = 1; i < n; i++) if (i < packed) VP_ASSERT (diff[i] >= -536870912 && diff[i] <= 536870911, "difference out of range but not refused");
#endif
  VP_ASSERT (packed >= 1 && packed <= n, "packs between 1 and n samples");
  VP_ASSERT (written <= space && written % 64 == 0 && written >= 64, "whole frames inside the space");
  VP_ASSERT (packed == n || written / 64 == space / 64, "stops early only when the space is used up");
  /* reference decode */
  VP_ASSERT ((int32_t)w32 (payload + 4, swap) == in[0], "X0 is the first sample");
  VP_ASSERT ((int32_t)w32 (payload + 8, swap) == in[packed - 1], "Xn is the last sample");
  int64_t k = 0;
  int full = 1;
  for (uint32_t f = 0; f < written / 64; f++)
  {
    int c = ref_frame (payload + 64 * f, f == 0, swap, VER, d);
    VP_ASSERT (c >= 0, "defined codes only");
    VP_ASSERT (c > 0, "no empty frame is claimed");
    for (int i = 0; i < c; i++, k++)
    {
      VP_ASSERT (k < packed, "no differences beyond the packed samples");
      VP_ASSERT (d[i] == (k == 0 ? diff0 : diff[k]), "difference stored per the SEED layout");
    }
  }
  VP_ASSERT (k == packed, "every packed sample has its difference");
  (void)full;
  int64_t un = decode (payload, written, packed, out, sizeof (int32_t) * packed, swap);
  VP_ASSERT (un == packed, "decodes what was packed");
  for (uint32_t i = 0; i < n; i++)
    if (i < packed) VP_ASSERT (out[i] == in[i], "sample preserved");
  VP_REACH ("end");
}

/* Decode any frame content: NW words from FW on (frame number FRAME) arbitrary, others empty; compare with the reference. */
#ifndef FW
#define FW 3
#endif
#ifndef NW
#define NW 3
#endif
#ifndef FRAME
#define FRAME 0
#endif
void h_steim_dec (void)
{
  uint8_t p[64 * (FRAME + 1)];
  int32_t d[106], out[110];
  int swap = vp_u8 () & 1;
  memset (p, 0, sizeof (p));
  for (int i = 4; i < 12; i++) p[i] = vp_u8 ();
  uint32_t w0 = 0;
  for (int w = FW; w < FW + NW; w++)
  {
    w0 |= (uint32_t)(vp_u8 () & 3) << (30 - 2 * w);
    for (int i = 0; i < 4; i++) p[64 * FRAME + 4 * w + i] = vp_u8 ();
  }
  for (int i = 0; i < 4; i++) p[64 * FRAME + i] = (uint8_t)(w0 >> (swap ? 24 - 8 * i : 8 * i));
  uint32_t n = vp_concretize (vp_u8 () % (7 * NW + 2));
  VP_ASSUME (n >= 1);
  uint32_t have = 0, bad = 0;
  int32_t ref[110];
  ref[0] = (int32_t)w32 (p + 4, swap);
  have = 1;
  int c = ref_frame (p + 64 * FRAME, FRAME == 0, swap, VER, d);
  if (c < 0) bad = 1;
  else
    for (int i = (FRAME == 0) ? 1 : 0; i < c; i++, have++) ref[have] = ref[have - 1] + d[i];
  uint32_t osz = 4 * n;
  int64_t un = decode (p, sizeof (p), n, out, osz, swap);
  if (n == 1 && FRAME > 0) { VP_ASSERT (un == 1 && out[0] == ref[0], "first sample is X0"); return; }
  if (bad) { VP_ASSERT (un < 0, "undefined code refused"); return; }
  VP_ASSERT (un == (have < n ? have : n), "number of samples");
  for (uint32_t i = 0; i < n && i < have; i++) VP_ASSERT (out[i] == ref[i], "decoded per the SEED layout");
  VP_REACH ("end");
}

#define NV 3
/* C03: text/int/float encodings round-trip through encoder and public decoder, in both byte orders. */
void h_plain_rt (void)
{
  static const uint8_t encs[] = { DE_TEXT, DE_INT16, DE_INT32, DE_FLOAT32, DE_FLOAT64 };
  static const uint8_t wire[] = { 1, 2, 4, 4, 8 }, host[] = { 1, 4, 4, 4, 8 };
  static const char types[] = "tiifd";
  unsigned e = vp_u8 ();
  VP_ASSUME (e < 5);
  e = vp_concretize (e);
  int swap = vp_concretize (vp_u8 () & 1);
  unsigned n = vp_u8 (); VP_ASSUME (n >= 1 && n <= NV); n = vp_concretize (n);
  unsigned space = vp_u8 (); VP_ASSUME (space >= 1 && space <= NV * wire[e] + 1); space = vp_concretize (space);
  uint64_t v[NV];
  uint8_t *in = vp_alloc (n * host[e]), *mid = vp_alloc (space), *out;
  for (unsigned i = 0; i < n; i++)
  {
    v[i] = e == 0 ? vp_u8 () : e == 1 ? (uint64_t)vp_u16 () : e == 4 ? vp_u64 () : (uint64_t)vp_u32 ();
    if (e == 1) v[i] = (uint32_t)(int32_t)(int16_t)v[i];
    memcpy (in + i * host[e], &v[i], host[e]);
  }
  int64_t k = e == 0 ? msr_encode_text ((char *)in, n, (char *)mid, space)
            : e == 1 ? msr_encode_int16 ((int32_t *)in, n, (int16_t *)mid, space, swap)
            : e == 2 ? msr_encode_int32 ((int32_t *)in, n, (int32_t *)mid, space, swap)
            : e == 3 ? msr_encode_float32 ((float *)in, n, (float *)mid, space, swap)
                     : msr_encode_float64 ((double *)in, n, (double *)mid, space, swap);
  int64_t want = space / wire[e] < n ? space / wire[e] : n;
  VP_ASSERT (k == want, "encodes the samples that fit");
  for (int64_t i = 0; i < k; i++)
    for (int b = 0; b < wire[e]; b++)
      VP_ASSERT (mid[i * wire[e] + b] == (uint8_t)(v[i] >> (swap ? 8 * (wire[e] - 1 - b) : 8 * b)), "byte order of the encoded value");
  if (k == 0) return;
  out = vp_alloc (k * host[e]);
  char st = 0;
  int64_t r = ms_decode_data (mid, k * wire[e], encs[e], k, out, k * host[e], &st, swap, "T", 0);
  VP_ASSERT (r == k && st == types[e], "decodes the same number and type");
  for (int64_t i = 0; i < k; i++)
    for (int b = 0; b < host[e]; b++) VP_ASSERT (out[i * host[e] + b] == (uint8_t)(v[i] >> (8 * b)), "value preserved bit-exactly");
  VP_REACH ("end");
}

/* C03: 16-bit packing refuses what does not fit */
void h_int16_range (void)
{
  int swap = vp_concretize (vp_u8 () & 1), n = 1 + vp_concretize (vp_u8 () % 3), space = 2 + vp_concretize (vp_u8 () % 5), fit = space / 2 < n ? space / 2 : n; int32_t v[3]; uint8_t *mid = vp_alloc (space); int ok = 1;
  for (int i = 0; i < n; i++) { v[i] = (int32_t)vp_u32 (); if (i < fit) ok &= (v[i] >= -32768) & (v[i] <= 32767); }
  int64_t k = msr_encode_int16 (v, n, (int16_t *)mid, space, swap);
  if (vp_concretize (ok)) { VP_ASSERT (k == fit, "encodes the samples that fit"); VP_REACH ("end"); }
  else { VP_ASSERT (k < 0, "values outside 16 bits are refused"); VP_REACH ("refused"); }
}

/* C04: legacy encodings against the published formulas, one arbitrary word followed by a second one. */
#ifndef ENC
#define ENC DE_CDSN
#endif
void h_legacy (void)
{
  int big = vp_concretize (vp_u8 () & 1); /* big: data is most significant byte first, i.e. swapping needed here */
  const int wire = ENC == DE_GEOSCOPE24 ? 3 : 2;
  /* each word is built from an arbitrary mantissa and gain (bijective), stored in the chosen byte order */
  uint8_t in[6];
  uint32_t man[2], g[2];
  union { int32_t i[2]; float f[2]; } out;
  char st = 0;
  int bad = 0, mb = ENC == DE_CDSN ? 14 : ENC == DE_SRO || ENC == DE_GEOSCOPE163 || ENC == DE_GEOSCOPE164 ? 12 : 8 * wire, gm = ENC == DE_CDSN ? 3 : mb == 12 ? 15 : 0;
  uint64_t n = 1 + vp_concretize (vp_u8 () & 1);
  for (unsigned k = 0; k < n; k++)
  {
    man[k] = vp_u32 () & ((1u << mb) - 1);
    g[k] = vp_concretize (vp_u8 () & gm);
    uint32_t w = g[k] << mb | man[k];
    if (ENC == DE_SRO && g[k] > 10) bad = 1;
    for (int b = 0; b < wire; b++) in[k * wire + b] = (uint8_t)(w >> (big ? 8 * (wire - 1 - b) : 8 * b));
  }
  int64_t r = ms_decode_data (in, n * wire, ENC, n, &out, 4 * n, &st, big, "T", 0);
  if (bad) { VP_ASSERT (r < 0, "out-of-range gain refused"); VP_REACH ("refused"); return; }
  VP_ASSERT (r == (int64_t)n, "all samples decoded");
  for (unsigned k = 0; k < n; k++)
  {
    if (ENC == DE_CDSN)
    {
      static const int mul[4] = { 1, 4, 16, 128 };
      VP_ASSERT (st == 'i' && out.i[k] == ((int32_t)man[k] - 8191) * mul[g[k]], "CDSN value");
    }
    else if (ENC == DE_SRO) VP_ASSERT (st == 'i' && out.i[k] == sx (man[k], 12) * (1 << (10 - g[k])), "SRO value");
    else if (ENC == DE_DWWSSN) VP_ASSERT (st == 'i' && out.i[k] == sx (man[k], 16), "DWWSSN value");
    else if (ENC == DE_GEOSCOPE24) VP_ASSERT (st == 'f' && out.f[k] == (float)sx (man[k], 24), "GEOSCOPE24 value");
    else
      VP_ASSERT (st == 'f' && out.f[k] == (float)((double)((int32_t)man[k] - 2048) / (double)(1u << (ENC == DE_GEOSCOPE163 ? g[k] & 7 : g[k]))), "GEOSCOPE gain-ranged value");
  }
  VP_REACH ("end");
}

/* C05: any payload bytes, any encoding, any claimed count and sizes: exact-size buffers, so any stray access is reported. */
#ifndef MAXIN
#define MAXIN 12
#endif
void h_decode_any (void)
{
  uint8_t enc = vp_u8 ();
  unsigned isz = vp_u8 (), osz = vp_u8 ();
  uint64_t cnt = vp_u64 ();
  int swap = vp_u8 () & 1;
  VP_ASSUME (isz <= MAXIN && osz <= 24);
  isz = vp_concretize (isz); osz = vp_concretize (osz);
  VP_ASSUME (cnt <= 7 || cnt >= 0xfffffff0ull);
  if (cnt <= 7) cnt = vp_concretize (cnt);
  else { VP_ASSUME (cnt == 0xfffffffeull || cnt == 0x100000001ull || cnt == 0x4000000000000001ull || cnt == 0x2000000000000001ull || cnt == 0x8000000000000001ull || cnt == ~0ull); cnt = vp_concretize (cnt); }
  VP_ASSUME (enc != DE_STEIM1 && enc != DE_STEIM2);
  uint8_t *in = vp_alloc (isz), *out = vp_alloc (osz);
  for (unsigned i = 0; i < isz; i++) in[i] = vp_u8 ();
  char st = 0;
  int64_t r = ms_decode_data (in, isz, enc, cnt, out, osz, &st, swap, "T", 0);
  if (r >= 0)
  {
    uint8_t ss = 0; char t = 0;
    VP_ASSERT ((uint64_t)r == cnt, "success means the requested count");
    if (r > 0) { VP_ASSERT (ms_encoding_sizetype (enc, &ss, &t) == 0, "known encoding"); VP_ASSERT ((uint64_t)r <= osz / ss, "reported samples fit the output"); }
  }
  VP_REACH ("end");
}
/* Steim frames with arbitrary content in every word, short/long lengths, exact-size buffers. */
#ifndef NIB
#define NIB 2
#endif
void h_steim_any (void)
{
  unsigned isz = vp_u8 (), cnt = vp_u8 (), osz;
  int swap = vp_u8 () & 1;
  VP_ASSUME (isz == 0 || isz == 63 || isz == 64 || isz == 127 || isz == 128);
  isz = vp_concretize (isz);
#ifdef ALLSAME
  /* every word carries the same code: reaches the largest number of differences per frame */
  VP_ASSUME (cnt == 200);
#else
  VP_ASSUME (cnt <= 4 || cnt == 58);
#endif
  cnt = vp_concretize (cnt);
  osz = vp_u16 (); VP_ASSUME (osz == 4 * cnt || (cnt && osz == 4 * cnt - 1)); osz = vp_concretize (osz);
  uint8_t *in = vp_alloc (isz); int32_t *out = vp_alloc (osz);
  for (unsigned i = 0; i < isz; i++) in[i] = vp_u8 ();
#ifdef ALLSAME
  uint8_t code = vp_u8 (), dn = vp_u8 (); VP_ASSUME (code < 4 && dn < 4); code = vp_concretize (code); dn = vp_concretize (dn);
  for (unsigned f = 0; f + 64 <= isz; f += 64)
  { for (int i = 0; i < 4; i++) in[f + i] = (uint8_t)(code * 0x55);
    for (int w = 1; w < 16; w++) { in[f + 4 * w] = (uint8_t)(dn << 6 | (in[f + 4 * w] & 0x3f)); in[f + 4 * w + 3] = (uint8_t)(dn << 6 | (in[f + 4 * w + 3] & 0x3f)); } }
#else
  /* at most NIB words per frame carry an arbitrary code, the rest code 1 */
  for (unsigned f = 0; f + 64 <= isz; f += 64)
  { uint32_t w0 = 0x55555555u; for (int w = 16 - NIB; w < 16; w++) w0 = (w0 & ~(3u << (30 - 2 * w))) | (uint32_t)(vp_u8 () & 3) << (30 - 2 * w);
    for (int i = 0; i < 4; i++) in[f + i] = (uint8_t)(w0 >> (swap ? 24 - 8 * i : 8 * i)); }
#endif
  char st = 0;
  int64_t r = ms_decode_data (in, isz, VER == 1 ? DE_STEIM1 : DE_STEIM2, cnt, out, osz, &st, swap, "T", 0);
  VP_ASSERT (r < 0 || (r == cnt && 4 * cnt <= osz), "success means the requested count, within the output");
  if (isz < 64) VP_ASSERT (r <= 0, "no frame, no samples");
  VP_REACH ("end");
}
