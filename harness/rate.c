/* Sample rates: times of samples (T05), SEED factor and multiplier (T06) */
#include "libmseed.h"
#include "vp.h"
#include <math.h>
extern double ms_nomsamprate (int factor, int multiplier);
extern LeapSecond *leapsecondlist;
#define MAXT 9000000000000000000ll
static nstime_t anytime (void) { return (nstime_t)(vp_u64 () % (2 * (uint64_t)MAXT + 1)) - MAXT; }
static const double rates[] = {1, 20, 40, 100, 200, 250, 1000, -1, -10, -3600, -86400, 3, 7, 0.3, 6.25, 44100, -0.7, 19.998, 1e9};
/* exact sample period in nanoseconds as num/den */
static const int64_t num[] = {1000000000, 50000000, 25000000, 10000000, 5000000, 4000000, 1000000, 1000000000, 10000000000, 3600000000000, 86400000000000,
                              1000000000, 1000000000, 10000000000, 160000000, 10000000, 7000000000, 500000000000, 1};
static const int64_t den[] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 3, 7, 3, 1, 441, 10, 9999, 1};
#define NR ((int)(sizeof rates / sizeof rates[0]))
/* any offset for periods of whole nanoseconds; chosen offsets otherwise */
static const int32_t offs[] = {0, 1, 2, 3, 10, 11, 97, 100, 999, 1000, 86399, 123456};
void h_sampletime (void)
{
  int r = vp_concretize (vp_u8 () % NR); leapsecondlist = NULL;
  nstime_t t = (nstime_t)(vp_u64 () % 8000000000000000001ull) - 4000000000000000000ll, exp; int64_t o;
  if (den[r] == 1 && num[r] < (int64_t)1 << 44) { o = vp_u64 () % (uint64_t)(400000000000000 / num[r]); exp = o * num[r]; } /* spans to 4 days: exact in doubles */
  else { o = offs[vp_concretize (vp_u8 () % (sizeof offs / sizeof offs[0]))]; if (o > 1000000000000000 / num[r] * den[r]) return; exp = (2 * o * num[r] + den[r]) / (2 * den[r]); }
  VP_ASSERT (ms_sampletime (t, o, rates[r]) == t + exp, "start plus offset sample periods, to the nanosecond");
  VP_ASSERT (ms_sampletime (t, -o, rates[r]) == t, "no extrapolation backwards");
  VP_ASSERT (ms_sampletime (t, o, 0.0) == t, "no sample rate: no span");
  MS3Record *m = msr3_init (NULL); m->starttime = t; m->samprate = rates[r]; m->samplecnt = o + 1;
  VP_ASSERT (msr3_endtime (m) == t + exp, "end time is the time of the last sample");
  m->samplecnt = 0; VP_ASSERT (msr3_endtime (m) == t, "no samples: end is start");
  VP_ASSERT (msr3_nsperiod (m) == (2 * num[r] + den[r]) / (2 * den[r]), "sample period");
  double hz = msr3_sampratehz (m), d = hz * (double)num[r] / 1e9 - (double)den[r];
  VP_ASSERT (d < 1e-6 && d > -1e-6, "rate in Hz");
  VP_REACH ("end");
}
void h_leap (void)
{ /* list of up to 2 leap seconds in ascending order */
  int n = vp_concretize (vp_u8 () % 3), r = vp_concretize (vp_u8 () % 4);
  static const double lr[] = {1, 100, -10, -3600}; static const int64_t per[] = {1000000000, 10000000, 10000000000, 3600000000000};
  LeapSecond l[2]; int64_t s0 = (int64_t)(vp_u32 () % 2000000000u), s1 = s0 + 86400 + (int64_t)(vp_u32 () % 100000000u);
  l[0].leapsecond = s0 * NSTMODULUS; l[0].TAIdelta = 11; l[0].next = n > 1 ? &l[1] : NULL; l[1].leapsecond = s1 * NSTMODULUS; l[1].TAIdelta = 12; l[1].next = NULL;
  leapsecondlist = n ? l : NULL;
  int64_t o = vp_u64 () % (uint64_t)(1500000000000000 / per[r]); nstime_t t = (nstime_t)(vp_u64 () % 2200000000000000000ull), e = t + o * per[r];
  int in0 = (n > 0) & (l[0].leapsecond > t) & (l[0].leapsecond <= e - NSTMODULUS), in1 = (n > 1) & (l[1].leapsecond > t) & (l[1].leapsecond <= e - NSTMODULUS);
  VP_ASSUME (!(in0 & in1)); /* at most one within the span */
  VP_ASSERT (ms_sampletime (t, o, lr[r]) == e - ((in0 | in1) ? NSTMODULUS : 0), "one leap second within the span shortens it by one second");
  leapsecondlist = NULL;
  VP_REACH ("end"); if (in0 | in1) VP_REACH ("leap");
}

static int near (double a, double b) { double d = a - b, m = (b < 0 ? -b : b) * 1e-12; return (d <= m) & (-d <= m); }
static const int fs[] = {1, 2, 3, 5, 7, 10, 13, 16, 20, 100, 255, 256, 1000, 4999, 16384, 32766, 32767, 32768};
void h_nomrate (void)
{ /* one of the pair from a list, the other any 16-bit value */
  int which = vp_concretize (vp_u8 () & 1), sg = vp_concretize (vp_u8 () & 1), c = fs[vp_concretize (vp_u8 () % (sizeof fs / sizeof fs[0]))];
  int s2 = vp_concretize (vp_u8 () & 1), v = 1 + vp_u16 () % 32767;
  if (sg) c = -c; else if (c == 32768) return;
  if (s2) v = -v;
  int f = which ? c : v, m = which ? v : c; double fa = f < 0 ? -f : f, ma = m < 0 ? -m : m, exp;
  if (f > 0 && m > 0) exp = fa * ma; else if (f > 0) exp = fa / ma; else if (m > 0) exp = ma / fa; else exp = 1.0 / (fa * ma);
  VP_ASSERT (near (ms_nomsamprate (f, m), exp), "rate of the SEED definition");
  VP_ASSERT (ms_nomsamprate (0, m) == 0.0, "factor 0: no rate");
  VP_REACH ("end");
}
static MS3Record *rec2 (double rate)
{
  MS3Record *m = msr3_init (NULL); strcpy (m->sid, "FDSN:XX_STA__B_H_Z"); m->reclen = 512; m->starttime = 0; m->samprate = rate; m->encoding = DE_INT32; m->pubversion = 1; m->formatversion = 2;
  return m;
}
static int be16 (unsigned char *p) { return (int16_t)(p[0] << 8 | p[1]); }
void h_packrate (void)
{ /* every whole rate or period up to 32767: header stores a pair that means exactly that rate, no blockette 100 */
  int n = 1 + vp_u16 () % 32767, per = vp_concretize (vp_u8 () & 1);
  MS3Record *m = rec2 (per ? -(double)n : (double)n); unsigned char rec[512];
  int w = msr3_pack_header2 (m, (char *)rec, 512, 0);
  VP_ASSERT (w == 56, "fixed header and blockette 1000 only"); VP_ASSERT (rec[39] == 1, "one blockette");
  int f = be16 (rec + 32), u = be16 (rec + 34);
  if (per) VP_ASSERT (((f == -n) & ((u == -1) | (u == 1))) | ((f == 1) & (u == -n)) | ((n == 1) & (f == 1) & (u == 1)), "pair means one sample per n seconds");
  else VP_ASSERT (((f == n) & ((u == 1) | (u == -1))) | ((f == 1) & (u == n)), "pair means n samples per second");
  VP_REACH ("end");
}
static const double xr[] = {0.1, 0.3, 0.01, 19.998, 20.833333333333332, 33.333333333333336, 6.25, 2.5, 0.0001, 40000, 100000, 65536, 1048576, 500000, 99999, 32768, -100000, -86400, -0.7, -1.5, -2.5, 1073676289,
                            1000003, 3.14159265358979, 0.000030518509, 15.151515151515152, 999.9, 32766.5, -40000, -0.00001, 1e-9, -1e9, 2147483646, 1e12, 32767.25};
void h_packrate2 (void)
{ /* listed rates: what is written reads back as the rate (pair, or blockette 100 in single precision), or is refused */
  double r = xr[vp_concretize (vp_u8 () % (sizeof xr / sizeof xr[0]))], hz = r < 0 ? -1.0 / r : r;
  MS3Record *m = rec2 (r); unsigned char rec[512]; memset (rec, 0, 512);
  int w = msr3_pack_header2 (m, (char *)rec, 512, 0);
  if (w < 0) { VP_ASSERT (hz > 32767 || hz < 1.0 / 32767, "rates in the SEED range are never refused"); VP_REACH ("refused"); return; }
  MS3Record *o = NULL; VP_ASSERT (msr3_parse ((char *)rec, 512, &o, 0, 0) == 0, "reads back");
  double g = msr3_sampratehz (o), d = g - hz; if (d < 0) d = -d;
  VP_ASSERT (d <= 0.0001 || d <= hz * 1.2e-7, "the rate reads back within 0.0001 Hz or single precision");
  VP_REACH ("end");
}
/* exactly representable rates: the written factor and multiplier alone mean the rate */
static const int ra[] = {2, 3, 4, 7, 8, 16, 64, 100, 128, 181, 1000, 1024, 4096, 16384, 32749, 32766, 32767};
static const int rb[] = {1, 2, 3, 8, 100, 181, 1000, 8192, 16384, 32749, 32766, 32767};
void h_packrate3 (void)
{
  int a = ra[vp_concretize (vp_u8 () % (sizeof ra / sizeof ra[0]))], b = rb[vp_concretize (vp_u8 () % (sizeof rb / sizeof rb[0]))], k = vp_concretize (vp_u8 () & 3);
  double hz, r; if (k & 1) { hz = (double)a / b; } else hz = (double)a * b;
  if (k & 1) { if (hz < 1.0 / 32767 || hz > 32767) return; }
  r = hz; if (k & 2) { r = -1.0 / hz; if (k == 2) r = -(double)a * b, hz = -1.0 / r; }
  MS3Record *m = rec2 (r); unsigned char rec[512]; memset (rec, 0, 512);
  int w = msr3_pack_header2 (m, (char *)rec, 512, 0);
  VP_ASSERT (w > 0, "a rate the pair can express is never refused");
  int f = be16 (rec + 32), u = be16 (rec + 34); double fa = f < 0 ? -f : f, ua = u < 0 ? -u : u, g;
  VP_ASSERT (f != 0 && u != 0, "not the no-rate pair");
  if (f > 0 && u > 0) g = fa * ua; else if (f > 0) g = fa / ua; else if (u > 0) g = ua / fa; else g = 1.0 / (fa * ua);
  double d = g - hz, t = hz * ((k & 1) ? 2e-8 : 1e-12); if (d < 0) d = -d;
  VP_ASSERT (d <= t, "factor and multiplier alone mean the rate");
  VP_REACH ("end");
}
