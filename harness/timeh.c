#include "libmseed.h"
#include "vp.h"

/* Gregorian calendar reference, written independently of the library */
static int r_leap (int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int r_mlen (int y, int m) { return m == 2 ? 28 + r_leap (y) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
static int64_t r_jan1 (int y) { int64_t p = y - 1; return p * 365 + p / 4 - p / 100 + p / 400 - 719162; } /* days from 1970-01-01 to y-01-01 */

#ifndef Y0
#define Y0 1678
#define NY 585
#endif
/* Year classes: NY consecutive years from Y0, or the listed ones. */
#ifdef YEARS
static const int years[] = YEARS;
#define NYEARS ((int)(sizeof (years) / sizeof (years[0])))
static int pickyear (void) { return years[vp_concretize (vp_u16 () % NYEARS)]; }
#else
static int pickyear (void) { return Y0 + (int)vp_concretize (vp_u16 () % NY); }
#endif

typedef struct { int year, yday, month, mday, hour, min, sec; uint32_t nsec; int64_t t; } tcomp;
static tcomp pick (void)
{
  tcomp c;
  c.year = pickyear ();
  /* 2262 is representable up to day 100 (int64 nanoseconds end on day 101) */
#ifdef BYMONTH
  c.month = 1 + (int)vp_concretize (vp_u8 () % (c.year == 2262 ? 3 : 12)); c.mday = 1 + (int)(vp_u8 () % r_mlen (c.year, c.month));
  c.yday = c.mday; for (int i = 1; i < c.month; i++) c.yday += r_mlen (c.year, i);
#else
  c.yday = 1 + (int)(vp_u16 () % (c.year == 2262 ? 100 : 365 + r_leap (c.year)));
#endif
  /* case split on which components are zero or last: keeps every case linear for the solver */
  int z = c.year < 1970 ? (int)vp_concretize (vp_u8 () % 54) : -1;
#define PART(k, raw, n) (z < 0 ? (raw) % (n) : (k) == 0 ? 0 : (k) == 1 ? (n)-1 : 1 + (raw) % ((n)-2))
  uint8_t rh = vp_u8 (), rm = vp_u8 (), rs = vp_u8 (); uint32_t rn = vp_u32 ();
  c.hour = PART (z / 2 % 3, rh, 24); c.min = PART (z / 6 % 3, rm, 60); c.sec = PART (z / 18, rs, 60);
  c.nsec = z < 0 ? rn % 1000000000u : z & 1 ? 1 + rn % 999999999 : 0;
  c.t = ((((r_jan1 (c.year) + c.yday - 1) * 24 + c.hour) * 60 + c.min) * 60 + c.sec) * 1000000000LL + c.nsec;
  return c;
}

void h_time_rt (void)
{
  tcomp c = pick ();
  uint16_t y, d; uint8_t h, m, s; uint32_t n;
  if (c.year >= 1678) {
    nstime_t t = ms_time2nstime (c.year, c.yday, c.hour, c.min, c.sec, c.nsec);
    VP_ASSERT (t == c.t, "ms_time2nstime gives the epoch nanoseconds of the Gregorian date");
  }
  VP_ASSERT (ms_nstime2time (c.t, &y, &d, &h, &m, &s, &n) == 0, "ms_nstime2time succeeds");
  VP_ASSERT (y == c.year, "year"); VP_ASSERT (d == c.yday, "day of year"); VP_ASSERT (h == c.hour, "hour");
  VP_ASSERT (m == c.min, "minute"); VP_ASSERT (s == c.sec, "second"); VP_ASSERT (n == c.nsec, "nanosecond");
  VP_REACH ("end");
}

/* any component values: refused when one is out of range (acceptance is h_time_rt and h_time_60) */
void h_time_range (void)
{
  int year = vp_i32 (), yday = vp_i32 (), hour = vp_i32 (), min = vp_i32 (), sec = vp_i32 (); uint32_t nsec = vp_u32 ();
  int ok = year >= 1678 && year <= 2262 && yday >= 1 && yday <= 365 + r_leap (year) && hour >= 0 && hour <= 23 && min >= 0 && min <= 59 && sec >= 0 && sec <= 60 && nsec <= 999999999;
  VP_ASSUME (!ok);
  VP_ASSERT (ms_time2nstime (year, yday, hour, min, sec, nsec) == NSTERROR, "out-of-range components are refused");
  VP_REACH ("refused");
}
/* leap second :60 is the first second of the next minute */
void h_time_60 (void)
{
  tcomp c = pick ();
  VP_ASSERT (ms_time2nstime (c.year, c.yday, c.hour, c.min, 60, c.nsec) == c.t - c.sec * 1000000000LL + 60000000000LL, "second 60");
  VP_REACH ("end");
}

void h_doy2md (void)
{
  int year = vp_i32 (), yday = vp_i32 (), month = -7, mday = -7;
  int valid = year >= 1678 && year <= 2262;
  if (valid) year = pickyear ();
  int r = ms_doy2md (year, yday, &month, &mday);
  if (!valid || yday < 1 || yday > 365 + r_leap (year)) { VP_ASSERT (r == -1, "invalid date refused"); VP_REACH ("refused"); return; }
  VP_ASSERT (r == 0, "valid date accepted");
  VP_ASSERT (month >= 1 && month <= 12 && mday >= 1 && mday <= r_mlen (year, month), "month and day valid");
  int sum = mday; for (int i = 1; i < 12; i++) if (i < month) sum += r_mlen (year, i);
  VP_ASSERT (sum == yday, "month and day are those of the day-of-year");
  int back = 0;
  VP_ASSERT (ms_md2doy (year, month, mday, &back) == 0 && back == yday, "inverse");
  VP_REACH ("end");
}
void h_md2doy (void)
{
  int year = vp_i32 (), month = vp_i32 (), mday = vp_i32 (), yday = -7;
  int vy = year >= 1678 && year <= 2262;
  if (vy) year = pickyear ();
  if (month >= 1 && month <= 12) month = (int)vp_concretize (month);
  int r = ms_md2doy (year, month, mday, &yday);
  if (!vy || month < 1 || month > 12 || mday < 1 || mday > r_mlen (year, month)) { VP_ASSERT (r == -1, "invalid date refused"); VP_REACH ("refused"); return; }
  VP_ASSERT (r == 0, "valid date accepted");
  int sum = mday; for (int i = 1; i < 12; i++) if (i < month) sum += r_mlen (year, i);
  VP_ASSERT (yday == sum, "day of year");
  int m2 = 0, d2 = 0;
  VP_ASSERT (ms_doy2md (year, yday, &m2, &d2) == 0 && m2 == month && d2 == mday, "inverse");
  VP_REACH ("end");
}

/* ---- time strings ---- */
static char *put (char *p, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) { p[i] = (char)('0' + v % 10); v /= 10; } return p + n; }
static char *puts_ (char *p, const char *s) { while (*s) *p++ = *s++; return p; }
#ifndef FMTS
#define FMTS {0,1,2,3,4,5,6}
#endif
static const int fmts[] = FMTS;
#define NF ((int)(sizeof (fmts) / sizeof (fmts[0])))
static int subdigits (int sub, uint32_t ns) /* sub-second digits printed, from the documentation of ms_subseconds_t */
{
  switch (sub) {
  case NONE: return 0; case MICRO: return 6; case NANO: return 9;
  case MICRO_NONE: return ns / 1000 ? 6 : 0; case NANO_NONE: return ns ? 9 : 0;
  case NANO_MICRO: return ns % 1000 ? 9 : 6;
  default: return ns % 1000 ? 9 : ns ? 6 : 0;
  }
}
void h_time_fmt (void)
{
  int fmt = fmts[vp_concretize (vp_u8 () % NF)], sub = vp_concretize (vp_u8 () % 7);
  tcomp c = pick (); int mday = 0, month = 0;
  char e[64], out[64], *p = e;
  int dg = (int)vp_concretize (subdigits (sub, c.nsec));
  month = c.month; mday = c.mday;
  p = put (p, c.year, 4);
  if (fmt == SEEDORDINAL) { *p++ = ','; p = put (p, c.yday, 3); *p++ = ','; }
  else { *p++ = '-'; p = put (p, month, 2); *p++ = '-'; p = put (p, mday, 2); *p++ = fmt == ISOMONTHDAY_SPACE || fmt == ISOMONTHDAY_SPACE_Z ? ' ' : 'T'; }
  p = put (p, c.hour, 2); *p++ = ':'; p = put (p, c.min, 2); *p++ = ':'; p = put (p, c.sec, 2);
  if (dg) { *p++ = '.'; p = put (p, dg == 6 ? c.nsec / 1000 : c.nsec, dg); }
  int64_t want = dg == 9 ? c.t : dg == 6 ? c.t - c.nsec + c.nsec / 1000 * 1000 : c.t - c.nsec;
  if (fmt == ISOMONTHDAY_Z || fmt == ISOMONTHDAY_DOY_Z || fmt == ISOMONTHDAY_SPACE_Z) *p++ = 'Z';
  if (fmt == ISOMONTHDAY_DOY || fmt == ISOMONTHDAY_DOY_Z) { p = puts_ (p, " ("); p = put (p, c.yday, 3); *p++ = ')'; }
  *p++ = 0;
  int zfn = vp_concretize (vp_u8 () & 1); /* the "z" variant adds the Z designator */
  int f2 = zfn && (fmt == ISOMONTHDAY_Z || fmt == ISOMONTHDAY_DOY_Z || fmt == ISOMONTHDAY_SPACE_Z) ? fmt - 1 : fmt;
  char *r = f2 != fmt ? ms_nstime2timestrz (c.t, out, f2, sub) : ms_nstime2timestr (c.t, out, fmt, sub);
  VP_ASSERT (r == out, "formatting succeeds");
  int bad = 0; for (int i = 0; i < p - e; i++) bad |= e[i] != out[i];
  VP_ASSERT (!bad, "text shows the calendar components");
  if (fmt != ISOMONTHDAY_DOY && fmt != ISOMONTHDAY_DOY_Z)
    VP_ASSERT (ms_timestr2nstime (e) == want, "text parses back to the same time");
  VP_REACH ("end");
}
static const uint64_t pow10[] = {1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull, 100000000000000ull, 1000000000000000ull, 10000000000000000ull, 100000000000000000ull, 1000000000000000000ull};
/* any value of exactly nd decimal digits, at most max */
static uint64_t dec (int nd, uint64_t max) { uint64_t lo = nd == 1 ? 0 : pow10[nd - 1], hi = nd == 19 || pow10[nd] - 1 > max ? max : pow10[nd] - 1; return lo + vp_u64 () % (hi - lo + 1); }
/* Unix epoch text: sign, whole seconds, fraction of the magnitude */
void h_time_epoch (void)
{
  int sub = vp_concretize (vp_u8 () % 7), neg = vp_concretize (vp_u8 () & 1), nd = 1 + (int)vp_concretize (vp_u8 () % 10);
  char e[64], out[64], *p = e;
  int nz = vp_concretize (vp_u8 () & 1), sz = nd == 1 ? vp_concretize (vp_u8 () & 1) : 0;
  uint64_t s = sz ? 0 : nd == 1 ? 1 + vp_u8 () % 9 : dec (nd, 9223372035ull); uint32_t ns = nz ? 0 : 1 + vp_u32 () % 999999999;
  if (neg) *p++ = '-';
  p = put (p, s, nd);
  int dg = vp_concretize (subdigits (sub, ns));
  if (dg) { *p++ = '.'; p = put (p, dg == 6 ? ns / 1000 : ns, dg); }
  *p = 0;
  int64_t t = (int64_t)(s * 1000000000ull + ns), w = dg == 9 ? t : dg == 6 ? t - ns + ns / 1000 * 1000 : t - ns;
  if (neg) { t = -t; w = -w; }
  int signless = neg && s == 0 && (dg == 0 || ns == 0); /* sign of zero: not significant */
  VP_ASSERT (ms_nstime2timestr (t, out, UNIXEPOCH, sub) == out, "formatting succeeds");
  if (!signless) { int bad = 0; for (int i = 0; i <= p - e; i++) bad |= e[i] != out[i]; VP_ASSERT (!bad, "text shows the epoch value"); }
  /* four unsigned digits are a year */
  if (!(nd == 4 && !neg && dg == 0)) VP_ASSERT (ms_timestr2nstime (e) == w, "text parses back to the same time");
  VP_REACH ("end");
}
void h_time_nsepoch (void)
{
  int neg = vp_concretize (vp_u8 () & 1), sub = vp_concretize (vp_u8 () % 7), nd = 1 + (int)vp_concretize (vp_u8 () % (sub < 3 ? 19 : 6));
  char e[64], out[64], *p = e; uint64_t s = nd == 1 && neg ? 1 + vp_u8 () % 9 : dec (nd, INT64_MAX);
  if (neg) *p++ = '-';
  p = put (p, s, nd); *p = 0;
  VP_ASSERT (ms_nstime2timestr (neg ? -(int64_t)s : (int64_t)s, out, NANOSECONDEPOCH, sub) == out, "formatting succeeds");
  int bad = 0; for (int i = 0; i <= p - e; i++) bad |= e[i] != out[i]; VP_ASSERT (!bad, "text shows the nanosecond epoch value");
  VP_REACH ("end");
}

/* Any well-formed time text: the time written, or an error if a component is out of range */
void h_time_parse (void)
{
  static const char *const dseps[] = {"--T", "//T", "-- ", "//T"}, *const oseps[] = {"-T", ",,", ", ", ",T"};
  int ord = vp_concretize (vp_u8 () & 1), sp = vp_concretize (vp_u8 () & 3), nf = vp_concretize (vp_u8 () % 7), z = vp_concretize (vp_u8 () & 1);
  if (ord) { VP_ASSUME (nf != 2); } /* partial forms: year; (year-month is not a form) year-day; then h, m, s, fraction */
  else VP_ASSUME (nf != 1);
  const char *sep = ord ? oseps[sp] : dseps[sp];
  VP_ASSUME (sp == 0 || nf > 0);
  int fd = nf == 6 ? 1 + (int)vp_concretize (vp_u8 () % 9) : 0;
  int year = pickyear (), mon = nf && !ord ? (int)vp_concretize (vp_u8 () % 14) : 1, day = 1, h = 0, m = 0, s = 0; uint32_t ns = 0;
  char e[64], *p = e;
  p = put (p, year, 4);
  if (nf >= 1) {
    *p++ = sep[0];
    if (ord) { day = vp_u16 () % 1000; p = put (p, day, 3); } else { p = put (p, mon, 2); *p++ = sep[1]; day = vp_u8 () % 100; p = put (p, day, 2); }
  }
  if (nf >= 3) { *p++ = ord ? sep[1] : sep[2]; h = vp_u8 () % 100; p = put (p, h, 2); }
  if (nf >= 4) { *p++ = ':'; m = vp_u8 () % 100; p = put (p, m, 2); }
  if (nf >= 5) { *p++ = ':'; s = vp_u8 () % 100; p = put (p, s, 2); }
  if (fd) { uint32_t f = vp_u32 () % (uint32_t)pow10[fd]; *p++ = '.'; p = put (p, f, fd); ns = f * (uint32_t)pow10[9 - fd]; }
  if (z && nf) *p++ = vp_concretize (vp_u8 () & 1) ? 'Z' : 'z';
  *p++ = 0;
  char *t = vp_alloc (p - e); memcpy (t, e, p - e); /* exact-size buffer: reading past the terminator is an error */
  nstime_t r = ms_timestr2nstime (t);
  int ok = (year >= 1678) & (year <= 2262) & (mon >= 1) & (mon <= 12) & (day >= 1) & (day <= (ord ? 365 + r_leap (year) : r_mlen (year, mon))) & (h <= 23) & (m <= 59) & (s <= 60);
  if (!ok) { VP_ASSERT (r == NSTERROR, "out-of-range component is refused"); VP_REACH ("refused"); return; }
  int yday = day; if (!ord) for (int i = 1; i < mon; i++) yday += r_mlen (year, i);
  if (year == 2262 && yday > 100) { VP_ASSERT (yday == 101 || r == NSTERROR, "time beyond the representable range is refused"); return; }
  int64_t w = ((((r_jan1 (year) + yday - 1) * 24 + h) * 60 + m) * 60 + s) * 1000000000LL + ns;
  VP_ASSERT (r == w, "the time written");
  VP_REACH ("end");
}
#ifndef TL
#define TL 5
#endif
/* Any text at all: total, inside the string, and refused if it uses other characters */
void h_time_any (void)
{
  int n = vp_concretize (vp_u8 () % (TL + 1)); char *t = vp_alloc (n + 1);
  int bad = n == 0;
  for (int i = 0; i < n; i++) {
    char c = (char)vp_u8 (); VP_ASSUME (c != 0); t[i] = c;
    bad |= !(((c >= '0') & (c <= '9')) | (c == '-') | (c == '/') | (c == ',') | (c == ':') | (c == '.') | (c == 'T') | (c == ' ') | ((i == 0) & (c == '+')) | ((i == n - 1) & ((c == 'Z') | (c == 'z'))));
  }
  t[n] = 0;
  nstime_t r = ms_timestr2nstime (t);
  if (bad) { VP_ASSERT (r == NSTERROR, "text that is not a time is refused"); VP_REACH ("refused"); } else VP_REACH ("end");
  if (r != NSTERROR && n == 4 && t[0] != '+' && t[0] != '-' && t[1] != '.' && t[2] != '.' && t[3] != '.' && t[0] != '.') VP_REACH ("year");
}
/* epoch seconds with sign, 1..9 fractional digits; beyond the range: refused */
void h_time_pepoch (void)
{
  int sg = vp_concretize (vp_u8 () % 3), nd = 1 + (int)vp_concretize (vp_u8 () % 12), fd = (int)vp_concretize (vp_u8 () % 10), z = vp_concretize (vp_u8 () & 1);
  uint64_t s = nd == 10 && vp_concretize (vp_u8 () & 1) ? 9223372037ull + vp_u64 () % (9999999999ull - 9223372036ull) : dec (nd, nd == 10 ? 9223372035ull : ~0ull >> 1); uint32_t f = fd ? vp_u32 () % (uint32_t)pow10[fd] : 0;
  char e[64], *p = e;
  if (sg) *p++ = sg == 1 ? '-' : '+';
  p = put (p, s, nd); if (fd) { *p++ = '.'; p = put (p, f, fd); } *p++ = 0; (void)z;
  if (sg == 0 && nd == 4 && !fd) return; /* a year */
  if (sg == 0 && p - e == 5 && fd) return; /* four characters, e.g. 12.5: ambiguous */
  char *t = vp_alloc (p - e); memcpy (t, e, p - e);
  nstime_t r = ms_timestr2nstime (t);
  if (s > 9223372036ull) { VP_ASSERT (r == NSTERROR, "epoch time beyond the range is refused"); VP_REACH ("refused"); return; }
  int64_t w = (int64_t)s * 1000000000LL + (int64_t)f * (int64_t)pow10[9 - fd];
  VP_ASSERT (r == (sg == 1 ? -w : w), "the epoch time written");
  VP_REACH ("end");
}
