/* Identifier codes (S01, S02), fixed-width strings (S03), allocation (M01) */
#include "libmseed.h"
#include "vp.h"
#ifndef NMAX
#define NMAX 2
#endif
#ifndef SMAX
#define SMAX 7
#endif
#ifndef FMAX
#define FMAX 5
#endif
extern int ms_strncpclean (char *dest, const char *source, int length);
extern int ms_strncpcleantail (char *dest, const char *source, int length);
extern int ms_strncpopen (char *dest, const char *source, int length);
/* any character but NUL and the separators */
static char ord (void) { uint8_t c = vp_u8 (); VP_ASSUME ((c != 0) & (c != '_') & (c != ':')); return (char)c; }
static int gen (char *d, int lo, int hi) { int n = lo + vp_concretize (vp_u8 () % (hi - lo + 1)); for (int i = 0; i < n; i++) d[i] = ord (); d[n] = 0; return n; }
static int eq (const char *a, const char *b, int n) { int r = 1; for (int i = 0; i < n; i++) r &= a[i] == b[i]; return r; } /* n bytes, without forking */

void h_sid_build (void)
{
  char n[8], s[8], l[8], c[8]; int form = vp_concretize (vp_u8 () % 5);
  int ln = gen (n, 1, NMAX), ls = gen (s, 1, NMAX), ll = gen (l, 0, 2), lc;
  char x[8]; int lx; /* expected channel part */
  if (form == 0) { lc = gen (c, 3, 3); x[0] = c[0]; x[1] = '_'; x[2] = c[1]; x[3] = '_'; x[4] = c[2]; lx = 5; }
  else if (form == 1) { c[0] = ord (); c[1] = '_'; c[2] = ord (); c[3] = '_'; c[4] = ord (); lc = lx = 5; memcpy (x, c, 5); }
  else if (form == 2) { c[0] = ord (); c[1] = ord (); c[2] = '_'; c[3] = ord (); c[4] = '_'; c[5] = ord (); lc = lx = 6; memcpy (x, c, 6); }
  else if (form == 3) { c[0] = '_'; c[1] = ord (); c[2] = '_'; lc = lx = 3; memcpy (x, c, 3); x[0] = '_'; x[1] = '_'; x[2] = c[1]; x[3] = '_'; x[4] = '_'; lx = 5; }
  else { lc = lx = gen (c, 0, 2); memcpy (x, c, lx); }
  c[lc] = 0;
  int need = 5 + ln + 1 + ls + 1 + ll + 1 + lx + 1, size = 15 + vp_concretize (vp_u8 () % 12); char *sid = vp_alloc (size); sid[0] = 0x55;
  int r = ms_nslc2sid (sid, size, 0, n, s, form == 4 && ll == 0 ? NULL : l, c);
  if (size < 16 || need > size) { VP_ASSERT (r == -1, "an identifier that does not fit is refused"); VP_REACH ("small"); return; }
  VP_ASSERT (r == need - 1, "length of the identifier"); VP_ASSERT (sid[r] == 0, "terminated");
  int o = 5; VP_ASSERT (eq (sid, "FDSN:", 5), "namespace");
  VP_ASSERT (eq (sid + o, n, ln), "network"); o += ln; VP_ASSERT (sid[o] == '_', "separator"); o++;
  VP_ASSERT (eq (sid + o, s, ls), "station"); o += ls; VP_ASSERT (sid[o] == '_', "separator"); o++;
  VP_ASSERT (eq (sid + o, l, ll), "location"); o += ll; VP_ASSERT (sid[o] == '_', "separator"); o++;
  VP_ASSERT (eq (sid + o, x, lx), "channel");
  char *n2 = vp_alloc (ln + 1), *s2 = vp_alloc (ls + 1), *l2 = vp_alloc (ll + 1), *c2 = vp_alloc (lx + 1);
  int q = ms_sid2nslc (sid, n2, s2, l2, c2);
  if (form == 3 || form == 4) { VP_ASSERT (q == -1, "wrong number of parts is refused"); VP_REACH ("bad"); return; }
  VP_ASSERT (q == 0, "splits"); VP_ASSERT (eq (n2, n, ln + 1) & eq (s2, s, ls + 1) & eq (l2, l, ll + 1), "same network, station, location");
  if (form == 2) VP_ASSERT (eq (c2, c, 7), "extended channel unchanged");
  else if (form == 0) VP_ASSERT (eq (c2, c, 4), "same SEED channel");
  else VP_ASSERT ((c2[0] == c[0]) & (c2[1] == c[2]) & (c2[2] == c[4]) & (c2[3] == 0), "SEED form of the channel");
  VP_REACH ("end");
}
/* any text: refused unless FDSN: and five separators after the last colon; otherwise split at them */
void h_sid_split (void)
{
  char t[5 + SMAX + 1]; int pre = vp_concretize (vp_u8 () % 3), n = vp_concretize (vp_u8 () % (SMAX + 1)), at[SMAX], seps = 0, last = 4;
  memcpy (t, "FDSN:", 5); if (pre == 1) t[vp_concretize (vp_u8 () % 5)] = 'x'; if (pre == 2) { t[vp_concretize (vp_u8 () % 5)] = 0; }
  for (int i = 0; i < n; i++) {
    int k = vp_concretize (vp_u8 () % 4);
    if (k <= 1) { t[5 + i] = '_'; at[seps++] = 5 + i; } else if (k == 2) { t[5 + i] = ord (); } else { t[5 + i] = ':'; seps = 0; last = 5 + i; }
  }
  t[5 + n] = 0;
  char *copy = vp_alloc (6 + n); memcpy (copy, t, 6 + n);
  char a[SMAX + 6], b[SMAX + 6], c[SMAX + 6], d[SMAX + 6]; memset (d, 0x77, sizeof d);
  int r = ms_sid2nslc (copy, a, b, c, d);
  VP_ASSERT (eq (copy, t, 6 + n), "the identifier is not changed");
  if (pre || seps != 5) { VP_ASSERT (r == -1, "malformed identifier refused"); VP_REACH ("bad"); return; }
  VP_ASSERT (r == 0, "well-formed identifier accepted");
  int l0 = at[0] - last - 1, l1 = at[1] - at[0] - 1, l2 = at[2] - at[1] - 1, l3 = 5 + n - at[2] - 1;
  VP_ASSERT (eq (a, t + last + 1, l0) & (a[l0] == 0), "network part"); VP_ASSERT (eq (b, t + at[0] + 1, l1) & (b[l1] == 0), "station part"); VP_ASSERT (eq (c, t + at[1] + 1, l2) & (c[l2] == 0), "location part");
  if (l3 == 5 && at[3] == at[2] + 2 && at[4] == at[2] + 4) VP_ASSERT ((d[0] == t[at[2] + 1]) & (d[1] == t[at[2] + 3]) & (d[2] == t[at[2] + 5]) & (d[3] == 0), "SEED channel");
  else VP_ASSERT (eq (d, t + at[2] + 1, l3) & (d[l3] == 0), "extended channel");
  VP_ASSERT (ms_sid2nslc (copy, NULL, NULL, NULL, NULL) == 0, "outputs are optional");
  VP_REACH ("end");
}
void h_chan (void)
{ /* any string of 0..7 characters both ways */
  int n = vp_concretize (vp_u8 () % 8); char *in = vp_alloc (n + 1); for (int i = 0; i < n; i++) { in[i] = (char)vp_u8 (); VP_ASSUME (in[i] != 0); } in[n] = 0;
  char x[8], y[8]; memset (x, 0x55, 8); memset (y, 0x55, 8);
  int r = ms_seedchan2xchan (x, in);
  if (n != 3) VP_ASSERT (r == -1, "only three characters convert");
  else {
    VP_ASSERT (r == 0, "three characters convert"); VP_ASSERT ((x[0] == in[0]) & (x[1] == '_') & (x[2] == in[1]) & (x[3] == '_') & (x[4] == in[2]) & (x[5] == 0) & (x[6] == 0x55), "band, source, position with separators");
    VP_ASSERT (ms_xchan2seedchan (y, x) == 0 && eq (y, in, 4) && y[4] == 0x55, "and back"); VP_REACH ("seed");
    VP_ASSERT (ms_xchan2seedchan (NULL, x) == 0, "test only");
    VP_ASSERT (ms_xchan2seedchan (x, x) == 0 && eq (x, in, 4), "in place");
  }
  memset (y, 0x55, 8);
  r = ms_xchan2seedchan (y, in);
  int ok = n == 5 ? (in[1] == '_') & (in[3] == '_') : 0;
  VP_ASSERT (r == (ok ? 0 : -1), "converts exactly single-character codes");
  if (vp_concretize (ok)) { VP_ASSERT ((y[0] == in[0]) & (y[1] == in[2]) & (y[2] == in[4]) & (y[3] == 0) & (y[4] == 0x55), "the three codes"); VP_ASSERT (ms_seedchan2xchan (x, y) == 0 && eq (x, in, 6), "and back"); VP_REACH ("x"); }
  VP_ASSERT (ms_seedchan2xchan (NULL, in) == -1 && ms_seedchan2xchan (x, NULL) == -1 && ms_xchan2seedchan (x, NULL) == -1, "missing arguments");
}
/* bytes of the longest valid UTF-8 prefix (RFC 3629) that ends before NUL and within max */
static int u8len (const uint8_t *s, int max)
{
  int i = 0;
  while (i < max) {
    uint8_t b = s[i]; if (!b) break;
    if (b < 0x80) { i++; continue; }
    int k = (b >= 0xc2 && b <= 0xdf) ? 1 : (b >= 0xe0 && b <= 0xef) ? 2 : (b >= 0xf0 && b <= 0xf4) ? 3 : 0;
    if (!k || i + k >= max) break;
    uint8_t lo = b == 0xe0 ? 0xa0 : b == 0xf0 ? 0x90 : 0x80, hi = b == 0xed ? 0x9f : b == 0xf4 ? 0x8f : 0xbf;
    if (s[i + 1] < lo || s[i + 1] > hi) break;
    int bad = 0; for (int j = 2; j <= k; j++) if (s[i + j] < 0x80 || s[i + j] > 0xbf) { bad = 1; break; }
    if (bad) break;
    i += k + 1;
  }
  return i;
}
void h_strcpy (void)
{ /* field of n bytes, nothing readable behind it */
  int n = vp_concretize (vp_u8 () % (FMAX + 1)), which = vp_concretize (vp_u8 () % 3); uint8_t *s = vp_alloc (n); for (int i = 0; i < n; i++) s[i] = vp_u8 ();
  int u = u8len (s, n), k = 0; char e[FMAX + 1];
  if (which == 0) {
    char *d = vp_alloc (n + 1); int r = ms_strncpclean (d, (char *)s, n);
    for (int i = 0; i < u; i++) if (s[i] != ' ') e[k++] = (char)s[i];
    VP_ASSERT (r == k, "number of characters kept"); VP_ASSERT (eq (d, e, k) & (d[k] == 0), "the characters that are not spaces, terminated"); VP_REACH ("clean");
  } else if (which == 1) {
    char *d = vp_alloc (n + 1); int r = ms_strncpcleantail (d, (char *)s, n);
    for (k = u; k > 0 && s[k - 1] == ' '; k--) ;
    VP_ASSERT (r == k, "number of characters kept"); VP_ASSERT (eq (d, (char *)s, k) & (d[k] == 0), "everything before the trailing spaces, terminated"); VP_REACH ("tail");
  } else {
    char *d = vp_alloc (n); int r = ms_strncpopen (d, (char *)s, n), ok = 1;
    VP_ASSERT (r == u, "number of characters copied"); VP_ASSERT (eq (d, (char *)s, u), "the characters");
    for (int i = u; i < n; i++) ok &= d[i] == ' ';
    VP_ASSERT (ok, "padded with spaces"); VP_REACH ("open");
  }
}
void h_strterm (void)
{ /* terminated source, wider field */
  int n = vp_concretize (vp_u8 () % 4), w = n + 1 + vp_concretize (vp_u8 () % 3), ok = 1; char *s = vp_alloc (n + 1); for (int i = 0; i < n; i++) { uint8_t c = vp_u8 (); s[i] = (char)(1 + c % 127); } s[n] = 0;
  char *o = vp_alloc (w), *d = vp_alloc (n + 1), *t = vp_alloc (n + 1);
  VP_ASSERT (ms_strncpopen (o, s, w) == n, "copied to the terminator"); for (int i = 0; i < w; i++) ok &= o[i] == (i < n ? s[i] : ' '); VP_ASSERT (ok, "padded with spaces");
  ms_strncpclean (d, s, w); ms_strncpcleantail (t, s, w);
  VP_ASSERT (ms_strncpopen (o, NULL, w) == 0 && o[w - 1] == ' ' && o[0] == ' ', "no source: spaces"); VP_ASSERT (ms_strncpclean (d, NULL, w) == 0 && d[0] == 0 && ms_strncpcleantail (t, NULL, w) == 0 && t[0] == 0, "no source: empty");
  VP_REACH ("end");
}
