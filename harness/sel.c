/* Pattern matching and selections (S04, S05) through the public selection functions */
#include "libmseed.h"
#include "vp.h"
extern LeapSecond *leapsecondlist;
static const char special[] = "*?[]^-\\";
static const uint8_t *P; static const uint8_t *Sx; static const char *Cl; static int np, ns, unspec; /* pattern bytes and classes ('a': ordinary) */
/* the glob definition, without forking on byte values */
static int ref (int p, int s)
{
  if (p == np) return s == ns;
  char c = Cl[p];
  if (c == '*') { int r = ref (p + 1, s); if (s < ns) r |= ref (p, s + 1); return r; }
  if (c == '?') return s < ns ? ref (p + 1, s + 1) : 0;
  if (c == '[') {
    int neg = 0, in = 0, first = 1, j = p + 1, afterrange = 0; uint8_t x = s < ns ? Sx[s] : 0;
    if (j < np && Cl[j] == '^') { neg = 1; j++; }
    for (;; first = 0) {
      if (j >= np) return 0; /* no closing bracket: matches nothing */
      if (Cl[j] == ']' && !first) break;
      if (Cl[j] == '-' && (afterrange || (first && j + 1 < np && Cl[j + 1] == '-'))) unspec = 1;
      if (j + 1 < np && Cl[j + 1] == '-') {
        if (j + 2 >= np) return 0;
        if (Cl[j + 2] == ']') { unspec = 1; return 0; }
        in |= ((x >= P[j]) & (x <= P[j + 2])) | (x == P[j]) | (x == P[j + 2]); j += 3; afterrange = 1;
      } else { in |= x == P[j]; j++; afterrange = 0; }
    }
    if (s >= ns) { ref (j + 1, s); return 0; }
    return (neg ? !in : in) & ref (j + 1, s + 1);
  }
  if (c == '\\' && p + 1 < np) return s < ns ? (Sx[s] == P[p + 1]) & ref (p + 2, s + 1) : 0;
  return s < ns ? (Sx[s] == P[p]) & ref (p + 1, s + 1) : 0;
}
#ifndef MAXP
#define MAXP 4
#endif
#ifndef MAXS
#define MAXS 2
#endif
#ifndef MINP
#define MINP 0
#endif
#ifndef PREFIX
#define PREFIX ""
#endif
void h_glob (void)
{
  uint8_t pat[100], str[MAXS + 1]; char cl[MAXP + 1]; int pre = sizeof PREFIX - 1;
  np = MINP + vp_concretize (vp_u8 () % (MAXP - MINP + 1)); ns = vp_concretize (vp_u8 () % (MAXS + 1));
  for (int i = 0; i < np; i++) {
    int k = 7; if (i < pre) { for (k = 0; k < 7; k++) if (special[k] == PREFIX[i]) break; } else k = vp_concretize (vp_u8 () % 8);
    if (k < 7) pat[i] = cl[i] = special[k];
    else { uint8_t c = 1 + vp_u8 () % 127; VP_ASSUME ((c != '*') & (c != '?') & (c != '[') & (c != ']') & (c != '^') & (c != '-') & (c != '\\')); pat[i] = c; cl[i] = 'a'; }
  }
  for (int i = 0; i < ns; i++) str[i] = 1 + vp_u8 () % 255;
  str[ns] = 0; pat[np] = 0;
  P = pat; Sx = str; Cl = cl; unspec = 0;
  int r = ref (0, 0);
  if (unspec) return; /* forms the definition does not cover */
  for (int i = np + 1; i < 100; i++) pat[i] = vp_concretize ((i - np) & 1) ? ']' : '*'; /* nothing behind the pattern's end matters */
  MS3Selections sel; memset (&sel, 0, sizeof sel); memcpy (sel.sidpattern, pat, 100);
  const MS3Selections *m = ms3_matchselect (&sel, (char *)str, NSTUNSET, NSTUNSET, 0, NULL);
  VP_ASSERT (m == NULL || m == &sel, "result is an entry or none");
  VP_ASSERT ((m != NULL) == r, "accepts exactly the strings of the definition");
  VP_REACH ("end");
}

/* S05: entries of 0..2 time windows each, versions, with literal or '*' patterns */
static int isopen (nstime_t t) { return (t == NSTERROR) | (t == NSTUNSET); }
static nstime_t bound (int k) { return k == 0 ? NSTUNSET : k == 1 ? NSTERROR : (nstime_t)(vp_u64 () & 0x1fffffffffffffffull) - 0x1000000000000000ll; }
void h_select (void)
{
  static const char *pats[] = {"*", "FDSN:XX_A__B_H_Z", "FDSN:XX_*", "FDSN:YY_?__*"};
  static const char *sids[] = {"FDSN:XX_A__B_H_Z", "FDSN:YY_B__B_H_Z"};
  static const int acc[4][2] = {{1, 1}, {1, 0}, {1, 0}, {0, 1}};
  int n = vp_concretize (vp_u8 () % 3), si = vp_concretize (vp_u8 () & 1), anyhit = 0, hit[2] = {0, 0};
  MS3Selections e[2]; MS3SelectTime w[2][2]; memset (e, 0, sizeof e); memset (w, 0, sizeof w);
  int shape = vp_concretize (vp_u8 () % 2); /* record with a known span, or an open one */
  nstime_t s = shape ? bound (2) : NSTUNSET, t = shape ? s + (nstime_t)(vp_u64 () & 0xffffffffffull) : NSTUNSET; VP_ASSUME (!shape | (!isopen (s) & !isopen (t)));
  int pv = vp_u8 ();
  for (int i = 0; i < n; i++) {
    int pi = vp_concretize (vp_u8 () % (i ? 2 : 4)), nw = vp_concretize (vp_u8 () % (i ? 2 : 3)), ok = 0;
    strcpy (e[i].sidpattern, pats[pi]); e[i].pubversion = vp_u8 (); e[i].next = i + 1 < n ? &e[i + 1] : NULL; e[i].timewindows = nw ? &w[i][0] : NULL;
    for (int j = 0; j < nw; j++) {
      nstime_t a = bound (vp_concretize (vp_u8 () % 3)), b = bound (vp_concretize (vp_u8 () % 3)); VP_ASSUME (isopen (a) | isopen (b) | (a <= b));
      w[i][j].starttime = a; w[i][j].endtime = b; w[i][j].next = j + 1 < nw ? &w[i][j + 1] : NULL;
      ok |= !shape | ((isopen (a) | (t >= a)) & (isopen (b) | (s <= b)));
    }
    hit[i] = acc[pi][si] & ((e[i].pubversion == 0) | (e[i].pubversion == pv)) & (nw == 0 | ok); anyhit |= hit[i];
  }
  const MS3SelectTime *st = (void *)1;
  const MS3Selections *m = ms3_matchselect (n ? e : NULL, sids[si], s, t, pv, &st);
  VP_ASSERT ((m != NULL) == anyhit, "accepted exactly when an entry matches pattern, version and time");
  if (!m) { VP_REACH ("none"); return; }
  VP_ASSERT (m == &e[0] ? hit[0] : hit[1], "the returned entry matches"); VP_REACH ("match");
  if (!m->timewindows) VP_ASSERT (st == NULL, "no window reported");
  else { int k = m == &e[0] ? 0 : 1; VP_ASSERT (st == &w[k][0] || st == &w[k][1], "window of the entry");
    VP_ASSERT (!shape | ((isopen (st->starttime) | (t >= st->starttime)) & (isopen (st->endtime) | (s <= st->endtime))), "the returned window overlaps"); }
}
/* record form: span from start to last sample */
void h_selectmsr (void)
{
  MS3Selections e; MS3SelectTime w; memset (&e, 0, sizeof e); memset (&w, 0, sizeof w);
  strcpy (e.sidpattern, "*"); e.timewindows = &w; w.starttime = bound (2); w.endtime = w.starttime + (nstime_t)(vp_u64 () & 0xffffffffffull); VP_ASSUME (!isopen (w.starttime) & !isopen (w.endtime));
  static const int cnts[] = {0, 1, 2, 100, 3601, 1000000};
  MS3Record *m = msr3_init (NULL); strcpy (m->sid, "FDSN:XX_A__B_H_Z"); m->samprate = 10; m->samplecnt = cnts[vp_concretize (vp_u8 () % 6)]; m->starttime = bound (2); m->pubversion = 1; leapsecondlist = NULL; VP_ASSUME (!isopen (m->starttime));
  nstime_t end = m->starttime + (m->samplecnt ? (nstime_t)(m->samplecnt - 1) * 100000000 : 0); VP_ASSUME (!isopen (end));
  int exp = (end >= w.starttime) & (m->starttime <= w.endtime);
  VP_ASSERT ((msr3_matchselect (&e, m, NULL) != NULL) == exp, "selected exactly when the record's span overlaps the window");
  if (vp_concretize (exp)) VP_REACH ("in"); else VP_REACH ("out");
}
/* adding selections: what is added is what is matched against */
void h_addselect (void)
{
  MS3Selections *L = NULL; int n = 1 + vp_concretize (vp_u8 () % 3);
  static const char *pats[] = {"FDSN:XX_A_*", "FDSN:YY_*"}; int pi[3]; uint8_t pv[3]; nstime_t a[3], b[3];
  for (int i = 0; i < n; i++) {
    pi[i] = vp_concretize (vp_u8 () & 1); pv[i] = vp_u8 () & 1; a[i] = bound (2); b[i] = bound (2); VP_ASSUME (!isopen (a[i]) & !isopen (b[i]) & (a[i] <= b[i]));
    VP_ASSERT (ms3_addselect (&L, pats[pi[i]], a[i], b[i], pv[i]) == 0, "added");
  }
  nstime_t s = bound (2), t = s + (nstime_t)(vp_u64 () & 0xffffffffffull); int v = vp_u8 () & 3, si = vp_concretize (vp_u8 () & 1), exp = 0; VP_ASSUME (!isopen (s) & !isopen (t));
  for (int i = 0; i < n; i++) exp |= (pi[i] == si) & ((pv[i] == 0) | (pv[i] == v)) & (t >= a[i]) & (s <= b[i]);
  VP_ASSERT ((ms3_matchselect (L, si ? "FDSN:YY_B__B_H_Z" : "FDSN:XX_A_00_B_H_Z", s, t, v, NULL) != NULL) == exp, "the list accepts exactly what was added");
  ms3_freeselections (L);
  VP_REACH ("end");
}
/* selection from separate codes: NULL means any, "--" an empty location, SEED channels are mapped */
void h_addcomp (void)
{
  static char *nets[] = {NULL, "XX", "Y?"}, *locs[] = {NULL, "--", "", "00"}, *chans[] = {NULL, "BHZ", "B_H_Z", "B??", "*"};
  static const char *sids[] = {"FDSN:XX_AB__B_H_Z", "FDSN:YY_AB_00_B_H_Z", "FDSN:YZ_C_10_L_H_E", "FDSN:XX_AB__BB_H_Z"};
  static const char *sn[] = {"XX", "YY", "YZ", "XX"}, *sl[] = {"", "00", "10", ""};
  int ni = vp_concretize (vp_u8 () % 3), li = vp_concretize (vp_u8 () % 4), ci = vp_concretize (vp_u8 () % 5), si = vp_concretize (vp_u8 () & 3);
  MS3Selections *L = NULL;
  VP_ASSERT (ms3_addselect_comp (&L, nets[ni], NULL, locs[li], chans[ci], NSTUNSET, NSTUNSET, 0) == 0, "added");
  int ok = ni == 0 || (ni == 1 ? !strcmp (sn[si], "XX") : sn[si][0] == 'Y');
  ok = ok && (li == 0 || !strcmp (sl[si], li == 3 ? "00" : ""));
  ok = ok && (ci == 0 || ci == 4 || (ci == 3 ? si <= 1 : si <= 1));
  VP_ASSERT ((ms3_matchselect (L, sids[si], 0, 0, 1, NULL) != NULL) == ok, "codes select exactly their identifiers");
  VP_REACH ("end");
}
