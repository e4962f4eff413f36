/* Log message construction and registry (G01) */
#include "libmseed.h"
#include "vp.h"
#ifndef STEPS
#define STEPS 4
#endif
#define MX MAX_LOG_MSG_LENGTH
static char got[12][MX + 8]; static int ngot, isdiag[12];
static void keep (const char *m, int d) { VP_ASSERT (ngot < 12, "messages printed once"); size_t n = 0; while (m[n]) { VP_ASSERT (n < MX - 1, "printed message is within the documented maximum"); got[ngot][n] = m[n]; n++; } got[ngot][n] = 0; isdiag[ngot++] = d; }
static void lp (const char *m) { keep (m, 0); }
static void dp (const char *m) { keep (m, 1); }
static int eq (const char *a, const char *b, int n) { int r = 1; for (int i = 0; i < n; i++) r &= a[i] == b[i]; return r; }
static char *text (int n) { char *s = vp_alloc (n + 1); for (int i = 0; i < n; i++) { if (i < 2 || i > n - 4 || (i >= MX - 3 && i < MX + 2)) { uint8_t c = vp_u8 (); VP_ASSUME (c != 0); s[i] = (char)c; } else s[i] = (char)('a' + i % 26); } s[n] = 0; return s; }
static char *prefix (int n) { char *s = vp_alloc (n + 1); memset (s, 'p', n); s[n] = 0; return s; }

/* one message: prefix and text, truncated, to the right destination */
void h_message (void)
{
  static const int lens[] = { 0, 1, 2, 5, 187, 188, 193, 194, 195, 196, 197, 198, 199, 200, 201, 250, 420 }, pres[] = { -1, 0, 1, 5, 197, 198, 199, 200, 250 };
  MSLogParam p = MSLogParam_INITIALIZER; int level = vp_concretize (vp_u8 () % 4), li = vp_concretize (vp_u8 () % 17), pi = vp_concretize (vp_u8 () % 9), reg = vp_concretize (vp_u8 () % 2);
  int n = lens[li], pl = pres[pi]; char *t = text (n); char *pre = pl < 0 ? NULL : prefix (pl);
  int glob = vp_concretize (vp_u8 () % 2);
  if (glob) ms_rloginit (lp, level < 2 ? pre : NULL, dp, level >= 2 ? pre : NULL, reg ? 3 : 0);
  else VP_ASSERT (ms_rloginit_l (&p, lp, level < 2 ? pre : NULL, dp, level >= 2 ? pre : NULL, reg ? 3 : 0) == &p, "initialized");
  if (pl >= MX) { /* refused with a message about it */
    ms_rlog_free (glob ? NULL : &p); ngot = 0; pl = -1;
  }
  const char *xp = pl >= 0 ? pre : level >= 2 ? "Error: " : ""; int xl = (int)strlen (xp);
  char *e = vp_alloc (xl + n + 1); memcpy (e, xp, xl); memcpy (e + xl, t, n + 1); int el = xl + n; if (el > MX - 1) el = MX - 1; e[el] = 0;
  int r = glob ? ms_rlog ("func", level, "%s", t) : ms_rlog_l (&p, "func", level, "%s", t);
  VP_ASSERT (r >= 0, "a count is returned");
  if (reg && level >= 1) {
    VP_ASSERT (ngot == 0, "kept for later");
    if (el > 0 && vp_concretize (e[el - 1] == '\n')) e[--el] = 0;
    VP_ASSERT (ms_rlog_emit (glob ? NULL : &p, 0, 0) == 1, "number of messages emitted");
    VP_REACH ("registered");
  }
  VP_ASSERT (ngot == 1, "printed once"); VP_ASSERT (isdiag[0] == (level >= 1), "errors and warnings to the diagnostic printer, messages to the log printer");
  VP_ASSERT (eq (got[0], e, el + 1), "prefix and text, truncated to the documented maximum");
  VP_ASSERT (ms_rlog_free (glob ? NULL : &p) == 0, "nothing left");
  VP_REACH ("end");
}

/* a registry of N entries is the newest N, printed oldest first, once */
void h_registry (void)
{
  MSLogParam p = MSLogParam_INITIALIZER; int max = 1 + vp_concretize (vp_u8 () % 3), model[16], nm = 0;
  ms_rloginit_l (&p, lp, NULL, dp, "", max);
  int steps = 1 + vp_concretize (vp_u8 () % STEPS), id = 0;
  for (int k = 0; k < steps; k++) {
    int op = vp_concretize (vp_u8 () % 4);
    if (op <= 1) { int level = 1 + op; char t[2] = { (char)('A' + id), 0 }; ms_rlog_l (&p, id & 1 ? "a_function_with_a_name_longer_than_the_field" : NULL, level, "%s\n", t); model[nm++] = id++; if (nm > max) { for (int i = 1; i < nm; i++) model[i - 1] = model[i]; nm--; } VP_ASSERT (ngot == 0, "kept"); }
    else if (op == 2) {
      int want = vp_concretize (vp_u8 () % 4), c = want == 0 || want > nm ? nm : want, ctx = vp_concretize (vp_u8 () & 1), ok = 1; ngot = 0;
      VP_ASSERT (ms_rlog_emit (&p, want, ctx) == c, "number of messages emitted");
      VP_ASSERT (ngot == c, "each message printed once");
      for (int i = 0; i < c; i++) { int l = (int)strlen (got[i]); ok &= l >= 1 && got[i][l - 1] == 'A' + model[nm - c + i] && isdiag[i]; if (!ctx) ok &= l == 1; }
      VP_ASSERT (ok, "the newest messages, oldest first"); nm -= c; ngot = 0; VP_REACH ("emit");
    } else { VP_ASSERT (ms_rlog_free (&p) == nm, "number of messages discarded"); nm = 0; VP_REACH ("free"); }
  }
  VP_ASSERT (ms_rlog_free (&p) == nm, "messages left"); VP_ASSERT (ms_rlog_emit (&p, 0, 0) == 0 && ngot == 0, "nothing left");
  VP_REACH ("end");
}
