/* S06: selection files */
#include "libmseed.h"
#include "vp.h"
#include <stdio.h>
#include "fakefs.h"
typedef struct { const char *text; int comp; const char *f[4]; const char *start, *end; int pv, res; } line; /* res: 0 adds, 1 adds nothing, -1 refused */
#define S1 "2010-01-02T03:04:05.123456"
#define S2 "2011,032,04:05:06"
#define S3 "1999/12/31"
static const line lines[] = {
  { "FDSN:XX_*", 0, { "FDSN:XX_*" }, 0, 0, 0, 0 },
  { "FDSN:XX_A*\t" S1, 0, { "FDSN:XX_A*" }, S1, 0, 0, 0 },
  { "FDSN:XX_*  " S1 " " S2, 0, { "FDSN:XX_*" }, S1, S2, 0, 0 },
  { "* " S3 " " S1 " 3", 0, { "*" }, S3, S1, 3, 0 },
  { "* " S3 " " S1 " 0", 0, { "*" }, S3, S1, 0, 0 },
  { "* " S3 " " S1 " 255", 0, { "*" }, S3, S1, 255, 0 },
  { "XX ABC 00 BHZ", 1, { "XX", "ABC", "00", "BHZ" }, 0, 0, 0, 0 },
  { "X? *  --\tB_H_Z", 1, { "X?", "*", "--", "B_H_Z" }, 0, 0, 0, 0 },
  { "XX ABC * LH? D", 1, { "XX", "ABC", "*", "LH?" }, 0, 0, 0, 0 },
  { "XX ABC * LH? 4", 1, { "XX", "ABC", "*", "LH?" }, 0, 0, 4, 0 },
  { "XX ABC * LH? R " S3, 1, { "XX", "ABC", "*", "LH?" }, S3, 0, 0, 0 },
  { "XX ABC * LH? 2  " S1 " " S2, 1, { "XX", "ABC", "*", "LH?" }, S1, S2, 2, 0 },
  { "# a comment", 0, { 0 }, 0, 0, 0, 1 }, { "", 0, { 0 }, 0, 0, 0, 1 }, { " \t ", 0, { 0 }, 0, 0, 0, 1 }, { "#", 0, { 0 }, 0, 0, 0, 1 },
  { "one two", 0, { 0 }, 0, 0, 0, 1 }, { "one two three", 0, { 0 }, 0, 0, 0, 1 }, { "a b c d e f", 0, { 0 }, 0, 0, 0, 1 }, { "a b c d e f g h i j", 0, { 0 }, 0, 0, 0, 1 },
  { "* 2010-13-01", 0, { 0 }, 0, 0, 0, -1 }, { "* " S1 " 2010-02-30", 0, { 0 }, 0, 0, 0, -1 }, { "* 2010,367", 0, { 0 }, 0, 0, 0, -1 }, { "XX A * * D 2010-01-01T25:00:00", 0, { 0 }, 0, 0, 0, -1 }, { "XX A * * 1 " S1 " 2010-01-32", 0, { 0 }, 0, 0, 0, -1 },
  { "* " S1 " " S2 " 256", 0, { 0 }, 0, 0, 0, -1 }, { "XX A * * 256", 0, { 0 }, 0, 0, 0, -1 }, { "* " S1 "x", 0, { 0 }, 0, 0, 0, -1 },
};
#define NL ((int)(sizeof (lines) / sizeof (lines[0])))
static nstime_t tm_ (const char *s) { if (!s) return NSTUNSET; nstime_t t = ms_timestr2nstime (s); VP_ASSERT (t != NSTERROR, "time"); return t; }
static void same (MS3Selections *a, MS3Selections *b)
{
  for (; a && b; a = a->next, b = b->next) { VP_ASSERT (!strcmp (a->sidpattern, b->sidpattern) && a->pubversion == b->pubversion, "pattern and version"); MS3SelectTime *x = a->timewindows, *y = b->timewindows; for (; x && y; x = x->next, y = y->next) VP_ASSERT (x->starttime == y->starttime && x->endtime == y->endtime, "times"); VP_ASSERT (!x && !y, "number of time windows"); }
  VP_ASSERT (!a && !b, "number of selections");
}
static int want (MS3Selections **e, const line *l) { if (l->res) return l->res; return l->comp ? ms3_addselect_comp (e, (char *)l->f[0], (char *)l->f[1], (char *)l->f[2], (char *)l->f[3], tm_ (l->start), tm_ (l->end), (uint8_t)l->pv) : ms3_addselect (e, l->f[0], tm_ (l->start), tm_ (l->end), (uint8_t)l->pv); }
static char buf[1600]; static void file (void) { size_t n = strlen (buf); unsigned char *d = vp_alloc (n); memcpy (d, buf, n); memset (ff_, 0, sizeof ff_); ff_[0].name = "s"; ff_[0].d = d; ff_[0].n = (long)n; }
void h_lines (void)
{
  static const char *lead[] = { "", "  ", "\t" }, *eol[] = { "\n", "\r\n", "  \n" }; leapsecondlist = NULL; int n = 1 + vp_concretize (vp_u8 () & 1), k[2] = { 0 }, cnt = 0, bad = 0; MS3Selections *e = NULL, *g = NULL; buf[0] = 0;
  for (int i = 0; i < n; i++) { k[i] = vp_concretize (vp_u8 () % NL); int fmt = vp_concretize (vp_u8 () & 3); strcat (buf, lead[fmt % 3]); strcat (buf, lines[k[i]].text); if (i < n - 1 || fmt < 3) strcat (buf, eol[fmt % 3]); if (!bad) { int w = want (&e, &lines[k[i]]); if (w < 0) bad = 1; else if (w == 0) cnt++; } }
  file (); int r = ms3_readselectionsfile (&g, "s"); if (bad) { VP_ASSERT (r == -1, "malformed line is refused"); VP_REACH ("bad"); } else { VP_ASSERT (r == cnt, "number of selections added"); VP_ASSERT (ff_[0].open == 0, "file is closed"); VP_REACH ("end"); } same (g, e);
}
/* any characters in a source identifier pattern */
void h_chars (void)
{
  leapsecondlist = NULL; int n = 1 + vp_concretize (vp_u8 () % 3), tail = vp_concretize (vp_u8 () & 1); char w[8]; int i; for (i = 0; i < n; i++) { w[i] = (char)vp_u8 (); uint8_t c = (uint8_t)w[i]; VP_ASSUME ((c > 32) & (c < 127)); } w[i] = 0; strcpy (buf, " "); strcat (buf, w); if (tail) strcat (buf, " " S1); strcat (buf, "\nX\n"); file (); MS3Selections *e = NULL, *g = NULL; int hash = vp_concretize (w[0] == '#'); if (!hash) ms3_addselect (&e, w, tail ? tm_ (S1) : NSTUNSET, NSTUNSET, 0); ms3_addselect (&e, "X", NSTUNSET, NSTUNSET, 0);
  VP_ASSERT (ms3_readselectionsfile (&g, "s") == 2 - hash, "number of selections added"); same (g, e); if (hash) VP_REACH ("comment"); else VP_REACH ("end");
}
/* lines longer than any selection */
void h_long (void)
{
  static const int lens[] = { 150, 196, 197, 198, 199, 200, 250, 396, 397, 398, 400, 800 }; int n = lens[vp_concretize (vp_u8 () % 12)], kind = vp_concretize (vp_u8 () % 3), nl = vp_concretize (vp_u8 () & 1), i = 0; if (kind == 0) { buf[i++] = '#'; } while (i < n) { buf[i] = kind == 2 ? ' ' : i % 11 == 10 ? ' ' : 'A'; i++; } buf[i] = 0; if (kind == 2) { memcpy (buf, "FDSN:*", 6); memcpy (buf + n - 1, "#", 1); } if (nl) strcat (buf, "\n*\n"); file ();
  MS3Selections *e = NULL, *g = NULL; int r = ms3_readselectionsfile (&g, "s"); if (kind == 0) { if (nl) ms3_addselect (&e, "*", NSTUNSET, NSTUNSET, 0); VP_ASSERT (r == nl, "comment adds nothing"); same (g, e); VP_REACH ("comment"); } else { VP_ASSERT (r == -1 || r == nl, "an unrecognized line adds nothing"); VP_REACH ("end"); }
}
