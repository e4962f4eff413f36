/* A01: the msi program, run through its main() on records, files and output streams held in memory */
#include "libmseed.h"
#include "vp.h"
#include <stdarg.h>
#include <errno.h>
#include <ctype.h>
#include <time.h>
#define MAXR 4
static MS3Record rc[MAXR]; static int nrc, file_of[MAXR], cur, curfile = -1, nprinted, printed[16], nadded, added[16], closed, readerr, nnames, raw[16], sumr = -1, sumf = -1; static long long sums = -1; static char names[8][24]; static int32_t smp[MAXR][4]; static char recbuf[MAXR][8];
static int nlists, nbin, nout; static int32_t binv[32]; static char outv[64]; static int nval; static long vals[64];
static int a_read (MS3FileParam **pp, MS3Record **pm, const char *path, uint32_t flags, int8_t v)
{
  static MS3FileParam fp; static int open; if (!path) { closed++; *pm = NULL; *pp = NULL; open = 0; return MS_NOERROR; } VP_ASSERT (flags & MSF_VALIDATECRC, "checksums are verified");
  if (!open) { open = 1; curfile++; VP_ASSERT (nnames < 8, "files"); strncpy (names[nnames], path, 23); nnames++; *pp = &fp; cur = 0; while (cur < nrc && file_of[cur] != curfile) cur++; }
  if (cur < nrc && file_of[cur] == curfile) { fp.streampos += 8; *pm = &rc[cur++]; return MS_NOERROR; } return readerr ? MS_NOTSEED : MS_ENDOFFILE;
}
static int idx (const MS3Record *m) { return (int)(m - rc); }
static void a_print (const MS3Record *m, int8_t d) { (void)d; VP_ASSERT (nprinted < 16, "printed"); raw[nprinted] = 0; printed[nprinted++] = idx (m); }
static int a_raw (const char *r, int v) { (void)v; VP_ASSERT (nprinted < 16, "printed"); raw[nprinted] = v; for (int i = 0; i < nrc; i++) if (r == recbuf[i]) printed[nprinted++] = i; return 0; }
static int a_raw2 (const char *r, int l, int8_t d, int8_t s) { (void)d; (void)s; VP_ASSERT (l == 8, "length"); return a_raw (r, 2); }
static int a_raw3 (const char *r, int l, int8_t d) { (void)d; VP_ASSERT (l == 8, "length"); return a_raw (r, 3); }
static MS3TraceSeg *a_add (MS3TraceList *l, const MS3Record *m, int8_t s, int8_t h, uint32_t f, const MS3Tolerance *t) { (void)s; (void)f; (void)t; VP_ASSERT (h, "segments are joined"); VP_ASSERT (l != NULL && nadded < 16, "added"); added[nadded++] = idx (m); return NULL; }
static int64_t a_unpack (MS3Record *m, int8_t v) { (void)v; m->datasamples = smp[idx (m)]; m->numsamples = m->samplecnt; m->sampletype = 'i'; return m->numsamples; }
static int a_log (int lvl, const char *f, ...) { if (!strncmp (f, "Files:", 6)) { va_list a; va_start (a, f); sumf = (int)va_arg (a, int64_t); sumr = (int)va_arg (a, int64_t); sums = va_arg (a, int64_t); va_end (a); } else if (lvl == 0 && !strncmp (f, "%10d", 4)) { va_list a; va_start (a, f); VP_ASSERT (nval < 64, "values"); vals[nval++] = va_arg (a, int); va_end (a); } return 0; }
static void finish (int code); static void a_exit (int code) { finish (code); VP_ASSUME (0); }
static FILE *a_fopen (const char *p, const char *m); static size_t a_fwrite (const void *p, size_t s, size_t n, FILE *f); static int a_fclose (FILE *f) { (void)f; return 0; }
static const char *ltext; static long lpos; static char *a_fgets (char *b, int n, FILE *f) { int i = 0; (void)f; while (i < n - 1 && ltext[lpos]) { b[i++] = ltext[lpos]; if (ltext[lpos++] == '\n') break; } if (!i) return NULL; b[i] = 0; return b; }
static int a_printlist (void) { nlists++; return 0; }
static FILE *const BIN = (FILE *)&nbin, *const OUT = (FILE *)&nout, *const LST = (FILE *)&lpos;
static FILE *a_fopen (const char *p, const char *m) { if (!strcmp (p, "bin") && m[0] == 'w') return BIN; if (!strcmp (p, "out") && m[0] == 'w') return OUT; if (!strcmp (p, "lst") && m[0] == 'r') return LST; return NULL; }
static size_t a_fwrite (const void *p, size_t s, size_t n, FILE *f) { if (f == BIN) { VP_ASSERT (s == 4 && nbin + n <= 32, "samples written"); memcpy (binv + nbin, p, 4 * n); nbin += (int)n; } else { VP_ASSERT (f == OUT && nout + s * n <= 64, "records written"); memcpy (outv + nout, p, s * n); nout += (int)(s * n); } return n; }
#undef ms_log
#define ms_log(l, ...) a_log (l, __VA_ARGS__)
#define main msi_main
#define ms3_readmsr_r a_read
#define msr3_print a_print
#define ms_parse_raw2 a_raw2
#define ms_parse_raw3 a_raw3
#define mstl3_addmsr a_add
#define mstl3_init(x) ((MS3TraceList *)recbuf)
#define mstl3_free(a, b) ((void)0)
#define mstl3_printtracelist(a, b, c, d, e) a_printlist ()
#define mstl3_printgaplist(a, b, c, d) a_printlist ()
#define mstl3_printsynclist(a, b, c) a_printlist ()
#define msr3_unpack_data a_unpack
#define msr3_host_latency(m) 0.0
#define ms_loginit(a, b, c, d) ((void)0)
#define ms_readleapseconds(x) ((void)0)
#define libmseed_url_support() 0
#define ms3_url_useragent(a, b) 0
#define exit a_exit
#define fopen a_fopen
#define fwrite a_fwrite
#define fclose a_fclose
#define fgets a_fgets
#include "src/msi.c"
#undef main
#undef fopen
static char *av[20]; static int ac; static void arg (const char *s) { av[ac++] = (char *)s; } static int want[MAXR], nwant, wantall, wanterr;
static void finish (int code)
{ if (wanterr) VP_REACH ("error");
  int i, k = 0, files = 0, nf = 0; VP_ASSERT (code == (wanterr ? 1 : 0), "exit status"); (void)files; (void)nf;
  for (i = 0; i < nrc; i++) if (want[i]) { VP_ASSERT (k < nprinted && printed[k] == i, "every selected record is printed, in order"); k++; } VP_ASSERT (nprinted == k, "no other record is printed"); wantall = k;
}
static void run (void) { arg (NULL); int n = ac - 1, rv; rv = msi_main (n, av); finish (rv); }
static void rec (int i, nstime_t st, int cnt) { rc[i].starttime = st; rc[i].samplecnt = cnt; rc[i].samprate = 1.0; rc[i].record = recbuf[i]; rc[i].reclen = 8; rc[i].formatversion = 3; strcpy (rc[i].sid, "FDSN:A_B__H_H_Z"); recbuf[i][0] = (char)('0' + i); for (int k = 0; k < 4; k++) smp[i][k] = 10 * i + k; }
#define T0 1262304000000000000LL
#define SEC 1000000000LL
#ifndef CZ
#define CZ 0
#endif
/* time limits and record count, over two files */
#ifndef NR
#define NR 3
#endif
void h_time (void)
{
  leapsecondlist = NULL; static const char *ts[] = { "2010-01-01T00:00:10", "2010,001,00,00,10.5", "2010-01-01T00:00:20Z" }; static const nstime_t tv[] = { T0 + 10 * SEC, T0 + 10 * SEC + SEC / 2, T0 + 20 * SEC }; static const char *ns[] = { "0", "1", "2", "7" }; int i, hs, he, hn, left = 99, f1; nstime_t s = 0, e = 0, st, en; arg ("msi");
  hs = vp_concretize (vp_u8 () & 3); if (hs) { arg ("-ts"); arg (ts[hs - 1]); s = tv[hs - 1]; } he = vp_concretize (vp_u8 () & 3); if (he) { arg ("-te"); arg (ts[he - 1]); e = tv[he - 1]; } hn = vp_concretize (vp_u8 () % 5); if (hn) { arg ("-n"); arg (ns[hn - 1]); left = hn == 4 ? 7 : hn - 1; } int pm = hs && he ? 0 : vp_concretize (vp_u8 () % 3); if (pm) { arg (pm == 1 ? "-m" : "-r"); arg ("_B"); } arg ("-s"); arg ("one"); f1 = 1 + vp_concretize (vp_u8 () % NR); if (f1 < NR) arg ("two");
  nrc = NR; long long sm = 0; int cntr = 0, stop = 0; readerr = vp_concretize (vp_u8 () & 1);
  for (i = 0; i < NR; i++) { if (i == f1 && readerr && left > 0) stop = 1; int c = vp_concretize (vp_u8 () & 1) ? 3 : CZ; st = T0 + (nstime_t)(vp_u64 () & 0x7ffffffff); rec (i, st, c); file_of[i] = i >= f1; int pb = pm ? vp_concretize (vp_u8 () & 1) : 0; if (pm && !pb) strcpy (rc[i].sid, "FDSN:A_A__H_H_Z"); en = c ? st + (c - 1) * SEC : st; int w = !stop && left > 0 ? (pm == 0 || pb == (pm == 1)) && (int)vp_concretize (((hs == 0) | (en >= s)) & ((he == 0) | (st <= e))) : 0; if (w) { want[i] = 1; left--; cntr++; sm += c; } }
  wanterr = stop || (readerr && left > 0); run (); if (!wanterr) { VP_ASSERT (sumr == cntr && sums == sm && sumf == (f1 < NR ? 2 : 1), "summary"); VP_REACH ("end"); }
}
/* match and reject patterns: the elements of each are chosen, then written out */
#ifndef NEL
#define NEL 2
#endif
#ifndef WHICH
#define WHICH 3
#endif
#ifndef SL
#define SL 3
#endif
typedef struct { int k; char a, b; } el; static int slen; static unsigned char sidc[SL + 1];
static int one (el x, unsigned char c) { switch (x.k) { case 0: return c == (unsigned char)x.a; case 1: return 1; case 3: return (c == (unsigned char)x.a) | (c == (unsigned char)x.b); case 4: return (c != (unsigned char)x.a) & (c != (unsigned char)x.b); case 5: return (c >= (unsigned char)x.a) & (c <= (unsigned char)x.b); default: return c == (unsigned char)x.a; } }
static int g (el *p, int n, int i) { int r = 0; if (n == 0) return i == slen; if (p->k == 2) { for (int j = i; j <= slen; j++) r |= g (p + 1, n - 1, j); return r; } if (i >= slen) return 0; return one (*p, sidc[i]) & g (p + 1, n - 1, i + 1); }
static int contains (el *p, int n) { el q[NEL + 2]; q[0].k = 2; for (int i = 0; i < n; i++) q[i + 1] = p[i]; q[n + 1].k = 2; return g (q, n + 2, 0); }
static int pat (el *p, char *o)
{
  int n = 1 + vp_concretize (vp_u8 () % NEL), i, k = 0; for (i = 0; i < n; i++) { el *x = p + i; x->k = vp_concretize (vp_u8 () % 7); x->a = 'B'; x->b = 'D';
    if (x->k == 0) { x->a = vp_concretize (vp_u8 () & 1) ? 'A' : 'C'; o[k++] = x->a; } if (x->k == 1) o[k++] = '?'; if (x->k == 2) o[k++] = '*'; if (x->k == 3) { o[k++] = '['; o[k++] = 'B'; o[k++] = 'D'; o[k++] = ']'; } if (x->k == 4) { o[k++] = '['; o[k++] = '^'; o[k++] = 'B'; o[k++] = 'D'; o[k++] = ']'; } if (x->k == 5) { o[k++] = '['; o[k++] = 'B'; o[k++] = '-'; o[k++] = 'D'; o[k++] = ']'; } if (x->k == 6) { static const char es[] = "*?[A"; x->a = es[vp_concretize (vp_u8 () & 3)]; o[k++] = '\\'; o[k++] = x->a; } }
  o[k] = 0; return n;
}
void h_glob (void)
{
  el mp[NEL], rp[NEL]; char mt[32], rt[32]; int which = vp_concretize (vp_u8 () % WHICH), nm = 0, nr = 0, i; leapsecondlist = NULL; arg ("msi"); if (which != 1) { nm = pat (mp, mt); arg ("-m"); arg (mt); } if (which != 0) { nr = pat (rp, rt); arg ("-r"); arg (rt); } arg ("one");
  nrc = 1; rec (0, T0, 1); slen = vp_concretize (vp_u8 () % (SL + 1)); for (i = 0; i < slen; i++) { sidc[i] = vp_u8 (); VP_ASSUME ((sidc[i] >= 32) & (sidc[i] < 127)); rc[0].sid[i] = (char)sidc[i]; } rc[0].sid[slen] = 0;
  int w = 1; if (nm) w &= contains (mp, nm); if (nr) w &= !contains (rp, nr); want[0] = vp_concretize (w & 1); run (); if (want[0]) VP_REACH ("printed"); else VP_REACH ("left out");
}
/* what is done with the selected records */
void h_out (void)
{
  leapsecondlist = NULL; int i, k, p, nb = 0, no = 0, na, t, n = 0, b, o, d, z; arg ("msi"); arg ("-te"); arg ("2010-01-01T00:00:10"); t = vp_concretize (vp_u8 () % 6); static const char *to[] = { NULL, "-t", "-T", "-tg", "-G", "-S" }; if (to[t]) arg (to[t]); b = vp_concretize (vp_u8 () & 1); if (b) { arg ("-b"); arg ("bin"); } o = vp_concretize (vp_u8 () & 1); if (o) { arg ("-o"); arg ("out"); } d = vp_concretize (vp_u8 () % 3); if (d) arg (d == 1 ? "-d" : "-D"); z = vp_concretize (vp_u8 () & 1); if (z) arg ("-z"); arg ("one");
  nrc = 3; for (i = 0; i < 3; i++) { rec (i, T0 + (nstime_t)(vp_u64 () & 0x7ffffffff), 1 + i); rc[i].formatversion = (uint8_t)(i == 1 ? 2 : 3); want[i] = vp_concretize (rc[i].starttime <= T0 + 10 * SEC); n += want[i]; }
  int sel[3]; for (i = 0; i < 3; i++) { sel[i] = want[i]; if (t > 1) want[i] = 0; } run ();
  for (p = 0; p < nprinted; p++) VP_ASSERT (raw[p] == (z ? rc[printed[p]].formatversion : 0), "printed in the form asked for");
  for (i = 0, na = 0, k = 0; i < 3; i++) if (sel[i]) { if (t) { VP_ASSERT (na < nadded && added[na] == i, "selected records are traced"); na++; } if (b) for (p = 0; p <= i; p++) { VP_ASSERT (nb < nbin && binv[nb] == 10 * i + p, "samples of the selected records"); nb++; } if (o) { VP_ASSERT (nout >= no + 8 && outv[no] == '0' + i, "selected records are written"); no += 8; } if (d && t < 2) for (p = 0; p <= i; p++) { VP_ASSERT (k < nval && vals[k] == 10 * i + p, "sample values are printed"); k++; } }
  VP_ASSERT (nadded == na && nbin == nb && nout == no && nval == k, "nothing else is output"); VP_ASSERT (nlists == (t != 0), "list printed"); VP_REACH ("end");
}
/* files are read in the order given, also from a list file */
void h_list (void)
{
  leapsecondlist = NULL; static char tx[24]; int i, n = vp_concretize (vp_u8 () % 7), k = 0, w = 0, post; char wantn[8][8]; arg ("msi"); arg ("-n"); arg ("9"); arg ("one"); strcpy (wantn[w++], "one"); arg ("@lst"); nrc = 0;
  for (i = 0; i < n; i++) { static const char cs[] = "\n#ab\n"; int c = vp_concretize (vp_u8 () % 5); tx[k++] = cs[c]; } tx[k] = 0; ltext = tx; post = vp_concretize (vp_u8 () & 1); if (post) arg ("two");
  for (i = 0; i < k;) { int e = i; while (e < k && tx[e] != '\n') e++; if (e > i && tx[i] != '#') { VP_ASSUME (w < 7); memcpy (wantn[w], tx + i, e - i); wantn[w][e - i] = 0; w++; } i = e + 1; } if (post) strcpy (wantn[w++], "two");
  run (); VP_ASSERT (nnames == w, "each file is read"); for (i = 0; i < w; i++) VP_ASSERT (!strcmp (names[i], wantn[i]), "in the order given"); VP_ASSERT (closed == w, "and closed"); VP_REACH ("end");
}
