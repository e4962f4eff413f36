/* Files in memory for the code under test: these definitions take the place of the C library's, also in native replays */
#ifndef FAKEFS_H
#define FAKEFS_H
#include <sys/types.h>
typedef struct { const char *name; const unsigned char *d; long n, pos; int eof, err, open, opens, failat; } ffile;
static ffile ff_[3]; static long ff_chunk; static int ff_reads; static char ff_last[600];
FILE *fopen (const char *p, const char *m)
{
  for (int i = 0; p[i] && i < 599; i++) { ff_last[i] = p[i]; ff_last[i + 1] = 0; }
  for (int i = 0; i < 3; i++) if (ff_[i].name && !strcmp (ff_[i].name, p)) { VP_ASSERT (m && m[0] == 'r', "opened for reading"); ff_[i].pos = 0; ff_[i].eof = ff_[i].err = 0; ff_[i].open++; ff_[i].opens++; return (FILE *)&ff_[i]; }
  return NULL;
}
FILE *fdopen (int fd, const char *m) { if (fd < 100 || fd > 102) return NULL; ff_[fd - 100].open++; return (FILE *)&ff_[fd - 100]; }
static ffile *ff_of (FILE *f) { ffile *x = (ffile *)f; VP_ASSERT (x->open > 0, "file is open"); return x; }
size_t fread (void *b, size_t s, size_t n, FILE *f)
{
  ffile *x = ff_of (f); size_t w = s * n; if (ff_chunk > 0 && w > (size_t)ff_chunk) w = (size_t)ff_chunk; ff_reads++; if (x->failat && ff_reads >= x->failat) { x->err = 1; return 0; }
  if (x->eof) return 0; if (w >= (size_t)(x->n - x->pos) + (s * n > w ? 1 : 0)) { if (w > (size_t)(x->n - x->pos)) x->eof = 1; w = (size_t)(x->n - x->pos); } memcpy (b, x->d + x->pos, w); x->pos += (long)w; if (w == 0 && s * n) x->eof = 1; return w / s;
}
int feof (FILE *f) { return ff_of (f)->eof; }
int ferror (FILE *f) { return ff_of (f)->err; }
int fclose (FILE *f) { ff_of (f)->open--; return 0; }
int fseeko (FILE *f, off_t o, int wh) { ffile *x = ff_of (f); long p = wh == SEEK_SET ? o : wh == SEEK_CUR ? x->pos + o : x->n + o; if (p < 0) return -1; x->pos = p > x->n ? x->n : p; x->eof = 0; return 0; }
off_t ftello (FILE *f) { return ff_of (f)->pos; }
int fgetc (FILE *f) { ffile *x = ff_of (f); if (x->pos >= x->n) { x->eof = 1; return EOF; } return x->d[x->pos++]; }
int getc (FILE *f) { return fgetc (f); }
char *fgets (char *b, int n, FILE *f) { int i = 0, c; if (n < 2) return NULL; while (i < n - 1 && (c = fgetc (f)) != EOF) { b[i++] = (char)c; if (c == '\n') break; } if (i == 0) return NULL; b[i] = 0; return b; }
#endif
