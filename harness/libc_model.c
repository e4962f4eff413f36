/* Symbolic-execution models of the C library routines used by the code under test.
 * They implement the C standard's (and glibc's) behaviour in plain C; every byte they
 * touch is bounds-checked by the engine.  Native replays use the real C library. */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#define INL __attribute__ ((always_inline))
void *malloc (size_t); void *memcpy (void *, const void *, size_t);
uint64_t vp_se_concretize (uint64_t v);
int vp_se_issym (uint64_t v);

size_t strlen (const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen (const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp (const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp (const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
INL int isupper (int c) { return (c >= 'A') & (c <= 'Z'); }
INL int islower (int c) { return (c >= 'a') & (c <= 'z'); }
INL int isalpha (int c) { return isupper (c) | islower (c); }
INL int isdigit (int c) { return (c >= '0') & (c <= '9'); }
INL int isalnum (int c) { return isalpha (c) | isdigit (c); }
INL int isxdigit (int c) { return isdigit (c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
INL int isspace (int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
INL int iscntrl (int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
INL int isprint (int c) { return (c >= 32) & (c < 127); }
INL int isgraph (int c) { return (c > 32) & (c < 127); }
INL int ispunct (int c) { return isgraph (c) & !isalnum (c); }
INL int tolower (int c) { return isupper (c) ? c + 32 : c; }
int toupper (int c) { return islower (c) ? c - 32 : c; }
int strcasecmp (const char *a, const char *b) { while (*a && tolower (*a) == tolower (*b)) { a++; b++; } return tolower ((unsigned char)*a) - tolower ((unsigned char)*b); }
int strncasecmp (const char *a, const char *b, size_t n) { while (n && *a && tolower (*a) == tolower (*b)) { a++; b++; n--; } return n ? tolower ((unsigned char)*a) - tolower ((unsigned char)*b) : 0; }
char *strcpy (char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *stpcpy (char *d, const char *s) { while ((*d = *s++)) d++; return d; }
char *strncpy (char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat (char *d, const char *s) { strcpy (d + strlen (d), s); return d; }
char *strncat (char *d, const char *s, size_t n) { char *e = d + strlen (d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *strchr (const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr (const char *s, int c) { const char *r = 0; for (;; s++) { if (vp_se_concretize (*s == (char)c)) r = s; if (!*s) return (char *)r; } }
char *strstr (const char *h, const char *n) { size_t l = strlen (n); for (;; h++) { if (!strncmp (h, n, l)) return (char *)h; if (!*h) return 0; } }
size_t strspn (const char *s, const char *a) { size_t n = 0; while (s[n] && strchr (a, s[n])) n++; return n; }
size_t strcspn (const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr (a, s[n])) n++; return n; }
char *strpbrk (const char *s, const char *a) { s += strcspn (s, a); return *s ? (char *)s : 0; }
char *strdup (const char *s) { size_t n = strlen (s) + 1; char *r = malloc (n); memcpy (r, s, n); return r; }
char *strndup (const char *s, size_t m) { size_t n = strnlen (s, m); char *r = malloc (n + 1); memcpy (r, s, n); r[n] = 0; return r; }
int memcmp (const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return (int)x[i] - (int)y[i]; return 0; }
void *memchr (const void *p, int c, size_t n) { const unsigned char *x = p; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
INL int abs (int x) { return x < 0 ? -x : x; }
INL long labs (long x) { return x < 0 ? -x : x; }
INL long long llabs (long long x) { return x < 0 ? -x : x; }
double floor (double); double round (double);
long lround (double x) { return (long)round (x); }
long long llround (double x) { return (long long)round (x); }
static int vp_errno_; int *__errno_location (void) { return &vp_errno_; }
char *strerror (int e) { return "error"; }
char *getenv (const char *n) { return 0; }

static unsigned long long stru (const char *s, char **e, int base, int *neg, int *over)
{
  const char *p = s; unsigned long long v = 0; int any = 0; *neg = *over = 0;
  while (isspace ((unsigned char)*p)) p++;
  if (*p == '+') p++; else if (*p == '-') { *neg = 1; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit (p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  for (;; p++) {
    int d; if (*p >= '0' && *p <= '9') d = *p - '0'; else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10; else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10; else break;
    if (d >= base) break;
    any = 1; if (v > (ULLONG_MAX - d) / base) *over = 1; else v = v * base + d;
  }
  if (e) *e = (char *)(any ? p : s);
  return v;
}
unsigned long long strtoull (const char *s, char **e, int b) { int n, o; unsigned long long v = stru (s, e, b, &n, &o); return o ? (vp_errno_ = 34, ULLONG_MAX) : n ? -v : v; }
unsigned long strtoul (const char *s, char **e, int b) { return strtoull (s, e, b); }
long long strtoll (const char *s, char **e, int b) { int n, o; unsigned long long v = stru (s, e, b, &n, &o); if (n) return o || v > 9223372036854775808ull ? (vp_errno_ = 34, LLONG_MIN) : (long long)-v; return o || v > LLONG_MAX ? (vp_errno_ = 34, LLONG_MAX) : (long long)v; }
long strtol (const char *s, char **e, int b) { return strtoll (s, e, b); }
int atoi (const char *s) { return (int)strtol (s, 0, 10); }
long atol (const char *s) { return strtol (s, 0, 10); }
double vp_se_strtod (const char *s, int n);
double strtod (const char *s, char **e)
{ /* the numeral is made concrete; the host library converts it */
  const char *p = s; while (isspace ((unsigned char)*p)) p++;
  const char *b = p; if (*p == '+' || *p == '-') p++;
  int dig = 0; while (isdigit (*p)) { p++; dig++; } if (*p == '.') { p++; while (isdigit (*p)) { p++; dig++; } }
  if (!dig) { if (e) *e = (char *)s; return 0.0; }
  if (*p == 'e' || *p == 'E') { const char *q = p + 1; if (*q == '+' || *q == '-') q++; if (isdigit (*q)) { while (isdigit (*q)) q++; p = q; } }
  if (e) *e = (char *)p;
  { /* up to 15 significant digits and no exponent: the correctly rounded value is the quotient of two exact doubles */
    const char *q = b; int sym = 0, neg = 0, nd = 0, fr = 0, pt = 0, ok = 1; unsigned long long N = 0; static const double p10[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15};
    for (; q < p; q++) { if (vp_se_issym ((unsigned char)*q)) sym = 1; }
    if (sym) {
      q = b; if (*q == '-') { neg = 1; q++; } else if (*q == '+') q++;
      for (; q < p; q++) { if (*q == '.') pt = 1; else if (*q == 'e' || *q == 'E' || nd >= 15) { ok = 0; break; } else { N = N * 10 + (unsigned char)(*q - '0'); nd++; fr += pt; } }
      if (ok) { double v = (double)N / p10[fr]; return neg ? -v : v; }
    }
  }
  char t[64]; int n = 0; for (; b < p && n < 63; b++) t[n++] = (char)vp_se_concretize ((unsigned char)*b); t[n] = 0;
  return vp_se_strtod (t, n);
}
double atof (const char *s) { return strtod (s, 0); }

/* ---- formatted output ---- */
struct out { char *b; size_t n, pos; };
static void oc (struct out *o, char c) { if (o->b && o->pos + 1 < o->n) o->b[o->pos] = c; o->pos++; }
int vp_se_fmtdouble (char *dst, const char *spec, int width, int prec, double v);
int vp_se_must (int c);
static const unsigned long long p10i[] = {1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull, 100000000000000ull, 1000000000000000ull, 10000000000000000ull, 100000000000000000ull, 1000000000000000000ull};
int vsnprintf (char *buf, size_t size, const char *f, va_list ap)
{
  struct out o = {size ? buf : 0, size, 0};
  for (; *f; f++) {
    if (*f != '%') { oc (&o, *f); continue; }
    const char *spec = f; f++;
    int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { width = va_arg (ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (isdigit (*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg (ap, int); f++; } else while (isdigit (*f)) prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') lng--; else break; }
    if (*f == '%') { oc (&o, '%'); continue; }
    if (*f == 'c') { char c = (char)va_arg (ap, int); if (!left) for (int i = 1; i < width; i++) oc (&o, ' '); oc (&o, c); if (left) for (int i = 1; i < width; i++) oc (&o, ' '); continue; }
    if (*f == 's') {
      const char *s = va_arg (ap, const char *); if (!s) s = "(null)"; int n = 0; while ((prec < 0 || n < prec) && s[n]) n++;
      if (!left) for (int i = n; i < width; i++) oc (&o, ' ');
      for (int i = 0; i < n; i++) oc (&o, s[i]);
      if (left) for (int i = n; i < width; i++) oc (&o, ' ');
      continue; }
    if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o' || *f == 'p') {
      char d[72]; int n = 0; unsigned long long v; char sg = 0; unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10;
      if (*f == 'p') lng = 1;
      if (*f == 'd' || *f == 'i') {
        long long x = lng > 0 ? va_arg (ap, long long) : va_arg (ap, int); if (lng == -1) x = (short)x; if (lng <= -2) x = (signed char)x;
        if (x < 0) { sg = '-'; v = -(unsigned long long)x; } else { v = x; sg = plus ? '+' : space ? ' ' : 0; }
      } else { v = lng > 0 ? va_arg (ap, unsigned long long) : va_arg (ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng <= -2) v = (unsigned char)v; }
      if (zero && !left && prec < 0 && !sg && !alt && base == 10 && width > 0 && width <= 18 && vp_se_must (v < p10i[width])) { for (int i = 0; i < width; i++) { d[n++] = (char)('0' + (unsigned)(v % 10)); v /= 10; } }
      else if (lng <= 0) { unsigned w = (unsigned)v; do { unsigned q = w % base; d[n++] = (char)(base > 10 ? (q < 10 ? '0' + q : (*f == 'X' ? 'A' : 'a') + q - 10) : '0' + q); w /= base; } while (w); }
      else do { unsigned q = (unsigned)(v % base); d[n++] = (char)(base > 10 ? (q < 10 ? '0' + q : (*f == 'X' ? 'A' : 'a') + q - 10) : '0' + q); v /= base; } while (v);
      while (n < prec && n < 70) d[n++] = '0';
      int pre = (sg != 0) + ((alt && base == 16) || *f == 'p' ? 2 : 0); int pad = width - n - pre;
      if (!left && !(zero && prec < 0)) for (; pad > 0; pad--) oc (&o, ' ');
      if (sg) oc (&o, sg);
      if ((alt && base == 16) || *f == 'p') { oc (&o, '0'); oc (&o, *f == 'X' ? 'X' : 'x'); }
      if (!left && zero && prec < 0) for (; pad > 0; pad--) oc (&o, '0');
      while (n) oc (&o, d[--n]);
      for (; pad > 0; pad--) oc (&o, ' ');
      continue; }
    if (*f == 'f' || *f == 'g' || *f == 'e' || *f == 'G' || *f == 'E' || *f == 'F') {
      char t[512], sp[16]; int k = 0; sp[k++] = '%'; if (left) sp[k++] = '-'; if (zero) sp[k++] = '0'; if (plus) sp[k++] = '+'; if (space) sp[k++] = ' '; sp[k++] = *f; sp[k] = 0;
      int n = vp_se_fmtdouble (t, sp, width, prec, va_arg (ap, double)); for (int i = 0; i < n; i++) oc (&o, t[i]);
      continue; }
    (void)spec; *(volatile int *)0 = 0; /* unmodelled conversion */
  }
  if (o.b && o.n) o.b[o.pos < o.n ? o.pos : o.n - 1] = 0;
  return (int)o.pos;
}
int snprintf (char *b, size_t n, const char *f, ...) { va_list ap; va_start (ap, f); int r = vsnprintf (b, n, f, ap); va_end (ap); return r; }
int vsprintf (char *b, const char *f, va_list ap) { return vsnprintf (b, (size_t)1 << 40, f, ap); }
int sprintf (char *b, const char *f, ...) { va_list ap; va_start (ap, f); int r = vsnprintf (b, (size_t)1 << 40, f, ap); va_end (ap); return r; }

/* ---- formatted input: %d %u %i %ld.. %s %c %n %[set] %lf with widths ---- */
int vsscanf (const char *s, const char *f, va_list ap)
{
  const char *s0 = s; int cnt = 0;
  for (; *f; f++) {
    if (isspace (*f)) { while (isspace ((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) { if (!*s && !cnt) return -1; return cnt; } s++; continue; }
    f++; int sup = 0, width = 0, lng = 0; if (*f == '*') { sup = 1; f++; }
    while (isdigit (*f)) width = width * 10 + (*f++ - '0'); if (!width) width = INT_MAX;
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j') lng++; else if (*f == 'h') lng--; else break; }
    if (*f == 'n') { if (lng > 0) *va_arg (ap, long *) = s - s0; else *va_arg (ap, int *) = (int)(s - s0); continue; }
    if (*f == '%') { while (isspace ((unsigned char)*s)) s++; if (*s != '%') return cnt; s++; continue; }
    if (*f == 'c') { int n = width == INT_MAX ? 1 : width; char *d = sup ? 0 : va_arg (ap, char *); for (int i = 0; i < n; i++) { if (!*s) return cnt ? cnt : -1; if (d) *d++ = *s; s++; } if (!sup) cnt++; continue; }
    if (*f == '[') {
      f++; int neg = 0; if (*f == '^') { neg = 1; f++; } const char *set = f; if (*f == ']') f++; while (*f && *f != ']') f++;
      char *d = sup ? 0 : va_arg (ap, char *); int n = 0; if (!*s) return cnt ? cnt : -1;
      while (*s && n < width) { int in = 0; for (const char *q = set; q < f; q++) { if (q[1] == '-' && q + 2 < f) { if (*s >= q[0] && *s <= q[2]) in = 1; q += 2; } else if (*q == *s) in = 1; } if (in == neg) break; if (d) *d++ = *s; s++; n++; }
      if (!n) return cnt; if (d) { *d = 0; cnt++; } continue; }
    while (isspace ((unsigned char)*s)) s++;
    if (!*s) return cnt ? cnt : -1;
    if (*f == 's') { char *d = sup ? 0 : va_arg (ap, char *); int n = 0; while (*s && !isspace ((unsigned char)*s) && n < width) { if (d) *d++ = *s; s++; n++; } if (d) { *d = 0; cnt++; } continue; }
    if (*f == 'd' || *f == 'u' || *f == 'i' || *f == 'x') {
      int neg = 0, n = 0, any = 0, over = 0; unsigned long long v = 0; unsigned base = *f == 'x' ? 16 : 10;
      if (n < width && (*s == '-' || *s == '+')) { neg = *s == '-'; s++; n++; }
      while (n < width && (base == 16 ? isxdigit ((unsigned char)*s) : isdigit ((unsigned char)*s))) { int c = *s; unsigned d = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; if (n >= 15 && v > (ULLONG_MAX - d) / base) over = 1; v = v * base + d; s++; n++; any = 1; }
      if (!any) return cnt;
      long long x = neg ? -(long long)v : (long long)v;
      if ((*f == 'd' || *f == 'i') && n >= 15) { if (over | (v > (unsigned long long)LLONG_MAX + neg)) x = neg ? LLONG_MIN : LLONG_MAX; } /* glibc saturates (strtol) */
      else if (over) x = -1;
      if (!sup) { if (lng > 0) *va_arg (ap, long *) = x; else if (lng == -1) *va_arg (ap, short *) = (short)x; else if (lng < -1) *va_arg (ap, signed char *) = (signed char)x; else *va_arg (ap, int *) = (int)x; cnt++; }
      continue; }
    if (*f == 'f' || *f == 'g' || *f == 'e') { char *e; double x = strtod (s, &e); if (e == s) return cnt; s = e; if (!sup) { if (lng > 0) *va_arg (ap, double *) = x; else *va_arg (ap, float *) = (float)x; cnt++; } continue; }
    *(volatile int *)0 = 0;
  }
  return cnt;
}
int sscanf (const char *s, const char *f, ...) { va_list ap; va_start (ap, f); int r = vsscanf (s, f, ap); va_end (ap); return r; }
int __isoc99_sscanf (const char *s, const char *f, ...) { va_list ap; va_start (ap, f); int r = vsscanf (s, f, ap); va_end (ap); return r; }
int __isoc23_sscanf (const char *s, const char *f, ...) { va_list ap; va_start (ap, f); int r = vsscanf (s, f, ap); va_end (ap); return r; }
long __isoc23_strtol (const char *s, char **e, int b) { return strtol (s, e, b); }
unsigned long __isoc23_strtoul (const char *s, char **e, int b) { return strtoull (s, e, b); }
long long __isoc23_strtoll (const char *s, char **e, int b) { return strtoll (s, e, b); }
unsigned long long __isoc23_strtoull (const char *s, char **e, int b) { return strtoull (s, e, b); }
void qsort (void *base, size_t n, size_t w, int (*cmp) (const void *, const void *))
{
  char *b = base;
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j > 0 && cmp (b + (j - 1) * w, b + j * w) > 0; j--)
      for (size_t k = 0; k < w; k++) { char t = b[j * w + k]; b[j * w + k] = b[(j - 1) * w + k]; b[(j - 1) * w + k] = t; }
}
/* console output is discarded */
int printf (const char *f, ...) { return 0; }
int fprintf (void *fp, const char *f, ...) { return 0; }
int vfprintf (void *fp, const char *f, va_list ap) { return 0; }
int puts (const char *s) { return 0; }
int putchar (int c) { return c; }
int fputs (const char *s, void *fp) { return 0; }
int fputc (int c, void *fp) { return c; }
int fflush (void *fp) { return 0; }
