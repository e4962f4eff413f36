// Differential test of the simplifier: mk() against the unsimplified operators on random expressions and inputs.
#include "expr.h"
#include <cstdio>
#include <random>
static std::mt19937_64 R (12345);
static uint64_t rnd64 () { switch (R () % 6) { case 0: return R () % 16; case 1: return 0 - (R () % 16); case 2: return 1ull << (R () % 64); case 3: return R () % 100000; default: return R (); } }
static std::vector<uint64_t> asg;
static std::unordered_map<E, uint64_t> memo;
static uint64_t ev (E e) {
  auto it = memo.find (e); if (it != memo.end ()) return it->second; uint64_t r;
  if (e->op == O_CONST) r = e->k; else if (e->op == O_VAR) r = asg[e->k] & maskw (e->w);
  else r = evalop (e->op, e->w, e->k, e->a ? ev (e->a) : 0, e->a ? e->a->w : 0, e->b ? ev (e->b) : 0, e->b ? e->b->w : 0, e->c ? ev (e->c) : 0);
  memo[e] = r; return r; }
struct Pr { E raw, smp; };
static Pr gen (unsigned w, int d);
static Pr mkp (Op op, unsigned w, Pr a, Pr b = {nullptr, nullptr}, Pr c = {nullptr, nullptr}, uint64_t k = 0) { return { P->intern (op, w, k, a.raw, b.raw, c.raw), mk (op, w, a.smp, b.smp, c.smp, k) }; }
static Pr cstp (uint64_t v, unsigned w) { E e = K (v, w); return {e, e}; }
static const unsigned WS[] = {1, 8, 16, 32, 64};
static Pr gen (unsigned w, int d) {
  if (d <= 0 || R () % 12 == 0) { if (R () % 3 == 0) return cstp (rnd64 (), w); unsigned id = R () % 4; unsigned k = 0; for (unsigned i = 0; i < 5; i++) if (WS[i] == w) k = i + 1; E e = P->var (id + 8 * k, w); return {e, e}; }
  if (w == 1) { unsigned q = WS[1 + R () % 4]; switch (R () % 9) {
    case 0: return mkp (O_EQ, 1, gen (q, d - 1), gen (q, d - 1)); case 1: return mkp (O_ULT, 1, gen (q, d - 1), gen (q, d - 1)); case 2: return mkp (O_ULE, 1, gen (q, d - 1), gen (q, d - 1));
    case 3: return mkp (O_SLT, 1, gen (q, d - 1), gen (q, d - 1)); case 4: return mkp (O_SLE, 1, gen (q, d - 1), gen (q, d - 1)); case 5: return mkp (O_AND, 1, gen (1, d - 1), gen (1, d - 1));
    case 6: return mkp (O_OR, 1, gen (1, d - 1), gen (1, d - 1)); case 7: return mkp (O_XOR, 1, gen (1, d - 1), gen (1, d - 1)); default: { Pr x = gen (q, d - 1), y = gen (q, d - 1), sum = mkp (O_ADD, q, x, y); return mkp (O_EQ, 1, sum, R () % 2 ? mkp (O_ADD, q, y, x) : mkp (O_ADD, q, y, cstp (rnd64 (), q))); } } }
  auto sub = [&] (unsigned q) { return gen (q, d - 1); };
  switch (R () % 24) {
  case 20: case 21: case 22: if (w >= 32) { // integer -> double arithmetic with constants -> integer, and comparisons
    auto cd = [&] () -> Pr { static const double cs[] = {1e9, 1e6, 1e-9, 100, 40, 20, 0.1, 3, 7, 1000, 0.5, 1e10, 65536, -1e9, -2}; double d = cs[R () % 15]; return cstp (d2bits (d, 64), 64); };
    Pr i = mkp (R () % 3 ? O_UREM : O_SREM, 64, gen (64, d - 2), cstp (R () % 2 ? 1000000000 : 3 + R () % 5000, 64)); if (R () % 3 == 0) i = mkp (O_ZEXT, 64, gen (R () % 2 ? 16 : 32, d - 2)); if (R () % 4 == 0) i = mkp (O_SEXT, 64, gen (R () % 2 ? 16 : 32, d - 2));
    Pr f = mkp (R () % 4 == 0 ? O_UI2FP : O_SI2FP, 64, i); int n = R () % 4; for (int j = 0; j < n; j++) f = mkp (R () % 2 ? O_FMUL : O_FDIV, 64, f, cd ());
    if (R () % 2) f = mkp (O_FADD, 64, f, R () % 4 ? cstp (d2bits (0.5, 64), 64) : cd ()); if (R () % 6 == 0) f = mkp (O_FSUB, 64, f, mkp (O_SI2FP, 64, gen (16, d - 2))); if (R () % 8 == 0) f = mkp (O_XOR, 64, f, cstp (1ull << 63, 64));
    if (R () % 4 == 0) { static const Op o[] = {O_FOEQ, O_FOLT, O_FOLE, O_FUNO}; Pr z = R () % 2 ? cstp (0, 64) : R () % 2 ? cd () : mkp (O_SI2FP, 64, gen (32, d - 2)); return mkp (O_ITE, w, R () % 2 ? mkp (o[R () % 4], 1, f, z) : mkp (o[R () % 4], 1, z, f), sub (w), sub (w)); }
    return mkp (R () % 2 ? O_FP2SI : O_FP2UI, w, f); } break;
  case 0: case 1: return mkp (O_ADD, w, sub (w), sub (w)); case 2: return mkp (O_SUB, w, sub (w), sub (w)); case 3: return mkp (O_MUL, w, sub (w), cstp (rnd64 (), w));
  case 4: return mkp (O_AND, w, sub (w), R () % 2 ? cstp (rnd64 (), w) : sub (w)); case 5: return mkp (O_OR, w, sub (w), R () % 2 ? cstp (rnd64 (), w) : sub (w)); case 6: return mkp (O_XOR, w, sub (w), sub (w));
  case 7: return mkp (R () % 2 ? O_SHL : O_LSHR, w, sub (w), cstp (R () % (w + 2), w)); case 8: return mkp (O_ASHR, w, sub (w), cstp (R () % w, w));
  case 9: return mkp (O_ITE, w, gen (1, d - 1), sub (w), sub (w)); case 10: if (w > 8) { unsigned q = 8; while (q * 2 < w && R () % 2) q *= 2; return mkp (R () % 2 ? O_ZEXT : O_SEXT, w, sub (q)); } break;
  case 11: if (w < 64) { return mkp (O_EXTRACT, w, sub (64), {nullptr, nullptr}, {nullptr, nullptr}, R () % (64 - w)); } break;
  case 12: if (w > 8) return mkp (O_CONCAT, w, sub (w / 2), sub (w / 2)); break;
  case 13: { uint64_t c = 2 + R () % 1000; if (R () % 3 == 0) c = rnd64 () | 2; return mkp (R () % 2 ? O_SDIV : O_UDIV, w, sub (w), cstp (c, w)); }
  case 14: { uint64_t c = 2 + R () % 1000; return mkp (R () % 2 ? O_SREM : O_UREM, w, sub (w), cstp (c, w)); }
  case 15: case 16: { // (x*c + y%c) / c and % c, signed and unsigned
    uint64_t c = 2 + R () % 1000; Pr y = mkp (O_UREM, w, sub (w), cstp (c, w)); Pr x = w > 8 ? mkp (R () % 2 ? O_ZEXT : O_SEXT, w, gen (w > 16 && R () % 2 ? 16 : 8, d - 1)) : sub (w);
    Pr s = mkp (O_ADD, w, mkp (O_MUL, w, x, cstp (c, w)), y); static const Op o[] = {O_SDIV, O_UDIV, O_SREM, O_UREM}; return mkp (o[R () % 4], w, s, cstp (R () % 4 ? c : c / 2 + 1, w)); }
  case 17: { Pr x = sub (w); Pr c = cstp (2 + R () % 100, w); bool sg = R () % 2; Pr q = mkp (sg ? O_SDIV : O_UDIV, w, x, c), r = mkp (sg ? O_SREM : O_UREM, w, x, c); Pr s = mkp (O_ADD, w, mkp (O_MUL, w, q, c), r); return mkp (O_ITE, w, mkp (O_EQ, 1, s, R () % 2 ? x : sub (w)), sub (w), sub (w)); }
  case 18: { unsigned id = 0; while (id < g_tables.size () && R () % 2) id++; if (id >= g_tables.size ()) id = 0; Pr ix = gen (8, d - 1); return w == 32 ? mkp (O_TABLE, 32, ix, {nullptr, nullptr}, {nullptr, nullptr}, id) : mkp (w > 32 ? O_ZEXT : O_EXTRACT, w, mkp (O_TABLE, 32, ix, {nullptr, nullptr}, {nullptr, nullptr}, id)); }
  default: { Pr x = sub (w), s = mkp (O_XOR, w, x, sub (w)); return mkp (O_ITE, w, mkp (O_EQ, 1, s, R () % 2 ? x : sub (w)), s, x); }
  }
  return sub (w);
}
static const char *ON[] = {"CONST","VAR","ADD","SUB","MUL","UDIV","SDIV","UREM","SREM","AND","OR","XOR","SHL","LSHR","ASHR","EQ","ULT","ULE","SLT","SLE","ITE","CONCAT","EXTRACT","ZEXT","SEXT","TABLE","FADD","FSUB","FMUL","FDIV","FREM","FSQRT","FABS","FRND","FOEQ","FOLT","FOLE","FUNO","FPCAST","SI2FP","UI2FP","FP2SI","FP2UI"};
static void dump (E e, int d) { printf ("%*s%s w%u k=%llx val=%llx%s", d * 2, "", ON[e->op], e->w, (unsigned long long)e->k, (unsigned long long)ev (e), "\n"); if (e->a) dump (e->a, d + 1); if (e->b) dump (e->b, d + 1); if (e->c) dump (e->c, d + 1); }
int main (int argc, char **argv) {
  long n = argc > 1 ? atol (argv[1]) : 200000, bad = 0; P = new ExprPool;
  Table *t = new Table; for (unsigned i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0x82F63B78u & (0u - (c & 1))); t->v.push_back (c); } g_tables.push_back (t);
  t = new Table; for (unsigned i = 0; i < 256; i++) t->v.push_back (R () & 0xffffffff); g_tables.push_back (t);
  asg.resize (64);
  for (long i = 0; i < n && bad < 5; i++) {
    Pr p = gen (WS[R () % 5], 2 + R () % 5);
    for (int k = 0; k < 6; k++) { for (auto &x : asg) x = rnd64 (); memo.clear (); uint64_t a = ev (p.raw), b = ev (p.smp); uint64_t lo, hi; ubounds (p.smp, lo, hi);
      if (a != b || b < lo || b > hi) { printf ("MISMATCH expr %ld op %d w %u raw %llx simplified %llx range %llx..%llx\n", i, p.raw->op, p.raw->w, (unsigned long long)a, (unsigned long long)b, (unsigned long long)lo, (unsigned long long)hi); if (getenv ("DUMP")) { dump (p.raw, 0); printf ("---\n"); dump (p.smp, 0); } bad++; break; } }
  }
  printf ("%ld expressions, %ld mismatches\n", n, bad); return bad != 0;
}
