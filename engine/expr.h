// Hash-consed bit-vector / IEEE-float expression DAG (widths 1..64).
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cassert>

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_TABLE,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT, O_FABS, O_FRND /*k: mode*/, O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
  O_FPCAST /*width change*/, O_SI2FP, O_UI2FP, O_FP2SI, O_FP2UI
};

typedef std::vector<uint32_t> VarSet; // sorted, interned
struct Expr {
  Op op; uint8_t w; bool fp, lin; uint32_t id; uint64_t k;
  const Expr *a, *b, *c; const VarSet *vars;
};
typedef const Expr *E;
struct Table { std::vector<uint64_t> v; int affine = -1; uint64_t mn = ~0ull, mx = 0; bool isaffine () { if (affine < 0) { size_t n = v.size (); affine = n >= 16 && (n & (n - 1)) == 0; for (size_t i = 1; affine && i < n; i++) { size_t lo = i & (0 - i); if (v[i] != (v[i ^ lo] ^ v[lo] ^ v[0])) affine = 0; } } return affine; } };
extern std::vector<Table *> g_tables;

static inline uint64_t maskw (unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx (uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline double bits2d (uint64_t v, unsigned w) { if (w == 32) { uint32_t x = (uint32_t)v; float f; memcpy (&f, &x, 4); return f; } double d; memcpy (&d, &v, 8); return d; }
static inline uint64_t d2bits (double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy (&x, &f, 4); if (f != f) x = 0x7fc00000u; return x; } uint64_t v; memcpy (&v, &d, 8); if (d != d) v = 0x7ff8000000000000ull; return v; }

struct ExprHash { size_t operator() (E e) const { uint64_t h = e->op * 1000003ull + e->w; h = h * 0x9E3779B97F4A7C15ull + e->k; h ^= (uint64_t)(uintptr_t)e->a * 0xff51afd7ed558ccdull; h = (h << 13) | (h >> 51); h ^= (uint64_t)(uintptr_t)e->b * 0xc4ceb9fe1a85ec53ull; h = (h << 17) | (h >> 47); h ^= (uint64_t)(uintptr_t)e->c * 0x87c37b91114253d5ull; return h ^ (h >> 29); } };
struct ExprEq { bool operator() (E x, E y) const { return x->op == y->op && x->w == y->w && x->k == y->k && x->a == y->a && x->b == y->b && x->c == y->c; } };

struct ExprPool {
  std::unordered_set<E, ExprHash, ExprEq> tab;
  struct VH { size_t operator() (const VarSet &v) const { size_t h = 1469598103934665603ull; for (auto x : v) h = (h ^ x) * 1099511628211ull; return h; } };
  std::unordered_set<VarSet, VH> vsets;
  const VarSet *emptyv;
  std::vector<Expr *> chunks; size_t used = 0; static const size_t CH = 8192;
  uint32_t nid = 0;
  E T, F;
  ExprPool () { emptyv = &*vsets.insert (VarSet ()).first; T = cst (1, 1); F = cst (0, 1); }
  const VarSet *merge (const VarSet *x, const VarSet *y) {
    if (x == y || y->empty ()) return x;
    if (x->empty ()) return y;
    if (std::includes (x->begin (), x->end (), y->begin (), y->end ())) return x;
    if (std::includes (y->begin (), y->end (), x->begin (), x->end ())) return y;
    VarSet r; r.reserve (x->size () + y->size ());
    std::set_union (x->begin (), x->end (), y->begin (), y->end (), std::back_inserter (r));
    return &*vsets.insert (std::move (r)).first;
  }
  E intern (Op op, unsigned w, uint64_t k, E a = nullptr, E b = nullptr, E c = nullptr) {
    Expr t; t.op = op; t.w = w; t.k = k; t.a = a; t.b = b; t.c = c;
    auto it = tab.find (&t);
    if (it != tab.end ()) return *it;
    if (chunks.empty () || used == CH) { chunks.push_back ((Expr *)malloc (sizeof (Expr) * CH)); used = 0; }
    Expr *e = &chunks.back ()[used++];
    *e = t; e->id = nid++;
    e->fp = (op >= O_FADD) || (a && a->fp) || (b && b->fp) || (c && c->fp);
    e->lin = (op == O_TABLE && g_tables[k]->isaffine ()) || (a && a->lin) || (b && b->lin) || (c && c->lin);
    if (op == O_VAR) { VarSet v{(uint32_t)k}; e->vars = &*vsets.insert (v).first; }
    else { e->vars = a ? a->vars : emptyv; if (b) e->vars = merge (e->vars, b->vars); if (c) e->vars = merge (e->vars, c->vars); }
    tab.insert (e);
    return e;
  }
  E cst (uint64_t v, unsigned w) { return intern (O_CONST, w, v & maskw (w)); }
  E var (uint32_t id, unsigned w) { return intern (O_VAR, w, id); }
};
extern ExprPool *P;
static inline bool isc (E e) { return e->op == O_CONST; }
static inline E K (uint64_t v, unsigned w) { return P->cst (v, w); }

// ---- concrete semantics of one operator -------------------------------------------------
static inline uint64_t rnd (double d, unsigned mode) {
  double r = mode == 0 ? floor (d) : mode == 1 ? ceil (d) : mode == 2 ? trunc (d) : mode == 3 ? round (d) : nearbyint (d);
  uint64_t v; memcpy (&v, &r, 8); return v;
}
static inline uint64_t fp2si (double d, unsigned w) {
  unsigned ww = w <= 32 ? 32 : 64;
  if (ww == 32) { if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000ull & maskw (w); return (uint64_t)(int64_t)(int32_t)d & maskw (w); }
  if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ull;
  return (uint64_t)(int64_t)d;
}
static inline uint64_t fp2ui (double d, unsigned w) {
  if (w <= 32) return fp2si (d, 64) & maskw (w);
  if (!(d > -1.0 && d < 18446744073709551616.0)) return 0x8000000000000000ull;
  return (uint64_t)d;
}
static inline uint64_t evalop (Op op, unsigned w, uint64_t k, uint64_t a, unsigned aw, uint64_t b, unsigned bw, uint64_t c) {
  uint64_t m = maskw (w);
  switch (op) {
  case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
  case O_SDIV: { int64_t x = sx (a, w), y = sx (b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case O_SREM: { int64_t x = sx (a, w), y = sx (b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b;
  case O_ASHR: return b >= w ? (sx (a, w) < 0 ? m : 0) : (uint64_t)(sx (a, w) >> b) & m;
  case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
  case O_SLT: return sx (a, aw) < sx (b, aw); case O_SLE: return sx (a, aw) <= sx (b, aw);
  case O_ITE: return a ? b : c;
  case O_CONCAT: return ((bw >= 64 ? 0 : a << bw) | b) & m;
  case O_EXTRACT: return (a >> k) & m; case O_ZEXT: return a; case O_SEXT: return (uint64_t)sx (a, aw) & m;
  case O_TABLE: { auto &t = g_tables[k]->v; return a < t.size () ? t[a] : 0; }
  case O_FADD: return w == 32 ? d2bits ((float)bits2d (a, 32) + (float)bits2d (b, 32), 32) : d2bits (bits2d (a, w) + bits2d (b, w), w);
  case O_FSUB: return w == 32 ? d2bits ((float)bits2d (a, 32) - (float)bits2d (b, 32), 32) : d2bits (bits2d (a, w) - bits2d (b, w), w);
  case O_FMUL: return w == 32 ? d2bits ((float)bits2d (a, 32) * (float)bits2d (b, 32), 32) : d2bits (bits2d (a, w) * bits2d (b, w), w);
  case O_FDIV: return w == 32 ? d2bits ((float)bits2d (a, 32) / (float)bits2d (b, 32), 32) : d2bits (bits2d (a, w) / bits2d (b, w), w);
  case O_FREM: return d2bits (fmod (bits2d (a, w), bits2d (b, w)), w);
  case O_FSQRT: return w == 32 ? d2bits (sqrtf ((float)bits2d (a, 32)), 32) : d2bits (sqrt (bits2d (a, w)), w);
  case O_FABS: return a & (m >> 1);
  case O_FRND: { uint64_t r = rnd (bits2d (a, w), k); double d; memcpy (&d, &r, 8); return d2bits (d, w); }
  case O_FOEQ: return bits2d (a, aw) == bits2d (b, aw); case O_FOLT: return bits2d (a, aw) < bits2d (b, aw);
  case O_FOLE: return bits2d (a, aw) <= bits2d (b, aw); case O_FUNO: { double x = bits2d (a, aw), y = bits2d (b, aw); return x != x || y != y; }
  case O_FPCAST: return d2bits (bits2d (a, aw), w);
  case O_SI2FP: { int64_t x = sx (a, aw); if (w == 32) { float f = (float)x; uint32_t u; memcpy (&u, &f, 4); return u; } return d2bits ((double)x, w); }
  case O_UI2FP: { if (w == 32) { float f = (float)a; uint32_t u; memcpy (&u, &f, 4); return u; } return d2bits ((double)a, w); }
  case O_FP2SI: return fp2si (bits2d (a, aw), w); case O_FP2UI: return fp2ui (bits2d (a, aw), w);
  default: assert (0); return 0;
  }
}

// ---- bounds (unsigned) ------------------------------------------------------------------
static void ubounds (E e, uint64_t &lo, uint64_t &hi, int d = 0) {
  uint64_t m = maskw (e->w), l1, h1, l2, h2;
  lo = 0; hi = m;
  if (d > 12) return;
  switch (e->op) {
  case O_CONST: lo = hi = e->k; return;
  case O_ZEXT: ubounds (e->a, lo, hi, d); return;
  case O_AND: if (isc (e->b)) { ubounds (e->a, l1, h1, d + 1); hi = std::min (h1, e->b->k); } else { ubounds (e->a, l1, h1, d + 1); ubounds (e->b, l2, h2, d + 1); hi = std::min (h1, h2); } return;
  case O_OR: case O_XOR: ubounds (e->a, l1, h1, d + 1); ubounds (e->b, l2, h2, d + 1);
    { uint64_t x = std::max (h1, h2); unsigned n = x ? 64 - __builtin_clzll (x) : 0; hi = std::min (m, maskw (n)); if (!n) hi = 0; if (e->op == O_OR) lo = std::max (l1, l2); } return;
  case O_CONCAT: ubounds (e->a, l1, h1, d + 1); ubounds (e->b, l2, h2, d + 1); lo = (l1 << e->b->w) | l2; hi = (h1 << e->b->w) | h2; return;
  case O_EXTRACT: if (e->k == 0) { ubounds (e->a, l1, h1, d); if (h1 <= m) { lo = l1; hi = h1; } } return;
  case O_ITE: ubounds (e->b, l1, h1, d + 1); ubounds (e->c, l2, h2, d + 1); lo = std::min (l1, l2); hi = std::max (h1, h2); return;
  case O_ADD: ubounds (e->a, l1, h1, d + 1); ubounds (e->b, l2, h2, d + 1);
    { unsigned __int128 s = (unsigned __int128)h1 + h2; if (s <= m) { lo = l1 + l2; hi = (uint64_t)s; } } return;
  case O_MUL: ubounds (e->a, l1, h1, d + 1); ubounds (e->b, l2, h2, d + 1);
    { unsigned __int128 s = (unsigned __int128)h1 * h2; if (s <= m) { lo = l1 * l2; hi = (uint64_t)s; } } return;
  case O_UDIV: if (isc (e->b) && e->b->k) { ubounds (e->a, l1, h1, d); lo = l1 / e->b->k; hi = h1 / e->b->k; } return;
  case O_UREM: if (isc (e->b) && e->b->k) { ubounds (e->a, l1, h1, d + 1); if (h1 < e->b->k) { lo = l1; hi = h1; } else hi = e->b->k - 1; } return;
  case O_LSHR: if (isc (e->b) && e->b->k < e->w) { ubounds (e->a, l1, h1, d + 1); lo = l1 >> e->b->k; hi = h1 >> e->b->k; } return;
  case O_TABLE: { Table *t = g_tables[e->k]; if (t->mx < t->mn) for (auto v : t->v) { t->mx = std::max (t->mx, v); t->mn = std::min (t->mn, v); } lo = e->a->w < 63 && (1ull << e->a->w) > t->v.size () ? 0 : t->mn; hi = t->mx; return; }
  default: return;
  }
}
static unsigned lowzeros (E e, int d = 0) {
  if (d > 10) return 0;
  switch (e->op) {
  case O_CONST: return e->k ? std::min<unsigned> (__builtin_ctzll (e->k), e->w) : e->w;
  case O_CONCAT: { unsigned l = lowzeros (e->b, d + 1); return l < e->b->w ? l : e->b->w + lowzeros (e->a, d + 1); }
  case O_ZEXT: case O_SEXT: { unsigned l = lowzeros (e->a, d + 1); return l >= e->a->w ? e->w : l; }
  case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min (lowzeros (e->a, d + 1), lowzeros (e->b, d + 1));
  case O_MUL: return std::min<unsigned> (e->w, lowzeros (e->a, d + 1) + lowzeros (e->b, d + 1));
  case O_AND: return std::max (lowzeros (e->a, d + 1), lowzeros (e->b, d + 1));
  case O_SHL: return isc (e->b) ? std::min<uint64_t> (e->w, lowzeros (e->a, d + 1) + e->b->k) : lowzeros (e->a, d + 1);
  case O_ITE: return std::min (lowzeros (e->b, d + 1), lowzeros (e->c, d + 1));
  default: return 0;
  }
}

// ---- simplifying constructors -----------------------------------------------------------
E mk (Op op, unsigned w, E a, E b = nullptr, E c = nullptr, uint64_t k = 0);
static inline E mkExtract (E a, unsigned off, unsigned w) { return mk (O_EXTRACT, w, a, nullptr, nullptr, off); }
static inline E mkNot (E a) { return mk (O_XOR, 1, a, P->T); }
static inline E mkZ (E a, unsigned w) { return a->w == w ? a : mk (O_ZEXT, w, a); }
