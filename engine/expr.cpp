#include "expr.h"
ExprPool *P;
std::vector<Table *> g_tables;

static bool commut (Op op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ || op == O_FOEQ; }
static bool isbool (E e) { return e->w == 1; }

// ---- GF(2)-affine normal form: decides equalities over table-driven CRC arithmetic --------
// A bit is a XOR of atom bits and a constant. Only used when an affine lookup table occurs.
#include <memory>
typedef std::vector<uint32_t> Bits; // sorted atom-bit numbers; number 0 is the constant 1
typedef std::shared_ptr<std::vector<Bits>> LF;
static std::unordered_map<E, LF> lfcache;
static std::vector<std::pair<E, unsigned>> atombit (1); static std::unordered_map<E, uint32_t> atombase;
static Bits bx (const Bits &x, const Bits &y) { Bits r; std::set_symmetric_difference (x.begin (), x.end (), y.begin (), y.end (), std::back_inserter (r)); return r; }
static LF linform (E e)
{
  auto it = lfcache.find (e); if (it != lfcache.end ()) return it->second;
  LF r = std::make_shared<std::vector<Bits>> (e->w);
  auto atom = [&] () { auto ab = atombase.find (e); uint32_t base; if (ab == atombase.end ()) { base = atombit.size (); atombase[e] = base; for (unsigned i = 0; i < e->w; i++) atombit.push_back ({e, i}); } else base = ab->second; for (unsigned i = 0; i < e->w; i++) (*r)[i] = Bits{base + i}; };
  switch (e->op) {
  case O_CONST: for (unsigned i = 0; i < e->w; i++) if (e->k >> i & 1) (*r)[i] = Bits{0}; break;
  case O_XOR: { LF x = linform (e->a), y = linform (e->b); for (unsigned i = 0; i < e->w; i++) (*r)[i] = bx ((*x)[i], (*y)[i]); break; }
  case O_AND: if (isc (e->b)) { LF x = linform (e->a); for (unsigned i = 0; i < e->w; i++) if (e->b->k >> i & 1) (*r)[i] = (*x)[i]; break; } atom (); break;
  case O_OR: if (isc (e->b)) { LF x = linform (e->a); for (unsigned i = 0; i < e->w; i++) (*r)[i] = (e->b->k >> i & 1) ? Bits{0} : (*x)[i]; break; }
    { LF x = linform (e->a), y = linform (e->b); bool dis = true; for (unsigned i = 0; i < e->w; i++) if (!(*x)[i].empty () && !(*y)[i].empty ()) dis = false; if (!dis) { atom (); break; } for (unsigned i = 0; i < e->w; i++) (*r)[i] = bx ((*x)[i], (*y)[i]); break; }
  case O_CONCAT: { LF x = linform (e->a), y = linform (e->b); for (unsigned i = 0; i < e->b->w; i++) (*r)[i] = (*y)[i]; for (unsigned i = 0; i < e->a->w; i++) (*r)[e->b->w + i] = (*x)[i]; break; }
  case O_EXTRACT: { LF x = linform (e->a); for (unsigned i = 0; i < e->w; i++) (*r)[i] = (*x)[e->k + i]; break; }
  case O_ZEXT: { LF x = linform (e->a); for (unsigned i = 0; i < e->a->w; i++) (*r)[i] = (*x)[i]; break; }
  case O_SEXT: { LF x = linform (e->a); for (unsigned i = 0; i < e->w; i++) (*r)[i] = (*x)[std::min<unsigned> (i, e->a->w - 1)]; break; }
  case O_ITE: {
    LF c = linform (e->a), x = linform (e->b), y = linform (e->c); bool ok = true;
    std::vector<Bits> d (e->w); for (unsigned i = 0; i < e->w; i++) { d[i] = bx ((*x)[i], (*y)[i]); if (!d[i].empty () && d[i] != Bits{0}) ok = false; }
    if (!ok) { atom (); break; }
    for (unsigned i = 0; i < e->w; i++) (*r)[i] = d[i].empty () ? (*y)[i] : bx ((*y)[i], (*c)[0]); break; }
  case O_TABLE: {
    Table *t = g_tables[e->k]; if (!t->isaffine () || (e->a->w < 63 && (1ull << e->a->w) > t->v.size () && !e->a->lin && false)) { atom (); break; }
    LF x = linform (e->a); bool inr = true; for (unsigned i = 0; i < e->a->w; i++) if ((i >= 63 || (1ull << i) >= t->v.size ()) && !(*x)[i].empty ()) inr = false;
    if (!inr) { atom (); break; }
    for (unsigned i = 0; i < e->w; i++) { Bits b; if (t->v[0] >> i & 1) b = Bits{0}; for (unsigned j = 0; j < e->a->w && (j < 63 && (1ull << j) < t->v.size ()); j++) if (((t->v[1ull << j] ^ t->v[0]) >> i) & 1) b = bx (b, (*x)[j]); (*r)[i] = b; }
    break; }
  default: atom ();
  }
  lfcache[e] = r; return r;
}
static E lineq (E a, E b) // nullptr: no conclusion
{
  LF x = linform (a), y = linform (b); std::vector<Bits> rows; std::unordered_set<uint32_t> atoms;
  for (unsigned i = 0; i < a->w; i++) { Bits d = bx ((*x)[i], (*y)[i]); if (!d.empty ()) rows.push_back (d); }
  std::vector<Bits> red; // Gauss-Jordan: pivot = largest atom bit of each row
  for (auto &r0 : rows) {
    Bits r = r0; for (bool ch = true; ch && !r.empty ();) { ch = false; for (auto &q : red) if (std::binary_search (r.begin (), r.end (), q.back ())) { r = bx (r, q); ch = true; if (r.empty ()) break; } }
    if (r.empty ()) continue;
    if (r.back () == 0) return P->F;
    for (auto &q : red) if (std::binary_search (q.begin (), q.end (), r.back ())) q = bx (q, r);
    red.push_back (r);
  }
  if (red.empty ()) return P->T;
  size_t tot = 0; for (auto &r : red) tot += r.size (); if (tot > 2000) return nullptr;
  E res = P->T;
  for (auto &r : red) { E v = K (0, 1); uint64_t c = 0; for (auto t : r) { if (!t) c = 1; else v = mk (O_XOR, 1, v, mkExtract (atombit[t].first, atombit[t].second, 1)); } res = mk (O_AND, 1, res, mk (O_EQ, 1, v, K (c, 1))); }
  return res;
}

// ---- integer-linear normal form: exact division of sums, equality of sums -----------------
// Value of e as an integer sum  c0 + sum coef*atom  (congruent modulo 2^w; exact when the range fits).
typedef __int128 I128;
struct LTerm { E a; bool sg; I128 co; };
struct LinSum { std::vector<LTerm> t; I128 c = 0; bool bad = false; };
static const I128 LBIG = (I128)1 << 60, CBIG = (I128)1 << 124; // products of two coefficients stay inside 128 bits
static void cadd (LinSum &L, I128 v) { L.c += v; if (L.c > CBIG || L.c < -CBIG) { L.c = 0; L.bad = true; } }
static void ladd (LinSum &L, E a, bool sg, I128 co)
{
  if (sg) { uint64_t l, h; ubounds (a, l, h); if (h <= maskw (a->w) >> 1) sg = false; } // sign bit clear: both readings agree
  for (auto &x : L.t) if (x.a == a && x.sg == sg) { x.co += co; if (x.co > LBIG || x.co < -LBIG) L.bad = true; return; }
  if (L.t.size () >= 24) { L.bad = true; return; }
  L.t.push_back ({a, sg, co}); if (co > LBIG || co < -LBIG) L.bad = true;
}
static bool hasneg (E e) { return e->op == O_SEXT; }
static void atomrange (E a, bool sg, I128 &lo, I128 &hi)
{
  uint64_t l, h; ubounds (a, l, h); uint64_t half = maskw (a->w) >> 1;
  if (!sg || h <= half) { lo = l; hi = h; return; }
  if (a->op == O_SEXT) { unsigned n = a->a->w; lo = -((I128)1 << (n - 1)); hi = ((I128)1 << (n - 1)) - 1; return; }
  if (a->op == O_SDIV && isc (a->b) && sx (a->b->k, a->w) > 0) { I128 l1, h1; atomrange (a->a, true, l1, h1); I128 c = sx (a->b->k, a->w); lo = l1 / c; hi = h1 / c; return; }
  if (a->op == O_SREM && isc (a->b) && sx (a->b->k, a->w) > 0) { I128 l1, h1; atomrange (a->a, true, l1, h1); I128 c = sx (a->b->k, a->w); lo = l1 < 0 ? std::max (l1, -(c - 1)) : 0; hi = h1 > 0 ? std::min (h1, c - 1) : 0; return; }
  if (a->op == O_ITE) { I128 l1, h1, l2, h2; atomrange (a->b, true, l1, h1); atomrange (a->c, true, l2, h2); lo = std::min (l1, l2); hi = std::max (h1, h2); return; }
  lo = -((I128)1 << (a->w - 1)); hi = ((I128)1 << (a->w - 1)) - 1;
}
static void lrange (const LinSum &L, I128 &lo, I128 &hi)
{
  lo = hi = L.c; bool ov = L.c > CBIG || L.c < -CBIG;
  for (auto &x : L.t) { I128 l, h, p, q; atomrange (x.a, x.sg, l, h); ov |= __builtin_mul_overflow (x.co, l, &p) | __builtin_mul_overflow (x.co, h, &q); if (x.co < 0) std::swap (p, q); ov |= __builtin_add_overflow (lo, p, &lo) | __builtin_add_overflow (hi, q, &hi); if (ov) break; }
  if (ov) { lo = -((I128)1 << 126); hi = (I128)1 << 126; }
}
// coefficients only matter modulo 2^w: take the representatives nearest zero
static void lreduce (LinSum &L, unsigned w)
{
  I128 W = (I128)1 << w; auto red = [&] (I128 v) { v %= W; if (v < -W / 2) v += W; else if (v >= W / 2) v -= W; return v; };
  LinSum R; R.c = red (L.c); R.bad = L.bad; for (auto &x : L.t) { I128 c = red (x.co); if (c) { if (c > LBIG || c < -LBIG) R.bad = true; R.t.push_back ({x.a, x.sg, c}); } } L = R;
}
static void linsum (E e, I128 co, LinSum &L, int d);
static bool linzext (E a, E atom, bool sg, I128 co, LinSum &L, int d) // adds the zero- or sign-extended value of a
{
  LinSum In; linsum (a, 1, In, d + 1);
  if (!In.bad && (In.t.size () > 1 || (In.t.size () == 1 && In.t[0].a != a) || In.c)) {
    I128 lo, hi; lrange (In, lo, hi); I128 top = (I128)1 << (a->w - 1);
    if (sg ? (lo < -top || hi >= top) : (lo < 0 || hi >= 2 * top)) { lreduce (In, a->w); if (In.bad) { ladd (L, atom, sg, co); return true; } lrange (In, lo, hi); }
    if (sg ? (lo >= -top && hi < top) : (lo >= 0 && hi < 2 * top)) { I128 t; if (__builtin_mul_overflow (co, In.c, &t) || t > CBIG || t < -CBIG) { L.bad = true; return true; } cadd (L, t); for (auto &x : In.t) ladd (L, x.a, x.sg, co * x.co); return true; }
  }
  ladd (L, atom, sg, co); return true;
}
static void linsum (E e, I128 co, LinSum &L, int d)
{
  if (L.bad) return;
  if (co > LBIG || co < -LBIG) { L.bad = true; return; }
  if (d < 24) switch (e->op) {
  case O_CONST: cadd (L, co * (I128)sx (e->k, e->w)); return;
  case O_ADD: linsum (e->a, co, L, d + 1); linsum (e->b, co, L, d + 1); return;
  case O_SUB: linsum (e->a, co, L, d + 1); linsum (e->b, -co, L, d + 1); return;
  case O_MUL: if (isc (e->b)) { I128 m = sx (e->b->k, e->w); if (m < LBIG && m > -LBIG) { linsum (e->a, co * m, L, d + 1); return; } } break;
  case O_CONCAT: if (isc (e->b) && e->b->k == 0 && e->b->w < 40) { linsum (e->a, co * ((I128)1 << e->b->w), L, d + 1); return; }
    if (isc (e->a)) { { I128 t; if (__builtin_mul_overflow (co * (I128)sx (e->a->k, e->a->w), (I128)1 << e->b->w, &t) || t > CBIG || t < -CBIG) { L.bad = true; return; } cadd (L, t); } linzext (e->b, e->b, false, co, L, d); return; } break;
  case O_EXTRACT: if (e->k == 0) { // truncation that loses nothing
    LinSum In; linsum (e->a, 1, In, d + 1); if (In.bad || In.t.empty () || (In.t.size () == 1 && In.t[0].a == e->a && In.c == 0)) { if (In.bad || In.t.empty ()) break; }
    I128 lo, hi; I128 W = (I128)1 << e->w; lrange (In, lo, hi); if (lo < -W / 2 || hi >= W) { lreduce (In, e->w); if (In.bad) break; lrange (In, lo, hi); } if (lo >= -W / 2 && hi < W) { I128 t; if (__builtin_mul_overflow (co, In.c, &t) || t > CBIG || t < -CBIG) { L.bad = true; return; } cadd (L, t); for (auto &x : In.t) ladd (L, x.a, x.sg, co * x.co); return; } } break;
  case O_SEXT: case O_ZEXT: if (linzext (e->a, e->a, e->op == O_SEXT, co, L, d)) return; break;
  default: break;
  }
  ladd (L, e, true, co);
}
static E lrebuild (const LinSum &L, unsigned w)
{
  E r = K ((uint64_t)L.c, w);
  for (auto &x : L.t) { if (!x.co) continue; E v = x.a; if (v->w < w) v = mk (x.sg ? O_SEXT : O_ZEXT, w, v); else if (v->w > w) v = mkExtract (v, 0, w); r = mk (O_ADD, w, mk (O_MUL, w, v, K ((uint64_t)x.co, w)), r); }
  return r;
}
static bool linq (E e) { switch (e->op) { case O_ADD: case O_SUB: return true; case O_MUL: return isc (e->b); case O_CONCAT: return isc (e->b) && e->b->k == 0; case O_SEXT: case O_ZEXT: return linq (e->a); default: return false; } }
// e / c and e % c where e = c*q + r with 0 <= r < c provable from ranges
static E lindiv (Op op, unsigned w, E e, uint64_t cv)
{
  bool sg = op == O_SDIV || op == O_SREM; I128 c = sg ? (I128)sx (cv, w) : (I128)cv;
  if (c <= 1 || w < 16 || !linq (e)) return nullptr;
  LinSum L, Q, R; linsum (e, 1, L, 0); if (L.bad) return nullptr;
  I128 lo, hi; lrange (L, lo, hi); if (lo < -((I128)1 << (w - 1)) || hi >= (I128)1 << w) { lreduce (L, w); if (L.bad) return nullptr; lrange (L, lo, hi); } I128 top = (I128)1 << (w - 1);
  if (sg ? (lo < -top || hi >= top) : (lo < 0 || hi >= 2 * top)) return nullptr;
  { static int nest = 0; if (L.t.size () <= 1 && !nest) { E r = lrebuild (L, w); if (r != e) { nest++; r = mk (op, w, r, K (cv, w)); nest--; return r; } } }
  for (auto &x : L.t) { if (x.co % c == 0) Q.t.push_back ({x.a, x.sg, x.co / c}); else R.t.push_back (x); }
  // split the constant so that the remainder starts at >= 0
  R.c = 0; lrange (R, lo, hi); I128 base = L.c; I128 k = base / c; if (base % c < 0) k--; Q.c = k; R.c = base - k * c;
  lrange (R, lo, hi); if (lo < 0 || hi >= c) { // try moving one multiple
    I128 sh = lo / c; if (lo % c < 0) sh--; R.c -= sh * c; Q.c += sh; lrange (R, lo, hi); if (lo < 0 || hi >= c) return nullptr; }
  if (Q.t.empty () && R.t.size () == L.t.size () && Q.c == 0 && lo >= 0) return (op == O_SDIV || op == O_UDIV) ? K (0, w) : e;
  E q = lrebuild (Q, w), r = lrebuild (R, w); I128 ql, qh; lrange (Q, ql, qh);
  bool div = op == O_SDIV || op == O_UDIV;
  if (ql >= 0) return div ? q : r;
  E neg = mk (O_AND, 1, mk (O_SLT, 1, q, K (0, w)), mkNot (mk (O_EQ, 1, r, K (0, w))));
  return div ? mk (O_ITE, w, neg, mk (O_ADD, w, q, K (1, w)), q) : mk (O_ITE, w, neg, mk (O_ADD, w, r, K ((uint64_t)-c, w)), r);
}
// difference of two sums is a constant -> equality decided
static void lpair (LinSum &L, unsigned w)
{
  for (bool ch = true; ch;) { ch = false; // c*(x/c) + x%c -> x
    for (size_t i = 0; i < L.t.size () && !ch; i++) { E q = L.t[i].a; if (!L.t[i].co || !(q->op == O_UDIV || q->op == O_SDIV) || !isc (q->b)) continue; I128 c = q->op == O_SDIV ? (I128)sx (q->b->k, q->w) : (I128)q->b->k; if (!c || L.t[i].co % c) continue;
      for (size_t j = 0; j < L.t.size (); j++) { E r = L.t[j].a; if (r->op != (q->op == O_UDIV ? O_UREM : O_SREM) || r->a != q->a || r->b != q->b || L.t[j].co != L.t[i].co / c || L.t[i].sg != L.t[j].sg) continue;
        if (!L.t[i].sg && q->op == O_SDIV) continue;
        if (q->w < w && q->op == O_UDIV && L.t[i].sg) { uint64_t l1, h1, l2, h2; ubounds (q, l1, h1); ubounds (r, l2, h2); if (h1 > maskw (q->w) >> 1 || h2 > maskw (q->w) >> 1) continue; }
        I128 co = L.t[j].co; E x = q->a; bool sg = q->op == O_SDIV; L.t[i].co = 0; L.t[j].co = 0; LinSum S; linsum (x, 1, S, 0); I128 lo, hi; lrange (S, lo, hi); I128 top = (I128)1 << (x->w - 1);
        if (!S.bad && (sg ? (lo >= -top && hi < top) : (lo >= 0 && hi < 2 * top))) { L.c += co * S.c; for (auto &y : S.t) ladd (L, y.a, y.sg, co * y.co); } else ladd (L, x, sg, co);
        ch = true; break; } } }
}
static E linequal (E a, E b)
{
  if (!(linq (a) || linq (b)) || a->w < 8) return nullptr;
  LinSum L; linsum (a, 1, L, 0); linsum (b, -1, L, 0); if (L.bad) return nullptr;
  unsigned w = a->w;
  lpair (L, w);
  if (L.bad) return nullptr;
  // coefficients only matter modulo 2^w: take the representative nearest zero, then look for a multiple of 2^w in range
  I128 W = (I128)1 << w; auto red = [&] (I128 v) { v %= W; if (v < -W / 2) v += W; else if (v >= W / 2) v -= W; return v; };
  LinSum R; R.c = red (L.c); for (auto &x : L.t) { I128 c = red (x.co); if (c) { if (c > LBIG || c < -LBIG) return nullptr; R.t.push_back ({x.a, x.sg, c}); } }
  if (R.t.empty ()) return R.c == 0 ? P->T : P->F;
  I128 lo, hi; lrange (R, lo, hi); I128 k = lo / W; if (lo % W > 0) k++; // smallest multiple >= lo
  return k * W > hi ? P->F : nullptr;
}

// ---- floating-point affine forms: value = (sum co*atom + c) / D, up to an absolute error bound ----
// Decides conversions back to integer and comparisons without bit-blasting IEEE arithmetic: every
// operation adds its worst-case rounding error (2^-53 relative), the real-valued form is exact rational.
struct FA { LinSum S; I128 D = 1; long double err = 0, lo = 0, hi = 0; bool ok = false; };
static I128 gcd128 (I128 a, I128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I128 t = a % b; a = b; b = t; } return a; }
static bool fscale (FA &x, I128 num, I128 den) // multiply by num/den
{
  if (den < 0) { num = -num; den = -den; }
  I128 g = gcd128 (num, x.D); if (g > 1) { num /= g; x.D /= g; }
  g = gcd128 (den, x.S.c); for (auto &t : x.S.t) g = gcd128 (g, t.co); if (g > 1) { den /= g; x.S.c /= g; for (auto &t : x.S.t) t.co /= g; }
  if (__builtin_mul_overflow (x.D, den, &x.D) || x.D > LBIG) return false;
  if (__builtin_mul_overflow (x.S.c, num, &x.S.c) || x.S.c > LBIG || x.S.c < -LBIG) return false;
  for (auto &t : x.S.t) if (__builtin_mul_overflow (t.co, num, &t.co) || t.co > LBIG || t.co < -LBIG) return false;
  return true;
}
static void frange (FA &x) { I128 l, h; lrange (x.S, l, h); x.lo = (long double)l / (long double)x.D; x.hi = (long double)h / (long double)x.D; long double m = std::max (fabsl (x.lo), fabsl (x.hi)) * 1e-18L; x.lo -= m + x.err; x.hi += m + x.err; }
static void fround (FA &x) { frange (x); x.err = x.err * (1 + 1e-15L) + std::max (fabsl (x.lo), fabsl (x.hi)) * 1.1102230246251566e-16L + 1e-300L; frange (x); if (std::max (fabsl (x.lo), fabsl (x.hi)) > 1e300L) x.ok = false; }
static bool dyadic (double d, I128 &num, I128 &den) { if (!(fabs (d) < 1e30) || (d != 0 && fabs (d) < 1e-30)) return false; int e; double m = frexp (d, &e); num = (I128)(int64_t)ldexp (m, 53); e -= 53; den = 1; while (e < 0 && num % 2 == 0 && num) { num /= 2; e++; } if (e > 60 || e < -100) return false; if (e >= 0) num *= (I128)1 << e; else den = (I128)1 << -e; return true; }
static std::unordered_map<E, FA> facache;
static FA faff (E e, int d = 0)
{
  FA r; if (e->w != 64 || d > 24) return r;
  auto it = facache.find (e); if (it != facache.end ()) return it->second;
  switch (e->op) {
  case O_CONST: { I128 n, q; if (dyadic (bits2d (e->k, 64), n, q)) { if (n == 0) q = 1; r.S.c = n; r.D = q; r.ok = true; frange (r); } break; }
  case O_UI2FP: case O_SI2FP: {
    if (e->a->fp) break;
    bool sg = e->op == O_SI2FP; linsum (e->a, 1, r.S, 0); I128 lo, hi; lrange (r.S, lo, hi); I128 top = (I128)1 << (e->a->w - 1);
    if (r.S.bad || (sg ? (lo < -top || hi >= top) : (lo < 0 || hi >= 2 * top))) { r.S = LinSum (); ladd (r.S, e->a, sg, 1); lrange (r.S, lo, hi); }
    r.ok = true; frange (r); if (lo < -((I128)1 << 53) || hi > ((I128)1 << 53)) fround (r); break; }
  case O_FADD: case O_FSUB: {
    FA x = faff (e->a, d + 1), y = faff (e->b, d + 1); if (!x.ok || !y.ok) break;
    I128 g = gcd128 (x.D, y.D), mx = y.D / g, my = x.D / g, D; if (__builtin_mul_overflow (x.D, mx, &D) || D > LBIG) break;
    r.D = D; bool bad = false; auto acc = [&] (const FA &f, I128 m) { I128 v; if (__builtin_mul_overflow (f.S.c, m, &v)) bad = true; else r.S.c += v; for (auto &t : f.S.t) { if (__builtin_mul_overflow (t.co, m, &v) || v > LBIG || v < -LBIG) bad = true; else ladd (r.S, t.a, t.sg, v); } };
    acc (x, mx); acc (y, e->op == O_FSUB ? -my : my); if (bad || r.S.bad) break;
    r.err = x.err + y.err; r.ok = true;
    { I128 l, h; lrange (r.S, l, h); bool exact = r.D == 1 && r.err == 0 && l >= -((I128)1 << 53) && h <= ((I128)1 << 53); if (exact) frange (r); else fround (r); }
    break; }
  case O_FMUL: case O_FDIV: {
    E ce = isc (e->b) ? e->b : e->op == O_FMUL && isc (e->a) ? e->a : nullptr; if (!ce) break;
    FA x = faff (ce == e->b ? e->a : e->b, d + 1); I128 n, q; if (!x.ok || !dyadic (bits2d (ce->k, 64), n, q) || n == 0) break;
    r = x; double cv = fabs (bits2d (ce->k, 64)); if (!(e->op == O_FMUL ? fscale (r, n, q) : fscale (r, q, n))) { r.ok = false; break; }
    r.err *= (e->op == O_FMUL ? cv : 1 / cv) * (1 + 1e-15L); if (r.S.t.size () > 14) { r.ok = false; break; }
    { I128 l, h; lrange (r.S, l, h); bool exact = r.D == 1 && r.err == 0 && l >= -((I128)1 << 53) && h <= ((I128)1 << 53); if (exact) frange (r); else fround (r); }
    break; }
  case O_XOR: if (isc (e->b) && e->b->k == 1ull << 63 && e->a->fp) { r = faff (e->a, d + 1); if (r.ok && fscale (r, -1, 1)) frange (r); else r.ok = false; } break;
  default: break;
  }
  if (!r.ok) r = FA ();
  if (facache.size () > 200000) facache.clear ();
  facache[e] = r; return r;
}
// signed comparison decided by the range of the difference of two exact sums: 1 true, 0 false, -1 open
static int lcmp (Op op, E a, E b)
{
  if (a->w < 16) return -1;
  LinSum A, B, L; linsum (a, 1, A, 0); linsum (b, 1, B, 0); if (A.bad || B.bad) return -1;
  I128 top = (I128)1 << (a->w - 1), l, h; lreduce (A, a->w); lreduce (B, a->w); if (A.bad || B.bad) return -1; lrange (A, l, h); if (l < -top || h >= top) return -1; lrange (B, l, h); if (l < -top || h >= top) return -1;
  L = A; L.c -= B.c; for (auto &x : B.t) ladd (L, x.a, x.sg, -x.co); if (L.bad) return -1; lrange (L, l, h);
  if (op == O_SLT) return h < 0 ? 1 : l >= 0 ? 0 : -1;
  return h <= 0 ? 1 : l > 0 ? 0 : -1;
}
static E faint (FA &x, unsigned w); // trunc of a non-negative form
static E fp2int (Op op, unsigned w, E a)
{
  FA x = faff (a); if (!x.ok) return nullptr;
  if (x.lo <= -1.0L) { if (x.hi >= 1.0L || op != O_FP2SI) return nullptr; I128 l, h; lrange (x.S, l, h); (void)l; (void)h; if (!fscale (x, -1, 1)) return nullptr; frange (x); E r = faint (x, w); return r ? mk (O_SUB, w, K (0, w), r) : nullptr; }
  return faint (x, w);
}
static E faint (FA &x, unsigned w)
{
  long double top = w >= 64 ? 9.2e18L : ldexpl (1.0L, w - 1) - 2; if (x.lo <= -1.0L || x.hi >= top) return nullptr;
  I128 D = x.D, g = 0; for (auto &t : x.S.t) g = gcd128 (g, t.co); g = gcd128 (g, D); if (!g) g = D;
  I128 r = x.S.c % g; if (r < 0) r += g; // every value of the numerator is congruent to r modulo g
  if (r == 0) { if (x.err != 0) return nullptr; }
  else if (x.err != 0 && !(x.err * 1.0001L < (long double)std::min (r, g - r) / (long double)D)) return nullptr;
  I128 l, h; lrange (x.S, l, h); if (h > ((I128)1 << 62) || l < -((I128)1 << 62)) return nullptr;
  bool alldiv = true; for (auto &t : x.S.t) if (t.co % D) alldiv = false;
  LinSum Q;
  if (alldiv) { I128 k = x.S.c / D; if (x.S.c % D < 0) k--; Q.c = k; for (auto &t : x.S.t) if (t.co) Q.t.push_back ({t.a, t.sg, t.co / D}); lrange (Q, l, h); if (l < 0) { if (l < -1) return nullptr; /* real value may lie in (-1,0): truncates to 0 */ E q = lrebuild (Q, 64); q = mk (O_ITE, 64, mk (O_SLT, 1, q, K (0, 64)), K (0, 64), q); return w == 64 ? q : mkExtract (q, 0, w); } E q = lrebuild (Q, 64); return w == 64 ? q : mkExtract (q, 0, w); }
  if (D > ((I128)1 << 62)) return nullptr;
  for (auto &t : x.S.t) if (t.co) Q.t.push_back (t); Q.c = x.S.c; if (l < 0) { if (l <= -D) return nullptr; }
  E q = mk (O_SDIV, 64, lrebuild (Q, 64), K ((uint64_t)D, 64)); return w == 64 ? q : mkExtract (q, 0, w);
}
// comparisons of exactly represented integers become integer comparisons; x/c or x*c compared with 0 -> x compared with 0
static E fcmp (Op op, E a, E b)
{
  if (a->w != 64) return nullptr;
  FA x = faff (a), y = faff (b); if (!x.ok || !y.ok) return nullptr;
  if (op == O_FUNO) return P->F;
  if (x.hi < y.lo) return op == O_FOEQ ? P->F : P->T;
  if (y.hi < x.lo) return P->F;
  auto exact = [] (FA &f) { return f.D == 1 && f.err == 0; };
  auto strip = [] (E e) { int n = 0; while ((e->op == O_FDIV || e->op == O_FMUL) && isc (e->b) && bits2d (e->b->k, 64) > 1e-30 && bits2d (e->b->k, 64) < 1e30 && n++ < 8) e = e->a; return e; };
  if (!exact (x) && isc (b) && bits2d (b->k, 64) == 0) { E z = strip (a); if (z != a) { x = faff (z); if (!x.ok || !exact (x)) return nullptr; } }
  if (!exact (y) && isc (a) && bits2d (a->k, 64) == 0) { E z = strip (b); if (z != b) { y = faff (z); if (!y.ok || !exact (y)) return nullptr; } }
  if (!exact (x) || !exact (y)) return nullptr;
  I128 l, h, top = (I128)1 << 62; lrange (x.S, l, h); if (l < -top || h > top) return nullptr; lrange (y.S, l, h); if (l < -top || h > top) return nullptr;
  E p = lrebuild (x.S, 64), q = lrebuild (y.S, 64);
  return mk (op == O_FOEQ ? O_EQ : op == O_FOLT ? O_SLT : O_SLE, 1, p, q);
}

// a sum or difference whose terms cancel down to at most one
static E lincancel (Op op, unsigned w, E a, E b)
{
  static int nest = 0; if (nest) return nullptr;
  const VarSet &x = *a->vars, &y = *b->vars; size_t i = 0, j = 0; bool share = false;
  while (i < x.size () && j < y.size ()) { if (x[i] == y[j]) { share = true; break; } if (x[i] < y[j]) i++; else j++; }
  if (!share) return nullptr;
  LinSum L; linsum (a, 1, L, 0); if (L.bad) return nullptr;
  linsum (b, op == O_SUB ? -1 : 1, L, 0); if (L.bad) return nullptr; lpair (L, w); lreduce (L, w); if (L.bad || L.t.size () > 1) return nullptr;
  nest++; E r = lrebuild (L, w); nest--; return r;
}
E mk (Op op, unsigned w, E a, E b, E c, uint64_t k)
{
  // constant folding
  if (isc (a) && (!b || isc (b)) && (!c || isc (c)))
    return K (evalop (op, w, k, a->k, a->w, b ? b->k : 0, b ? b->w : 0, c ? c->k : 0), w);
  if (commut (op) && isc (a)) std::swap (a, b);
  if ((op == O_SDIV || op == O_SREM || op == O_UDIV || op == O_UREM) && isc (b) && b->k > 1) { E r = lindiv (op, w, a, b->k); if (r) return r; }
  if ((op == O_UDIV || op == O_UREM) && w == 64 && isc (b) && b->k && !isc (a)) { uint64_t l, h; ubounds (a, l, h); if (h < b->k) return op == O_UREM ? a : K (0, w); if (h <= 0xffffffffu) return mkZ (mk (op, 32, mkExtract (a, 0, 32), K (b->k, 32)), 64); }
  if (op == O_EQ && a != b) { E r = linequal (a, b); if (r) return r; }
  if ((op == O_FP2SI || op == O_FP2UI) && a->w == 64) { E r = fp2int (op, w, a); if (r) return r; }
  if ((op == O_FOEQ || op == O_FOLT || op == O_FOLE || op == O_FUNO) && a->w == 64) { E r = fcmp (op, a, b); if (r) return r; }
  if ((op == O_XOR || op == O_OR || op == O_AND) && a->op == O_ZEXT && b->op == O_ZEXT) { unsigned n = std::max (a->a->w, b->a->w); return mkZ (mk (op, n, mkZ (a->a, n), mkZ (b->a, n)), w); }
  if ((op == O_XOR || op == O_OR) && a->op == O_ZEXT && isc (b) && b->k <= maskw (a->a->w) && w > 1) return mkZ (mk (op, a->a->w, a->a, K (b->k, a->a->w)), w);
  switch (op) {
  case O_ADD:
    if (isc (b)) {
      if (b->k == 0) return a;
      if (a->op == O_ADD && isc (a->b)) return mk (O_ADD, w, a->a, K (a->b->k + b->k, w));
      if (a->op == O_CONCAT && isc (a->a) && (((a->a->k << a->b->w) + b->k) & maskw (w)) == 0) return mkZ (a->b, w);
      if (a->op == O_ITE && isc (a->b) && isc (a->c)) return mk (O_ITE, w, a->a, K (a->b->k + b->k, w), K (a->c->k + b->k, w));
    }
    if (a->op == O_ADD && isc (a->b) && !isc (b)) return mk (O_ADD, w, mk (O_ADD, w, a->a, b), a->b);
    if (b->op == O_ADD && isc (b->b)) return mk (O_ADD, w, mk (O_ADD, w, a, b->a), b->b);
    if (b->op == O_SUB && b->b == a) return b->a;
    if (a->op == O_SUB && a->b == b) return a->a;
    if (w >= 32 && !isc (b) && (linq (a) || linq (b))) { E r = lincancel (op, w, a, b); if (r) return r; }
    if (!isc (b) && a->id > b->id) std::swap (a, b);
    break;
  case O_SUB:
    if (b->op == O_UREM && b->a == a && isc (b->b) && b->b->k) return mk (O_MUL, w, mk (O_UDIV, w, a, b->b), b->b);
    if (a->op == O_ZEXT && b->op == O_ZEXT && b->a->op == O_UREM && b->a->a == a->a && isc (b->a->b) && b->a->b->k) return mkZ (mk (O_SUB, a->a->w, a->a, b->a), w);
    if (isc (a) && b->op == O_MUL && isc (b->b)) return mk (O_ADD, w, mk (O_MUL, w, b->a, K (0 - b->b->k, w)), a);
    if (isc (a) && a->k == 0 && b->op == O_SUB && isc (b->a) && b->a->k == 0) return b->b;
    if (a == b) return K (0, w);
    if (isc (a) && a->k == 0 && b->op == O_ZEXT && b->a->w == 1) return mk (O_SEXT, w, b->a);
    if (isc (b)) return mk (O_ADD, w, a, K (0 - b->k, w));
    if (a->op == O_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; if (isc (a->b)) return mk (O_ADD, w, mk (O_SUB, w, a->a, b), a->b); }
    if (b->op == O_ADD && isc (b->b)) return mk (O_ADD, w, mk (O_SUB, w, a, b->a), K (0 - b->b->k, w));
    if (b->op == O_SUB && b->a == a) return b->b;
    if (w >= 32 && !isc (a) && linq (a) && linq (b)) { E r = lincancel (op, w, a, b); if (r) return r; }
    break;
  case O_MUL:
    if (isc (b)) {
      if (b->k == 0) return b;
      if (b->k == 1) return a;
      if ((b->k & (b->k - 1)) == 0) return mk (O_SHL, w, a, K (__builtin_ctzll (b->k), w));
      if (a->op == O_MUL && isc (a->b)) return mk (O_MUL, w, a->a, K (a->b->k * b->k, w));
      if (a->op == O_ITE && isc (a->b) && isc (a->c)) return mk (O_ITE, w, a->a, K (a->b->k * b->k, w), K (a->c->k * b->k, w));
    }
    break;
  case O_UDIV:
    if (isc (b)) { uint64_t l, h; ubounds (a, l, h); if (h < b->k) return K (0, w); }
    if (isc (b) && b->k == 1) return a;
    if (isc (b) && b->k && (b->k & (b->k - 1)) == 0) return mk (O_LSHR, w, a, K (__builtin_ctzll (b->k), w));
    break;
  case O_SDIV: case O_SREM: if (op == O_SDIV && isc (b) && b->k == 1) return a;
    if (isc (b) && sx (b->k, w) > 0) { uint64_t l, h; ubounds (a, l, h); if (h <= maskw (w) >> 1) return mk (op == O_SDIV ? O_UDIV : O_UREM, w, a, b); } break;
  case O_UREM:
    if (isc (b)) { uint64_t l, h; ubounds (a, l, h); if (h < b->k) return a; }
    if (isc (b) && b->k && (b->k & (b->k - 1)) == 0) return mk (O_AND, w, a, K (b->k - 1, w));
    break;
  case O_AND:
    if (a == b) return a;
    if (isc (b)) {
      if (b->k == 0) return b;
      if (b->k == maskw (w)) return a;
      if ((b->k & (b->k + 1)) == 0) { unsigned n = __builtin_ctzll (~b->k); return mk (O_ZEXT, w, mkExtract (a, 0, n)); }
      // mask with contiguous run: shift form
      { unsigned tz = __builtin_ctzll (b->k); uint64_t run = b->k >> tz; if ((run & (run + 1)) == 0 && tz) { unsigned n = run == ~0ull ? 64 : __builtin_ctzll (~run); E mid = mkExtract (a, tz, n); E lo = K (0, tz); E r = mk (O_CONCAT, n + tz, mid, lo); return mkZ (r, w); } }
      if (a->op == O_AND && isc (a->b)) return mk (O_AND, w, a->a, K (a->b->k & b->k, w));
    }
    if (w == 1 && ((a->op == O_XOR && a->b == P->T && a->a == b) || (b->op == O_XOR && b->b == P->T && b->a == a))) return P->F;
    break;
  case O_OR:
    if (a == b) return a;
    if (isc (b)) { if (b->k == 0) return a; if (b->k == maskw (w)) return b; }
    if (w == 1 && ((a->op == O_XOR && a->b == P->T && a->a == b) || (b->op == O_XOR && b->b == P->T && b->a == a))) return P->T;
    // disjoint halves: (hi . 0s) | zext(lo)  ->  hi . lo
    for (int s = 0; s < 2; s++, std::swap (a, b)) {
      unsigned lz = lowzeros (a);
      if (lz && lz < w) {
        uint64_t l, h; ubounds (b, l, h);
        if (h <= maskw (lz)) return mk (O_CONCAT, w, mkExtract (a, lz, w - lz), mkExtract (b, 0, lz));
      }
    }
    break;
  case O_XOR:
    if (a == b) return K (0, w);
    if (isc (b)) {
      if (b->k == 0) return a;
      if (a->op == O_XOR && isc (a->b)) return mk (O_XOR, w, a->a, K (a->b->k ^ b->k, w));
      if (w == 1) {
        if (a->op == O_ULT) return mk (O_ULE, 1, a->b, a->a);
        if (a->op == O_ULE) return mk (O_ULT, 1, a->b, a->a);
        if (a->op == O_SLT) return mk (O_SLE, 1, a->b, a->a);
        if (a->op == O_SLE) return mk (O_SLT, 1, a->b, a->a);
      }
    }
    break;
  case O_SHL:
    if (isc (b)) { if (b->k == 0) return a; if (b->k >= w) return K (0, w); return mk (O_CONCAT, w, mkExtract (a, 0, w - b->k), K (0, b->k)); }
    if (isc (a) && a->k == 0) return a;
    break;
  case O_LSHR:
    if (isc (b)) { if (b->k == 0) return a; if (b->k >= w) return K (0, w); return mk (O_ZEXT, w, mkExtract (a, b->k, w - b->k)); }
    if (isc (a) && a->k == 0) return a;
    break;
  case O_ASHR:
    if (isc (b)) { if (b->k == 0) return a; uint64_t s = b->k >= w ? w - 1 : b->k; return mk (O_SEXT, w, mkExtract (a, s, w - s)); }
    break;
  case O_EQ:
    if (a == b) return P->T;
    if ((a->lin || b->lin) && a->w > 1) { E r = lineq (a, b); if (r) return r; }
    if (isc (b)) {
      if (w == 1 && a->w == 1) return b->k ? a : mkNot (a);
      if (a->op == O_ITE) {
        if (isc (a->b) && isc (a->c)) { bool x = a->b->k == b->k, y = a->c->k == b->k; return x ? (y ? P->T : a->a) : (y ? mkNot (a->a) : P->F); }
        if (isc (a->b) && a->b->k != b->k) return mk (O_AND, 1, mkNot (a->a), mk (O_EQ, 1, a->c, b));
        if (isc (a->c) && a->c->k != b->k) return mk (O_AND, 1, a->a, mk (O_EQ, 1, a->b, b));
      }
      if (a->op == O_ZEXT) { if (b->k > maskw (a->a->w)) return P->F; return mk (O_EQ, 1, a->a, K (b->k, a->a->w)); }
      if (a->op == O_SEXT) { if ((uint64_t)sx (b->k & maskw (a->a->w), a->a->w) != (uint64_t)sx (b->k, a->w)) return P->F; return mk (O_EQ, 1, a->a, K (b->k, a->a->w)); }
      if (a->op == O_ADD && isc (a->b)) return mk (O_EQ, 1, a->a, K (b->k - a->b->k, a->w));
      if (a->op == O_XOR && isc (a->b)) return mk (O_EQ, 1, a->a, K (b->k ^ a->b->k, a->w));
      if (a->op == O_CONCAT) {
        unsigned lw = a->b->w; uint64_t bh = b->k >> lw, bl = b->k & maskw (lw);
        if (isc (a->a)) return a->a->k == bh ? mk (O_EQ, 1, a->b, K (bl, lw)) : P->F;
        if (isc (a->b)) return a->b->k == bl ? mk (O_EQ, 1, a->a, K (bh, a->a->w)) : P->F;
      }
      { uint64_t l, h; ubounds (a, l, h); if (b->k < l || b->k > h) return P->F; }
    } else {
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mk (O_EQ, 1, a->a, b->a);
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mk (O_EQ, 1, a->a, b->a);
      if (a->w >= 32 && linq (a) && linq (b)) { // cancel common terms modulo 2^w
        LinSum A, B; linsum (a, 1, A, 0); linsum (b, 1, B, 0);
        if (!A.bad && !B.bad) {
          LinSum L = A; for (auto &x : B.t) ladd (L, x.a, x.sg, -x.co); cadd (L, -B.c); lpair (L, a->w); lreduce (L, a->w); size_t n = 0; for (auto &x : L.t) n += x.co != 0;
          if (!L.bad && n + 1 < A.t.size () + B.t.size ()) {
            LinSum Pn, Nn; for (auto &x : L.t) if (x.co > 0) Pn.t.push_back (x); else if (x.co < 0) { Nn.t.push_back (x); Nn.t.back ().co = -x.co; }
            if (L.c > 0) Pn.c = L.c; else Nn.c = -L.c;
            return mk (O_EQ, 1, lrebuild (Pn, a->w), lrebuild (Nn, a->w)); } } }
      if (a->id > b->id) std::swap (a, b);
    }
    break;
  case O_ULT: case O_ULE: {
    if (a == b) return op == O_ULE ? P->T : P->F;
    uint64_t l1, h1, l2, h2; ubounds (a, l1, h1); ubounds (b, l2, h2);
    if (w == 1 && a->w >= 32 && (linq (a) || linq (b))) { // by sign, from the integer ranges
      LinSum A, B; linsum (a, 1, A, 0); linsum (b, 1, B, 0); lreduce (A, a->w); lreduce (B, a->w);
      if (!A.bad && !B.bad) { I128 top = (I128)1 << (a->w - 1), al, ah, bl, bh; lrange (A, al, ah); lrange (B, bl, bh);
        if (al >= -top && ah < top && bl >= -top && bh < top) { if (al >= 0 && bh < 0) return P->T; if (ah < 0 && bl >= 0) return P->F;
          if ((al >= 0 && bl >= 0) || (ah < 0 && bh < 0)) { int r = lcmp (op == O_ULT ? O_SLT : O_SLE, a, b); if (r >= 0) return r ? P->T : P->F; } } } }
    if (op == O_ULT) { if (h1 < l2) return P->T; if (l1 >= h2) return P->F; }
    else { if (h1 <= l2) return P->T; if (l1 > h2) return P->F; }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mk (op, 1, a->a, b->a);
    if (a->op == O_ZEXT && isc (b)) return mk (op, 1, a->a, K (b->k, a->a->w)); // b in range (bounds above)
    if (b->op == O_ZEXT && isc (a)) return mk (op, 1, K (a->k, b->a->w), b->a);
    break; }
  case O_SLT: case O_SLE: {
    if (a == b) return op == O_SLE ? P->T : P->F;
    uint64_t l1, h1, l2, h2; ubounds (a, l1, h1); ubounds (b, l2, h2);
    uint64_t half = maskw (a->w) >> 1;
    if (linq (a) || linq (b)) { int r = lcmp (op, a, b); if (r >= 0) return r ? P->T : P->F; }
    if (h1 <= half && h2 <= half) return mk (op == O_SLT ? O_ULT : O_ULE, 1, a, b);
    if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mk (op, 1, a->a, b->a);
    if (a->op == O_SEXT && isc (b)) { int64_t v = sx (b->k, b->w); unsigned aw = a->a->w; int64_t mx = (int64_t)(maskw (aw) >> 1), mn = -mx - 1;
      if (v > mx) return P->T; if (v < mn) return P->F; return mk (op, 1, a->a, K (v, aw)); }
    if (b->op == O_SEXT && isc (a)) { int64_t v = sx (a->k, a->w); unsigned bw = b->a->w; int64_t mx = (int64_t)(maskw (bw) >> 1), mn = -mx - 1;
      if (v > mx) return P->F; if (v < mn) return P->T; return mk (op, 1, K (v, bw), b->a); }
    if (h1 <= half && isc (b) && sx (b->k, b->w) < 0) return P->F;
    if (h2 <= half && isc (a) && sx (a->k, a->w) < 0) return P->T;
    break; }
  case O_ITE:
    if (isc (a)) return a->k ? b : c;
    if (b == c) return b;
    if (w == 1) {
      if (isc (b)) return b->k ? mk (O_OR, 1, a, c) : mk (O_AND, 1, mkNot (a), c);
      if (isc (c)) return c->k ? mk (O_OR, 1, mkNot (a), b) : mk (O_AND, 1, a, b);
    }
    if (a->op == O_XOR && a->b == P->T) return mk (O_ITE, w, a->a, c, b);
    if (a->op == O_EQ && ((b == a->b && c == a->a) || (b == a->a && c == a->b))) return c;
    if (a->op == O_EQ && isc (a->b) && a->b->k == 0 && isc (b) && b->k == 0 && c->op == O_MUL && c->a == a->a) return c;
    if (b->op == O_ITE && b->a == a) b = b->b;
    if (c->op == O_ITE && c->a == a) c = c->c;
    if (b == c) return b;
    break;
  case O_CONCAT:
    if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->a == b->a && a->k == b->k + b->w) return mkExtract (a->a, b->k, w);
    if (isc (a) && a->k == 0) return mk (O_ZEXT, w, b);
    if (a->op == O_EXTRACT && a->k >= b->w && b->w >= 32 && mkExtract (a->a, a->k - b->w, b->w) == b) return mkExtract (a->a, a->k - b->w, w);
    if (a->op == O_CONCAT && a->b->op == O_EXTRACT && b->op == O_EXTRACT && a->b->a == b->a && a->b->k == b->k + b->w)
      return mk (O_CONCAT, w, a->a, mkExtract (b->a, b->k, a->b->w + b->w));
    if (b->op == O_CONCAT && a->op == O_EXTRACT && b->a->op == O_EXTRACT && a->a == b->a->a && a->k == b->a->k + b->a->w)
      return mk (O_CONCAT, w, mkExtract (a->a, b->a->k, a->w + b->a->w), b->b);
    if (a->op == O_CONCAT && isc (a->b) && isc (b)) return mk (O_CONCAT, w, a->a, K ((a->b->k << b->w) | b->k, a->b->w + b->w));
    if (a->op == O_ZEXT) return mk (O_ZEXT, w, mk (O_CONCAT, a->a->w + b->w, a->a, b));
    if (a->op == O_EXTRACT && b->op == O_VAR && a->a == b) break;
    break;
  case O_EXTRACT:
    if (k == 0 && a->w == w) return a;
    switch (a->op) {
    case O_EXTRACT: return mkExtract (a->a, a->k + k, w);
    case O_CONCAT: {
      unsigned lw = a->b->w;
      if (k + w <= lw) return mkExtract (a->b, k, w);
      if (k >= lw) return mkExtract (a->a, k - lw, w);
      return mk (O_CONCAT, w, mkExtract (a->a, 0, k + w - lw), mkExtract (a->b, k, lw - k)); }
    case O_ZEXT:
      if (k >= a->a->w) return K (0, w);
      if (k + w <= a->a->w) return mkExtract (a->a, k, w);
      return mk (O_ZEXT, w, mkExtract (a->a, k, a->a->w - k));
    case O_SEXT:
      if (k + w <= a->a->w) return mkExtract (a->a, k, w);
      if (k == 0) return mk (O_SEXT, w, a->a);
      if (k < a->a->w) return mk (O_SEXT, w, mkExtract (a->a, k, a->a->w - k));
      return mk (O_SEXT, w, mkExtract (a->a, a->a->w - 1, 1));
    case O_ITE:
      if (isc (a->b) || isc (a->c)) return mk (O_ITE, w, a->a, mkExtract (a->b, k, w), mkExtract (a->c, k, w));
      break;
    case O_AND: case O_OR: case O_XOR:
      if (!isc (a->b) && !((a->a->op == O_CONCAT || a->a->op == O_ZEXT) && (a->b->op == O_CONCAT || a->b->op == O_ZEXT))) break;
      return mk (a->op, w, mkExtract (a->a, k, w), mkExtract (a->b, k, w));
    case O_ADD: case O_SUB: case O_MUL:
      if (k == 0 && w >= 32) return mk (a->op, w, mkExtract (a->a, 0, w), mkExtract (a->b, 0, w)); // not for byte stores: they must re-join
      if (w == 1 && k == a->w - 1u) { int r = lcmp (O_SLT, a, K (0, a->w)); if (r >= 0) return r ? P->T : P->F; } // sign bit
      break;
    default: break;
    }
    break;
  case O_ZEXT:
    if (a->w == w) return a;
    if (a->op == O_ZEXT) return mk (O_ZEXT, w, a->a);
    if (a->op == O_EXTRACT && a->k == 0) { uint64_t l, h; ubounds (a->a, l, h); if (h <= maskw (a->w)) return a->a->w >= w ? mkExtract (a->a, 0, w) : mk (O_ZEXT, w, a->a); }
    break;
  case O_SEXT:
    if (a->w == w) return a;
    if (a->op == O_SEXT) return mk (O_SEXT, w, a->a);
    if (a->op == O_ZEXT) return mk (O_ZEXT, w, a->a);
    { uint64_t l, h; ubounds (a, l, h); if (h <= maskw (a->w) >> 1) return mk (O_ZEXT, w, a); }
    break;
  case O_FPCAST: if (a->w == w) return a; break;
  default: break;
  }
  return P->intern (op, w, k, a, b, c);
}
