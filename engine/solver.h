// Expression -> Z3 translation, constraint slicing, query cache.
#pragma once
#include "expr.h"
#include <z3.h>
#include <memory>
#include <chrono>

typedef std::vector<uint64_t> Assign; // var id -> value
typedef std::shared_ptr<const Assign> AssignP;
enum Res { R_SAT, R_UNSAT, R_UNKNOWN };

struct Evaluator {
  std::vector<uint64_t> val; std::vector<uint32_t> ep; uint32_t cur = 0; const Assign *as = nullptr; AssignP hold;
  void bind (const AssignP &a) { if (as == a.get () && as) return; hold = a; as = a.get (); cur++; }
  uint64_t ev (E e) {
    if (e->op == O_CONST) return e->k;
    if (e->op == O_VAR) return e->k < as->size () ? (*as)[e->k] & maskw (e->w) : 0;
    if (e->id >= ep.size ()) { ep.resize (P->nid + 1024, 0); val.resize (ep.size ()); }
    if (ep[e->id] == cur) return val[e->id];
    uint64_t r;
    if (e->op == O_ITE) r = ev (e->a) ? ev (e->b) : ev (e->c);
    else { uint64_t a = ev (e->a), b = e->b ? ev (e->b) : 0, c = e->c ? ev (e->c) : 0; r = evalop (e->op, e->w, e->k, a, e->a->w, b, e->b ? e->b->w : 0, c); }
    if (e->id >= ep.size ()) { ep.resize (P->nid + 1024, 0); val.resize (ep.size ()); }
    ep[e->id] = cur; val[e->id] = r; return r;
  }
};
extern Evaluator EV;

// Sets of unsigned values as sorted disjoint intervals.
typedef std::vector<std::pair<uint64_t, uint64_t>> Ivs;
static inline Ivs ivAnd (const Ivs &a, const Ivs &b) { Ivs r; for (auto &x : a) for (auto &y : b) { uint64_t l = std::max (x.first, y.first), h = std::min (x.second, y.second); if (l <= h) r.push_back ({l, h}); } std::sort (r.begin (), r.end ()); return r; }
static inline Ivs ivNot (const Ivs &a, uint64_t m) { Ivs r; uint64_t at = 0; bool done = false; for (auto &x : a) { if (x.first > at) r.push_back ({at, x.first - 1}); if (x.second >= m) { done = true; break; } at = x.second + 1; } if (!done) r.push_back ({at, m}); return r; }
// Condition c as "base in set": comparisons of base + constant with a constant, their negation and unions.
static inline bool ivAtom (E c, E &base, Ivs &set, int d = 0)
{
  if (c->w != 1 || d > 6) return false;
  if (c->op == O_XOR && c->b == P->T) { if (!ivAtom (c->a, base, set, d + 1)) return false; set = ivNot (set, maskw (base->w)); return true; }
  if (c->op == O_OR || c->op == O_AND) { E b2; Ivs s2; if (!ivAtom (c->a, base, set, d + 1) || !ivAtom (c->b, b2, s2, d + 1) || b2 != base) return false; uint64_t m = maskw (base->w);
    set = c->op == O_AND ? ivAnd (set, s2) : ivNot (ivAnd (ivNot (set, m), ivNot (s2, m)), m); return set.size () <= 16; }
  if (c->op != O_EQ && c->op != O_ULT && c->op != O_ULE && c->op != O_SLT && c->op != O_SLE) return false;
  E x; uint64_t lo, hi; unsigned w = c->a->w; uint64_t m = maskw (w), top = w >= 64 ? 1ull << 63 : 1ull << (w - 1); // circular interval of x
  if (isc (c->b)) { uint64_t k = c->b->k; x = c->a; if (isc (x)) return false;
    switch (c->op) { case O_EQ: lo = hi = k; break; case O_ULE: lo = 0; hi = k; break; case O_ULT: if (!k) return false; lo = 0; hi = k - 1; break;
      case O_SLE: lo = top; hi = k; break; default: if (k == top) return false; lo = top; hi = (k - 1) & m; } }
  else if (isc (c->a)) { uint64_t k = c->a->k; x = c->b;
    switch (c->op) { case O_EQ: lo = hi = k; break; case O_ULE: lo = k; hi = m; break; case O_ULT: if (k == m) return false; lo = k + 1; hi = m; break;
      case O_SLE: lo = k; hi = top - 1; break; default: if (k == top - 1) return false; lo = (k + 1) & m; hi = top - 1; } }
  else return false;
  Ivs s; auto circ = [] (uint64_t l, uint64_t h, uint64_t mm) { return l <= h ? Ivs{{l, h}} : Ivs{{0, h}, {l, mm}}; };
  if (x->op == O_ADD && isc (x->b)) { lo = (lo - x->b->k) & m; hi = (hi - x->b->k) & m; x = x->a; }
  s = circ (lo, hi, m);
  for (;;) {
    if (x->op == O_ZEXT) { uint64_t mm = maskw (x->a->w); s = ivAnd (s, Ivs{{0, mm}}); x = x->a; }
    else if (x->op == O_SEXT) { unsigned iw = x->a->w; uint64_t mm = maskw (iw), t2 = 1ull << (iw - 1), ow = maskw (x->w); Ivs pos = ivAnd (s, Ivs{{0, t2 - 1}}), neg = ivAnd (s, Ivs{{(ow ^ mm) | t2, ow}}); for (auto &p : neg) pos.push_back ({p.first & mm, p.second & mm}); s = pos; x = x->a; }
    else if (x->op == O_ADD && isc (x->b)) { Ivs r; uint64_t mm = maskw (x->w); for (auto &p : s) { Ivs c1 = circ ((p.first - x->b->k) & mm, (p.second - x->b->k) & mm, mm); r.insert (r.end (), c1.begin (), c1.end ()); } std::sort (r.begin (), r.end ()); s = r; x = x->a; }
    else break;
    if (x->w == 1) return false;
  }
  if (isc (x) || s.size () > 16) return false;
  base = x; set = s; return true;
}
// Replace what the path already fixes: a condition known true/false, an expression known to equal a constant,
// a comparison decided by the interval the path puts its operand in.
struct Facts {
  std::unordered_map<E, E> m; std::unordered_map<E, Ivs> iv; std::vector<bool> vars; int budget = 3000;
  void mark (E x) { for (auto v : *x->vars) { if (v >= vars.size ()) vars.resize (v + 64); vars[v] = true; } }
  void eq (E x, uint64_t k) {
    if (isc (x)) return;
    m[x] = K (k, x->w); mark (x);
    if (x->op == O_CONCAT) { eq (x->a, x->b->w >= 64 ? 0 : k >> x->b->w); eq (x->b, k & maskw (x->b->w)); }
    else if (x->op == O_ZEXT) eq (x->a, k); else if (x->op == O_SEXT) eq (x->a, k & maskw (x->a->w));
  }
  void add (E p) {
    E base; Ivs set;
    if (ivAtom (p, base, set)) { auto it = iv.find (base); if (it == iv.end ()) iv[base] = set; else { Ivs r = ivAnd (it->second, set); if (r.size () <= 16) it->second = r; } mark (base); }
    if (p->op == O_XOR && p->b == P->T) { eq (p->a, 0); return; }
    eq (p, 1); if (p->op == O_EQ && isc (p->b)) eq (p->a, p->b->k);
  }
  E sub (E e) {
    if (isc (e)) return e;
    auto it = m.find (e); if (it != m.end ()) return it->second;
    bool hit = false; for (auto v : *e->vars) if (v < vars.size () && vars[v]) { hit = true; break; }
    if (!hit || !e->a || budget-- <= 0) return e;
    if (e->w == 1 && !iv.empty ()) { E base; Ivs set; if (ivAtom (e, base, set)) { auto f = iv.find (base); if (f != iv.end () && !f->second.empty ()) { Ivs in = ivAnd (f->second, set); E r = in.empty () ? P->F : in == f->second ? P->T : nullptr; if (r) { m[e] = r; return r; } } } }
    E a = sub (e->a), b = e->b ? sub (e->b) : nullptr, c = e->c ? sub (e->c) : nullptr;
    E r = a == e->a && b == e->b && c == e->c ? e : mk (e->op, e->w, a, b, c, e->k);
    m[e] = r; return r;
  }
};
struct Solver {
  Z3_context ctx; Z3_tactic tbv, tfp;
  std::vector<Z3_ast> bvc, boolc, fpc; // caches by expr id
  std::vector<unsigned> varw;
  std::unordered_map<std::string, std::pair<Res, std::vector<std::pair<uint32_t, uint64_t>>>> cache;
  uint64_t guessed = 0, enumerated = 0, bypath = 0, rechecked = 0, budgetouts = 0, queries = 0, hits = 0, unknowns = 0, sat = 0, unsat = 0; double secs = 0, maxq = 0; unsigned timeout_ms = 20000; double deadline = 1e18; // wall-clock seconds (steady clock)
  Solver ();
  // SAT of slice(pc, cond) && cond. On SAT newmodel extends base.
  Res check (const std::vector<E> &pc, E cond, const AssignP &base, AssignP &newmodel);
  Z3_ast BV (E e), BO (E e), FP (E e);
};
