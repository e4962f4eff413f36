#include "solver.h"
#include <set>
#include <map>
#include <functional>
#include <cstdio>
#include <cstdlib>
Evaluator EV;
static const char *dumpdir = getenv ("MSE_DUMP");
static Z3_ast inc (Z3_context, Z3_ast a) { return a; } // context-managed lifetime
static Z3_tactic mktac (Z3_context c, std::vector<const char *> n)
{
  Z3_tactic t = nullptr;
  for (auto s : n) {
    Z3_tactic x = Z3_mk_tactic (c, s); Z3_tactic_inc_ref (c, x);
    if (t) { t = Z3_tactic_and_then (c, t, x); Z3_tactic_inc_ref (c, t); } else t = x;
  }
  return t;
}
static void errh (Z3_context c, Z3_error_code e) { fprintf (stderr, "z3 error: %s\n", Z3_get_error_msg (c, e)); _Exit (3); }
Solver::Solver ()
{
  Z3_config cfg = Z3_mk_config (); ctx = Z3_mk_context (cfg); Z3_set_error_handler (ctx, errh);
  tbv = mktac (ctx, {"simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "bit-blast", "sat"});
  tfp = mktac (ctx, {"simplify", "propagate-values", "fpa2bv", "propagate-values", "simplify", "solve-eqs", "simplify", "bit-blast", "sat"});
}
static Z3_ast tableite (Z3_context c, const std::vector<uint64_t> &t, size_t lo, size_t n, Z3_ast idx, unsigned bit, Z3_sort s)
{
  if (lo >= t.size ()) return inc (c, Z3_mk_unsigned_int64 (c, 0, s));
  bool same = true;
  for (size_t i = lo; i < lo + n && i < t.size (); i++) if (t[i] != t[lo]) { same = false; break; }
  if (n == 1 || same) return inc (c, Z3_mk_unsigned_int64 (c, t[lo], s));
  Z3_ast l = tableite (c, t, lo, n / 2, idx, bit - 1, s), h = tableite (c, t, lo + n / 2, n / 2, idx, bit - 1, s);
  Z3_ast b = inc (c, Z3_mk_eq (c, Z3_mk_extract (c, bit - 1, bit - 1, idx), Z3_mk_unsigned_int64 (c, 1, Z3_mk_bv_sort (c, 1))));
  return inc (c, Z3_mk_ite (c, b, h, l));
}
Z3_ast Solver::BO (E e)
{
  if (e->id < boolc.size () && boolc[e->id]) return boolc[e->id];
  Z3_ast r;
  switch (e->op) {
  case O_CONST: r = e->k ? Z3_mk_true (ctx) : Z3_mk_false (ctx); break;
  case O_EQ: r = e->a->w == 1 ? Z3_mk_iff (ctx, BO (e->a), BO (e->b)) : Z3_mk_eq (ctx, BV (e->a), BV (e->b)); break;
  case O_ULT: r = Z3_mk_bvult (ctx, BV (e->a), BV (e->b)); break;
  case O_ULE: r = Z3_mk_bvule (ctx, BV (e->a), BV (e->b)); break;
  case O_SLT: r = Z3_mk_bvslt (ctx, BV (e->a), BV (e->b)); break;
  case O_SLE: r = Z3_mk_bvsle (ctx, BV (e->a), BV (e->b)); break;
  case O_AND: { Z3_ast x[2] = {BO (e->a), BO (e->b)}; r = Z3_mk_and (ctx, 2, x); break; }
  case O_OR: { Z3_ast x[2] = {BO (e->a), BO (e->b)}; r = Z3_mk_or (ctx, 2, x); break; }
  case O_XOR: r = e->b == P->T ? Z3_mk_not (ctx, BO (e->a)) : Z3_mk_xor (ctx, BO (e->a), BO (e->b)); break;
  case O_ITE: r = Z3_mk_ite (ctx, BO (e->a), BO (e->b), BO (e->c)); break;
  case O_FOEQ: r = Z3_mk_fpa_eq (ctx, FP (e->a), FP (e->b)); break;
  case O_FOLT: r = Z3_mk_fpa_lt (ctx, FP (e->a), FP (e->b)); break;
  case O_FOLE: r = Z3_mk_fpa_leq (ctx, FP (e->a), FP (e->b)); break;
  case O_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan (ctx, FP (e->a)), Z3_mk_fpa_is_nan (ctx, FP (e->b))}; r = Z3_mk_or (ctx, 2, x); break; }
  default: r = Z3_mk_eq (ctx, BV (e), Z3_mk_unsigned_int64 (ctx, 1, Z3_mk_bv_sort (ctx, 1)));
  }
  if (e->id >= boolc.size ()) boolc.resize (P->nid + 64, nullptr);
  return boolc[e->id] = inc (ctx, r);
}
Z3_ast Solver::FP (E e)
{
  if (e->id < fpc.size () && fpc[e->id]) return fpc[e->id];
  Z3_sort s = e->w == 32 ? Z3_mk_fpa_sort_32 (ctx) : Z3_mk_fpa_sort_64 (ctx);
  Z3_ast rm = Z3_mk_fpa_rne (ctx), r;
  switch (e->op) {
  case O_FADD: r = Z3_mk_fpa_add (ctx, rm, FP (e->a), FP (e->b)); break;
  case O_FSUB: r = Z3_mk_fpa_sub (ctx, rm, FP (e->a), FP (e->b)); break;
  case O_FMUL: r = Z3_mk_fpa_mul (ctx, rm, FP (e->a), FP (e->b)); break;
  case O_FDIV: r = Z3_mk_fpa_div (ctx, rm, FP (e->a), FP (e->b)); break;
  case O_FSQRT: r = Z3_mk_fpa_sqrt (ctx, rm, FP (e->a)); break;
  case O_FABS: r = Z3_mk_fpa_abs (ctx, FP (e->a)); break;
  case O_FRND: { Z3_ast m = e->k == 0 ? Z3_mk_fpa_rtn (ctx) : e->k == 1 ? Z3_mk_fpa_rtp (ctx) : e->k == 2 ? Z3_mk_fpa_rtz (ctx) : e->k == 3 ? Z3_mk_fpa_rna (ctx) : rm;
    r = Z3_mk_fpa_round_to_integral (ctx, m, FP (e->a)); break; }
  case O_FPCAST: r = Z3_mk_fpa_to_fp_float (ctx, rm, FP (e->a), s); break;
  case O_SI2FP: r = Z3_mk_fpa_to_fp_signed (ctx, rm, BV (e->a), s); break;
  case O_UI2FP: r = Z3_mk_fpa_to_fp_unsigned (ctx, rm, BV (e->a), s); break;
  case O_ITE: r = Z3_mk_ite (ctx, BO (e->a), FP (e->b), FP (e->c)); break;
  default: r = Z3_mk_fpa_to_fp_bv (ctx, BV (e), s);
  }
  if (e->id >= fpc.size ()) fpc.resize (P->nid + 64, nullptr);
  return fpc[e->id] = inc (ctx, r);
}
Z3_ast Solver::BV (E e)
{
  if (e->id < bvc.size () && bvc[e->id]) return bvc[e->id];
  Z3_sort s = Z3_mk_bv_sort (ctx, e->w);
  Z3_ast r;
  switch (e->op) {
  case O_CONST: r = Z3_mk_unsigned_int64 (ctx, e->k, s); break;
  case O_VAR: { Z3_symbol y = Z3_mk_int_symbol (ctx, (int)e->k); r = Z3_mk_const (ctx, y, s); break; }
  case O_ADD: r = Z3_mk_bvadd (ctx, BV (e->a), BV (e->b)); break;
  case O_SUB: r = Z3_mk_bvsub (ctx, BV (e->a), BV (e->b)); break;
  case O_MUL: r = Z3_mk_bvmul (ctx, BV (e->a), BV (e->b)); break;
  case O_UDIV: r = Z3_mk_bvudiv (ctx, BV (e->a), BV (e->b)); break;
  case O_SDIV: r = Z3_mk_bvsdiv (ctx, BV (e->a), BV (e->b)); break;
  case O_UREM: r = Z3_mk_bvurem (ctx, BV (e->a), BV (e->b)); break;
  case O_SREM: r = Z3_mk_bvsrem (ctx, BV (e->a), BV (e->b)); break;
  case O_AND: if (e->w == 1) goto viabool; r = Z3_mk_bvand (ctx, BV (e->a), BV (e->b)); break;
  case O_OR: if (e->w == 1) goto viabool; r = Z3_mk_bvor (ctx, BV (e->a), BV (e->b)); break;
  case O_XOR: if (e->w == 1) goto viabool; r = Z3_mk_bvxor (ctx, BV (e->a), BV (e->b)); break;
  case O_SHL: r = Z3_mk_bvshl (ctx, BV (e->a), BV (e->b)); break;
  case O_LSHR: r = Z3_mk_bvlshr (ctx, BV (e->a), BV (e->b)); break;
  case O_ASHR: r = Z3_mk_bvashr (ctx, BV (e->a), BV (e->b)); break;
  case O_ITE: r = Z3_mk_ite (ctx, BO (e->a), BV (e->b), BV (e->c)); break;
  case O_CONCAT: r = Z3_mk_concat (ctx, BV (e->a), BV (e->b)); break;
  case O_EXTRACT: r = Z3_mk_extract (ctx, e->k + e->w - 1, e->k, BV (e->a)); break;
  case O_ZEXT: r = Z3_mk_zero_ext (ctx, e->w - e->a->w, BV (e->a)); break;
  case O_SEXT: r = Z3_mk_sign_ext (ctx, e->w - e->a->w, BV (e->a)); break;
  case O_TABLE: {
    auto &t = g_tables[e->k]->v; size_t n = 1; unsigned bits = 0; while (n < t.size ()) { n *= 2; bits++; }
    Z3_ast i = BV (e->a);
    if (bits > e->a->w) { i = inc (ctx, Z3_mk_zero_ext (ctx, bits - e->a->w, i)); }
    r = tableite (ctx, t, 0, n, i, bits, s); break; }
  case O_FP2SI: case O_FP2UI: {
    // in-range conversion truncates; out-of-range follows x86-64 (integer indefinite)
    E f = e->a; bool wide = e->w > 32; double lo, hi;
    bool uns = e->op == O_FP2UI && wide;
    unsigned ww = e->op == O_FP2UI ? 64 : (wide ? 64 : 32);
    if (uns) { lo = -1.0; hi = 18446744073709551616.0; } else if (ww == 64) { lo = -9223372036854777856.0; hi = 9223372036854775808.0; } else { lo = -2147483649.0; hi = 2147483648.0; }
    Z3_ast fd = f->w == 64 ? FP (f) : inc (ctx, Z3_mk_fpa_to_fp_float (ctx, Z3_mk_fpa_rne (ctx), FP (f), Z3_mk_fpa_sort_64 (ctx)));
    Z3_sort s64 = Z3_mk_fpa_sort_64 (ctx);
    Z3_ast g[2] = {Z3_mk_fpa_gt (ctx, fd, Z3_mk_fpa_numeral_double (ctx, lo, s64)), Z3_mk_fpa_lt (ctx, fd, Z3_mk_fpa_numeral_double (ctx, hi, s64))};
    Z3_ast in = Z3_mk_and (ctx, 2, g);
    Z3_ast conv = uns ? Z3_mk_fpa_to_ubv (ctx, Z3_mk_fpa_rtz (ctx), fd, ww) : Z3_mk_fpa_to_sbv (ctx, Z3_mk_fpa_rtz (ctx), fd, ww);
    r = Z3_mk_ite (ctx, in, conv, Z3_mk_unsigned_int64 (ctx, 1ull << (ww - 1), Z3_mk_bv_sort (ctx, ww)));
    if (e->w < ww) r = Z3_mk_extract (ctx, e->w - 1, 0, r);
    break; }
  case O_FABS: { Z3_ast x[1] = {BV (e->a)}; r = Z3_mk_concat (ctx, Z3_mk_unsigned_int64 (ctx, 0, Z3_mk_bv_sort (ctx, 1)), Z3_mk_extract (ctx, e->w - 2, 0, x[0])); break; }
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FSQRT: case O_FRND: case O_FPCAST: case O_SI2FP: case O_UI2FP:
    r = Z3_mk_fpa_to_ieee_bv (ctx, FP (e)); break;
  case O_FREM: fprintf (stderr, "unsupported: symbolic fmod\n"); _Exit (3);
  default:
  viabool:
    r = Z3_mk_ite (ctx, BO (e), Z3_mk_unsigned_int64 (ctx, 1, s), Z3_mk_unsigned_int64 (ctx, 0, s));
  }
  if (e->id >= bvc.size ()) bvc.resize (P->nid + 64, nullptr);
  return bvc[e->id] = inc (ctx, r);
}
static bool intersects (const VarSet &a, const std::vector<bool> &in) { for (auto x : a) if (x < in.size () && in[x]) return true; return false; }
static const char *ON[] = {"CONST","VAR","ADD","SUB","MUL","UDIV","SDIV","UREM","SREM","AND","OR","XOR","SHL","LSHR","ASHR","EQ","ULT","ULE","SLT","SLE","ITE","CONCAT","EXTRACT","ZEXT","SEXT","TABLE","FADD","FSUB","FMUL","FDIV","FREM","FSQRT","FABS","FRND","FOEQ","FOLT","FOLE","FUNO","FPCAST","SI2FP","UI2FP","FP2SI","FP2UI"};
static void show (FILE *f, E e, int d) { if (e->op == O_CONST) { fprintf (f, "%lld", (long long)sx (e->k, e->w)); return; } if (e->op == O_VAR) { fprintf (f, "v%llu:%u", (unsigned long long)e->k, e->w); return; } fprintf (f, "(%s%u", ON[e->op], e->w); if (e->op == O_EXTRACT || e->op == O_TABLE || e->op == O_FRND) fprintf (f, "@%llu", (unsigned long long)e->k); if (d > 40) fprintf (f, " .."); else for (E x : {e->a, e->b, e->c}) if (x) { fputc (' ', f); show (f, x, d + 1); } fputc (')', f); }
Res Solver::check (const std::vector<E> &pc, E cond, const AssignP &base, AssignP &newmodel)
{
  if (isc (cond)) { if (cond->k) { newmodel = base; return R_SAT; } return R_UNSAT; }
  EV.bind (base);
  if (EV.ev (cond)) { newmodel = base; return R_SAT; }
  E cond0 = cond; (void)cond0;
  { Facts f; for (auto p : pc) f.add (p); cond = f.sub (cond); if (f.budget <= 0) budgetouts++; }
  static bool recheck = getenv ("MSE_CHECK") != nullptr;
  if (isc (cond) && recheck) { // validate the path-fact reasoning with the solver
    Z3_solver s = Z3_mk_solver (ctx); Z3_solver_inc_ref (ctx, s); for (auto e : pc) Z3_solver_assert (ctx, s, BO (e)); Z3_solver_assert (ctx, s, BO (cond0)); if (Z3_solver_check (ctx, s) == Z3_L_TRUE) { fprintf (stderr, "MSE_CHECK: path facts wrong\n"); _Exit (9); } Z3_solver_dec_ref (ctx, s); rechecked++; }
  if (isc (cond)) { bypath++; return cond->k ? R_UNKNOWN : R_UNSAT; } // the model satisfies the path but not the condition
  // slice
  static std::vector<bool> in; in.assign (varw.size () + 1, false);
  for (auto x : *cond->vars) in[x] = true;
  std::vector<E> sl; std::vector<char> used (pc.size (), 0);
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size (); i++) if (!used[i] && intersects (*pc[i]->vars, in)) { used[i] = 1; sl.push_back (pc[i]); for (auto x : *pc[i]->vars) if (!in[x]) { in[x] = true; ch = true; } } }
  std::vector<uint32_t> key; for (auto e : sl) key.push_back (e->id);
  std::sort (key.begin (), key.end ()); key.erase (std::unique (key.begin (), key.end ()), key.end ()); key.push_back (cond->id);
  std::string ks ((char *)key.data (), key.size () * 4);
  auto it = cache.find (ks);
  std::pair<Res, std::vector<std::pair<uint32_t, uint64_t>>> res;
  if (it != cache.end ()) { hits++; res = it->second; }
  else {
    auto t0 = std::chrono::steady_clock::now ();
    bool fp = cond->fp; for (auto e : sl) fp |= e->fp;
    if (fp) { // few values: decide by evaluating all of them
      std::map<uint32_t, uint64_t> dom; std::set<E> seen; bool ok = true;
      std::function<void (E)> go = [&] (E e) {
        if (!ok || !e || !seen.insert (e).second) return;
        auto put = [&] (E v, uint64_t n) { uint64_t &d = dom[v->k]; if (d && d != n) ok = false; d = n; };
        if (e->op == O_UREM && e->a->op == O_VAR && isc (e->b) && e->b->k) { put (e->a, e->b->k); return; }
        if (e->op == O_VAR) { if (e->w > 16) ok = false; else put (e, 1ull << e->w); return; }
        go (e->a); go (e->b); go (e->c); };
      go (cond); for (auto e : sl) go (e);
      double tot = 1; for (auto &d : dom) tot *= d.second;
      if (ok && tot <= 70000 && !dom.empty ()) {
        auto n = std::make_shared<Assign> (*base); if (n->size () < varw.size ()) n->resize (varw.size (), 0);
        for (uint64_t i = 0; i < (uint64_t)tot; i++) {
          uint64_t r = i; for (auto &d : dom) { (*n)[d.first] = r % d.second; r /= d.second; }
          AssignP np = n; EV.bind (np); bool h = EV.ev (cond); for (size_t q = 0; h && q < sl.size (); q++) h = EV.ev (sl[q]);
          if (h) { res.first = R_SAT; for (auto &d : dom) res.second.push_back ({d.first, (*n)[d.first]}); break; } }
        if (res.second.empty ()) { res.first = R_UNSAT; unsat++; } else { sat++; newmodel = std::make_shared<Assign> (*n); }
        queries++; enumerated++; secs += std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count (); cache[ks] = res; return res.first; }
    }
    if (fp) { // look for a model by concrete evaluation first; the solver decides when none is found
      static uint64_t rs = 88172645463325252ull; auto rnd = [&] { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
      std::vector<uint32_t> vs; for (uint32_t v = 0; v < varw.size (); v++) if (in[v]) vs.push_back (v);
      for (int t = 0; t < 400 && it == cache.end (); t++) {
        auto n = std::make_shared<Assign> (*base); if (n->size () < varw.size ()) n->resize (varw.size (), 0);
        unsigned den = 1 + rnd () % vs.size (); for (auto v : vs) { uint64_t r = rnd (); if (rnd () % vs.size () >= den) continue; unsigned k = 1 + rnd () % 3; uint64_t &x = (*n)[v]; if (k == 1) x += r % 7 - 3; else if (k == 2) x = r; else if (k == 3) x = r >> (rnd () % 63); x &= maskw (varw[v]); }
        AssignP np = n; EV.bind (np); bool ok = EV.ev (cond); for (size_t i = 0; ok && i < sl.size (); i++) ok = EV.ev (sl[i]);
        if (ok) { res.first = R_SAT; for (auto v : vs) res.second.push_back ({v, (*n)[v]}); guessed++; sat++; queries++; cache[ks] = res; newmodel = np; return R_SAT; }
      }
    }
    Z3_solver s = Z3_mk_solver_from_tactic (ctx, fp ? tfp : tbv); Z3_solver_inc_ref (ctx, s);
    double left = deadline - std::chrono::duration<double> (std::chrono::steady_clock::now ().time_since_epoch ()).count (); unsigned tmo = timeout_ms; if (left * 1000 < tmo) tmo = left < 0.1 ? 100 : (unsigned)(left * 1000);
    Z3_params pr = Z3_mk_params (ctx); Z3_params_inc_ref (ctx, pr); Z3_params_set_uint (ctx, pr, Z3_mk_string_symbol (ctx, "timeout"), tmo); Z3_solver_set_params (ctx, s, pr); Z3_params_dec_ref (ctx, pr);
    for (auto e : sl) Z3_solver_assert (ctx, s, BO (e));
    Z3_solver_assert (ctx, s, BO (cond));
    Z3_lbool r = Z3_solver_check (ctx, s);
    if (r == Z3_L_TRUE) {
      res.first = R_SAT; Z3_model m = Z3_solver_get_model (ctx, s); Z3_model_inc_ref (ctx, m);
      for (uint32_t v = 0; v < varw.size (); v++) if (in[v]) {
        Z3_ast a; uint64_t val = 0;
        if (Z3_model_eval (ctx, m, BV (P->var (v, varw[v])), true, &a)) { Z3_get_numeral_uint64 (ctx, a, &val); }
        res.second.push_back ({v, val}); }
      Z3_model_dec_ref (ctx, m);
    } else res.first = r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
    Z3_solver_dec_ref (ctx, s);
    double dt = std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count ();
    if (dumpdir && dt > (getenv ("MSE_DT") ? atof (getenv ("MSE_DT")) : 0.2)) { fprintf (stderr, "[slow %.1fs %d] ", dt, (int)res.first); show (stderr, cond, 0); for (auto e : sl) { fprintf (stderr, "\n    given "); show (stderr, e, 0); } fputc ('\n', stderr); static int n; char fn[256]; snprintf (fn, 256, "%s/q%d_%.2f.smt2", dumpdir, n++, dt); FILE *f = fopen (fn, "w"); if (f) { Z3_solver s2 = Z3_mk_simple_solver (ctx); Z3_solver_inc_ref (ctx, s2); for (auto e : sl) Z3_solver_assert (ctx, s2, BO (e)); Z3_solver_assert (ctx, s2, BO (cond)); fprintf (f, "%s(check-sat)\n", Z3_solver_to_string (ctx, s2)); fclose (f); Z3_solver_dec_ref (ctx, s2); } }
    secs += dt; queries++; if (dt > maxq) maxq = dt;
    if (res.first == R_UNKNOWN) unknowns++; else if (res.first == R_SAT) sat++; else unsat++;
    cache[ks] = res;
  }
  if (res.first == R_SAT) {
    auto n = std::make_shared<Assign> (*base); if (n->size () < varw.size ()) n->resize (varw.size (), 0);
    for (auto &x : res.second) (*n)[x.first] = x.second;
    newmodel = n;
    // independent re-evaluation of the answer by the concrete semantics
    EV.bind (newmodel);
    bool ok = EV.ev (cond); for (auto e : sl) ok = ok && EV.ev (e);
    if (!ok) { unknowns++; return R_UNKNOWN; }
  }
  return res.first;
}
