// mse: path-exhaustive symbolic executor for LLVM 18 bitcode (C programs), Z3 back end.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <map>
#include <functional>
#include <set>
#include <deque>
using namespace llvm;

static std::unique_ptr<Module> M;
static const DataLayout *DL;
static Solver *S;

struct Val { E e; uint64_t c; };
static inline Val VC (uint64_t c) { return Val{nullptr, c}; }
static inline Val VE (E e) { return isc (e) ? Val{nullptr, e->k} : Val{e, 0}; }
static inline E asE (const Val &v, unsigned w) { return v.e ? v.e : K (v.c, w); }

// ------------------------------------------------------------------ memory
struct ObjData { int rc; std::vector<uint8_t> c; std::vector<E> s; };
struct DRef {
  ObjData *p = nullptr;
  DRef () {} DRef (ObjData *q) : p (q) { if (p) p->rc++; }
  DRef (const DRef &o) : p (o.p) { if (p) p->rc++; }
  DRef (DRef &&o) : p (o.p) { o.p = nullptr; }
  DRef &operator= (DRef o) { std::swap (p, o.p); return *this; }
  ~DRef () { if (p && --p->rc == 0) delete p; }
};
enum { OK_GLOBAL, OK_STACK, OK_HEAP, OK_FUNC };
struct Obj { DRef d; uint64_t size = 0; uint8_t kind = 0; bool live = false, ro = false; const Value *site = nullptr; };
static E UNINIT; // sentinel: byte never written
static const uint64_t OBASE = 0x1000;
static inline uint64_t addrOf (uint32_t id) { return ((uint64_t)(id + 1) << 32) + OBASE; }

struct Op1 { int slot; uint64_t c; };            // slot<0: constant c
struct GepT { uint64_t scale; int slot; unsigned w; };
struct Inst { const Instruction *I; unsigned op; int dst; unsigned w; std::vector<Op1> o; uint64_t off; std::vector<GepT> g; int callee; std::vector<int> succ; };
struct Blk { std::vector<Inst> in; unsigned nphi; bool pure; std::vector<int> region; int join; std::vector<int> region2; int exits[2]; };
struct Fn { Function *F; std::vector<Blk> b; unsigned nregs; bool repo; };
struct Frame { Fn *f; unsigned bb, prev, pc; std::vector<Val> r; std::vector<uint32_t> allocas; int vaobj; };
struct State {
  std::vector<Frame> st; std::vector<Obj> m; std::vector<uint32_t> freestk;
  std::vector<E> pc; AssignP model; std::vector<uint32_t> inputs; std::vector<std::vector<Val>> aggs;
  uint64_t steps = 0; unsigned forks = 0; std::map<uint32_t, int> loopc;
};
static std::vector<Fn *> fns; static std::map<const Function *, int> fnid;
static std::map<const GlobalValue *, uint32_t> gobj; static std::map<uint32_t, const Function *> objfn;
static std::vector<Obj> roobj; // objects of the initial image, by id (constants live only here)

struct Err { std::string kind, msg, loc, stack; std::vector<uint64_t> inputs; uint64_t steps; };
static std::vector<Err> errors; static std::set<std::string> errkeys, unsupported;
static std::set<std::string> reached; static std::set<int> touched;
static uint64_t merges, paths, forks, killed, steps_total, asserts_checked, paths_err, maxsteps = 30000000, memchecks;
static double tlimit = 1e9; static auto T0 = std::chrono::steady_clock::now ();
static double now () { return std::chrono::duration<double> (std::chrono::steady_clock::now () - T0).count (); }
static std::vector<State *> work; static bool incomplete = false; static std::string whyinc; static unsigned max_err = 6; static std::vector<std::vector<uint64_t>> samples; static unsigned maxsamples = 3;
struct Kill {}; // path ends
static std::map<std::pair<unsigned, unsigned>, uint32_t> varids; static std::vector<bool> varundef;

static uint32_t getvar (unsigned kind, unsigned seq, unsigned w)
{
  auto k = std::make_pair (seq, (kind << 8) | w); auto it = varids.find (k); if (it != varids.end ()) return it->second;
  uint32_t id = S->varw.size (); S->varw.push_back (w); varundef.push_back (kind); varids[k] = id; return id;
}

static std::string locOf (const Instruction *I)
{
  if (!I) return "?";
  std::string fn = I->getFunction ()->getName ().str ();
  if (auto &d = I->getDebugLoc ()) { auto *sc = d->getScope (); return (sc ? sc->getFilename ().str () : "") + ":" + std::to_string (d.getLine ()) + ":" + fn; }
  return fn;
}
static const Instruction *curInst (State &s, size_t depth = 0)
{
  if (s.st.size () <= depth) return nullptr;
  Frame &f = s.st[s.st.size () - 1 - depth]; unsigned pc = f.pc; auto &b = f.f->b[f.bb];
  if (depth && pc) pc--;
  return pc < b.in.size () ? b.in[pc].I : nullptr;
}
static std::vector<uint64_t> modelInputs (State &s, const AssignP &m)
{
  std::vector<uint64_t> v; for (auto id : s.inputs) v.push_back (id < m->size () ? (*m)[id] & maskw (S->varw[id]) : 0); return v;
}
static void report (State &s, const std::string &kind, const std::string &msg, const AssignP &m)
{
  std::string stk; const Instruction *top = nullptr;
  for (size_t d = 0; d < s.st.size (); d++) { const Instruction *I = curInst (s, d); if (d == 0) top = I; if (d < 12) stk += (d ? " < " : "") + locOf (I); }
  std::string key = kind + "|" + locOf (top) + "|" + msg;
  paths_err++;
  if (!errkeys.insert (key).second) return;
  errors.push_back (Err{kind, msg, locOf (top), stk, modelInputs (s, m), s.steps});
}
static void unsup (State &s, const std::string &why) { if (unsupported.size () < 50) unsupported.insert (why + " at " + locOf (curInst (s))); incomplete = true; throw Kill (); }

static State *fork_state (State &s) { forks++; s.forks++; State *n = new State (s); return n; }
static void addpc (State &s, E c)
{
  if (isc (c)) return;
  if (c->op == O_AND) { addpc (s, c->a); addpc (s, c->b); return; }
  if (c->op == O_XOR && c->b == P->T && c->a->op == O_OR) { addpc (s, mkNot (c->a->a)); addpc (s, mkNot (c->a->b)); return; }
  if (c->op == O_EQ && isc (c->b)) { // rewrite what is already known with the new equality
    Facts f; f.eq (c->a, c->b->k); std::vector<E> again;
    for (size_t i = 0; i < s.pc.size (); i++) { E p = s.pc[i], q = f.sub (p); if (q == p) continue; s.pc[i] = s.pc.back (); s.pc.pop_back (); i--; again.push_back (q); }
    s.pc.push_back (c); for (auto q : again) addpc (s, q); return;
  }
  s.pc.push_back (c);
}
static E simp (State &s, E e, bool all) { Facts f; for (auto p : s.pc) if (all || (p->op == O_EQ && isc (p->b))) f.add (p); return f.sub (e); }
static Val simpV (State &s, const Val &v) { if (!v.e) return v; E e = simp (s, v.e, false); return e == v.e ? v : VE (e); }
// add c to the path; false if infeasible
static bool constrain (State &s, E c)
{
  c = simp (s, c, true);
  if (isc (c)) return c->k;
  AssignP nm; Res r = S->check (s.pc, c, s.model, nm);
  if (r == R_UNSAT) return false;
  if (r == R_UNKNOWN) unsup (s, "solver gave up");
  addpc (s, c); s.model = nm; return true;
}
// is condition z false on the whole path? (z = negation of the fact asked for)
static bool mustbe (State &s, E z) { if (isc (z)) return !z->k; EV.bind (s.model); if (EV.ev (z)) return false; AssignP nm; return S->check (s.pc, z, s.model, nm) == R_UNSAT; }
// Decide a branch: returns value taken by this state, forks the other side (re-executing current instruction setup by caller via cb).
template <class F> static bool branch (State &s, E c, F other)
{
  if (isc (c)) return c->k;
  c = simp (s, c, true);
  if (isc (c)) return c->k;
  EV.bind (s.model); bool v = EV.ev (c);
  E taken = v ? c : mkNot (c), oth = v ? mkNot (c) : c;
  AssignP nm; Res r = S->check (s.pc, oth, s.model, nm);
  if (r == R_SAT) { State *n = fork_state (s); addpc (*n, oth); n->model = nm; other (*n); work.push_back (n); addpc (s, taken); }
  else if (r == R_UNKNOWN) { incomplete = true; unsupported.insert ("solver gave up on branch at " + locOf (curInst (s))); addpc (s, taken); }
  else if (taken->op == O_EQ && isc (taken->b)) addpc (s, taken); // implied, but useful as a fact
  return v;
}
// Make e concrete, forking over all its feasible values (the forked state re-executes the current instruction).
static uint64_t concretize (State &s, const Val &v0, unsigned w)
{
  Val v = simpV (s, v0); if (!v.e) return v.c;
  EV.bind (s.model); uint64_t x = EV.ev (v.e); E eq = mk (O_EQ, 1, v.e, K (x, w));
  branch (s, eq, [] (State &) {});
  return x;
}

static uint32_t newobj (State &s, uint64_t size, int kind, const Value *site, bool zero)
{
  uint32_t id;
  if (kind == OK_STACK && !s.freestk.empty ()) { id = s.freestk.back (); s.freestk.pop_back (); }
  else { id = s.m.size (); s.m.emplace_back (); }
  Obj &o = s.m[id]; o.size = size; o.kind = kind; o.live = true; o.ro = false; o.site = site;
  ObjData *d = new ObjData; d->rc = 0; d->c.assign (size, 0); if (!zero && size) d->s.assign (size, UNINIT);
  o.d = DRef (d); return id;
}
static ObjData *wr (Obj &o) { if (o.d.p->rc > 1) { ObjData *n = new ObjData (*o.d.p); n->rc = 0; o.d = DRef (n); } return o.d.p; }
static std::string objdesc (const Obj &o, uint32_t id)
{
  std::string k = o.kind == OK_GLOBAL ? "global" : o.kind == OK_STACK ? "stack" : o.kind == OK_HEAP ? "heap" : "function";
  std::string nm; if (o.site) { if (auto *I = dyn_cast<Instruction> (o.site)) nm = locOf (I); else nm = o.site->getName ().str (); }
  return k + " object (" + std::to_string (o.size) + " bytes, " + nm + ")";
}
static void memerr (State &s, const std::string &what, uint64_t addr, const AssignP &m)
{
  uint32_t id = (addr >> 32) - 1; std::string d;
  if (addr < 4096) d = "null pointer";
  else if ((addr >> 32) && id < s.m.size ()) { Obj &o = s.m[id]; d = objdesc (o, id); if (!o.live) d = "freed/out-of-scope " + d; }
  else d = "wild pointer";
  report (s, "memory", what + " of " + d, m);
}
// Resolve [addr, addr+n). Returns object id; on return 'off' is the offset (possibly symbolic, provably in bounds on this path).
static uint32_t resolve (State &s, const Val &addr0, uint64_t n, const char *what, Val &off, bool write)
{
  Val addr = simpV (s, addr0);
  memchecks++;
  if (!addr.e) {
    uint32_t id = (uint32_t)((addr.c >> 32) - 1); uint64_t o = (addr.c & 0xffffffffu) - OBASE;
    if ((addr.c >> 32) == 0 || id >= s.m.size () || !s.m[id].live || s.m[id].kind == OK_FUNC || (int64_t)o < 0 || o + n > s.m[id].size || (write && s.m[id].ro)) {
      memerr (s, std::string (what) + (write && (addr.c >> 32) && id < s.m.size () && s.m[id].ro && o + n <= s.m[id].size ? " (read-only)" : " out of bounds"), addr.c, s.model); throw Kill (); }
    off = VC (o); return id;
  }
  // symbolic address: fix the object first
  E a = addr.e; uint32_t id;
  E hi = nullptr; uint64_t base = 0;
  if (a->op == O_ADD && isc (a->b) && (a->b->k >> 32)) { uint64_t b = a->b->k; base = (b & 0xffffffffu) >= 0x80000000u && 0 ? 0 : b; }
  if (base) {
    id = (uint32_t)((base >> 32) - 1);
    // a base slightly below an object (negative constant folded in) still names that object's neighbour region
    if ((base & 0xffffffffu) > 0xf0000000u) id++;
    if (id >= s.m.size ()) base = 0; // negative offset on a symbolic pointer, not a base
  }
  if (!base) {
    EV.bind (s.model); uint64_t v = EV.ev (a); uint64_t h = v >> 32;
    hi = mk (O_EQ, 1, mkExtract (a, 32, 32), K (h, 32));
    branch (s, hi, [] (State &) {});
    if (h == 0) { memerr (s, std::string (what) + " out of bounds", v, s.model); throw Kill (); }
    id = h - 1;
  }
  if (id >= s.m.size () || !s.m[id].live || s.m[id].kind == OK_FUNC || (write && s.m[id].ro)) { EV.bind (s.model); memerr (s, std::string (what) + " out of bounds", EV.ev (a), s.model); throw Kill (); }
  E o = mk (O_SUB, 64, a, K (addrOf (id), 64));
  uint64_t sz = s.m[id].size;
  if (sz < n) { memerr (s, std::string (what) + " out of bounds", addrOf (id), s.model); throw Kill (); }
  E inb = mk (O_ULE, 1, o, K (sz - n, 64));
  AssignP nm; Res r = S->check (s.pc, mkNot (inb), s.model, nm);
  if (r == R_SAT) { memerr (s, std::string (what) + " out of bounds", addrOf (id), nm); }
  else if (r == R_UNKNOWN) { incomplete = true; unsupported.insert ("solver gave up on bounds at " + locOf (curInst (s))); }
  if (r != R_UNSAT && !constrain (s, inb)) throw Kill ();
  off = VE (o); return id;
}
static E byteE (State &s, uint32_t id, uint64_t o)
{
  Obj &ob = s.m[id]; ObjData *d = ob.d.p;
  if (d->s.empty () || !d->s[o]) return K (d->c[o], 8);
  if (d->s[o] == UNINIT) {
    static unsigned undefseq = 0; E v = P->var (getvar (1, undefseq++, 8), 8);
    ObjData *w = wr (ob); w->s[o] = v; return v;
  }
  return d->s[o];
}
static Val loadAt (State &s, uint32_t id, uint64_t o, unsigned bytes, unsigned w)
{
  ObjData *d = s.m[id].d.p;
  bool conc = true;
  if (!d->s.empty ()) for (unsigned i = 0; i < bytes; i++) if (d->s[o + i]) { conc = false; break; }
  if (conc) { uint64_t v = 0; memcpy (&v, &d->c[o], bytes); return VC (v & maskw (w)); }
  E r = byteE (s, id, o);
  for (unsigned i = 1; i < bytes; i++) r = mk (O_CONCAT, 8 * (i + 1), byteE (s, id, o + i), r);
  if (w < 8 * bytes) r = mkExtract (r, 0, w);
  return VE (r);
}
static void storeAt (State &s, uint32_t id, uint64_t o, unsigned bytes, const Val &v, unsigned w)
{
  ObjData *d = wr (s.m[id]);
  if (!v.e) { memcpy (&d->c[o], &v.c, bytes); if (!d->s.empty ()) for (unsigned i = 0; i < bytes; i++) d->s[o + i] = nullptr; return; }
  if (d->s.empty ()) d->s.assign (d->c.size (), nullptr);
  E e = mkZ (v.e, 8 * bytes);
  for (unsigned i = 0; i < bytes; i++) { E x = bytes == 1 ? e : mkExtract (e, 8 * i, 8); if (isc (x)) { d->s[o + i] = nullptr; d->c[o + i] = x->k; } else d->s[o + i] = x; }
}
static std::map<std::string, uint64_t> tabcache;
static Val load (State &s, const Val &addr, unsigned bytes, unsigned w)
{
  Val off; uint32_t id = resolve (s, addr, bytes, "read", off, false);
  if (!off.e) return loadAt (s, id, off.c, bytes, w);
  uint64_t lo, hi; ubounds (off.e, lo, hi); hi = std::min<uint64_t> (hi, s.m[id].size - bytes);
  unsigned lz = std::min (lowzeros (off.e), 12u); uint64_t stride = 1ull << lz; lo = (lo + stride - 1) / stride * stride;
  uint64_t cnt = hi < lo ? 0 : (hi - lo) / stride + 1;
  ObjData *d = s.m[id].d.p; bool conc = d->s.empty ();
  if (!conc) { conc = true; for (uint64_t o = lo; o < hi + bytes; o++) if (d->s[o]) { conc = false; break; } }
  if (conc && cnt <= 65536) {
    Table *t = new Table; for (uint64_t o = lo; o <= hi; o += stride) { uint64_t v = 0; memcpy (&v, &d->c[o], bytes); t->v.push_back (v & maskw (w)); }
    std::string k ((char *)t->v.data (), t->v.size () * 8); k += std::to_string (w);
    auto it = tabcache.find (k); uint64_t tid;
    if (it == tabcache.end ()) { tid = g_tables.size (); g_tables.push_back (t); tabcache[k] = tid; } else { tid = it->second; delete t; }
    E idx = mk (O_SUB, 64, off.e, K (lo, 64)); unsigned bits = 1; while (bits < 63 && (1ull << bits) < cnt) bits++;
    idx = mkExtract (idx, lz, std::min (bits, 64 - lz));
    return VE (mk (O_TABLE, w, idx, nullptr, nullptr, tid));
  }
  if (cnt > 300) { uint64_t x = concretize (s, off, 64); return loadAt (s, id, x, bytes, w); }
  E r = nullptr;
  for (uint64_t o = lo; o <= hi; o += stride) { E v = asE (loadAt (s, id, o, bytes, w), w); r = r ? mk (O_ITE, w, mk (O_EQ, 1, off.e, K (o, 64)), v, r) : v; }
  return VE (r);
}
static void store (State &s, const Val &addr, unsigned bytes, const Val &v, unsigned w)
{
  Val off; uint32_t id = resolve (s, addr, bytes, "write", off, true);
  if (!off.e) { storeAt (s, id, off.c, bytes, v, w); return; }
  uint64_t lo, hi; ubounds (off.e, lo, hi); hi = std::min<uint64_t> (hi, s.m[id].size - bytes);
  unsigned lz = std::min (lowzeros (off.e), 12u); uint64_t stride = 1ull << lz; lo = (lo + stride - 1) / stride * stride;
  uint64_t cnt = hi < lo ? 0 : (hi - lo) / stride + 1;
  if (cnt > 64) { uint64_t x = concretize (s, off, 64); storeAt (s, id, x, bytes, v, w); return; }
  E e = mkZ (asE (v, w), 8 * bytes);
  for (uint64_t o = lo; o <= hi; o += stride) { E c = mk (O_EQ, 1, off.e, K (o, 64)); E old = asE (loadAt (s, id, o, bytes, 8 * bytes), 8 * bytes); storeAt (s, id, o, bytes, VE (mk (O_ITE, 8 * bytes, c, e, old)), 8 * bytes); }
}

// ------------------------------------------------------------------ constants / module preparation
static uint64_t constVal (const Constant *c)
{
  if (auto *i = dyn_cast<ConstantInt> (c)) { if (i->getBitWidth () > 64) { if (i->getValue ().getActiveBits () > 64) { errs () << "wide constant\n"; _Exit (3); } return i->getValue ().getLoBits (64).getZExtValue (); } return i->getZExtValue (); }
  if (auto *f = dyn_cast<ConstantFP> (c)) return f->getValueAPF ().bitcastToAPInt ().getLoBits (64).getZExtValue ();
  if (isa<ConstantPointerNull> (c) || isa<UndefValue> (c) || isa<ConstantAggregateZero> (c)) return 0;
  if (auto *g = dyn_cast<GlobalValue> (c)) {
    if (auto *ga = dyn_cast<GlobalAlias> (c)) return constVal (ga->getAliasee ());
    auto it = gobj.find (g); if (it == gobj.end ()) { errs () << "no object for " << g->getName () << "\n"; _Exit (3); } return addrOf (it->second); }
  if (auto *e = dyn_cast<ConstantExpr> (c)) {
    switch (e->getOpcode ()) {
    case Instruction::GetElementPtr: { APInt o (64, 0); cast<GEPOperator> (e)->accumulateConstantOffset (*DL, o); return constVal (e->getOperand (0)) + o.getSExtValue (); }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: return constVal (e->getOperand (0)) & maskw (DL->getTypeSizeInBits (e->getType ()));
    case Instruction::Trunc: return constVal (e->getOperand (0)) & maskw (DL->getTypeSizeInBits (e->getType ()));
    case Instruction::Add: return constVal (e->getOperand (0)) + constVal (e->getOperand (1));
    case Instruction::Sub: return constVal (e->getOperand (0)) - constVal (e->getOperand (1));
    default: break;
    }
  }
  errs () << "unsupported constant: " << *c << "\n"; _Exit (3);
}
static void initMem (std::vector<uint8_t> &b, uint64_t o, const Constant *c)
{
  Type *t = c->getType ();
  if (isa<ConstantAggregateZero> (c) || isa<UndefValue> (c)) return;
  if (auto *ds = dyn_cast<ConstantDataSequential> (c)) { uint64_t es = DL->getTypeStoreSize (ds->getElementType ()); for (unsigned i = 0; i < ds->getNumElements (); i++) initMem (b, o + i * es, ds->getElementAsConstant (i)); return; }
  if (auto *a = dyn_cast<ConstantArray> (c)) { uint64_t es = DL->getTypeAllocSize (a->getType ()->getElementType ()); for (unsigned i = 0; i < a->getNumOperands (); i++) initMem (b, o + i * es, a->getOperand (i)); return; }
  if (auto *st = dyn_cast<ConstantStruct> (c)) { auto *sl = DL->getStructLayout (st->getType ()); for (unsigned i = 0; i < st->getNumOperands (); i++) initMem (b, o + sl->getElementOffset (i), st->getOperand (i)); return; }
  uint64_t v = constVal (c); memcpy (&b[o], &v, DL->getTypeStoreSize (t));
}
static unsigned tw (Type *t) { return t->isVoidTy () ? 0 : (t->isAggregateType () ? 0 : (unsigned)DL->getTypeSizeInBits (t)); }

static void prepFn (Fn *fn)
{
  Function &F = *fn->F; DenseMap<const Value *, int> slot; unsigned n = 0; std::map<const BasicBlock *, int> bi;
  for (auto &a : F.args ()) slot[&a] = n++;
  for (auto &b : F) { int k = bi.size (); bi[&b] = k; for (auto &i : b) if (!i.getType ()->isVoidTy ()) slot[&i] = n++; }
  fn->nregs = n;
  auto mko = [&] (const Value *v) -> Op1 {
    auto it = slot.find (v); if (it != slot.end ()) return Op1{it->second, 0};
    if (auto *c = dyn_cast<Constant> (v)) { if (c->getType ()->isAggregateType ()) return Op1{-2, (uint64_t)(uintptr_t)c}; return Op1{-1, constVal (c)}; }
    return Op1{-1, 0};
  };
  for (auto &b : F) {
    fn->b.emplace_back (); Blk &bl = fn->b.back (); bl.nphi = 0;
    for (auto &i : b) {
      if (isa<DbgInfoIntrinsic> (i)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst> (&i)) { auto id = ii->getIntrinsicID (); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) continue; }
      Inst in; in.I = &i; in.op = i.getOpcode (); in.dst = i.getType ()->isVoidTy () ? -1 : slot[&i]; in.w = tw (i.getType ()); in.off = 0; in.callee = -1;
      if (auto *ph = dyn_cast<PHINode> (&i)) { bl.nphi++; for (unsigned k = 0; k < ph->getNumIncomingValues (); k++) { in.o.push_back (mko (ph->getIncomingValue (k))); in.succ.push_back (bi[ph->getIncomingBlock (k)]); } }
      else if (auto *br = dyn_cast<BranchInst> (&i)) { if (br->isConditional ()) in.o.push_back (mko (br->getCondition ())); for (unsigned k = 0; k < br->getNumSuccessors (); k++) in.succ.push_back (bi[br->getSuccessor (k)]); }
      else if (auto *sw = dyn_cast<SwitchInst> (&i)) { in.o.push_back (mko (sw->getCondition ())); in.succ.push_back (bi[sw->getDefaultDest ()]); for (auto &c : sw->cases ()) { in.o.push_back (mko (c.getCaseValue ())); in.succ.push_back (bi[c.getCaseSuccessor ()]); } in.w = tw (sw->getCondition ()->getType ()); }
      else if (auto *ge = dyn_cast<GetElementPtrInst> (&i)) {
        in.o.push_back (mko (ge->getPointerOperand ())); int64_t off = 0;
        for (auto gt = gep_type_begin (ge), e = gep_type_end (ge); gt != e; ++gt) {
          if (auto *st = gt.getStructTypeOrNull ()) off += DL->getStructLayout (st)->getElementOffset (cast<ConstantInt> (gt.getOperand ())->getZExtValue ());
          else { uint64_t sc = DL->getTypeAllocSize (gt.getIndexedType ()); if (auto *ci = dyn_cast<ConstantInt> (gt.getOperand ())) off += (int64_t)sc * ci->getSExtValue (); else { Op1 o = mko (gt.getOperand ()); in.g.push_back (GepT{sc, o.slot, tw (gt.getOperand ()->getType ())}); if (o.slot < 0) { in.g.pop_back (); off += sc * o.c; } } }
        }
        in.off = off;
      }
      else if (auto *cb = dyn_cast<CallBase> (&i)) {
        for (auto &a : cb->args ()) { if (a->getType ()->isMetadataTy ()) in.o.push_back (Op1{-1, 0}); else in.o.push_back (mko (a.get ())); }
        in.o.push_back (mko (cb->getCalledOperand ()));
        if (auto *cf = cb->getCalledFunction ()) { auto it = fnid.find (cf); if (it != fnid.end ()) in.callee = it->second; }
      }
      else for (auto &o : i.operands ()) in.o.push_back (isa<BasicBlock> (o) ? Op1{-1, 0} : mko (o.get ()));
      bl.in.push_back (std::move (in));
    }
  }
}
static bool g_merge = true;
static bool pureInst (const Inst &in)
{
  switch (in.op) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
  case Instruction::ICmp: case Instruction::FCmp: case Instruction::Select: case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::GetElementPtr: case Instruction::PHI: case Instruction::Br: case Instruction::Freeze: case Instruction::PtrToInt: case Instruction::IntToPtr:
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FNeg: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
    return in.w > 0 || in.op == Instruction::Br;
  case Instruction::Load: return in.w > 0 && in.w <= 64;
  default: return false; }
}
// For every conditional branch: the acyclic side-effect-free blocks up to the immediate post-dominator, if there is such a region.
static void prepRegions (Fn *fn)
{
  Function &F = *fn->F; std::map<const BasicBlock *, int> bi; std::vector<BasicBlock *> bbs; for (auto &b : F) { bi[&b] = bbs.size (); bbs.push_back (&b); }
  PostDominatorTree PDT (F);
  for (auto &b : fn->b) { b.join = -1; b.pure = true; for (auto &i : b.in) if (!pureInst (i)) b.pure = false; }
  for (size_t k = 0; k < fn->b.size (); k++) {
    Inst &t = fn->b[k].in.back (); if (t.op != Instruction::Br || t.o.empty ()) continue;
    auto *n = PDT.getNode (bbs[k]); if (!n || !n->getIDom () || !n->getIDom ()->getBlock ()) continue; int J = bi[n->getIDom ()->getBlock ()]; if (J == (int)k) continue;
    std::vector<int> post; std::map<int, int> col; bool ok = true; unsigned ni = 0, loads = 0;
    std::function<void (int)> dfs = [&] (int x) { if (!ok || x == J) return; if (x == (int)k || !fn->b[x].pure || col[x] == 1 || post.size () > 40) { ok = false; return; } if (col[x] == 2) return; col[x] = 1; ni += fn->b[x].in.size (); for (auto &i : fn->b[x].in) if (i.op == Instruction::Load) loads++; for (int y : fn->b[x].in.back ().succ) dfs (y); col[x] = 2; post.push_back (x); };
    for (int y : t.succ) dfs (y);
    if (!ok || ni > 200) continue;
    // every region block must be entered only from the region or from k
    for (int x : post) for (auto *p : predecessors (bbs[x])) { int q = bi[p]; if (q != (int)k && !col.count (q)) ok = false; }
    if (!ok) continue;
    fn->b[k].region.assign (post.rbegin (), post.rend ()); fn->b[k].join = J;
  }
  // Short-circuit conditions: the largest side-effect-free region behind a branch that leaves to two blocks only.
  for (size_t k = 0; k < fn->b.size (); k++) {
    Inst &t = fn->b[k].in.back (); fn->b[k].exits[0] = -1; if (t.op != Instruction::Br || t.o.empty () || t.succ[0] == t.succ[1]) continue;
    std::vector<int> reg, best, ex = {t.succ[0], t.succ[1]}; int be[2] = {-1, -1}; std::set<int> in; unsigned ni = 0;
    for (;;) {
      int pick = -1;
      for (int x : ex) { if (x == (int)k || !fn->b[x].pure || fn->b[x].in.back ().op != Instruction::Br || fn->b[x].in.back ().o.empty ()) continue;
        bool ok = true; for (auto *p : predecessors (bbs[x])) { int q = bi[p]; if (q != (int)k && !in.count (q)) { ok = false; break; } } if (ok) { pick = x; break; } }
      if (pick < 0) break;
      ex.erase (std::find (ex.begin (), ex.end (), pick)); reg.push_back (pick); in.insert (pick); ni += fn->b[pick].in.size ();
      for (int y : fn->b[pick].in.back ().succ) if (std::find (ex.begin (), ex.end (), y) == ex.end ()) ex.push_back (y);
      if (reg.size () > 80 || ni > 500 || ex.size () > 4) break;
      if (ex.size () == 2) { best = reg; be[0] = ex[0]; be[1] = ex[1]; }
    }
    if (!best.empty ()) { fn->b[k].region2 = best; fn->b[k].exits[0] = be[0]; fn->b[k].exits[1] = be[1]; }
  }
}
static std::string repoPrefix = "/repo/";
static void prepModule ()
{
  uint32_t id = 0; DL = &M->getDataLayout ();
  for (auto &F : *M) { gobj[&F] = id; objfn[id] = &F; roobj.emplace_back (); Obj &o = roobj.back (); o.kind = OK_FUNC; o.live = true; o.size = 1; o.site = &F; id++; }
  for (auto &G : M->globals ()) { gobj[&G] = id++; roobj.emplace_back (); Obj &o = roobj.back (); o.kind = OK_GLOBAL; o.live = true; o.ro = G.isConstant (); o.site = &G; o.size = G.getValueType ()->isSized () ? (uint64_t)DL->getTypeAllocSize (G.getValueType ()) : 0; if (G.isDeclaration () && o.size < 8) o.size = 8; ObjData *d = new ObjData; d->rc = 0; d->c.assign (o.size, 0); o.d = DRef (d); }
  for (auto &G : M->globals ()) if (G.hasInitializer ()) initMem (roobj[gobj[&G]].d.p->c, 0, G.getInitializer ());
  for (auto &F : *M) if (!F.isDeclaration ()) { Fn *f = new Fn; f->F = &F; f->repo = false; if (auto *sp = F.getSubprogram ()) { std::string p = (sp->getDirectory () + "/" + sp->getFilename ()).str (); std::string q = sp->getFilename ().str (); f->repo = q.compare (0, repoPrefix.size (), repoPrefix) == 0 || p.compare (0, repoPrefix.size (), repoPrefix) == 0; } fnid[&F] = fns.size (); fns.push_back (f); }
  for (auto *f : fns) { prepFn (f); prepRegions (f); }
}

// ------------------------------------------------------------------ execution
static inline Val get (Frame &f, const Op1 &o) { return o.slot >= 0 ? f.r[o.slot] : VC (o.c); }
static Val aggFromConst (State &s, const Constant *c);
static Val getA (State &s, Frame &f, const Op1 &o) { if (o.slot == -2) return aggFromConst (s, (const Constant *)(uintptr_t)o.c); return get (f, o); }
static void flat (Type *t, uint64_t off, std::vector<std::pair<Type *, uint64_t>> &out)
{
  if (auto *st = dyn_cast<StructType> (t)) { auto *sl = DL->getStructLayout (st); for (unsigned i = 0; i < st->getNumElements (); i++) flat (st->getElementType (i), off + sl->getElementOffset (i), out); }
  else if (auto *at = dyn_cast<ArrayType> (t)) { uint64_t es = DL->getTypeAllocSize (at->getElementType ()); for (unsigned i = 0; i < at->getNumElements (); i++) flat (at->getElementType (), off + i * es, out); }
  else out.push_back ({t, off});
}
static unsigned flatIndex (Type *t, ArrayRef<unsigned> idx, Type *&res)
{
  unsigned k = 0;
  for (unsigned i : idx) {
    std::vector<std::pair<Type *, uint64_t>> tmp;
    if (auto *st = dyn_cast<StructType> (t)) { for (unsigned j = 0; j < i; j++) flat (st->getElementType (j), 0, tmp); k += tmp.size (); t = st->getElementType (i); }
    else { auto *at = cast<ArrayType> (t); for (unsigned j = 0; j < i; j++) flat (at->getElementType (), 0, tmp); k += tmp.size (); t = at->getElementType (); }
  }
  res = t; return k;
}
static Val newAgg (State &s, std::vector<Val> v) { s.aggs.push_back (std::move (v)); return VC (s.aggs.size () - 1); }
static Val aggFromConst (State &s, const Constant *c)
{
  std::vector<std::pair<Type *, uint64_t>> fl; flat (c->getType (), 0, fl); std::vector<uint8_t> b (DL->getTypeAllocSize (c->getType ()), 0); initMem (b, 0, c);
  std::vector<Val> v; for (auto &p : fl) { uint64_t x = 0; memcpy (&x, &b[p.second], DL->getTypeStoreSize (p.first)); v.push_back (VC (x)); } return newAgg (s, v);
}
static Val binop (Op op, unsigned w, const Val &a, const Val &b, unsigned rw = 0)
{
  if (!rw) rw = w;
  if (!a.e && !b.e) return VC (evalop (op, rw, 0, a.c, w, b.c, w, 0));
  return VE (mk (op, rw, asE (a, w), asE (b, w)));
}
static Val fcmp (unsigned pred, unsigned w, const Val &a, const Val &b)
{
  auto T = VC (1), Fv = VC (0);
  auto OR = [] (Val x, Val y) { return binop (O_OR, 1, x, y); };
  auto NOT = [] (Val x) { return binop (O_XOR, 1, x, VC (1)); };
  auto UN = [&] { return binop (O_FUNO, w, a, b, 1); };
  auto EQ = [&] { return binop (O_FOEQ, w, a, b, 1); };
  auto LT = [&] { return binop (O_FOLT, w, a, b, 1); };
  auto LE = [&] { return binop (O_FOLE, w, a, b, 1); };
  auto GT = [&] { return binop (O_FOLT, w, b, a, 1); };
  auto GE = [&] { return binop (O_FOLE, w, b, a, 1); };
  switch (pred) {
  case CmpInst::FCMP_FALSE: return Fv; case CmpInst::FCMP_TRUE: return T;
  case CmpInst::FCMP_OEQ: return EQ (); case CmpInst::FCMP_OGT: return GT (); case CmpInst::FCMP_OGE: return GE (); case CmpInst::FCMP_OLT: return LT (); case CmpInst::FCMP_OLE: return LE ();
  case CmpInst::FCMP_ONE: return OR (LT (), GT ()); case CmpInst::FCMP_ORD: return NOT (UN ()); case CmpInst::FCMP_UNO: return UN ();
  case CmpInst::FCMP_UEQ: return NOT (OR (LT (), GT ())); case CmpInst::FCMP_UGT: return NOT (LE ()); case CmpInst::FCMP_UGE: return NOT (LT ()); case CmpInst::FCMP_ULT: return NOT (GE ()); case CmpInst::FCMP_ULE: return NOT (GT ()); default: return NOT (EQ ());
  }
}
// Solver-checked rewriting: sext(low bits of x) is x itself when the path implies x fits.
static Val narrow (State &s, Val v)
{
  if (!v.e || v.e->op != O_SEXT || v.e->a->op != O_EXTRACT || v.e->a->k != 0 || v.e->a->a->w != v.e->w) return v;
  E x = v.e->a->a; AssignP nm;
  E ne = mkNot (mk (O_EQ, 1, v.e, x)); if (isc (ne)) return v;
  if (S->check (s.pc, ne, s.model, nm) == R_UNSAT) return VE (x);
  return v;
}
static void popFrame (State &s)
{
  Frame &f = s.st.back ();
  for (auto id : f.allocas) { Obj &o = s.m[id]; o.live = false; o.d = DRef (); s.freestk.push_back (id); }
  s.st.pop_back ();
}
static void pushFrame (State &s, int callee, const std::vector<Val> &args, CallBase *cb)
{
  Fn *f = fns[callee]; touched.insert (callee);
  if (s.st.size () > 400) { report (s, "hang", "call depth exceeds 400", s.model); throw Kill (); }
  s.st.emplace_back (); Frame &n = s.st.back (); n.f = f; n.bb = n.prev = n.pc = 0; n.r.assign (f->nregs, VC (0)); n.vaobj = -1;
  unsigned na = f->F->arg_size ();
  for (unsigned i = 0; i < na && i < args.size (); i++) n.r[i] = args[i];
  if (f->F->isVarArg ()) {
    uint64_t cnt = args.size () > na ? args.size () - na : 0;
    uint32_t id = newobj (s, cnt * 8, OK_STACK, cb, true); n.vaobj = id; s.st.back ().allocas.push_back (id);
    for (uint64_t i = 0; i < cnt; i++) { unsigned w = cb ? tw (cb->getArgOperand (na + i)->getType ()) : 64; storeAt (s, id, i * 8, 8, args[na + i].e ? VE (mkZ (args[na + i].e, 64)) : args[na + i], 64); (void)w; }
  }
}
static std::string cstr (State &s, const Val &p)
{
  std::string r; if (p.e) return "?"; uint32_t id = (p.c >> 32) - 1; uint64_t o = (p.c & 0xffffffff) - OBASE;
  if (id < s.m.size () && s.m[id].live && s.m[id].d.p) for (; o < s.m[id].size; o++) { auto *d = s.m[id].d.p; if (!d->s.empty () && d->s[o]) break; if (!d->c[o]) break; r += (char)d->c[o]; }
  return r;
}
static Val mkinput (State &s, unsigned w) { uint32_t id = getvar (0, s.inputs.size (), w); s.inputs.push_back (id); return VE (P->var (id, w)); }

static void do_assert (State &s, Val c, unsigned w, const std::string &msg)
{
  asserts_checked++;
  E e = w == 1 ? asE (c, 1) : mkNot (mk (O_EQ, 1, asE (c, w), K (0, w)));
  if (isc (e)) { if (e->k) return; report (s, "assert", msg, s.model); throw Kill (); }
  AssignP nm; Res r = S->check (s.pc, mkNot (e), s.model, nm);
  if (r == R_UNSAT) return;
  if (r == R_UNKNOWN) { incomplete = true; unsupported.insert ("solver gave up on assertion: " + msg); if (!constrain (s, e)) throw Kill (); return; }
  report (s, "assert", msg, nm);
  if (!constrain (s, e)) throw Kill ();
}
static void copyBytes (State &s, uint32_t di, uint64_t doff, uint32_t si, uint64_t soff, uint64_t n)
{
  if (!n) return;
  ObjData *sd = s.m[si].d.p; DRef hold (sd); ObjData *dd = wr (s.m[di]);
  bool anys = !sd->s.empty ();
  if (di == si) { std::vector<uint8_t> c (sd->c.begin () + soff, sd->c.begin () + soff + n); std::vector<E> e; if (anys) e.assign (sd->s.begin () + soff, sd->s.begin () + soff + n);
    memcpy (&dd->c[doff], c.data (), n); if (anys) { if (dd->s.empty ()) dd->s.assign (dd->c.size (), nullptr); for (uint64_t i = 0; i < n; i++) dd->s[doff + i] = e[i]; } return; }
  memcpy (&dd->c[doff], &sd->c[soff], n);
  if (anys) { if (dd->s.empty ()) dd->s.assign (dd->c.size (), nullptr); for (uint64_t i = 0; i < n; i++) dd->s[doff + i] = sd->s[soff + i]; }
  else if (!dd->s.empty ()) for (uint64_t i = 0; i < n; i++) dd->s[doff + i] = nullptr;
}
static void do_memcpy (State &s, Val d, Val p, Val n, bool overlapok)
{
  uint64_t len = concretize (s, n, 64); if (!len) return;
  d.c = concretize (s, d, 64); d.e = nullptr; p.c = concretize (s, p, 64); p.e = nullptr;
  Val o1, o2; uint32_t si = resolve (s, p, len, "read (copy)", o2, false), di = resolve (s, d, len, "write (copy)", o1, true);
  copyBytes (s, di, o1.c, si, o2.c, len);
}
static void do_memset (State &s, Val d, Val v, Val n)
{
  uint64_t len = concretize (s, n, 64); if (!len) return; d.c = concretize (s, d, 64); d.e = nullptr;
  Val o; uint32_t id = resolve (s, d, len, "write (fill)", o, true); ObjData *w = wr (s.m[id]);
  if (!v.e) { memset (&w->c[o.c], (int)(v.c & 255), len); if (!w->s.empty ()) for (uint64_t i = 0; i < len; i++) w->s[o.c + i] = nullptr; }
  else { if (w->s.empty ()) w->s.assign (w->c.size (), nullptr); E b = v.e->w == 8 ? v.e : mkExtract (v.e, 0, 8); for (uint64_t i = 0; i < len; i++) { if (isc (b)) { w->c[o.c + i] = b->k; w->s[o.c + i] = nullptr; } else w->s[o.c + i] = b; } }
}
static uint32_t heapBase (State &s, uint64_t p, const char *what)
{
  uint32_t id = (p >> 32) - 1;
  if ((p >> 32) == 0 || id >= s.m.size () || s.m[id].kind != OK_HEAP || p != addrOf (id)) { report (s, "memory", std::string (what) + " of a pointer that is not a heap block", s.model); throw Kill (); }
  if (!s.m[id].live) { report (s, "memory", std::string (what) + " of a freed block", s.model); throw Kill (); }
  return id;
}
static bool g_failalloc = false;

// returns true if handled; result in 'ret'
static bool external (State &s, const std::string &n, std::vector<Val> &a, std::vector<unsigned> &aw, CallBase *cb, Val &ret)
{
  ret = VC (0);
  if (n == "nondet_vp_u8") { ret = mkinput (s, 8); return true; }
  if (n == "nondet_vp_u16") { ret = mkinput (s, 16); return true; }
  if (n == "nondet_vp_u32") { ret = mkinput (s, 32); return true; }
  if (n == "nondet_vp_u64") { ret = mkinput (s, 64); return true; }
  if (n == "vp_se_assert") { do_assert (s, a[0], aw[0], cstr (s, a[1])); return true; }
  if (n == "vp_se_assume") { E e = mkNot (mk (O_EQ, 1, asE (a[0], aw[0]), K (0, aw[0]))); if (!constrain (s, e)) { killed++; throw Kill (); } return true; }
  if (n == "vp_se_reach") { reached.insert (cstr (s, a[0])); return true; }
  if (n == "vp_se_must") { Val v = a[0]; ret = VC (v.e ? mustbe (s, mk (O_EQ, 1, asE (v, aw[0]), K (0, aw[0]))) : v.c != 0); return true; }
  if (n == "vp_se_concretize") { ret = VC (concretize (s, a[0], aw[0])); return true; }
  if (n == "vp_se_issym") { ret = VC (a[0].e != nullptr); return true; }
  if (n == "vp_se_print") { Val v = a[1]; EV.bind (s.model); fprintf (stderr, "[mse] %s = %llx%s\n", cstr (s, a[0]).c_str (), (unsigned long long)(v.e ? EV.ev (v.e) : v.c), v.e ? " (sym)" : ""); return true; }
  if (n == "vp_se_strtod") { ret = VC (d2bits (strtod (cstr (s, a[0]).c_str (), nullptr), 64)); return true; }
  if (n == "vp_se_fmtdouble") {
    double v = bits2d (concretize (s, a[4], 64), 64); int wd = (int)concretize (s, a[2], 32), pr = (int)concretize (s, a[3], 32); std::string sp = cstr (s, a[1]); char c = sp.back (); sp.pop_back (); sp += "*.*"; sp += c; char buf[512];
    int k = snprintf (buf, sizeof buf, sp.c_str (), wd, pr, v); for (int i = 0; i <= k; i++) store (s, binop (O_ADD, 64, a[0], VC (i)), 1, VC ((unsigned char)buf[i]), 8); ret = VC (k); return true; }
  if (n == "vp_se_objsize") { uint64_t p = concretize (s, a[0], 64); uint32_t id = (p >> 32) - 1; ret = VC ((p >> 32) && id < s.m.size () && s.m[id].live ? s.m[id].size - ((p & 0xffffffff) - OBASE) : 0); return true; }
  if (n == "vp_se_liveheap") { uint64_t c = 0; for (auto &o : s.m) if (o.kind == OK_HEAP && o.live) c++; ret = VC (c); return true; }
  if (n == "malloc") { uint64_t sz = concretize (s, a[0], 64); if (sz > (64u << 20)) { ret = VC (0); return true; } ret = VC (addrOf (newobj (s, sz, OK_HEAP, cb, false))); return true; }
  if (n == "calloc") { uint64_t x = concretize (s, a[0], 64), y = concretize (s, a[1], 64); if (y && x > (64u << 20) / y) { ret = VC (0); return true; } ret = VC (addrOf (newobj (s, x * y, OK_HEAP, cb, true))); return true; }
  if (n == "realloc") {
    uint64_t p = concretize (s, a[0], 64), sz = concretize (s, a[1], 64); uint32_t old = 0; if (p) old = heapBase (s, p, "realloc");
    if (sz > (64u << 20)) { ret = VC (0); return true; }
    uint32_t id = newobj (s, sz, OK_HEAP, cb, false);
    if (p) { copyBytes (s, id, 0, old, 0, std::min<uint64_t> (sz, s.m[old].size)); s.m[old].live = false; s.m[old].d = DRef (); }
    ret = VC (addrOf (id)); return true; }
  if (n == "free") { uint64_t p = concretize (s, a[0], 64); if (!p) return true; uint32_t id = heapBase (s, p, "free"); s.m[id].live = false; s.m[id].d = DRef (); return true; }
  if (n == "memcpy" || n == "memmove") { do_memcpy (s, a[0], a[1], a[2], n == "memmove"); ret = a[0]; return true; }
  if (n == "memset") { do_memset (s, a[0], a[1], a[2]); ret = a[0]; return true; }
  if (n == "abort" || n == "exit" || n == "_exit" || n == "_Exit" || n == "__assert_fail") { if (n == "abort" || n == "__assert_fail") report (s, "abort", n, s.model); paths++; throw Kill (); }
  if (n == "fabs") { ret = a[0].e ? VE (mk (O_FABS, 64, a[0].e)) : VC (a[0].c & (~0ull >> 1)); return true; }
  if (n == "fabsf") { ret = a[0].e ? VE (mk (O_FABS, 32, a[0].e)) : VC (a[0].c & 0x7fffffff); return true; }
  static const std::map<std::string, std::pair<int, int>> fr = {{"floor", {0, 64}}, {"ceil", {1, 64}}, {"trunc", {2, 64}}, {"round", {3, 64}}, {"rint", {4, 64}}, {"nearbyint", {4, 64}}, {"floorf", {0, 32}}, {"ceilf", {1, 32}}, {"truncf", {2, 32}}, {"roundf", {3, 32}}};
  auto it = fr.find (n); if (it != fr.end ()) { unsigned w = it->second.second; ret = a[0].e ? VE (mk (O_FRND, w, a[0].e, nullptr, nullptr, it->second.first)) : VC (evalop (O_FRND, w, it->second.first, a[0].c, w, 0, 0, 0)); return true; }
  if (n == "sqrt") { ret = a[0].e ? VE (mk (O_FSQRT, 64, a[0].e)) : VC (evalop (O_FSQRT, 64, 0, a[0].c, 64, 0, 0, 0)); return true; }
  if (n == "pow" || n == "ldexp" || n == "log10" || n == "log" || n == "exp" || n == "fmod" || n == "scalbn" || n == "log2") {
    for (size_t i = 0; i < a.size (); i++) a[i].c = concretize (s, a[i], aw[i]), a[i].e = nullptr;
    double x = bits2d (a[0].c, 64), y = a.size () > 1 && aw[1] == 64 ? bits2d (a[1].c, 64) : 0, r = 0; int yi = a.size () > 1 ? (int)a[1].c : 0;
    if (n == "pow") r = pow (x, y); else if (n == "ldexp" || n == "scalbn") r = ldexp (x, yi); else if (n == "log10") r = log10 (x); else if (n == "log") r = log (x); else if (n == "exp") r = exp (x); else if (n == "log2") r = log2 (x); else r = fmod (x, y);
    ret = VC (d2bits (r, 64)); return true; }
  return false;
}
static bool intrinsic (State &s, Frame &f, const Inst &in, std::vector<Val> &a, Val &ret)
{
  auto *cb = cast<CallBase> (in.I); auto *cf = cb->getCalledFunction (); if (!cf || !cf->isIntrinsic ()) return false;
  unsigned w = in.w; ret = VC (0); auto id = cf->getIntrinsicID ();
  auto argw = [&] (unsigned i) { return tw (cb->getArgOperand (i)->getType ()); };
  auto ite = [&] (Val c, Val x, Val y, unsigned ww) { return !c.e ? (c.c ? x : y) : VE (mk (O_ITE, ww, c.e, asE (x, ww), asE (y, ww))); };
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: if (argw (2) == 32 && a[2].e) a[2].e = mkZ (a[2].e, 64); do_memcpy (s, a[0], a[1], a[2], true); return true;
  case Intrinsic::memset: case Intrinsic::memset_inline: if (argw (2) == 32 && a[2].e) a[2].e = mkZ (a[2].e, 64); do_memset (s, a[0], a[1], a[2]); return true;
  case Intrinsic::bswap: { E e = asE (a[0], w), r = mkExtract (e, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = mk (O_CONCAT, 8 * (i + 1), r, mkExtract (e, 8 * i, 8)); ret = VE (r); return true; }
  case Intrinsic::fabs: ret = a[0].e ? VE (mk (O_FABS, w, a[0].e)) : VC (a[0].c & (maskw (w) >> 1)); return true;
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: {
    unsigned m = id == Intrinsic::floor ? 0 : id == Intrinsic::ceil ? 1 : id == Intrinsic::trunc ? 2 : id == Intrinsic::round ? 3 : 4; ret = a[0].e ? VE (mk (O_FRND, w, a[0].e, nullptr, nullptr, m)) : VC (evalop (O_FRND, w, m, a[0].c, w, 0, 0, 0)); return true; }
  case Intrinsic::sqrt: ret = a[0].e ? VE (mk (O_FSQRT, w, a[0].e)) : VC (evalop (O_FSQRT, w, 0, a[0].c, w, 0, 0, 0)); return true;
  case Intrinsic::fmuladd: ret = binop (O_FADD, w, binop (O_FMUL, w, a[0], a[1]), a[2]); return true;
  case Intrinsic::umin: ret = ite (binop (O_ULT, w, a[0], a[1], 1), a[0], a[1], w); return true;
  case Intrinsic::umax: ret = ite (binop (O_ULT, w, a[0], a[1], 1), a[1], a[0], w); return true;
  case Intrinsic::smin: ret = ite (binop (O_SLT, w, a[0], a[1], 1), a[0], a[1], w); return true;
  case Intrinsic::smax: ret = ite (binop (O_SLT, w, a[0], a[1], 1), a[1], a[0], w); return true;
  case Intrinsic::abs: ret = ite (binop (O_SLT, w, a[0], VC (0), 1), binop (O_SUB, w, VC (0), a[0]), a[0], w); return true;
  case Intrinsic::usub_sat: ret = ite (binop (O_ULT, w, a[0], a[1], 1), VC (0), binop (O_SUB, w, a[0], a[1]), w); return true;
  case Intrinsic::uadd_sat: { Val t = binop (O_ADD, w, a[0], a[1]); ret = ite (binop (O_ULT, w, t, a[0], 1), VC (maskw (w)), t, w); return true; }
  case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
    if (!a[0].e) { uint64_t x = a[0].c; ret = VC (id == Intrinsic::ctpop ? __builtin_popcountll (x) : id == Intrinsic::ctlz ? (x ? __builtin_clzll (x) - (64 - w) : w) : (x ? __builtin_ctzll (x) : w)); return true; }
    E e = a[0].e, r;
    if (id == Intrinsic::ctpop) { r = K (0, w); for (unsigned i = 0; i < w; i++) r = mk (O_ADD, w, mkZ (mkExtract (e, i, 1), w), r); }
    else { r = K (w, w); for (unsigned i = 0; i < w; i++) { unsigned bit = id == Intrinsic::ctlz ? i : w - 1 - i; r = mk (O_ITE, w, mkExtract (e, bit, 1), K (id == Intrinsic::ctlz ? w - 1 - bit : bit, w), r); } }
    ret = VE (r); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    Val sh = binop (O_UREM, w, a[2], VC (w)); if (sh.e) { sh.c = concretize (s, sh, w); sh.e = nullptr; }
    if (id == Intrinsic::fshl) ret = sh.c == 0 ? a[0] : binop (O_OR, w, binop (O_SHL, w, a[0], sh), binop (O_LSHR, w, a[1], VC (w - sh.c)));
    else ret = sh.c == 0 ? a[1] : binop (O_OR, w, binop (O_SHL, w, a[0], VC (w - sh.c)), binop (O_LSHR, w, a[1], sh));
    return true; }
  case Intrinsic::uadd_with_overflow: { unsigned ww = argw (0); Val t = binop (O_ADD, ww, a[0], a[1]); ret = newAgg (s, {t, binop (O_ULT, ww, t, a[0], 1)}); return true; }
  case Intrinsic::usub_with_overflow: { unsigned ww = argw (0); ret = newAgg (s, {binop (O_SUB, ww, a[0], a[1]), binop (O_ULT, ww, a[0], a[1], 1)}); return true; }
  case Intrinsic::umul_with_overflow: { unsigned ww = argw (0); Val t = binop (O_MUL, ww, a[0], a[1]); Val ov;
    if (ww <= 32) { Val x = a[0], y = a[1]; if (x.e) x.e = mkZ (x.e, 64); if (y.e) y.e = mkZ (y.e, 64); ov = binop (O_ULT, 64, VC (maskw (ww)), binop (O_MUL, 64, x, y), 1); }
    else { Val q = binop (O_UDIV, ww, VC (maskw (ww)), a[1]); ov = binop (O_ULT, ww, q, a[0], 1); if (!a[1].e && a[1].c == 0) ov = VC (0); }
    ret = newAgg (s, {t, ov}); return true; }
  case Intrinsic::expect: case Intrinsic::threadlocal_address: ret = a[0]; return true; /* one thread */
  case Intrinsic::objectsize: ret = VC (~0ull & maskw (w)); return true;
  case Intrinsic::is_constant: ret = VC (0); return true;
  case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch: return true;
  case Intrinsic::vaend: return true;
  case Intrinsic::vacopy: do_memcpy (s, a[0], a[1], VC (24), true); return true;
  case Intrinsic::vastart: {
    store (s, a[0], 4, VC (48), 32); store (s, binop (O_ADD, 64, a[0], VC (4)), 4, VC (176), 32); store (s, binop (O_ADD, 64, a[0], VC (8)), 8, VC (f.vaobj >= 0 ? addrOf (f.vaobj) : 0), 64); store (s, binop (O_ADD, 64, a[0], VC (16)), 8, VC (0), 64); return true; }
  case Intrinsic::trap: case Intrinsic::ubsantrap: report (s, "abort", "trap", s.model); throw Kill ();
  case Intrinsic::is_fpclass: {
    unsigned mask = a[1].c, ww = argw (0); E e = asE (a[0], ww); unsigned mb = ww == 32 ? 23 : 52; E ex = mkExtract (e, mb, ww - 1 - mb), ma = mkExtract (e, 0, mb), sg = mkExtract (e, ww - 1, 1);
    E e1 = mk (O_EQ, 1, ex, K (maskw (ex->w), ex->w)), e0 = mk (O_EQ, 1, ex, K (0, ex->w)), m0 = mk (O_EQ, 1, ma, K (0, mb)); E r = P->F; auto add = [&] (E x) { r = mk (O_OR, 1, r, x); };
    E nan = mk (O_AND, 1, e1, mkNot (m0)), inf = mk (O_AND, 1, e1, m0), zer = mk (O_AND, 1, e0, m0), sub = mk (O_AND, 1, e0, mkNot (m0)), nor = mk (O_AND, 1, mkNot (e1), mkNot (e0));
    if (mask & 3) add (nan); auto sgn = [&] (E x, unsigned neg, unsigned pos) { if (mask & neg) add (mk (O_AND, 1, x, sg)); if (mask & pos) add (mk (O_AND, 1, x, mkNot (sg))); };
    sgn (inf, 4, 512); sgn (nor, 8, 256); sgn (sub, 16, 128); sgn (zer, 32, 64); ret = VE (r); return true; }
  default: unsup (s, "intrinsic " + cf->getName ().str ()); return true;
  }
}
static void jump (State &s, Frame &f, unsigned t)
{
  f.prev = f.bb; f.bb = t; f.pc = 0; Blk &b = f.f->b[t];
  if (b.nphi) {
    static std::vector<Val> tmp; tmp.resize (b.nphi);
    for (unsigned i = 0; i < b.nphi; i++) { Inst &p = b.in[i]; unsigned k = 0; while (p.succ[k] != (int)f.prev) k++; tmp[i] = getA (s, f, p.o[k]); }
    for (unsigned i = 0; i < b.nphi; i++) f.r[b.in[i].dst] = tmp[i];
    f.pc = b.nphi;
  }
}
static bool pureEval (State &s, Frame &f, const Inst &in, Val &r);
// Execute both sides of a side-effect-free region and join the values; false: not applicable here.
static bool tryMerge (State &s, Frame &f, Blk &b, const Val &cond, bool two)
{
  int B = f.bb; std::map<std::pair<int, int>, E> edge; // guards of edges into a block
  Inst &t = b.in.back (); auto addEdge = [&] (int from, int to, E g) { auto &x = edge[{to, from}]; x = x ? mk (O_OR, 1, x, g) : g; };
  addEdge (B, t.succ[0], cond.e); addEdge (B, t.succ[1], mkNot (cond.e));
  auto guardOf = [&] (int x) { E g = P->F; for (auto it = edge.lower_bound ({x, -1}); it != edge.end () && it->first.first == x; ++it) g = mk (O_OR, 1, g, it->second); return g; };
  auto phiVal = [&] (int blk, Inst &p, bool &ok) {
    Val r = VC (0); bool have = false;
    for (auto it = edge.lower_bound ({blk, -1}); it != edge.end () && it->first.first == blk; ++it) {
      if (isc (it->second) && !it->second->k) continue;
      unsigned k = 0; while (p.succ[k] != it->first.second) k++;
      if (p.o[k].slot == -2) { ok = false; return r; }
      Val v = get (f, p.o[k]);
      if (!have) { r = v; have = true; } else r = VE (mk (O_ITE, p.w, it->second, asE (v, p.w), asE (r, p.w)));
    }
    return r; };
  for (int x : two ? b.region2 : b.region) {
    E g = guardOf (x); if (isc (g) && !g->k) continue;
    Blk &xb = f.f->b[x]; std::vector<Val> pv; bool ok = true;
    for (unsigned i = 0; i < xb.nphi; i++) { if (!xb.in[i].w) return false; pv.push_back (phiVal (x, xb.in[i], ok)); if (!ok) return false; }
    for (unsigned i = 0; i < xb.nphi; i++) f.r[xb.in[i].dst] = pv[i];
    for (unsigned i = xb.nphi; i < xb.in.size (); i++) {
      Inst &in = xb.in[i]; s.steps++; steps_total++;
      if (in.op == Instruction::Br) {
        if (in.o.empty ()) addEdge (x, in.succ[0], g);
        else { Val c = get (f, in.o[0]); E ce = asE (c, 1); addEdge (x, in.succ[0], mk (O_AND, 1, g, ce)); addEdge (x, in.succ[1], mk (O_AND, 1, g, mkNot (ce))); }
      } else { Val r; if (!pureEval (s, f, in, r)) return false; f.r[in.dst] = r; }
    }
  }
  auto exitVals = [&] (int J, std::vector<Val> &pv) {
    Blk &jb = f.f->b[J]; bool ok = true;
    for (unsigned i = 0; i < jb.nphi; i++) { Inst &p = jb.in[i]; if (!p.w) return false; Val v = phiVal (J, p, ok); if (!ok) return false;
      if (v.e && p.I->getType ()->isPointerTy ()) return false; // do not join different pointers
      if (two && p.w > 1 && v.e && v.e->op == O_ITE) { bool given = false; for (auto &x : edge) if (x.first.first == J) { unsigned k = 0; while (p.succ[k] != x.first.second) k++; Val g = get (f, p.o[k]); if (g.e == v.e) given = true; } if (!given) return false; } // conditions only: do not mix values of different paths
      pv.push_back (v); }
    return true; };
  auto enter = [B] (State &st, int J, const std::vector<Val> &pv) { Frame &g = st.st.back (); Blk &jb = g.f->b[J]; g.prev = B; g.bb = J; g.pc = jb.nphi; for (unsigned i = 0; i < jb.nphi; i++) g.r[jb.in[i].dst] = pv[i]; };
  if (!two) { std::vector<Val> pv; if (!exitVals (b.join, pv)) return false; merges++; enter (s, b.join, pv); return true; }
  E g0 = guardOf (b.exits[0]); std::vector<Val> p0, p1; bool c0 = isc (g0);
  if ((!c0 || g0->k) && !exitVals (b.exits[0], p0)) return false;
  if ((!c0 || !g0->k) && !exitVals (b.exits[1], p1)) return false;
  merges++;
  if (c0) { if (g0->k) enter (s, b.exits[0], p0); else enter (s, b.exits[1], p1); return true; }
  int e0 = b.exits[0], e1 = b.exits[1];
  bool v = branch (s, g0, [&] (State &n) { EV.bind (n.model); bool ov = EV.ev (g0); if (ov) enter (n, e0, p0); else enter (n, e1, p1); });
  if (v) enter (s, e0, p0); else enter (s, e1, p1);
  return true;
}
static void step (State &s)
{
  Frame &f = s.st.back (); Inst &in = f.f->b[f.bb].in[f.pc]; s.steps++; steps_total++;
  if (s.steps > maxsteps) { report (s, "hang", "path does not end within the instruction limit", s.model); throw Kill (); }
  unsigned w = in.w;
  auto setd = [&] (Val v) { f.r[in.dst] = v; f.pc++; };
  switch (in.op) {
  case Instruction::Add: setd (binop (O_ADD, w, get (f, in.o[0]), get (f, in.o[1]))); return;
  case Instruction::Sub: setd (binop (O_SUB, w, get (f, in.o[0]), get (f, in.o[1]))); return;
  case Instruction::Mul: if (w > 64) unsup (s, "wide multiply"); setd (binop (O_MUL, w, get (f, in.o[0]), get (f, in.o[1]))); return;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    Val a = get (f, in.o[0]), b = get (f, in.o[1]);
    E nz = mkNot (mk (O_EQ, 1, asE (b, w), K (0, w)));
    if (!(isc (nz) && nz->k)) { AssignP nm; Res r = isc (nz) ? R_SAT : S->check (s.pc, mkNot (nz), s.model, nm); if (isc (nz)) nm = s.model; if (r == R_SAT) report (s, "div", "division by zero", nm); if (!constrain (s, nz)) throw Kill (); }
    Op op = in.op == Instruction::UDiv ? O_UDIV : in.op == Instruction::SDiv ? O_SDIV : in.op == Instruction::URem ? O_UREM : O_SREM;
    setd (binop (op, w, a, b)); return; }
  case Instruction::And: setd (binop (O_AND, w, get (f, in.o[0]), get (f, in.o[1]))); return;
  case Instruction::Or: setd (binop (O_OR, w, get (f, in.o[0]), get (f, in.o[1]))); return;
  case Instruction::Xor: setd (binop (O_XOR, w, get (f, in.o[0]), get (f, in.o[1]))); return;
  case Instruction::Shl: setd (binop (O_SHL, w, get (f, in.o[0]), get (f, in.o[1]))); return;
  case Instruction::LShr: setd (binop (O_LSHR, w, get (f, in.o[0]), get (f, in.o[1]))); return;
  case Instruction::AShr: setd (narrow (s, binop (O_ASHR, w, get (f, in.o[0]), get (f, in.o[1])))); return;
  case Instruction::FAdd: setd (binop (O_FADD, w, get (f, in.o[0]), get (f, in.o[1]))); return;
  case Instruction::FSub: setd (binop (O_FSUB, w, get (f, in.o[0]), get (f, in.o[1]))); return;
  case Instruction::FMul: setd (binop (O_FMUL, w, get (f, in.o[0]), get (f, in.o[1]))); return;
  case Instruction::FDiv: setd (binop (O_FDIV, w, get (f, in.o[0]), get (f, in.o[1]))); return;
  case Instruction::FRem: setd (binop (O_FREM, w, get (f, in.o[0]), get (f, in.o[1]))); return;
  case Instruction::FNeg: setd (binop (O_XOR, w, get (f, in.o[0]), VC (1ull << (w - 1)))); return;
  case Instruction::ICmp: {
    auto *c = cast<ICmpInst> (in.I); unsigned ow = tw (c->getOperand (0)->getType ()); Val a = get (f, in.o[0]), b = get (f, in.o[1]); Val r;
    switch (c->getPredicate ()) {
    case CmpInst::ICMP_EQ: r = binop (O_EQ, ow, a, b, 1); break; case CmpInst::ICMP_NE: r = binop (O_XOR, 1, binop (O_EQ, ow, a, b, 1), VC (1)); break;
    case CmpInst::ICMP_ULT: r = binop (O_ULT, ow, a, b, 1); break; case CmpInst::ICMP_ULE: r = binop (O_ULE, ow, a, b, 1); break;
    case CmpInst::ICMP_UGT: r = binop (O_ULT, ow, b, a, 1); break; case CmpInst::ICMP_UGE: r = binop (O_ULE, ow, b, a, 1); break;
    case CmpInst::ICMP_SLT: r = binop (O_SLT, ow, a, b, 1); break; case CmpInst::ICMP_SLE: r = binop (O_SLE, ow, a, b, 1); break;
    case CmpInst::ICMP_SGT: r = binop (O_SLT, ow, b, a, 1); break; default: r = binop (O_SLE, ow, b, a, 1); break;
    }
    setd (r); return; }
  case Instruction::FCmp: { auto *c = cast<FCmpInst> (in.I); setd (fcmp (c->getPredicate (), tw (c->getOperand (0)->getType ()), get (f, in.o[0]), get (f, in.o[1]))); return; }
  case Instruction::Select: { Val c = get (f, in.o[0]);
    if (c.e && w == 0) { bool v = branch (s, c.e, [] (State &) {}); c = VC (v); }
    if (!c.e) { setd (getA (s, f, in.o[c.c ? 1 : 2])); return; }
    setd (VE (mk (O_ITE, w, c.e, asE (get (f, in.o[1]), w), asE (get (f, in.o[2]), w)))); return; }
  case Instruction::ZExt: { Val a = get (f, in.o[0]); if (w > 64) unsup (s, "wide integer"); setd (a.e ? VE (mkZ (a.e, w)) : a); return; }
  case Instruction::SExt: { Val a = get (f, in.o[0]); unsigned ow = tw (in.I->getOperand (0)->getType ()); if (w > 64) unsup (s, "wide integer"); setd (a.e ? narrow (s, VE (mk (O_SEXT, w, a.e))) : VC ((uint64_t)sx (a.c, ow) & maskw (w))); return; }
  case Instruction::Trunc: { Val a = get (f, in.o[0]); setd (a.e ? VE (mkExtract (a.e, 0, w)) : VC (a.c & maskw (w))); return; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = get (f, in.o[0]); if (a.e && a.e->w != w) a = VE (a.e->w > w ? mkExtract (a.e, 0, w) : mkZ (a.e, w)); setd (a.e ? a : VC (a.c & maskw (w))); return; }
  case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: setd (getA (s, f, in.o[0])); return;
  case Instruction::FPTrunc: case Instruction::FPExt: { Val a = get (f, in.o[0]); unsigned ow = tw (in.I->getOperand (0)->getType ()); if (ow > 64 || w > 64) unsup (s, "long double"); setd (a.e ? VE (mk (O_FPCAST, w, a.e)) : VC (evalop (O_FPCAST, w, 0, a.c, ow, 0, 0, 0))); return; }
  case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
    Op op = in.op == Instruction::SIToFP ? O_SI2FP : in.op == Instruction::UIToFP ? O_UI2FP : in.op == Instruction::FPToSI ? O_FP2SI : O_FP2UI; unsigned ow = tw (in.I->getOperand (0)->getType ()); if (ow > 64 || w > 64) unsup (s, "long double");
    Val a = get (f, in.o[0]); setd (a.e ? VE (mk (op, w, a.e)) : VC (evalop (op, w, 0, a.c, ow, 0, 0, 0))); return; }
  case Instruction::Alloca: { auto *al = cast<AllocaInst> (in.I); uint64_t n = 1; if (al->isArrayAllocation ()) n = concretize (s, get (f, in.o[0]), tw (al->getArraySize ()->getType ())); uint32_t id = newobj (s, n * DL->getTypeAllocSize (al->getAllocatedType ()), OK_STACK, al, false); f.allocas.push_back (id); setd (VC (addrOf (id))); return; }
  case Instruction::GetElementPtr: {
    Val b = get (f, in.o[0]); Val r = b;
    for (auto &g : in.g) { Val i = f.r[g.slot]; if (i.e) { E x = i.e->w < 64 ? mk (O_SEXT, 64, i.e) : i.e; i = VE (mk (O_MUL, 64, x, K (g.scale, 64))); } else i = VC ((uint64_t)sx (i.c, g.w) * g.scale); r = binop (O_ADD, 64, r, i); }
    setd (binop (O_ADD, 64, r, VC (in.off))); return; }
  case Instruction::Load: {
    Type *t = in.I->getType (); Val a = get (f, in.o[0]);
    if (t->isAggregateType ()) { std::vector<std::pair<Type *, uint64_t>> fl; flat (t, 0, fl); std::vector<Val> v; for (auto &p : fl) v.push_back (load (s, binop (O_ADD, 64, a, VC (p.second)), DL->getTypeStoreSize (p.first), tw (p.first))); setd (newAgg (s, v)); return; }
    if (w > 64) unsup (s, "wide load");
    Val v = load (s, a, DL->getTypeStoreSize (t), w); setd (v); return; }
  case Instruction::Store: {
    Type *t = in.I->getOperand (0)->getType (); Val a = get (f, in.o[1]);
    if (t->isAggregateType ()) { Val v = getA (s, f, in.o[0]); std::vector<std::pair<Type *, uint64_t>> fl; flat (t, 0, fl); std::vector<Val> el = s.aggs[v.c]; for (size_t i = 0; i < fl.size (); i++) store (s, binop (O_ADD, 64, a, VC (fl[i].second)), DL->getTypeStoreSize (fl[i].first), el[i], tw (fl[i].first)); f.pc++; return; }
    if (tw (t) > 64) unsup (s, "wide store");
    store (s, a, DL->getTypeStoreSize (t), get (f, in.o[0]), tw (t)); f.pc++; return; }
  case Instruction::ExtractValue: { auto *ev = cast<ExtractValueInst> (in.I); Val a = getA (s, f, in.o[0]); Type *rt; unsigned k = flatIndex (ev->getAggregateOperand ()->getType (), ev->getIndices (), rt);
    if (rt->isAggregateType ()) { std::vector<std::pair<Type *, uint64_t>> fl; flat (rt, 0, fl); std::vector<Val> v (s.aggs[a.c].begin () + k, s.aggs[a.c].begin () + k + fl.size ()); setd (newAgg (s, v)); } else setd (s.aggs[a.c][k]); return; }
  case Instruction::InsertValue: { auto *iv = cast<InsertValueInst> (in.I); Val a = getA (s, f, in.o[0]), v = getA (s, f, in.o[1]); Type *rt; unsigned k = flatIndex (iv->getType (), iv->getIndices (), rt); std::vector<Val> n = s.aggs[a.c];
    if (rt->isAggregateType ()) { auto &x = s.aggs[v.c]; for (size_t i = 0; i < x.size (); i++) n[k + i] = x[i]; } else n[k] = v; setd (newAgg (s, n)); return; }
  case Instruction::Br: {
    if (in.o.empty ()) { jump (s, f, in.succ[0]); return; }
    Val c = get (f, in.o[0]);
    if (!c.e) { jump (s, f, in.succ[c.c ? 0 : 1]); return; }
    if (g_merge && f.f->b[f.bb].join >= 0 && tryMerge (s, f, f.f->b[f.bb], c, false)) return;
    if (g_merge && f.f->b[f.bb].exits[0] >= 0 && tryMerge (s, f, f.f->b[f.bb], c, true)) return;
    bool v = branch (s, c.e, [&] (State &n) { EV.bind (n.model); bool ov = EV.ev (c.e); jump (n, n.st.back (), in.succ[ov ? 0 : 1]); });
    jump (s, s.st.back (), in.succ[v ? 0 : 1]); return; }
  case Instruction::Switch: {
    Val c = get (f, in.o[0]);
    if (!c.e) { unsigned t = in.succ[0]; for (size_t i = 1; i < in.o.size (); i++) if (in.o[i].c == c.c) { t = in.succ[i]; break; } jump (s, f, t); return; }
    // group cases by target, then decide targets one at a time
    std::map<int, E> tgt; E any = P->F;
    for (size_t i = 1; i < in.o.size (); i++) { E q = mk (O_EQ, 1, c.e, K (in.o[i].c, w)); any = mk (O_OR, 1, any, q); if (in.succ[i] == in.succ[0]) continue; auto &x = tgt[in.succ[i]]; x = x ? mk (O_OR, 1, x, q) : q; }
    E dflt = P->T; for (auto &t : tgt) dflt = mk (O_AND, 1, dflt, mkNot (t.second));
    EV.bind (s.model); int mine = in.succ[0]; for (auto &t : tgt) if (EV.ev (t.second)) { mine = t.first; break; }
    std::vector<std::pair<int, E>> all (tgt.begin (), tgt.end ()); all.push_back ({in.succ[0], dflt}); E minec = nullptr; bool forked = false;
    for (auto &t : all) {
      if (t.first == mine) { minec = t.second; continue; }
      AssignP nm; Res r = S->check (s.pc, t.second, s.model, nm);
      if (r == R_SAT) { State *n = fork_state (s); addpc (*n, t.second); n->model = nm; jump (*n, n->st.back (), t.first); work.push_back (n); forked = true; }
      else if (r == R_UNKNOWN) { incomplete = true; unsupported.insert ("solver gave up on switch at " + locOf (in.I)); }
    }
    (void)forked; addpc (s, minec); jump (s, s.st.back (), mine); return; }
  case Instruction::Call: case Instruction::Invoke: {
    auto *cb = const_cast<CallBase *> (cast<CallBase> (in.I)); std::vector<Val> a; std::vector<unsigned> aw; unsigned na = in.o.size () - 1;
    a.reserve (na); for (unsigned i = 0; i < na; i++) { a.push_back (getA (s, f, in.o[i])); aw.push_back (cb->getArgOperand (i)->getType ()->isMetadataTy () ? 0 : tw (cb->getArgOperand (i)->getType ())); }
    int callee = in.callee; const Function *cf = cb->getCalledFunction ();
    if (cf && cf->isIntrinsic ()) { Val r; if (cf->getIntrinsicID () == Intrinsic::vastart) { intrinsic (s, f, in, a, r); s.st.back ().pc++; return; } intrinsic (s, f, in, a, r); Frame &g = s.st.back (); if (in.dst >= 0) g.r[in.dst] = r; g.pc++; return; }
    if (callee < 0 && !cf) {
      if (isa<InlineAsm> (cb->getCalledOperand ())) unsup (s, "inline asm");
      uint64_t p = concretize (s, get (f, in.o[na]), 64); uint32_t id = (p >> 32) - 1; auto it = objfn.find (id);
      if ((p >> 32) == 0 || it == objfn.end () || p != addrOf (id)) { report (s, "memory", "call through invalid function pointer", s.model); throw Kill (); }
      cf = it->second; auto fi = fnid.find (cf); if (fi != fnid.end ()) callee = fi->second;
    }
    // byval aggregates: copy
    for (unsigned i = 0; i < na; i++) if (cb->isByValArgument (i)) { Type *bt = cb->getParamByValType (i); uint64_t sz = DL->getTypeAllocSize (bt); uint32_t id = newobj (s, sz, OK_STACK, cb, false); s.st.back ().allocas.push_back (id); do_memcpy (s, VC (addrOf (id)), a[i], VC (sz), true); a[i] = VC (addrOf (id)); }
    if (callee >= 0) { s.st.back ().pc++; pushFrame (s, callee, a, cb); return; }
    Val r; std::string nm = cf->getName ().str ();
    if (!external (s, nm, a, aw, cb, r)) unsup (s, "external function " + nm);
    Frame &g = s.st.back (); if (in.dst >= 0) g.r[in.dst] = r; g.pc++; return; }
  case Instruction::Ret: {
    Val r = in.o.empty () ? VC (0) : getA (s, f, in.o[0]); popFrame (s);
    if (s.st.empty ()) { paths++; if (samples.size () < maxsamples) samples.push_back (modelInputs (s, s.model)); else { uint64_t h = paths * 6364136223846793005ull; h ^= h >> 29; if (h % paths < maxsamples) samples[h % maxsamples] = modelInputs (s, s.model); } throw Kill (); }
    Frame &g = s.st.back (); Inst &ci = g.f->b[g.bb].in[g.pc - 1]; if (ci.dst >= 0) g.r[ci.dst] = r; return; }
  case Instruction::Unreachable: report (s, "abort", "unreachable code reached", s.model); throw Kill ();
  default: unsup (s, std::string ("instruction ") + in.I->getOpcodeName ());
  }
}
static bool pureEval (State &s, Frame &f, const Inst &in, Val &r)
{
  unsigned w = in.w; auto g = [&] (int i) { return get (f, in.o[i]); };
  for (auto &o : in.o) if (o.slot == -2) return false;
  static const std::map<unsigned, Op> bin = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}, {Instruction::FAdd, O_FADD}, {Instruction::FSub, O_FSUB}, {Instruction::FMul, O_FMUL}, {Instruction::FDiv, O_FDIV}};
  auto it = bin.find (in.op); if (it != bin.end ()) { if (w > 64) return false; r = binop (it->second, w, g (0), g (1)); return true; }
  if (in.op == Instruction::Load) { // only plainly valid concrete addresses
    Val a = g (0); if (a.e) return false; uint32_t id = (uint32_t)((a.c >> 32) - 1); uint64_t o = (a.c & 0xffffffffu) - OBASE; unsigned bytes = DL->getTypeStoreSize (in.I->getType ());
    if ((a.c >> 32) == 0 || id >= s.m.size () || !s.m[id].live || s.m[id].kind == OK_FUNC || (int64_t)o < 0 || o + bytes > s.m[id].size) return false;
    r = loadAt (s, id, o, bytes, w); return true; }
  if (w > 64) return false;
  unsigned sb = f.bb, sp = f.pc; // remaining pure operations: reuse the interpreter on a private program counter
  (void)sb; (void)sp;
  switch (in.op) {
  case Instruction::FNeg: r = binop (O_XOR, w, g (0), VC (1ull << (w - 1))); return true;
  case Instruction::FCmp: { auto *c = cast<FCmpInst> (in.I); r = fcmp (c->getPredicate (), tw (c->getOperand (0)->getType ()), g (0), g (1)); return true; }
  case Instruction::Select: { Val c = g (0); if (!c.e) r = g (c.c ? 1 : 2); else r = VE (mk (O_ITE, w, c.e, asE (g (1), w), asE (g (2), w))); return true; }
  case Instruction::ICmp: { auto *c = cast<ICmpInst> (in.I); unsigned ow = tw (c->getOperand (0)->getType ()); Val a = g (0), b = g (1);
    switch (c->getPredicate ()) {
    case CmpInst::ICMP_EQ: r = binop (O_EQ, ow, a, b, 1); break; case CmpInst::ICMP_NE: r = binop (O_XOR, 1, binop (O_EQ, ow, a, b, 1), VC (1)); break;
    case CmpInst::ICMP_ULT: r = binop (O_ULT, ow, a, b, 1); break; case CmpInst::ICMP_ULE: r = binop (O_ULE, ow, a, b, 1); break;
    case CmpInst::ICMP_UGT: r = binop (O_ULT, ow, b, a, 1); break; case CmpInst::ICMP_UGE: r = binop (O_ULE, ow, b, a, 1); break;
    case CmpInst::ICMP_SLT: r = binop (O_SLT, ow, a, b, 1); break; case CmpInst::ICMP_SLE: r = binop (O_SLE, ow, a, b, 1); break;
    case CmpInst::ICMP_SGT: r = binop (O_SLT, ow, b, a, 1); break; default: r = binop (O_SLE, ow, b, a, 1); break; }
    return true; }
  case Instruction::ZExt: { Val a = g (0); r = a.e ? VE (mkZ (a.e, w)) : a; return true; }
  case Instruction::SExt: { Val a = g (0); unsigned ow = tw (in.I->getOperand (0)->getType ()); r = a.e ? VE (mk (O_SEXT, w, a.e)) : VC ((uint64_t)sx (a.c, ow) & maskw (w)); return true; }
  case Instruction::Trunc: { Val a = g (0); r = a.e ? VE (mkExtract (a.e, 0, w)) : VC (a.c & maskw (w)); return true; }
  case Instruction::Freeze: r = g (0); return true;
  case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = g (0); if (a.e && a.e->w != w) return false; r = a.e ? a : VC (a.c & maskw (w)); return true; }
  case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt: { unsigned ow = tw (in.I->getOperand (0)->getType ()); if (ow > 64) return false; Op op = in.op == Instruction::SIToFP ? O_SI2FP : in.op == Instruction::UIToFP ? O_UI2FP : O_FPCAST; Val a = g (0); r = a.e ? VE (mk (op, w, a.e)) : VC (evalop (op, w, 0, a.c, ow, 0, 0, 0)); return true; }
  case Instruction::GetElementPtr: { r = g (0); for (auto &gg : in.g) { Val i = f.r[gg.slot]; if (i.e) { E x = i.e->w < 64 ? mk (O_SEXT, 64, i.e) : i.e; i = VE (mk (O_MUL, 64, x, K (gg.scale, 64))); } else i = VC ((uint64_t)sx (i.c, gg.w) * gg.scale); r = binop (O_ADD, 64, r, i); } r = binop (O_ADD, 64, r, VC (in.off)); return true; }
  default: return false; }
}
static bool timeup () { return now () > tlimit; }
static void runState (State *s)
{
  try {
    uint64_t k = 0;
    for (;;) { step (*s); if ((++k & 0x3f) == 0 && timeup ()) { incomplete = true; whyinc = "time limit"; break; } }
  } catch (Kill &) {}
  delete s;
}
static std::string js (const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf (b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void dump (FILE *o)
{
  fprintf (o, "{\"paths\":%llu,\"forks\":%llu,\"killed\":%llu,\"merges\":%llu,\"steps\":%llu,\"asserts\":%llu,\"memchecks\":%llu,\"queries\":%llu,\"cachehits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"complete\":%s,\"why\":%s,", (unsigned long long)paths, (unsigned long long)forks, (unsigned long long)killed, (unsigned long long)merges, (unsigned long long)steps_total, (unsigned long long)asserts_checked, (unsigned long long)memchecks, (unsigned long long)S->queries, (unsigned long long)S->hits, (unsigned long long)S->sat, (unsigned long long)S->unsat, (unsigned long long)S->unknowns, S->secs, S->maxq, now (), incomplete ? "false" : "true", js (whyinc).c_str ());
  auto lst = [&] (const char *n, const std::set<std::string> &v) { fprintf (o, "\"%s\":[", n); bool c = false; for (auto &x : v) { fprintf (o, "%s%s", c ? "," : "", js (x).c_str ()); c = true; } fprintf (o, "],"); };
  lst ("unsupported", unsupported); lst ("reached", reached);
  std::set<std::string> fn; for (int i : touched) if (fns[i]->repo) { std::string q = fns[i]->F->getName ().str (); size_t d = q.find ('.'); fn.insert (q.substr (0, d)); }; lst ("functions", fn);
  fprintf (o, "\"errors\":[");
  for (size_t i = 0; i < errors.size (); i++) { auto &e = errors[i]; fprintf (o, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"inputs\":[", i ? "," : "", js (e.kind).c_str (), js (e.msg).c_str (), js (e.loc).c_str (), js (e.stack).c_str ()); for (size_t k = 0; k < e.inputs.size (); k++) fprintf (o, "%s%llu", k ? "," : "", (unsigned long long)e.inputs[k]); fprintf (o, "]}"); }
  fprintf (o, "],\"samples\":["); for (size_t i = 0; i < samples.size (); i++) { fprintf (o, "%s[", i ? "," : ""); for (size_t k = 0; k < samples[i].size (); k++) fprintf (o, "%s%llu", k ? "," : "", (unsigned long long)samples[i][k]); fprintf (o, "]"); }
  fprintf (o, "]}\n"); fflush (o);
}
int main (int argc, char **argv)
{
  std::string bc, entry, out; int procs = 1; unsigned seeds = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string (argv[++i]); };
    if (a == "--entry") entry = nx (); else if (a == "--out") out = nx (); else if (a == "--time") tlimit = atof (nx ().c_str ()); else if (a == "--procs") procs = atoi (nx ().c_str ());
    else if (a == "--max-steps") maxsteps = atoll (nx ().c_str ()); else if (a == "--no-merge") g_merge = false; else if (a == "--max-errors") max_err = atoi (nx ().c_str ()); else if (a == "--repo") repoPrefix = nx (); else if (a == "--query-ms") { seeds = atoi (nx ().c_str ()); } else bc = a;
  }
  P = new ExprPool; S = new Solver; if (seeds) S->timeout_ms = seeds; S->deadline = std::chrono::duration<double> (T0.time_since_epoch ()).count () + tlimit; UNINIT = P->intern (O_VAR, 8, 0xffffffffull);
  static LLVMContext C; SMDiagnostic D; M = parseIRFile (bc, D, C); if (!M) { D.print ("mse", errs ()); return 3; }
  prepModule ();
  Function *E0 = M->getFunction (entry); if (!E0 || E0->isDeclaration ()) { fprintf (stderr, "no entry %s\n", entry.c_str ()); return 3; }
  State *s = new State; s->m = roobj; s->model = std::make_shared<Assign> (); pushFrame (*s, fnid[E0], {}, nullptr); work.push_back (s);
  size_t head = 0; bool par = procs > 1;
  if (par) { // breadth-first until enough independent subtrees exist
    std::deque<State *> q; size_t target = procs * 12;
    q.push_back (work.back ()); work.clear ();
    while (!q.empty () && q.size () < target && !timeup () && now () < tlimit * 0.3 + 1) {
      State *x = q.front (); q.pop_front (); size_t before = forks;
      try { for (;;) { step (*x); if (forks != before) break; } q.push_back (x); }
      catch (Kill &) { delete x; }
      for (auto *n : work) q.push_back (n); work.clear ();
      if (errors.size () >= max_err) break;
    }
    std::vector<State *> seedsv (q.begin (), q.end ());
    if (seedsv.size () >= 2 && !(errors.size () >= max_err)) {
      struct Sh { volatile unsigned next, stop; }; Sh *sh = (Sh *)mmap (nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->next = 0; sh->stop = 0;
      std::vector<pid_t> kids; std::string pf = out + ".part"; fflush (stdout);
      for (int p = 0; p < procs; p++) {
        pid_t k = fork ();
        if (k == 0) {
          if (p) { paths = forks = killed = steps_total = asserts_checked = memchecks = 0; errors.clear (); samples.clear (); S->queries = S->hits = S->sat = S->unsat = S->unknowns = 0; S->secs = 0; }
          for (;;) { unsigned n = __sync_fetch_and_add (&sh->next, 1); if (n >= seedsv.size () || sh->stop) break; work.clear (); work.push_back (seedsv[n]); seedsv[n] = nullptr;
            while (!work.empty () && !timeup () && !sh->stop) { State *x = work.back (); work.pop_back (); runState (x); if (errors.size () >= max_err) sh->stop = 1; }
            if (!work.empty ()) { incomplete = true; if (whyinc.empty ()) whyinc = sh->stop ? "stopped at first error" : "time limit"; break; } }
          if (timeup ()) { incomplete = true; whyinc = "time limit"; }
          FILE *o = fopen ((pf + std::to_string (p)).c_str (), "w"); dump (o); fclose (o); _Exit (0);
        }
        kids.push_back (k);
      }
      for (auto k : kids) { int st; waitpid (k, &st, 0); }
      _Exit (0);
    }
    work = seedsv;
  }
  (void)head;
  while (!work.empty ()) { State *x = work.back (); work.pop_back (); runState (x); if (timeup () && !work.empty ()) { incomplete = true; whyinc = "time limit"; break; } if (errors.size () >= max_err) { incomplete = true; whyinc = "stopped at first error"; break; } }
  std::string pf = out.empty () ? "/dev/stdout" : (par ? out + ".part0" : out); FILE *o = fopen (pf.c_str (), "w"); dump (o); fclose (o); _Exit (0);
}
