// symx: bounded symbolic execution of LLVM bitcode with an SMT solver deciding branches, memory accesses and assertions.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <chrono>
#include <map>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <functional>
using namespace llvm;
typedef std::chrono::steady_clock Clk;

// ---------------------------------------------------------------- values
struct Val { E e = nullptr; u64 c = 0; std::shared_ptr<std::vector<Val>> agg; };
static inline Val VC(u64 c) { Val v; v.c = c; return v; }
static inline Val VE(E e) { Val v; if (isC(e)) v.c = e->v; else v.e = e; return v; }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory
enum Kind : u8 { GLOBAL, STACK, HEAP, FUNC };
struct Obj {
  u64 base, size; Kind kind; bool freed = false, ro = false; u8 origin = 0; std::string name; u32 line = 0;
  std::vector<u8> c; std::vector<E> s; std::vector<bool> init;
};
typedef std::shared_ptr<Obj> OP;
struct Memory {
  std::vector<std::pair<u64, OP>> v; // sorted by base
  u64 next = 0x10000;
  OP alloc(u64 size, Kind k, const std::string &name, bool init) {
    OP o = std::make_shared<Obj>(); o->base = next; o->size = size; o->kind = k; o->name = name;
    o->c.assign(size, 0); o->init.assign(size, init);
    next += ((size + 15) & ~15ULL) + 64; next = (next + 15) & ~15ULL;
    v.emplace_back(o->base, o); return o;
  }
  int find(u64 a) const {
    auto it = std::upper_bound(v.begin(), v.end(), a, [](u64 x, const std::pair<u64, OP> &p) { return x < p.first; });
    if (it == v.begin()) return -1; --it;
    // an address one past the end still belongs to the object for reporting purposes
    return a <= it->first + it->second->size + 32 ? int(it - v.begin()) : -1;
  }
  Obj &w(int i) { if (v[i].second.use_count() > 1) v[i].second = std::make_shared<Obj>(*v[i].second); return *v[i].second; }
  void erase(u64 base) { int i = find(base); if (i >= 0 && v[i].first == base) v.erase(v.begin() + i); }
};

// ---------------------------------------------------------------- program
struct Opnd { int slot = -1; Val k; bool undef = false; u8 w = 0; };
struct DInst {
  unsigned op; const Instruction *I; int dst = -1; std::vector<Opnd> o; unsigned w = 0, w2 = 0; int t0 = -1, t1 = -1; // widths, branch targets
  i64 goff = 0; std::vector<std::pair<int, u64>> gidx; // GEP: operand index, scale
  Function *callee = nullptr; int bi = 0; u64 sz = 0; Type *ty = nullptr;
};
struct Block { std::vector<DInst> in; std::vector<const PHINode *> phis; std::map<int, std::vector<std::pair<int, Opnd>>> phiIn; const BasicBlock *bb; u64 hits = 0; };
struct Fn { Function *f; std::vector<Block> b; int nslots = 0; std::vector<int> argslot; u64 calls = 0; bool decoded = false; };

struct Frame {
  Fn *fn; int blk = 0, idx = 0, prev = -1; std::vector<Val> r; std::vector<u64> allocas; std::vector<Val> va; std::vector<unsigned> vaw;
};
struct Input { std::string name; E e; u64 fixed; };
struct State {
  std::vector<Frame> st; Memory mem; std::vector<E> cs; std::shared_ptr<const Model> model = std::make_shared<Model>();
  std::unordered_map<u32, std::array<u64, 4>> dom; std::set<u32> multi; std::unordered_map<E, u64> eqs;
  std::vector<Input> inputs; u64 steps = 0; std::set<std::string> covers; int heap = 0; u64 heapBytes = 0; bool abortOk = false; u32 forks = 0;
  Val exc; u64 excType = 0; u64 excObj = 0; std::map<u64, u64> excTypes; std::vector<u64> caught; int undefN = 0;
  struct Co { std::vector<Frame> st; std::vector<u64> caught; }; std::map<u64, std::shared_ptr<const Co>> co; u64 coCur = 0; // suspended threads
};
typedef std::unique_ptr<State> SP;

static Module *M; static const DataLayout *DL; static LLVMContext *C;
static std::map<Function *, Fn *> fns; static std::unordered_map<u64, Function *> fnByAddr; static std::map<const GlobalValue *, u64> gaddr;
static std::vector<SP> work; static SP cur;
static std::map<std::string, long> params; static std::set<std::string> covers;
static double maxTime = 600; static u64 maxSteps = 3000000, maxPaths = 1000000000; static unsigned zto = 20000; static size_t maxErr = 8;
static u64 nPaths = 0, nForks = 0, nSteps = 0, nAsserts = 0, nAssertsQ = 0, nKilled = 0, nIncomplete = 0, nMemChecks = 0;
static std::map<std::string, u64> incompleteWhy;
static std::set<std::string> modelCalls;
static Clk::time_point t0;
static double elapsed() { return std::chrono::duration<double>(Clk::now() - t0).count(); }
struct EndPath {}; // thrown to end the current path
struct Retry {};   // re-execute the current instruction (state changed by a fork)

struct Err { std::string kind, msg, loc, stack; std::vector<std::pair<std::string, u64>> in; std::set<std::string> covers; };
static std::vector<Err> gErrs; static size_t maxWit = 0; static u64 witSeed = 1, witSeen = 0; static std::vector<std::vector<std::pair<std::string, u64>>> wits;
static void pathDone(State &s) { // count the path and keep a uniform sample of concrete witnesses
  nPaths++; for (auto &c : s.covers) covers.insert(c);
  if (!maxWit) return; witSeen++; witSeed = witSeed * 6364136223846793005ULL + 1442695040888963407ULL;
  size_t at = wits.size(); if (at >= maxWit) { u64 r = (witSeed >> 20) % witSeen; if (r >= maxWit) return; at = r; } else wits.emplace_back();
  wits[at].clear(); for (auto &i : s.inputs) wits[at].push_back({i.name, i.e ? evalE(i.e, *s.model) : i.fixed});
} static std::map<std::string, int> errCount;

static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  if (const DebugLoc &d = I->getDebugLoc()) { auto *s = d->getScope(); std::string f = s ? s->getFilename().str() : "?"; auto p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); return f + ":" + std::to_string(d.getLine()); }
  return I->getFunction()->getName().str();
}
static const Instruction *curI(const Frame &f) { auto &b = f.fn->b[f.blk]; if (f.idx < (int)b.in.size()) return b.in[f.idx].I; return nullptr; }
static std::string stackOf() { std::string s; for (size_t i = cur->st.size(); i-- > 0;) { auto &f = cur->st[i]; s += f.fn->f->getName().str() + "@" + locOf(curI(f)) + " < "; if (s.size() > 700) break; } return s; }

// ---------------------------------------------------------------- solver front end
static std::map<std::vector<u32>, std::pair<Sat, std::shared_ptr<Model>>> qcache;
static bool setBit(const u64 *t, unsigned v) { return t[v / 64] >> (v % 64) & 1; }
static void addC(E c) {
  if (isC(c)) return;
  if (c->op == AND && c->w == 1) { addC(c->k[0]); addC(c->k[1]); return; }
  State &s = *cur;
  for (E x : s.cs) if (x == c) return;
  s.cs.push_back(c);
  if (c->op == EQ && isC(c->k[1])) s.eqs[c->k[0]] = c->k[1]->v;
  s.eqs[c] = 1; if (c->op == XOR) s.eqs[c->k[0]] = 0; else s.eqs[mkNot(c)] = 0;
  if (c->sup->size() == 1 && g_vars[(*c->sup)[0]]->w <= 8) {
    u32 v = (*c->sup)[0]; const u64 *t = truthset(c, v);
    auto it = s.dom.find(v); if (it == s.dom.end()) { std::array<u64, 4> a; a.fill(~0ULL); unsigned n = 1u << g_vars[v]->w; for (unsigned i = n; i < 256; i++) a[i / 64] &= ~(1ULL << (i % 64)); it = s.dom.emplace(v, a).first; }
    for (int i = 0; i < 4; i++) it->second[i] &= t[i];
  } else for (u32 v : *c->sup) s.multi.insert(v);
}
// may cond hold? fills nm with an updated model on SAT.
static Sat may(E cond, std::shared_ptr<const Model> *nm = nullptr) {
  State &s = *cur; g_ss.queries++;
  if (isC(cond)) { if (nm) *nm = s.model; return cond->v ? SAT : UNSAT; }
  auto q = s.eqs.find(cond); if (q != s.eqs.end()) { if (q->second) { if (nm) *nm = s.model; return SAT; } return UNSAT; }
  if (evalE(cond, *s.model)) { g_ss.model_hits++; if (nm) *nm = s.model; return SAT; }
  if (cond->sup->size() == 1 && g_vars[(*cond->sup)[0]]->w <= 8) {
    u32 v = (*cond->sup)[0]; const u64 *t = truthset(cond, v); u64 d[4]; bool any = false; auto it = s.dom.find(v);
    unsigned n = 1u << g_vars[v]->w;
    for (int i = 0; i < 4; i++) { d[i] = t[i] & (it == s.dom.end() ? ~0ULL : it->second[i]); }
    for (unsigned i = 0; i < n; i++) if (setBit(d, i)) { any = true; if (!s.multi.count(v)) { g_ss.dom++; if (nm) { auto m = std::make_shared<Model>(*s.model); (*m)[v] = i; *nm = m; } return SAT; } break; }
    if (!any) { g_ss.dom++; return UNSAT; }
  }
  std::set<u32> vs(cond->sup->begin(), cond->sup->end()); std::vector<E> sl{cond}; std::vector<char> used(s.cs.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.cs.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : *s.cs[i]->sup) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; sl.push_back(s.cs[i]); vs.insert(s.cs[i]->sup->begin(), s.cs[i]->sup->end()); } } }
  std::vector<u32> key; for (E e : sl) key.push_back(e->id); std::sort(key.begin() + 1, key.end());
  auto it = qcache.find(key); Sat r; std::shared_ptr<Model> m;
  if (it != qcache.end()) { g_ss.cached++; r = it->second.first; m = it->second.second; }
  else { m = std::make_shared<Model>(); r = z3check(sl, m.get(), zto); if (qcache.size() < 400000) qcache[key] = {r, m}; }
  if (r == SAT && nm) { auto x = std::make_shared<Model>(*s.model); for (auto &p : *m) (*x)[p.first] = p.second; *nm = x; }
  return r;
}
static void incomplete(const std::string &w) { nIncomplete++; incompleteWhy[w]++; }
static SP forkState() { nForks++; return std::make_unique<State>(*cur); }

static void report(const std::string &kind, const std::string &msg, const Model &m) {
  auto &f = cur->st.back(); std::string loc = locOf(curI(f));
  // attribute library-model and harness-helper failures to the nearest caller outside the model file
  for (size_t i = cur->st.size(); i-- > 0;) { std::string l = locOf(curI(cur->st[i])); if (l.compare(0, 8, "models.c") != 0) { loc = l; break; } }
  std::string key = kind + "|" + msg + "|" + loc; if (errCount[key]++ >= 2 || gErrs.size() >= maxErr * 4) return;
  Err e; e.kind = kind; e.msg = msg; e.loc = loc; e.stack = stackOf(); e.covers = cur->covers;
  for (auto &i : cur->inputs) e.in.push_back({i.name, i.e ? evalE(i.e, m) : i.fixed});
  gErrs.push_back(e);
}
[[noreturn]] static void fail(const std::string &kind, const std::string &msg) { report(kind, msg, *cur->model); nKilled++; throw EndPath(); }
[[noreturn]] static void unsupported(const std::string &w) { incomplete("unsupported: " + w); throw EndPath(); }

// Branch on cond: returns the truth value taken by the current state; pushes the other side (re-executing this instruction).
static bool branch(E cond) {
  if (isC(cond)) return cond->v;
  State &s = *cur;
  auto q = s.eqs.find(cond); if (q != s.eqs.end()) return q->second;
  bool mv = evalE(cond, *s.model); E other = mv ? mkNot(cond) : cond; std::shared_ptr<const Model> nm;
  Sat r = may(other, &nm);
  if (r == UNSAT) { s.eqs[cond] = mv; return mv; }
  if (r == UNKNOWN) { incomplete("solver unknown on branch"); addC(mv ? cond : mkNot(cond)); return mv; }
  SP o = forkState(); o->model = nm; o->forks++; std::swap(cur, o); addC(other); std::swap(cur, o);
  work.push_back(std::move(o));
  addC(mv ? cond : mkNot(cond)); s.forks++;
  return mv;
}
static u64 concretize(E e) {
  if (isC(e)) return e->v;
  auto q = cur->eqs.find(e); if (q != cur->eqs.end()) return q->second;
  u64 v = evalE(e, *cur->model); E c = mkEq(e, mkConst(v, e->w));
  branch(c); // always takes the model's side
  cur->eqs[e] = v; return v;
}
static u64 conc(const Val &v) { return v.e ? concretize(v.e) : v.c; }

// ---------------------------------------------------------------- memory access
static Val undefVal(unsigned w) { return VE(mkVar("undef" + std::to_string(g_vars.size()), w, true)); }
static std::string objDesc(const Obj &o) { return std::string(o.kind == HEAP ? "heap" : o.kind == STACK ? "stack" : o.kind == FUNC ? "code" : "global") + " block of " + std::to_string(o.size) + " bytes" + (o.name.empty() ? "" : " (" + o.name + ")"); }

static E byteAt(Obj &o, u64 i) { // o must be writable if the byte is uninitialised
  if (i < o.s.size() && o.s[i]) return o.s[i];
  if (!o.init[i]) { E u = mkVar("uninit:" + o.name, 8, true); if (o.s.size() <= i) o.s.resize(i + 1, nullptr); o.s[i] = u; o.init[i] = true; return u; }
  return mkConst(o.c[i], 8);
}
static void setByte(Obj &o, u64 i, E e) {
  o.init[i] = true;
  if (isC(e)) { o.c[i] = (u8)e->v; if (i < o.s.size()) o.s[i] = nullptr; }
  else { if (o.s.size() <= i) o.s.resize(i + 1, nullptr); o.s[i] = e; }
}
// Resolve address + n bytes to an object; offset either concrete (off) or symbolic (offE).
struct Ref { int idx; u64 off; E offE; };
static Ref resolve(const Val &p, u64 n, bool write) {
  nMemChecks++;
  u64 a = p.e ? evalE(p.e, *cur->model) : p.c; const char *rw = write ? "write" : "read";
  int i = cur->mem.find(a);
  if (a < 4096) fail("memory", std::string("null pointer ") + rw);
  if (i < 0) fail("memory", std::string("wild or dangling pointer ") + rw);
  Obj &o = *cur->mem.v[i].second;
  if (o.freed) fail("memory", std::string("use after free: ") + rw + " in " + objDesc(o));
  if (a < o.base || a + n > o.base + o.size) fail("memory", std::string("out of bounds ") + rw + " in " + objDesc(o));
  if (o.kind == FUNC) fail("memory", "data access to code");
  if (write && o.ro) fail("memory", "write to constant " + objDesc(o));
  if (!p.e) return {i, a - o.base, nullptr};
  E off = mk(SUB, 64, p.e, mkConst(o.base, 64));
  E in = mk(ULE, 1, off, mkConst(o.size - n, 64));
  branch(in); // the model's side is in bounds; the other side retries and resolves elsewhere or fails
  auto q = cur->eqs.find(p.e); if (q != cur->eqs.end()) return {i, q->second - o.base, nullptr};
  if (isC(off)) return {i, off->v, nullptr};
  return {i, 0, off};
}
static void chkUndef(E e, const char *what);
// constant leaves of a selection between constants (plus a constant), at most 8
static bool constLeaves(E e, u64 add, std::set<u64> &out) {
  if (isC(e)) { out.insert(e->v + add); return out.size() <= 8; }
  if (e->op == ITE) return constLeaves(e->k[1], add, out) && constLeaves(e->k[2], add, out);
  if (e->op == ADD && isC(e->k[1])) return constLeaves(e->k[0], add + e->k[1]->v, out);
  if (e->op == ADD && isC(e->k[0])) return constLeaves(e->k[1], add + e->k[0]->v, out);
  if (e->op == SUB && isC(e->k[1])) return constLeaves(e->k[0], add - e->k[1]->v, out);
  return false;
}
static Val loadBytes(const Val &p, unsigned nb) {
  Ref r = resolve(p, nb, false);
  Obj *o = cur->mem.v[r.idx].second.get();
  if (r.offE) {
    chkUndef(r.offE, "address");
    // symbolic offset: constant tables by run-length selection, small objects by ITE chains, otherwise fork
    bool allc = true; for (u64 i = 0; i < o->size && allc; i++) allc = o->init[i] && !(i < o->s.size() && o->s[i]);
    if (nb == 1 && allc && o->size <= 4096) {
      std::vector<u64> v(o->c.begin(), o->c.end());
      return VE(rleSelect(v, r.offE, 8, 0, o->size));
    }
    std::set<u64> lv;
    bool leaves = constLeaves(r.offE, 0, lv), raw = false; // places not written yet may be unreachable here: settle the address then
    if (leaves) for (u64 l : lv) for (u64 i = l; l <= o->size - nb && i < l + nb; i++) raw |= !o->init[i] || (i < o->s.size() && o->s[i] && o->s[i]->undef);
    if (leaves && !raw) {
      Obj &w = cur->mem.w(r.idx); E res = nullptr;
      for (u64 l : lv) {
        if (l > o->size - nb) continue; // excluded by the bounds test above
        E x = byteAt(w, l); for (unsigned i = 1; i < nb; i++) x = mkConcat(byteAt(w, l + i), x);
        res = res ? mkIte(mkEq(r.offE, mkConst(l, 64)), x, res) : x;
      }
      if (res) return VE(res);
    }
    if (nb == 1 && o->size <= 24 && !raw) {
      Obj &w = cur->mem.w(r.idx); E res = byteAt(w, w.size - 1);
      for (u64 i = w.size - 1; i-- > 0;) res = mkIte(mkEq(r.offE, mkConst(i, 64)), byteAt(w, i), res);
      return VE(res);
    }
    r.off = concretize(r.offE);
    o = cur->mem.v[r.idx].second.get();
  }
  bool simple = true;
  for (u64 i = r.off; i < r.off + nb; i++) if (!o->init[i] || (i < o->s.size() && o->s[i])) { simple = false; break; }
  if (simple) { u64 v = 0; memcpy(&v, &o->c[r.off], nb); return VC(v); }
  Obj &w = cur->mem.w(r.idx); E res = byteAt(w, r.off);
  for (unsigned i = 1; i < nb; i++) res = mkConcat(byteAt(w, r.off + i), res);
  return VE(res);
}
static void storeBytes(const Val &p, const Val &v, unsigned nb, unsigned w) {
  Ref r = resolve(p, nb, true);
  E e = v.e; if (e && e->w < nb * 8) e = mkZext(e, nb * 8);
  if (r.offE) {
    chkUndef(r.offE, "address");
    Obj *o = cur->mem.v[r.idx].second.get();
    bool raw = false; for (u64 i = 0; i < o->size && i <= 32; i++) raw |= !o->init[i] || (i < o->s.size() && o->s[i] && o->s[i]->undef);
    if (nb == 1 && o->size <= 32 && !raw) {
      Obj &ob = cur->mem.w(r.idx); E val = toE(v, 8);
      for (u64 i = 0; i < ob.size; i++) setByte(ob, i, mkIte(mkEq(r.offE, mkConst(i, 64)), val, byteAt(ob, i)));
      return;
    }
    r.off = concretize(r.offE);
  }
  Obj &o = cur->mem.w(r.idx);
  if (!e) { for (unsigned i = 0; i < nb; i++) { o.c[r.off + i] = (u8)(i < 8 ? v.c >> (8 * i) : 0); o.init[r.off + i] = true; if (r.off + i < o.s.size()) o.s[r.off + i] = nullptr; } return; }
  for (unsigned i = 0; i < nb; i++) setByte(o, r.off + i, mkExtract(e, 8 * i, 8));
}
static void chkUndef(E e, const char *what) { if (e && e->undef) fail("uninit", std::string("uninitialised value used as ") + what); }

static Val loadT(const Val &p, Type *t) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    Val r; r.agg = std::make_shared<std::vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) {
      Type *et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
      u64 off = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(et);
      Val q = p; if (q.e) q.e = mk(ADD, 64, q.e, mkConst(off, 64)); else q.c += off;
      r.agg->push_back(loadT(q, et));
    }
    return r;
  }
  unsigned w = (unsigned)DL->getTypeSizeInBits(t), nb = (unsigned)DL->getTypeStoreSize(t);
  if (nb > 8) unsupported("wide load");
  Val v = loadBytes(p, nb);
  if (w < nb * 8) { if (v.e) v = VE(mkExtract(v.e, 0, w)); else v.c &= mask(w); }
  return v;
}
static void storeT(const Val &p, const Val &v, Type *t) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) {
      Type *et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
      u64 off = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(et);
      Val q = p; if (q.e) q.e = mk(ADD, 64, q.e, mkConst(off, 64)); else q.c += off;
      storeT(q, v.agg ? (*v.agg)[i] : VC(0), et);
    }
    return;
  }
  unsigned w = (unsigned)DL->getTypeSizeInBits(t), nb = (unsigned)DL->getTypeStoreSize(t);
  if (nb > 8) unsupported("wide store");
  storeBytes(p, v, nb, w);
}

// ---------------------------------------------------------------- decoding
static Val constVal(const Constant *k);
static bool hasUndef(const Constant *k) { return isa<UndefValue>(k); }
static Val zeroT(Type *t) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { Val r; r.agg = std::make_shared<std::vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) r.agg->push_back(zeroT(t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType()));
    return r; }
  return VC(0);
}
static Val constVal(const Constant *k) {
  if (auto *c = dyn_cast<ConstantInt>(k)) { if (c->getBitWidth() > 64) return VC(c->getValue().getRawData()[0]); return VC(c->getZExtValue()); }
  if (auto *c = dyn_cast<ConstantFP>(k)) { if (c->getType()->isFloatTy() || c->getType()->isDoubleTy()) return VC(c->getValueAPF().bitcastToAPInt().getZExtValue()); return VC(0); }
  if (isa<ConstantPointerNull>(k)) return VC(0);
  if (auto *g = dyn_cast<GlobalValue>(k)) { if (auto *al = dyn_cast<GlobalAlias>(g)) return constVal(al->getAliasee()); return VC(gaddr.at(g)); }
  if (isa<ConstantAggregateZero>(k) || isa<UndefValue>(k)) return zeroT(k->getType());
  if (auto *a = dyn_cast<ConstantAggregate>(k)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < a->getNumOperands(); i++) r.agg->push_back(constVal(a->getOperand(i))); return r; }
  if (auto *d = dyn_cast<ConstantDataSequential>(k)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < d->getNumElements(); i++) r.agg->push_back(constVal(d->getElementAsConstant(i))); return r; }
  if (auto *x = dyn_cast<ConstantExpr>(k)) {
    switch (x->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (cast<GEPOperator>(x)->accumulateConstantOffset(*DL, off)) { Val b = constVal(x->getOperand(0)); b.c += off.getSExtValue(); return b; } break; }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: return constVal(x->getOperand(0));
    case Instruction::Add: return VC(constVal(x->getOperand(0)).c + constVal(x->getOperand(1)).c);
    case Instruction::Sub: return VC(constVal(x->getOperand(0)).c - constVal(x->getOperand(1)).c);
    case Instruction::Trunc: return VC(constVal(x->getOperand(0)).c & mask(x->getType()->getIntegerBitWidth()));
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); k->print(os); fprintf(stderr, "unsupported constant: %s\n", s.c_str()); return VC(0);
}
static unsigned widthT(Type *t) { if (t->isVoidTy() || t->isStructTy() || t->isArrayTy() || t->isVectorTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return 0; return (unsigned)DL->getTypeSizeInBits(t); }

static Fn *getFn(Function *F) {
  Fn *&f = fns[F]; if (!f) { f = new Fn(); f->f = F; }
  if (f->decoded || F->isDeclaration()) return f;
  f->decoded = true;
  std::map<const Value *, int> slot; std::map<const BasicBlock *, int> bid; int n = 0;
  for (auto &a : F->args()) { slot[&a] = n; f->argslot.push_back(n++); }
  int bn = 0; for (auto &b : *F) { bid[&b] = bn++; for (auto &i : b) if (!i.getType()->isVoidTy()) slot[&i] = n++; }
  f->nslots = n; f->b.resize(bn);
  auto opn = [&](const Value *v) { Opnd o; o.w = 0; if (!v->getType()->isMetadataTy() && !v->getType()->isLabelTy() && v->getType()->isSized()) { unsigned w = widthT(v->getType()); o.w = w > 255 ? 0 : w; }
    if (auto it = slot.find(v); it != slot.end()) o.slot = it->second;
    else if (auto *k = dyn_cast<Constant>(v)) { o.k = constVal(k); if (hasUndef(k) && widthT(k->getType()) && widthT(k->getType()) <= 64 && !k->getType()->isPointerTy()) { o.undef = true; o.k = undefVal(widthT(k->getType())); } }
    return o; };
  for (auto &b : *F) {
    Block &B = f->b[bid[&b]]; B.bb = &b;
    for (auto &i : b) {
      if (auto *p = dyn_cast<PHINode>(&i)) { B.phis.push_back(p); for (unsigned k = 0; k < p->getNumIncomingValues(); k++) {
          auto &vec = B.phiIn[bid[p->getIncomingBlock(k)]]; bool dup = false; for (auto &x : vec) if (x.first == slot[p]) dup = true;
          if (!dup) vec.push_back({slot[p], opn(p->getIncomingValue(k))}); } continue; }
      if (isa<DbgInfoIntrinsic>(&i)) continue;
      DInst d; d.op = i.getOpcode(); d.I = &i; if (!i.getType()->isVoidTy()) d.dst = slot[&i]; d.ty = i.getType(); d.w = i.getType()->isSized() ? widthT(i.getType()) : 0;
      if (auto *br = dyn_cast<BranchInst>(&i)) { d.t0 = bid[br->getSuccessor(0)]; if (br->isConditional()) { d.t1 = bid[br->getSuccessor(1)]; d.o.push_back(opn(br->getCondition())); } }
      else if (auto *sw = dyn_cast<SwitchInst>(&i)) { d.o.push_back(opn(sw->getCondition())); d.t0 = bid[sw->getDefaultDest()]; d.w2 = widthT(sw->getCondition()->getType()); for (auto &c : sw->cases()) d.gidx.push_back({bid[c.getCaseSuccessor()], c.getCaseValue()->getZExtValue()}); }
      else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
        if (g->getType()->isVectorTy()) d.bi = -1;
        d.o.push_back(opn(g->getPointerOperand()));
        for (auto gi = gep_type_begin(g); gi != gep_type_end(g); ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) d.goff += (i64)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue());
          else { u64 sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) d.goff += ci->getSExtValue() * (i64)sc; else { d.gidx.push_back({(int)d.o.size(), sc}); d.o.push_back(opn(ix)); } }
        }
      }
      else if (auto *cb = dyn_cast<CallBase>(&i)) {
        for (auto &a : cb->args()) d.o.push_back(opn(a.get()));
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
        d.callee = dyn_cast<Function>(cv); d.o.push_back(opn(cb->getCalledOperand()));
        if (auto *iv = dyn_cast<InvokeInst>(&i)) { d.t0 = bid[iv->getNormalDest()]; d.t1 = bid[iv->getUnwindDest()]; }
      }
      else for (auto &o : i.operands()) if (!isa<BasicBlock>(o.get())) d.o.push_back(opn(o.get()));
      if (auto *al = dyn_cast<AllocaInst>(&i)) { d.sz = DL->getTypeAllocSize(al->getAllocatedType()); }
      if (auto *st = dyn_cast<StoreInst>(&i)) d.ty = st->getValueOperand()->getType();
      B.in.push_back(std::move(d));
    }
  }
  return f;
}

// ---------------------------------------------------------------- execution
static inline Val get(const Frame &f, const Opnd &o) { return o.slot >= 0 ? f.r[o.slot] : o.k; }
static void enterBlock(Frame &f, int t) {
  Block &B = f.fn->b[t];
  if (!B.phis.empty()) {
    auto &v = B.phiIn[f.blk]; std::vector<std::pair<int, Val>> tmp; tmp.reserve(v.size());
    for (auto &x : v) tmp.push_back({x.first, get(f, x.second)});
    for (auto &x : tmp) f.r[x.first] = x.second;
  }
  f.prev = f.blk; f.blk = t; f.idx = 0; B.hits++;
}
static Val elementwise(const Val &a, const Val &b, unsigned n, const std::function<Val(const Val &, const Val &)> &g) {
  Val r; r.agg = std::make_shared<std::vector<Val>>();
  for (unsigned i = 0; i < n; i++) r.agg->push_back(g((*a.agg)[i], b.agg ? (*b.agg)[i] : VC(0)));
  return r;
}
static Op binop(unsigned o) {
  switch (o) {
  case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL; case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV;
  case Instruction::URem: return UREM; case Instruction::SRem: return SREM; case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR;
  case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR;
  case Instruction::FAdd: return FADD; case Instruction::FSub: return FSUB; case Instruction::FMul: return FMUL; case Instruction::FDiv: return FDIV; default: return CONST; }
}
static Val bin(Op op, unsigned w, const Val &a, const Val &b) {
  if (!a.e && !b.e) return VC(opeval(op, w, 0, w, a.c, b.c, 0));
  return VE(mk(op, w, toE(a, w), toE(b, w)));
}
static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_ULT: return mk(ULT, 1, a, b); case CmpInst::ICMP_ULE: return mk(ULE, 1, a, b); case CmpInst::ICMP_UGT: return mk(ULT, 1, b, a); case CmpInst::ICMP_UGE: return mk(ULE, 1, b, a);
  case CmpInst::ICMP_SLT: return mk(SLT, 1, a, b); case CmpInst::ICMP_SLE: return mk(SLE, 1, a, b); case CmpInst::ICMP_SGT: return mk(SLT, 1, b, a); default: return mk(SLE, 1, b, a); }
}
static E fcmp(CmpInst::Predicate p, E a, E b) {
  E uno = mk(FUNO, 1, a, b);
  switch (p) {
  case CmpInst::FCMP_FALSE: return mkBool(0); case CmpInst::FCMP_TRUE: return mkBool(1);
  case CmpInst::FCMP_OEQ: return mk(FEQ, 1, a, b); case CmpInst::FCMP_OLT: return mk(FLT, 1, a, b); case CmpInst::FCMP_OLE: return mk(FLE, 1, a, b); case CmpInst::FCMP_OGT: return mk(FLT, 1, b, a); case CmpInst::FCMP_OGE: return mk(FLE, 1, b, a);
  case CmpInst::FCMP_ONE: return mkOr(mk(FLT, 1, a, b), mk(FLT, 1, b, a)); case CmpInst::FCMP_ORD: return mkNot(uno); case CmpInst::FCMP_UNO: return uno;
  case CmpInst::FCMP_UEQ: return mkOr(uno, mk(FEQ, 1, a, b)); case CmpInst::FCMP_UNE: return mkNot(mk(FEQ, 1, a, b));
  case CmpInst::FCMP_ULT: return mkNot(mk(FLE, 1, b, a)); case CmpInst::FCMP_ULE: return mkNot(mk(FLT, 1, b, a)); case CmpInst::FCMP_UGT: return mkNot(mk(FLE, 1, a, b)); default: return mkNot(mk(FLT, 1, a, b)); }
}
static Val frnd(const Val &a, unsigned w, u64 mode) { return VE(mk(FRND, w, toE(a, w), 0, 0, mode)); }
static Val fabsV(const Val &a, unsigned w) { return bin(AND, w, a, VC(mask(w - 1))); }

static std::string cstr(const Val &p) { std::string s; u64 a = conc(p); if (!a) return s; for (int i = 0; i < 300; i++) { Val c = loadBytes(VC(a + i), 1); if (c.e) return s + "?"; if (!c.c) break; s += (char)c.c; } return s; }

static void doRet(const Val &v) {
  State &s = *cur; Frame &f = s.st.back();
  for (u64 b : f.allocas) s.mem.erase(b);
  s.st.pop_back();
  if (s.st.empty()) { pathDone(s); throw EndPath(); }
  Frame &p = s.st.back(); DInst &d = p.fn->b[p.blk].in[p.idx];
  if (d.dst >= 0) p.r[d.dst] = v;
  if (d.op == Instruction::Invoke) enterBlock(p, d.t0); else p.idx++;
}
static void finishCall(DInst &d, const Val &v) {
  Frame &p = cur->st.back(); if (d.dst >= 0) p.r[d.dst] = v;
  if (d.op == Instruction::Invoke) enterBlock(p, d.t0); else p.idx++;
}
static void unwind() {
  State &s = *cur;
  while (!s.st.empty()) {
    Frame &f = s.st.back(); DInst &d = f.fn->b[f.blk].in[f.idx];
    if (d.op == Instruction::Invoke) { enterBlock(f, d.t1); return; }
    for (u64 b : f.allocas) s.mem.erase(b);
    if (s.st.size() == 1) { fail("throw", "uncaught exception"); }
    s.st.pop_back();
  }
}
static Val heapAlloc(u64 n, bool zero) {
  if (n > (1u << 24)) return VC(0);
  auto o = cur->mem.alloc(n, HEAP, "", zero); o->name = locOf(curI(cur->st.back())); cur->heap++; cur->heapBytes += n; return VC(o->base);
}
static void heapFree(const Val &pv, u8 origin) {
  u64 a = conc(pv); if (!a) return; int i = cur->mem.find(a);
  if (i < 0 || cur->mem.v[i].second->base != a || cur->mem.v[i].second->kind != HEAP) fail("memory", "free of an address that is not a heap block");
  if (cur->mem.v[i].second->freed) fail("memory", "double free of " + objDesc(*cur->mem.v[i].second));
  if (cur->mem.v[i].second->origin != origin) fail("memory", "mismatched allocation and release functions");
  Obj &o = cur->mem.w(i); o.freed = true; cur->heap--; cur->heapBytes -= o.size; o.c.clear(); o.s.clear(); o.init.clear();
}
static u64 concSize(const Val &v) { return conc(v); }
static void memCopy(u64 d, u64 s, u64 n) {
  if (!n) return;
  Ref rs = resolve(VC(s), n, false), rd = resolve(VC(d), n, true);
  std::vector<E> tmp(n); std::vector<u8> tc(n); std::vector<bool> ti(n);
  { Obj &o = *cur->mem.v[rs.idx].second; for (u64 i = 0; i < n; i++) { ti[i] = o.init[rs.off + i]; tc[i] = o.c[rs.off + i]; tmp[i] = rs.off + i < o.s.size() ? o.s[rs.off + i] : nullptr; } }
  Obj &o = cur->mem.w(rd.idx);
  for (u64 i = 0; i < n; i++) { u64 k = rd.off + i; o.init[k] = ti[i]; o.c[k] = tc[i]; if (tmp[i]) { if (o.s.size() <= k) o.s.resize(k + 1, nullptr); o.s[k] = tmp[i]; } else if (k < o.s.size()) o.s[k] = nullptr; }
}
static void pushCall(Function *F, std::vector<Val> args, const CallBase *cb, DInst &d) {
  Fn *fn = getFn(F); fn->calls++;
  if (cur->st.size() > 400) fail("memory", "stack overflow (unbounded recursion)");
  Frame nf; nf.fn = fn; nf.r.resize(fn->nslots);
  size_t n = fn->argslot.size();
  if (args.size() < n) unsupported("call with too few arguments");
  for (size_t i = 0; i < n; i++) {
    if (cb && F->getArg(i)->hasByValAttr()) { // private copy of the aggregate
      u64 sz = DL->getTypeAllocSize(F->getArg(i)->getParamByValType()); u64 src = conc(args[i]);
      auto o = cur->mem.alloc(sz, STACK, "byval argument", false); u64 b = o->base; memCopy(b, src, sz); nf.allocas.push_back(b); nf.r[fn->argslot[i]] = VC(b);
    } else nf.r[fn->argslot[i]] = args[i];
  }
  if (F->isVarArg()) for (size_t i = n; i < args.size(); i++) { nf.va.push_back(args[i]); nf.vaw.push_back(d.o[i].w); }
  cur->st.push_back(std::move(nf)); fn->b[0].hits++;
}

typedef std::function<void(DInst &, std::vector<Val> &)> BI;
static std::unordered_map<std::string, BI> builtins;
static void ret(DInst &d, const Val &v) { finishCall(d, v); }
static std::string assertName;
static void setupBuiltins() {
  auto B = [&](const char *n, BI f) { builtins[n] = f; };
  // ---- harness interface
  B("vh_sym", [](DInst &d, std::vector<Val> &a) { std::string n = cstr(a[0]); unsigned w = (unsigned)conc(a[1]); static std::map<std::pair<std::string, u64>, E> named; E &v = named[{n, cur->inputs.size() * 128 + w}]; if (!v) v = mkVar(n, w); /* shared between paths */ cur->inputs.push_back({n, v, 0}); ret(d, VE(mkZext(v, 64))); });
  B("vh_param", [](DInst &d, std::vector<Val> &a) { std::string n = cstr(a[0]); auto it = params.find(n); u64 v = it != params.end() ? (u64)it->second : conc(a[1]); ret(d, VC(v & mask(64))); });
  B("vh_assume_", [](DInst &d, std::vector<Val> &a) {
    E c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32)));
    if (isC(c)) { if (!c->v) throw EndPath(); ret(d, VC(0)); return; }
    std::shared_ptr<const Model> nm; Sat r = may(c, &nm); if (r == UNKNOWN) { incomplete("solver unknown on assume"); throw EndPath(); }
    if (r == UNSAT) throw EndPath(); cur->model = nm; addC(c); ret(d, VC(0)); });
  B("vh_assert_", [](DInst &d, std::vector<Val> &a) {
    E c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32))); nAsserts++; std::string lab = cstr(a[1]);
    if (isC(c)) { if (!c->v) fail("assert", lab); ret(d, VC(0)); return; }
    nAssertsQ++;
    std::shared_ptr<const Model> nm; Sat r = may(mkNot(c), &nm);
    if (r == SAT) { report(c->undef ? "assert-uninit" : "assert", lab, *nm); nKilled++; if (!evalE(c, *cur->model)) { std::shared_ptr<const Model> m2; if (may(c, &m2) != SAT) throw EndPath(); cur->model = m2; } addC(c); ret(d, VC(0)); return; }
    if (r == UNKNOWN) incomplete("solver unknown on assertion " + lab);
    addC(c); ret(d, VC(0)); });
  B("vh_cover", [](DInst &d, std::vector<Val> &a) { cur->covers.insert(cstr(a[0])); ret(d, VC(0)); });
  B("vh_concrete", [](DInst &d, std::vector<Val> &a) { ret(d, VC(conc(a[0]))); });
  B("vh_heap_live", [](DInst &d, std::vector<Val> &a) { ret(d, VC(cur->heap)); });
  B("vh_heap_bytes", [](DInst &d, std::vector<Val> &a) { ret(d, VC(cur->heapBytes)); });
  B("vh_abort_ok", [](DInst &d, std::vector<Val> &a) { cur->abortOk = conc(a[0]); ret(d, VC(0)); });
  B("vh_stop", [](DInst &d, std::vector<Val> &a) { pathDone(*cur); throw EndPath(); });
  B("vh_select", [](DInst &d, std::vector<Val> &a) { E c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32))); ret(d, VE(mkIte(c, toE(a[1], 64), toE(a[2], 64)))); });
  // decimal digit i of v, which the path condition bounds by 10^n: fresh digits whose weighted sum is v (no division)
  B("vh_digit", [](DInst &d, std::vector<Val> &a) { u64 i = conc(a[1]), n = conc(a[2]); E v = toE(a[0], 64); static std::map<std::pair<u32, u64>, std::vector<E>> tab; auto &t = tab[{v->id, n}]; static std::set<std::pair<u32, u64>> own; if (t.empty() && asDigits(v, n, t)) own.insert({v->id, n}); if (own.count({v->id, n})) { ret(d, VE(mkZext(t[i], 64))); return; } t.resize(t.empty() || t[0] ? t.size() : 0);
    if (t.empty()) for (u64 q = 0; q < n; q++) t.push_back(mkVar("digit", 4));
    if (i == 0) { unsigned b = 1; u64 p = 1; for (u64 q = 0; q < n; q++) p *= 10; while (b < 64 && (1ULL << b) < p) b++; u64 val = evalE(v, *cur->model); auto m = std::make_shared<Model>(*cur->model); E sum = mkConst(0, 64);
      for (u64 q = 0; q < n; q++) { (*m)[(u32)t[q]->v] = val % 10; val /= 10; }
      for (u64 q = n; q-- > 0;) { p /= 10; sum = mk(ADD, 64, sum, mk(MUL, 64, mkZext(t[q], 64), mkConst(p, 64))); }
      cur->model = m; for (E q : t) addC(mk(ULE, 1, q, mkConst(9, 4))); E x = v; bool ng = false; while (x->op == SEXT) x = x->k[0]; if (x->op == SUB && isC(x->k[0]) && x->k[0]->v == 0) { ng = true; x = x->k[1]; while (x->op == SEXT) x = x->k[0]; }
      auto eqAt = [&](E y, unsigned q) { E s2 = mkExtract(sum, 0, q); addC(mkEq(mkExtract(y, 0, q), ng ? mk(SUB, q, mkConst(0, q), s2) : s2)); };
      if (x->w >= b + 1u) { eqAt(x, x->w); if (x->w > b + 1u) eqAt(x, b + 1); } else addC(mkEq(v, sum)); }
    ret(d, VE(mkZext(t[i], 64))); });
  B("vh_is_concrete", [](DInst &d, std::vector<Val> &a) { ret(d, VC(!a[0].e)); });
  B("vh_native", [](DInst &d, std::vector<Val> &a) { ret(d, VC(0)); });
  B("vh_fail", [](DInst &d, std::vector<Val> &a) { fail("model", cstr(a[0])); });
  B("vh_unsupported", [](DInst &d, std::vector<Val> &a) { unsupported(cstr(a[0])); });
  B("vh_trace", [](DInst &d, std::vector<Val> &a) { fprintf(stderr, "trace %s %s\n", cstr(a[0]).c_str(), a[1].e ? showE(a[1].e).c_str() : std::to_string((i64)a[1].c).c_str()); ret(d, VC(0)); });
  // ---- allocation
  B("malloc", [](DInst &d, std::vector<Val> &a) { ret(d, heapAlloc(concSize(a[0]), false)); });
  B("calloc", [](DInst &d, std::vector<Val> &a) { ret(d, heapAlloc(concSize(a[0]) * concSize(a[1]), true)); });
  B("free", [](DInst &d, std::vector<Val> &a) { heapFree(a[0], 0); ret(d, VC(0)); });
  B("realloc", [](DInst &d, std::vector<Val> &a) { u64 p = conc(a[0]), n = concSize(a[1]); if (!p) { ret(d, heapAlloc(n, false)); return; }
    int i = cur->mem.find(p); if (i < 0 || cur->mem.v[i].second->base != p || cur->mem.v[i].second->kind != HEAP || cur->mem.v[i].second->freed) fail("memory", "realloc of an address that is not a live heap block");
    u64 old = cur->mem.v[i].second->size; Val q = heapAlloc(n, false); if (q.c) { memCopy(q.c, p, std::min(old, n)); heapFree(VC(p), 0); } ret(d, q); });
  auto nw = [](u8 org) { return [org](DInst &d, std::vector<Val> &a) { Val p = heapAlloc(concSize(a[0]), false); if (!p.c) fail("throw", "operator new of an unreasonable size"); cur->mem.w(cur->mem.find(p.c)).origin = org; ret(d, p); }; };
  B("_Znwm", nw(1)); B("_Znam", nw(2)); B("_ZnwmRKSt9nothrow_t", nw(1));
  auto dl = [](u8 org) { return [org](DInst &d, std::vector<Val> &a) { heapFree(a[0], org); ret(d, VC(0)); }; };
  B("_ZdlPv", dl(1)); B("_ZdlPvm", dl(1)); B("_ZdaPv", dl(2)); B("_ZdaPvm", dl(2));
  // ---- termination
  B("abort", [](DInst &d, std::vector<Val> &a) { if (cur->abortOk) throw EndPath(); fail("abort", "abort() called"); });
  B("__assert_fail", [](DInst &d, std::vector<Val> &a) { if (cur->abortOk) throw EndPath(); fail("abort", "program assertion failed: " + cstr(a[0])); });
  B("exit", [](DInst &d, std::vector<Val> &a) { fail("abort", "exit() called"); });
  B("_exit", builtins["exit"]);
  // ---- threads of the harness: a switch exchanges call stacks
  B("vh_co_init", [](DInst &d, std::vector<Val> &a) { ret(d, VC(0)); });
  B("vh_co_new", [](DInst &d, std::vector<Val> &a) { auto it = fnByAddr.find(conc(a[1])); if (it == fnByAddr.end()) unsupported("thread function"); std::vector<Frame> keep; keep.swap(cur->st); pushCall(it->second, {a[2]}, nullptr, d); auto c = std::make_shared<State::Co>(); c->st.swap(cur->st); cur->st.swap(keep); cur->co[conc(a[0])] = c; ret(d, VC(0)); });
  B("vh_co_to", [](DInst &d, std::vector<Val> &a) { u64 id = conc(a[0]); if (id == cur->coCur) { ret(d, VC(0)); return; } auto it = cur->co.find(id); if (it == cur->co.end()) unsupported("switch to an unknown thread"); ret(d, VC(0));
    auto n = it->second; auto c = std::make_shared<State::Co>(); c->st = std::move(cur->st); c->caught = std::move(cur->caught); cur->co.erase(it); cur->co[cur->coCur] = c; cur->st = n->st; cur->caught = n->caught; cur->coCur = id; });
  // ---- exceptions
  B("__cxa_allocate_exception", [](DInst &d, std::vector<Val> &a) { auto o = cur->mem.alloc(conc(a[0]), GLOBAL, "exception", false); ret(d, VC(o->base)); });
  B("__cxa_throw", [](DInst &d, std::vector<Val> &a) { cur->excObj = conc(a[0]); cur->excType = conc(a[1]); cur->excTypes[cur->excObj] = cur->excType; unwind(); });
  B("__cxa_begin_catch", [](DInst &d, std::vector<Val> &a) { cur->caught.push_back(conc(a[0])); ret(d, a[0]); });
  B("__cxa_end_catch", [](DInst &d, std::vector<Val> &a) { if (!cur->caught.empty()) cur->caught.pop_back(); ret(d, VC(0)); });
  B("__cxa_free_exception", [](DInst &d, std::vector<Val> &a) { ret(d, VC(0)); });
  B("__cxa_rethrow", [](DInst &d, std::vector<Val> &a) { if (!cur->caught.empty()) { cur->excObj = cur->caught.back(); cur->excType = cur->excTypes[cur->excObj]; } unwind(); });
  B("_ZSt9terminatev", [](DInst &d, std::vector<Val> &a) { fail("abort", "std::terminate"); });
  auto thr = [](DInst &d, std::vector<Val> &a) { cur->excType = 0; cur->excObj = 0; unwind(); };
  for (const char *n : {"_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt25__throw_bad_function_callv", "_ZSt16__throw_bad_castv", "_ZSt21__throw_runtime_errorPKc", "_ZSt20__throw_system_errori"}) B(n, thr);
  auto nop = [](DInst &d, std::vector<Val> &a) { ret(d, VC(0)); };
  for (const char *n : {"__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_pure_virtual", "__cxa_guard_release", "__cxa_guard_abort"}) B(n, nop);
  B("__cxa_guard_acquire", [](DInst &d, std::vector<Val> &a) { Val g = loadBytes(a[0], 1); if (conc(g)) { ret(d, VC(0)); return; } storeBytes(a[0], VC(1), 1, 8); ret(d, VC(1)); });
  // ---- math
  auto fr = [&](const char *n, unsigned w, u64 m) { B(n, [w, m](DInst &d, std::vector<Val> &a) { ret(d, frnd(a[0], w, m)); }); };
  fr("floor", 64, 0); fr("floorf", 32, 0); fr("ceil", 64, 1); fr("ceilf", 32, 1); fr("trunc", 64, 2); fr("truncf", 32, 2); fr("round", 64, 3); fr("roundf", 32, 3); fr("rint", 64, 4); fr("rintf", 32, 4); fr("nearbyint", 64, 4);
  B("fabs", [](DInst &d, std::vector<Val> &a) { ret(d, fabsV(a[0], 64)); }); B("fabsf", [](DInst &d, std::vector<Val> &a) { ret(d, fabsV(a[0], 32)); });
  B("sqrt", [](DInst &d, std::vector<Val> &a) { ret(d, VE(mk(FSQRT, 64, toE(a[0], 64)))); }); B("sqrtf", [](DInst &d, std::vector<Val> &a) { ret(d, VE(mk(FSQRT, 32, toE(a[0], 32)))); });
  auto fmm = [&](const char *n, unsigned w, bool mx) { B(n, [w, mx](DInst &d, std::vector<Val> &a) { E x = toE(a[0], w), y = toE(a[1], w); E nx = mk(FUNO, 1, x, x), ny = mk(FUNO, 1, y, y); E lt = mx ? mk(FLT, 1, x, y) : mk(FLT, 1, y, x); ret(d, VE(mkIte(nx, y, mkIte(ny, x, mkIte(lt, y, x))))); }); };
  fmm("fmax", 64, true); fmm("fmaxf", 32, true); fmm("fmin", 64, false); fmm("fminf", 32, false);
  B("__isnan", [](DInst &d, std::vector<Val> &a) { E x = toE(a[0], 64); ret(d, VE(mkZext(mk(FUNO, 1, x, x), 32))); }); B("isnan", builtins["__isnan"]);
  B("__isnanf", [](DInst &d, std::vector<Val> &a) { E x = toE(a[0], 32); ret(d, VE(mkZext(mk(FUNO, 1, x, x), 32))); });
  // host helpers on concrete data
  B("vh_host_strtod", [](DInst &d, std::vector<Val> &a) { std::string s = cstr(a[0]); char *e; double v = strtod(s.c_str(), &e); u64 n = e - s.c_str(); storeBytes(a[1], VC(n), 8, 64); ret(d, VC(d2b(v))); });
  B("vh_host_fmt", [](DInst &d, std::vector<Val> &a) { // (buf, cap, fmt, double) on concrete values
    std::string f = cstr(a[2]); char b[512]; int n = snprintf(b, sizeof b, f.c_str(), b2d(conc(a[3]))); u64 cap = conc(a[1]), p = conc(a[0]); for (u64 i = 0; i <= (u64)n && i < cap; i++) storeBytes(VC(p + i), VC((u8)b[i]), 1, 8); ret(d, VC((u32)n)); });
}

static bool intrinsic(DInst &d, const CallBase *cb, std::vector<Val> &a) {
  Function *F = d.callee; if (!F || !F->isIntrinsic()) return false;
  unsigned w = d.w; auto R = [&](const Val &v) { finishCall(d, v); return true; };
  switch (F->getIntrinsicID()) {
  case Intrinsic::memcpy: case Intrinsic::memmove: { u64 n = concSize(a[2]); u64 x = conc(a[0]), y = conc(a[1]); if (n) memCopy(x, y, n); return R(VC(0)); }
  case Intrinsic::memset: { u64 n = concSize(a[2]); u64 x = conc(a[0]); if (n) { Ref r = resolve(VC(x), n, true); Obj &o = cur->mem.w(r.idx); E v = toE(a[1], 8); for (u64 i = 0; i < n; i++) setByte(o, r.off + i, v); } return R(VC(0)); }
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::prefetch: return R(VC(0));
  case Intrinsic::stacksave: return R(VC(0));
  case Intrinsic::expect: case Intrinsic::ssa_copy: return R(a[0]);
  case Intrinsic::trap: case Intrinsic::ubsantrap: fail("ub", "undefined behaviour trap");
  case Intrinsic::vastart: {
    Frame &f = cur->st.back(); u64 p = conc(a[0]); u64 n = f.va.size();
    auto o = cur->mem.alloc(n * 8 + 8, STACK, "varargs", false); u64 b = o->base; f.allocas.push_back(b);
    for (u64 i = 0; i < n; i++) { Val v = f.va[i]; if (v.e && v.e->w < 64) v = VE(mkZext(v.e, 64)); storeBytes(VC(b + 8 * i), v, 8, 64); }
    storeBytes(VC(p), VC(48), 4, 32); storeBytes(VC(p + 4), VC(176), 4, 32); storeBytes(VC(p + 8), VC(b), 8, 64); storeBytes(VC(p + 16), VC(0), 8, 64);
    return R(VC(0)); }
  case Intrinsic::vaend: return R(VC(0));
  case Intrinsic::vacopy: { u64 x = conc(a[0]), y = conc(a[1]); memCopy(x, y, 24); return R(VC(0)); }
  case Intrinsic::fabs: if (w) return R(fabsV(a[0], w)); break;
  case Intrinsic::floor: return R(frnd(a[0], w, 0)); case Intrinsic::ceil: return R(frnd(a[0], w, 1)); case Intrinsic::trunc: return R(frnd(a[0], w, 2)); case Intrinsic::round: return R(frnd(a[0], w, 3)); case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return R(frnd(a[0], w, 4));
  case Intrinsic::sqrt: return R(VE(mk(FSQRT, w, toE(a[0], w))));
  case Intrinsic::fmuladd: { Val m = bin(FMUL, w, a[0], a[1]); return R(bin(FADD, w, m, a[2])); }
  case Intrinsic::smax: { E x = toE(a[0], w), y = toE(a[1], w); return R(VE(mkIte(mk(SLT, 1, x, y), y, x))); }
  case Intrinsic::smin: { E x = toE(a[0], w), y = toE(a[1], w); return R(VE(mkIte(mk(SLT, 1, x, y), x, y))); }
  case Intrinsic::umax: { E x = toE(a[0], w), y = toE(a[1], w); return R(VE(mkIte(mk(ULT, 1, x, y), y, x))); }
  case Intrinsic::umin: { E x = toE(a[0], w), y = toE(a[1], w); return R(VE(mkIte(mk(ULT, 1, x, y), x, y))); }
  case Intrinsic::abs: { E x = toE(a[0], w); return R(VE(mkIte(mk(SLT, 1, x, mkConst(0, w)), mk(SUB, w, mkConst(0, w), x), x))); }
  case Intrinsic::maxnum: { E x = toE(a[0], w), y = toE(a[1], w); return R(VE(mkIte(mk(FUNO, 1, x, x), y, mkIte(mk(FLT, 1, x, y), y, x)))); }
  case Intrinsic::minnum: { E x = toE(a[0], w), y = toE(a[1], w); return R(VE(mkIte(mk(FUNO, 1, x, x), y, mkIte(mk(FLT, 1, y, x), y, x)))); }
  case Intrinsic::is_fpclass: { unsigned fw = d.o[0].w; u64 t = conc(a[1]); E x = toE(a[0], fw); E ab = mk(AND, fw, x, mkConst(mask(fw - 1), fw)); E inf = mkEq(ab, mkConst(fw == 32 ? 0x7f800000ULL : 0x7ff0000000000000ULL, fw)); E nan = mk(FUNO, 1, x, x);
    if (t == 3) return R(VE(nan)); if (t == 516) return R(VE(inf)); if (t == 504) return R(VE(mkNot(mkOr(inf, nan)))); break; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
    auto id = F->getIntrinsicID(); unsigned kw = d.o[0].w; E x = toE(a[0], kw), y = toE(a[1], kw);
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    Op op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? ADD : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? SUB : MUL;
    E r = mk(op, kw, x, y), ov;
    if (op == ADD) ov = sg ? mkAnd(mkEq(mkExtract(x, kw - 1, 1), mkExtract(y, kw - 1, 1)), mkNot(mkEq(mkExtract(x, kw - 1, 1), mkExtract(r, kw - 1, 1)))) : mk(ULT, 1, r, x);
    else if (op == SUB) ov = sg ? mkAnd(mkNot(mkEq(mkExtract(x, kw - 1, 1), mkExtract(y, kw - 1, 1))), mkNot(mkEq(mkExtract(x, kw - 1, 1), mkExtract(r, kw - 1, 1)))) : mk(ULT, 1, x, y);
    else if (kw <= 32) { E X = sg ? mkSext(x, 2 * kw) : mkZext(x, 2 * kw), Y = sg ? mkSext(y, 2 * kw) : mkZext(y, 2 * kw); E P = mk(MUL, 2 * kw, X, Y); ov = mkNot(mkEq(P, sg ? mkSext(r, 2 * kw) : mkZext(r, 2 * kw))); }
    else if (isC(x) && isC(y)) { i64 q; u64 uq; ov = mkBool(sg ? __builtin_mul_overflow((i64)x->v, (i64)y->v, &q) : __builtin_mul_overflow(x->v, y->v, &uq)); }
    else { if (!isC(y)) std::swap(x, y); if (!isC(y)) unsupported("64-bit multiplication overflow of two symbolic values"); if (y->v == 0) ov = mkBool(0); else if (sg) { i64 k = (i64)y->v; if (k < 0) unsupported("overflow check"); ov = mkOr(mk(SLT, 1, mkConst((u64)(INT64_MAX / k), 64), x), mk(SLT, 1, x, mkConst((u64)(INT64_MIN / k), 64))); } else ov = mk(ULT, 1, mkConst(~0ULL / y->v, 64), x); }
    Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(VE(r)); v.agg->push_back(VE(ov)); return R(v); }
  case Intrinsic::eh_typeid_for: return R(VC(gaddr.count(cast<GlobalValue>(cb->getArgOperand(0)->stripPointerCasts())) ? gaddr[cast<GlobalValue>(cb->getArgOperand(0)->stripPointerCasts())] & 0x7fffffff : 1));
  case Intrinsic::ctpop: { E x = toE(a[0], w), r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mk(ADD, w, r, mkZext(mkExtract(x, i, 1), w)); return R(VE(r)); }
  case Intrinsic::is_constant: return R(VC(0));
  case Intrinsic::objectsize: return R(VC(mask(w)));
  case Intrinsic::fshl: { if (!a[2].e) { unsigned s = a[2].c % w; Val l = bin(SHL, w, a[0], VC(s)), r = s ? bin(LSHR, w, a[1], VC(w - s)) : VC(0); return R(s ? bin(OR, w, l, r) : a[0]); } break; }
  case Intrinsic::bswap: { E x = toE(a[0], w), r = mkExtract(x, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(x, 8 * i, 8)); return R(VE(r)); }
  default: break;
  }
  unsupported("intrinsic " + F->getName().str());
}

static void doCall(DInst &d) {
  Frame &f = cur->st.back(); auto *cb = cast<CallBase>(d.I);
  std::vector<Val> a; a.reserve(d.o.size()); for (size_t i = 0; i + 1 < d.o.size(); i++) a.push_back(get(f, d.o[i]));
  Function *F = d.callee;
  if (cb->isInlineAsm()) { finishCall(d, VC(0)); return; }
  if (!F) { Val t = get(f, d.o.back()); u64 p = conc(t); auto it = fnByAddr.find(p); if (it == fnByAddr.end()) fail("memory", p ? "call through an invalid function pointer" : "call through a null pointer"); F = it->second; }
  if (F->isIntrinsic()) { intrinsic(d, cb, a); return; }
  if (!F->isDeclaration()) {
    for (size_t i = 0; i < a.size(); i++) if (a[i].e && a[i].e->w != d.o[i].w && d.o[i].w) a[i] = VE(d.o[i].w > a[i].e->w ? mkZext(a[i].e, d.o[i].w) : mkExtract(a[i].e, 0, d.o[i].w));
    pushCall(F, std::move(a), cb, d); return; }
  std::string n = F->getName().str();
  auto it = builtins.find(n);
  if (it != builtins.end()) { modelCalls.insert(n); it->second(d, a); return; }
  if (n.compare(0, 15, "__ubsan_handle_") == 0) { fail("ub", n.substr(15)); }
  unsupported("external function " + n);
}

/* is the type of an exception the type g or derived from it? (single inheritance; the C++ library's own types by name) */
static bool isA(u64 type, GlobalValue *g) {
  static std::map<u64, GlobalVariable *> at; if (at.empty()) for (auto &v : M->globals()) if (v.getName().startswith("_ZTI")) at[gaddr[&v]] = &v;
  static const std::map<std::string, std::string> lib = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
  if (type == gaddr[g]) return true; auto it = at.find(type); if (it == at.end()) return false; GlobalVariable *v = it->second; std::string n = v->getName().str();
  for (int k = 0; k < 20; k++) {
    if (v && v->hasInitializer()) { auto *c = dyn_cast<ConstantStruct>(v->getInitializer()); if (!c || c->getNumOperands() != 3) return false; v = dyn_cast<GlobalVariable>(c->getOperand(2)->stripPointerCasts()); if (!v) return false; n = v->getName().str(); }
    else { auto l = lib.find(n); if (l == lib.end()) return false; n = l->second; v = M->getNamedGlobal(n); }
    if (n == g->getName()) return true; }
  return false; }
static void step() {
  State &s = *cur; Frame &f = s.st.back(); DInst &d = f.fn->b[f.blk].in[f.idx];
  s.steps++; nSteps++;
  unsigned w = d.w;
  switch (d.op) {
  case Instruction::Ret: doRet(d.o.empty() ? VC(0) : get(f, d.o[0])); return;
  case Instruction::Br:
    if (d.o.empty()) { enterBlock(f, d.t0); return; }
    { Val c = get(f, d.o[0]); bool b; if (c.e) { chkUndef(c.e, "a branch condition"); b = branch(c.e); } else b = c.c; enterBlock(cur->st.back(), b ? d.t0 : d.t1); return; }
  case Instruction::Switch: {
    Val c = get(f, d.o[0]);
    if (!c.e) { for (auto &x : d.gidx) if (x.second == c.c) { enterBlock(f, x.first); return; } enterBlock(f, d.t0); return; }
    chkUndef(c.e, "a switch condition");
    for (auto &x : d.gidx) if (branch(mkEq(c.e, mkConst(x.second, d.w2)))) { enterBlock(cur->st.back(), x.first); return; }
    enterBlock(cur->st.back(), d.t0); return; }
  case Instruction::Unreachable: fail("abort", "unreachable code reached");
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    Val a = get(f, d.o[0]), b = get(f, d.o[1]); Op op = binop(d.op);
    if (a.agg) { auto *vt = cast<FixedVectorType>(d.ty); unsigned ew = widthT(vt->getElementType()); f.r[d.dst] = elementwise(a, b, vt->getNumElements(), [&](const Val &x, const Val &y) { return bin(op, ew, x, y); }); f.idx++; return; }
    if (w > 64) unsupported("wide arithmetic");
    if (op == UDIV || op == SDIV || op == UREM || op == SREM) { E z = mkEq(toE(b, w), mkConst(0, w)); if (branch(z)) fail("ub", "integer division by zero"); }
    cur->st.back().r[d.dst] = bin(op, w, a, b); cur->st.back().idx++; return; }
  case Instruction::FRem: { Val a = get(f, d.o[0]), b = get(f, d.o[1]); u64 x = conc(a), y = conc(b); cur->st.back().r[d.dst] = VC(w == 32 ? f2b(fmodf(b2f(x), b2f(y))) : d2b(fmod(b2d(x), b2d(y)))); cur->st.back().idx++; return; }
  case Instruction::FNeg: { Val a = get(f, d.o[0]); if (a.agg) { auto *vt = cast<FixedVectorType>(d.ty); unsigned ew = widthT(vt->getElementType()); f.r[d.dst] = elementwise(a, a, vt->getNumElements(), [&](const Val &x, const Val &) { return bin(XOR, ew, x, VC(1ULL << (ew - 1))); }); } else f.r[d.dst] = bin(XOR, w, a, VC(1ULL << (w - 1))); f.idx++; return; }
  case Instruction::ICmp: { Val a = get(f, d.o[0]), b = get(f, d.o[1]); auto p = cast<ICmpInst>(d.I)->getPredicate();
    if (a.agg) unsupported("vector compare");
    unsigned kw = d.o[0].w; if (kw > 64 || !kw) unsupported("wide compare");
    f.r[d.dst] = VE(icmp(p, toE(a, kw), toE(b, kw))); f.idx++; return; }
  case Instruction::FCmp: { Val a = get(f, d.o[0]), b = get(f, d.o[1]); unsigned kw = d.o[0].w; if (kw > 64 || a.agg) unsupported("wide fcmp"); f.r[d.dst] = VE(fcmp(cast<FCmpInst>(d.I)->getPredicate(), toE(a, kw), toE(b, kw))); f.idx++; return; }
  case Instruction::Select: { Val c = get(f, d.o[0]), a = get(f, d.o[1]), b = get(f, d.o[2]);
    if (!c.e) { f.r[d.dst] = c.c ? a : b; f.idx++; return; }
    if (a.agg || b.agg) { bool t = branch(c.e); cur->st.back().r[d.dst] = t ? a : b; cur->st.back().idx++; return; }
    f.r[d.dst] = VE(mkIte(c.e, toE(a, w), toE(b, w))); f.idx++; return; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
    Val a = get(f, d.o[0]); unsigned kw = d.o[0].w; if (kw > 64 || w > 64 || a.agg) unsupported("wide integer conversion");
    if (!a.e) f.r[d.dst] = VC(d.op == Instruction::SExt ? (u64)sx(a.c, kw) & mask(w) : a.c & mask(w));
    else f.r[d.dst] = VE(d.op == Instruction::SExt ? mkSext(a.e, w) : w > kw ? mkZext(a.e, w) : mkExtract(a.e, 0, w));
    f.idx++; return; }
  case Instruction::BitCast: { Val a = get(f, d.o[0]);
    if (a.agg && w) { unsigned ew = w / (unsigned)a.agg->size(); E r = toE((*a.agg)[0], ew); for (size_t i = 1; i < a.agg->size(); i++) r = mkConcat(toE((*a.agg)[i], ew), r); f.r[d.dst] = VE(r); }
    else if (!a.agg && d.ty->isVectorTy()) { auto *vt = cast<FixedVectorType>(d.ty); unsigned ew = widthT(vt->getElementType()), kw = d.o[0].w; Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(VE(mkExtract(toE(a, kw), i * ew, ew))); f.r[d.dst] = r; }
    else f.r[d.dst] = a; f.idx++; return; }
  case Instruction::FPExt: case Instruction::FPTrunc: { Val a = get(f, d.o[0]); unsigned kw = d.o[0].w; if (kw > 64 || w > 64 || a.agg) unsupported("long double"); f.r[d.dst] = VE(mk(FPCVT, w, toE(a, kw))); f.idx++; return; }
  case Instruction::FPToSI: case Instruction::FPToUI: { Val a = get(f, d.o[0]); unsigned kw = d.o[0].w; if (kw > 64 || w > 64 || a.agg) unsupported("long double"); E x = toE(a, kw), r; // as the x86-64 code does
    if (d.op == Instruction::FPToSI) r = w < 32 ? mkExtract(mk(FTOSI, 32, x), 0, w) : mk(FTOSI, w, x);
    else if (w < 64) r = mkExtract(mk(FTOSI, w < 32 ? 32 : 64, x), 0, w);
    else { E lim = kw == 32 ? mkConst(f2b(9223372036854775808.0f), 32) : mkConst(d2b(9223372036854775808.0), 64); r = mkIte(mk(FLT, 1, x, lim), mk(FTOSI, 64, x), mk(XOR, 64, mk(FTOSI, 64, mk(FSUB, kw, x, lim)), mkConst(1ULL << 63, 64))); }
    f.r[d.dst] = VE(r); f.idx++; return; }
  case Instruction::SIToFP: case Instruction::UIToFP: { Val a = get(f, d.o[0]); unsigned kw = d.o[0].w; if (w > 64 || a.agg) unsupported("long double"); f.r[d.dst] = VE(mk(d.op == Instruction::SIToFP ? SITOF : UITOF, w, toE(a, kw))); f.idx++; return; }
  case Instruction::Alloca: { u64 n = conc(get(f, d.o[0])); auto o = cur->mem.alloc(d.sz * n, STACK, "", false); o->name = d.I->hasName() ? d.I->getName().str() : "local"; Frame &g = cur->st.back(); g.allocas.push_back(o->base); g.r[d.dst] = VC(o->base); g.idx++; return; }
  case Instruction::Load: { Val p = get(f, d.o[0]); Val v = loadT(p, d.ty); Frame &g = cur->st.back(); g.r[d.dst] = v; g.idx++; return; }
  case Instruction::Store: { Val v = get(f, d.o[0]), p = get(f, d.o[1]); storeT(p, v, d.ty); cur->st.back().idx++; return; }
  case Instruction::GetElementPtr: {
    if (d.bi == -1) unsupported("vector gep");
    Val p = get(f, d.o[0]); u64 off = (u64)d.goff; E se = nullptr;
    for (auto &g : d.gidx) { const Opnd &o = d.o[g.first]; Val x = get(f, o); if (!x.e) off += (u64)sx(x.c, o.w) * g.second; else { E t = mk(MUL, 64, mkSext(x.e, 64), mkConst(g.second, 64)); se = se ? mk(ADD, 64, se, t) : t; } }
    if (!se) { if (!p.e) f.r[d.dst] = VC(p.c + off); else f.r[d.dst] = VE(mk(ADD, 64, p.e, mkConst(off, 64))); }
    else { E b = p.e ? mk(ADD, 64, p.e, mkConst(off, 64)) : mkConst(p.c + off, 64); f.r[d.dst] = VE(mk(ADD, 64, se, b)); }
    f.idx++; return; }
  case Instruction::Call: case Instruction::Invoke: doCall(d); return;
  case Instruction::ExtractValue: { Val a = get(f, d.o[0]); for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { if (!a.agg) { a = VC(0); break; } Val t = (*a.agg)[i]; a = t; } f.r[d.dst] = a; f.idx++; return; }
  case Instruction::InsertValue: { Val a = get(f, d.o[0]), b = get(f, d.o[1]); auto *iv = cast<InsertValueInst>(d.I); std::vector<unsigned> ix(iv->idx_begin(), iv->idx_end());
    if (!a.agg) a = zeroT(d.ty);
    std::function<Val(const Val &, size_t)> ins = [&](const Val &x, size_t k) -> Val { if (k == ix.size()) return b; Val r; r.agg = std::make_shared<std::vector<Val>>(*x.agg); (*r.agg)[ix[k]] = ins((*x.agg)[ix[k]], k + 1); return r; };
    f.r[d.dst] = ins(a, 0); f.idx++; return; }
  case Instruction::ExtractElement: { Val a = get(f, d.o[0]); u64 i = conc(get(f, d.o[1])); cur->st.back().r[d.dst] = a.agg ? (*a.agg).at(i) : VC(0); cur->st.back().idx++; return; }
  case Instruction::InsertElement: { Val a = get(f, d.o[0]), b = get(f, d.o[1]); u64 i = conc(get(f, d.o[2])); if (!a.agg) a = zeroT(d.ty); Val r; r.agg = std::make_shared<std::vector<Val>>(*a.agg); (*r.agg).at(i) = b; cur->st.back().r[d.dst] = r; cur->st.back().idx++; return; }
  case Instruction::ShuffleVector: { Val a = get(f, d.o[0]), b = get(f, d.o[1]); auto *sv = cast<ShuffleVectorInst>(d.I); unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); if (!a.agg) a = zeroT(sv->getOperand(0)->getType()); if (!b.agg) b = zeroT(sv->getOperand(0)->getType()); Val r; r.agg = std::make_shared<std::vector<Val>>(); for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? VC(0) : (unsigned)m < n ? (*a.agg)[m] : (*b.agg)[m - n]); f.r[d.dst] = r; f.idx++; return; }
  case Instruction::Freeze: f.r[d.dst] = get(f, d.o[0]); f.idx++; return;
  case Instruction::LandingPad: {
    auto *lp = cast<LandingPadInst>(d.I); u64 sel = 0; bool ok = lp->isCleanup();
    for (unsigned i = 0; i < lp->getNumClauses() && !sel; i++) if (lp->isCatch(i)) { auto *t = lp->getClause(i)->stripPointerCasts(); if (isa<ConstantPointerNull>(t)) { sel = 1; ok = true; } else if (auto *g = dyn_cast<GlobalValue>(t)) { if (isA(cur->excType, g)) { sel = gaddr[g] & 0x7fffffff; ok = true; } } }
    if (!ok) { cur->st.back().idx = 0; // not handled here: continue unwinding in the caller
      for (u64 b : f.allocas) s.mem.erase(b); if (s.st.size() == 1) fail("throw", "uncaught exception"); s.st.pop_back(); unwind(); return; }
    Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(VC(cur->excObj)); v.agg->push_back(VC(sel)); f.r[d.dst] = v; f.idx++; return; }
  case Instruction::Resume: { Val x = d.o.empty() ? Val() : get(f, d.o[0]); if (x.agg && !x.agg->empty()) { cur->excObj = conc((*x.agg)[0]); cur->excType = cur->excTypes[cur->excObj]; } }
    for (u64 b : f.allocas) s.mem.erase(b); if (s.st.size() == 1) fail("throw", "uncaught exception"); s.st.pop_back(); unwind(); return;
  case Instruction::AtomicRMW: { auto *rm = cast<AtomicRMWInst>(d.I); Val p = get(f, d.o[0]), v = get(f, d.o[1]); Val o = loadT(p, d.ty); Val n; switch (rm->getOperation()) { case AtomicRMWInst::Add: n = bin(ADD, w, o, v); break; case AtomicRMWInst::Sub: n = bin(SUB, w, o, v); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::And: n = bin(AND, w, o, v); break; case AtomicRMWInst::Or: n = bin(OR, w, o, v); break; default: unsupported("atomicrmw"); } storeT(p, n, d.ty); cur->st.back().r[d.dst] = o; cur->st.back().idx++; return; }
  case Instruction::AtomicCmpXchg: { Val p = get(f, d.o[0]), c = get(f, d.o[1]), n = get(f, d.o[2]); unsigned kw = d.o[1].w; Val o = loadT(p, d.I->getOperand(1)->getType()); E eq = mkEq(toE(o, kw), toE(c, kw)); bool b = branch(eq); if (b) storeT(p, n, d.I->getOperand(1)->getType()); Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(o); r.agg->push_back(VC(b)); cur->st.back().r[d.dst] = r; cur->st.back().idx++; return; }
  case Instruction::Fence: f.idx++; return;
  default: unsupported(std::string("instruction ") + d.I->getOpcodeName());
  }
}

static void initGlobals(State &s) {
  for (auto &F : *M) { auto o = s.mem.alloc(1, FUNC, F.getName().str(), true); gaddr[&F] = o->base; fnByAddr[o->base] = &F; }
  for (auto &g : M->globals()) { u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8; if (g.isDeclaration()) sz = std::max<u64>(sz, 256); auto o = s.mem.alloc(sz, GLOBAL, g.getName().str(), true); gaddr[&g] = o->base; }
  cur.reset(&s);
  for (auto &g : M->globals()) if (g.hasInitializer()) { Val v = constVal(g.getInitializer()); storeT(VC(gaddr[&g]), v, g.getValueType()); }
  for (auto &g : M->globals()) if (g.hasInitializer() && g.isConstant()) s.mem.w(s.mem.find(gaddr[&g])).ro = true;
  cur.release();
}
static std::string js(const std::string &s) { std::string o = "\""; for (char ch : s) { unsigned char c = (unsigned char)ch; if (c == '"' || c == '\\') { o += '\\'; o += ch; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += ch; } return o + "\""; }

int main(int argc, char **argv) {
  std::string bc, out, entry = "vh_main";
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--out") out = nx(); else if (a == "--entry") entry = nx(); else if (a == "--max-time") maxTime = atof(nx().c_str()); else if (a == "--max-steps") maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--max-paths") maxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--solver-timeout") zto = atoi(nx().c_str()); else if (a == "--witness") maxWit = atoi(nx().c_str()); else if (a == "--seed") witSeed = strtoull(nx().c_str(), 0, 10); else if (a == "--max-errors") maxErr = atoi(nx().c_str()); else if (a == "--param") { std::string p = nx(); auto e = p.find('='); params[p.substr(0, e)] = atol(p.c_str() + e + 1); } else bc = a; }
  LLVMContext ctx; C = &ctx; SMDiagnostic diag; auto mod = parseIRFile(bc, diag, ctx);
  if (!mod) { diag.print("symx", llvm::errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout(); t0 = Clk::now(); setupBuiltins();
  State *s0 = new State(); initGlobals(*s0);
  Function *ef = M->getFunction(entry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  // entry frame, preceded by global constructors
  { Fn *fn = getFn(ef); fn->calls++; Frame f; f.fn = fn; f.r.resize(fn->nslots); s0->st.push_back(f); fn->b[0].hits++; }
  std::vector<std::pair<u32, Function *>> ctors;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(u32)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  cur.reset(s0); bool ctorFail = false;
  for (auto &c : ctors) { // run to completion on the single initial state
    SP saved = std::make_unique<State>(*cur); std::vector<Frame> keep = cur->st; cur->st.clear(); Fn *fn = getFn(c.second); Frame f; f.fn = fn; f.r.resize(fn->nslots); cur->st.push_back(f);
    try { while (true) { if (cur->st.size() == 1) { auto &fr = cur->st.back(); if (fr.fn->b[fr.blk].in[fr.idx].op == Instruction::Ret) break; } step(); } } catch (EndPath &) { ctorFail = true; cur = std::move(saved); continue; }
    for (u64 b : cur->st.back().allocas) cur->mem.erase(b); cur->st = keep; }
  if (ctorFail) incompleteWhy["note: a global constructor was skipped"]++;
  cur->heap = 0; cur->heapBytes = 0; cur->steps = 0;
  work.push_back(std::move(cur));
  bool timeout = false; u64 tick = 0;
  while (!work.empty() && !timeout) {
    cur = std::move(work.back()); work.pop_back();
    try {
      while (true) {
        if ((++tick & 1023) == 0 && elapsed() > maxTime) { timeout = true; break; }
        if (cur->steps > maxSteps) { fail("steps", "no termination within " + std::to_string(maxSteps) + " steps"); }
        step();
      }
    } catch (EndPath &) {}
    if (nPaths + nKilled >= maxPaths) { timeout = true; }
    size_t distinct = errCount.size(); if (distinct >= maxErr) { incomplete("stopped after " + std::to_string(maxErr) + " distinct violations"); break; }
  }
  if (timeout) { incomplete("budget exhausted with " + std::to_string(work.size() + 1) + " pending paths"); }
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(o, "{\"complete\": %s, \"paths\": %llu, \"forks\": %llu, \"steps\": %llu, \"asserts\": %llu, \"assert_queries\": %llu, \"mem_checks\": %llu, \"queries\": %llu, \"smt_queries\": %llu, \"domain_decided\": %llu, \"cache_hits\": %llu, \"model_hits\": %llu, \"unknown\": %llu, \"mismatch\": %llu, \"solver_s\": %.3f, \"wall_s\": %.3f,\n",
    nIncomplete ? "false" : "true", (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nSteps, (unsigned long long)nAsserts, (unsigned long long)nAssertsQ, (unsigned long long)nMemChecks, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.z3, (unsigned long long)g_ss.dom, (unsigned long long)g_ss.cached, (unsigned long long)g_ss.model_hits, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.mismatch, g_ss.z3_time, elapsed());
  fprintf(o, "\"incomplete\": {"); bool first = true; for (auto &x : incompleteWhy) { fprintf(o, "%s%s: %llu", first ? "" : ", ", js(x.first).c_str(), (unsigned long long)x.second); first = false; }
  fprintf(o, "},\n\"covers\": ["); first = true; for (auto &c : covers) { fprintf(o, "%s%s", first ? "" : ", ", js(c).c_str()); first = false; }
  fprintf(o, "],\n\"functions\": ["); first = true;
  for (auto &x : fns) if (x.second->calls) { int hit = 0; for (auto &b : x.second->b) hit += b.hits > 0; std::string file; if (auto *sp = x.first->getSubprogram()) file = sp->getFilename().str(); fprintf(o, "%s[%s, %s, %d, %d]", first ? "" : ", ", js(x.first->getName().str()).c_str(), js(file).c_str(), hit, (int)x.second->b.size()); first = false; }
  fprintf(o, "],\n\"witnesses\": ["); first = true;
  for (auto &w : wits) { fprintf(o, "%s[", first ? "" : ",\n"); first = false; bool g = true; for (auto &i : w) { fprintf(o, "%s[%s, %llu]", g ? "" : ", ", js(i.first).c_str(), (unsigned long long)i.second); g = false; } fprintf(o, "]"); }
  fprintf(o, "],\n\"errors\": ["); first = true;
  for (auto &e : gErrs) { fprintf(o, "%s\n{\"kind\": %s, \"msg\": %s, \"loc\": %s, \"stack\": %s, \"inputs\": [", first ? "" : ",", js(e.kind).c_str(), js(e.msg).c_str(), js(e.loc).c_str(), js(e.stack).c_str()); first = false; bool g = true; for (auto &i : e.in) { fprintf(o, "%s[%s, %llu]", g ? "" : ", ", js(i.first).c_str(), (unsigned long long)i.second); g = false; } fprintf(o, "]}"); }
  fprintf(o, "]}\n"); if (o != stdout) fclose(o);
  fflush(nullptr); _Exit(0);
}
