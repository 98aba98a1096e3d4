// Hash-consed bit-vector expressions (width <= 64) with IEEE float operations on bit patterns.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cfenv>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FEQ, FLT, FLE, FUNO, FPCVT, FTOSI, FTOUI, SITOF, UITOF, FSQRT, FRND };

struct Expr {
  Op op; u8 w; bool undef, fp; u32 id; u64 v; const Expr *k[3]; u64 h;
  std::shared_ptr<const std::vector<u32>> sup; // sorted variable ids
};
typedef const Expr *E;

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct EH { size_t operator()(E e) const { return e->h; } };
struct EQ_ { bool operator()(E a, E b) const {
  return a->op == b->op && a->w == b->w && a->v == b->v && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };

extern std::unordered_set<E, EH, EQ_> g_tab;
extern std::vector<E> g_vars;          // by variable id
extern std::vector<std::string> g_varname;
extern u32 g_eid;

static inline float b2f(u64 b) { u32 x = (u32)b; float f; memcpy(&f, &x, 4); return f; }
static inline double b2d(u64 b) { double f; memcpy(&f, &b, 8); return f; }
static inline u64 f2b(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static inline u64 d2b(double f) { u64 x; memcpy(&x, &f, 8); return x; }

// Concrete semantics, shared by constant folding and model evaluation.
static inline u64 opeval(Op op, unsigned w, u64 v, unsigned kw, u64 a, u64 b, u64 c) {
  u64 m = mask(w);
  switch (op) {
  case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
  case UDIV: return b ? (a / b) & m : m; case UREM: return b ? (a % b) & m : a;
  case SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
  case SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
  case SHL: return b >= w ? 0 : (a << b) & m; case LSHR: return b >= w ? 0 : a >> b;
  case ASHR: return b >= w ? (sx(a, w) < 0 ? m : 0) : (u64)(sx(a, w) >> b) & m;
  case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
  case SLT: return sx(a, kw) < sx(b, kw); case SLE: return sx(a, kw) <= sx(b, kw);
  case ITE: return a ? b : c;
  case EXTRACT: return (a >> v) & m; case ZEXT: return a; case SEXT: return (u64)sx(a, kw) & m;
  case FADD: return w == 32 ? f2b(b2f(a) + b2f(b)) : d2b(b2d(a) + b2d(b));
  case FSUB: return w == 32 ? f2b(b2f(a) - b2f(b)) : d2b(b2d(a) - b2d(b));
  case FMUL: return w == 32 ? f2b(b2f(a) * b2f(b)) : d2b(b2d(a) * b2d(b));
  case FDIV: return w == 32 ? f2b(b2f(a) / b2f(b)) : d2b(b2d(a) / b2d(b));
  case FEQ: return kw == 32 ? b2f(a) == b2f(b) : b2d(a) == b2d(b);
  case FLT: return kw == 32 ? b2f(a) < b2f(b) : b2d(a) < b2d(b);
  case FLE: return kw == 32 ? b2f(a) <= b2f(b) : b2d(a) <= b2d(b);
  case FUNO: return kw == 32 ? (b2f(a) != b2f(a) || b2f(b) != b2f(b)) : (b2d(a) != b2d(a) || b2d(b) != b2d(b));
  case FPCVT: return w == 64 ? (kw == 32 ? d2b((double)b2f(a)) : a) : (kw == 64 ? f2b((float)b2d(a)) : a);
  case FTOSI: { double d = trunc(kw == 32 ? (double)b2f(a) : b2d(a)); double lim = ldexp(1.0, (int)w - 1); if (!(d >= -lim && d < lim)) return 1ULL << (w - 1); return (u64)(i64)d & m; }
  case FTOUI: return 0; // never built (lowered to FTOSI)
  case SITOF: return w == 32 ? f2b(ldexpf((float)sx(a, kw), -(int)v)) : d2b(ldexp((double)sx(a, kw), -(int)v)); // v: binary places
  case UITOF: return w == 32 ? f2b((float)a) : d2b((double)a);
  case FSQRT: return w == 32 ? f2b(sqrtf(b2f(a))) : d2b(sqrt(b2d(a)));
  case FRND: { double d = w == 32 ? b2f(a) : b2d(a); double r;
    switch (v) { case 0: r = floor(d); break; case 1: r = ceil(d); break; case 2: r = trunc(d); break; case 3: r = round(d); break; default: r = nearbyint(d); }
    return w == 32 ? f2b((float)r) : d2b(r); }
  default: return 0;
  }
}

E mkConst(u64 v, unsigned w);
E mkVar(const std::string &name, unsigned w, bool undef = false);
E mk(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, u64 v = 0);
static inline bool isC(E e) { return e->op == CONST; }
static inline E mkNot(E a) { return mk(XOR, 1, a, mkConst(1, 1)); }
static inline E mkAnd(E a, E b) { return mk(AND, 1, a, b); }
static inline E mkOr(E a, E b) { return mk(OR, 1, a, b); }
E mkExtract(E e, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E e, unsigned w);
E mkSext(E e, unsigned w);
E mkIte(E c, E a, E b);

typedef std::unordered_map<u32, u64> Model; // variable id -> value (missing: 0)
u64 evalE(E e, const Model &m);
std::string showE(E e, int depth = 6);
E mkBool(bool b);
E rleSelect(const std::vector<u64> &vals, E idx, unsigned w, u64 lo, u64 hi);
E mkEq(E a, E b);
bool asDigits(E v, unsigned n, std::vector<E> &out);
