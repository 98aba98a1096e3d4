#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <map>
SolverStats g_ss;
static z3::context *ctx;
static std::unordered_map<E, z3::expr> *bvc, *fpc;
static std::unordered_map<E, z3::expr> *boolc;

static z3::expr tobv(E e);
static z3::expr tobool(E e);
static z3::sort fsort(unsigned w) { return w == 32 ? ctx->fpa_sort(8, 24) : ctx->fpa_sort(11, 53); }
static z3::expr rne() { return z3::expr(*ctx, Z3_mk_fpa_rne(*ctx)); }
static z3::expr rtz() { return z3::expr(*ctx, Z3_mk_fpa_rtz(*ctx)); }
static z3::expr rm(u64 v) { switch (v) { case 0: return z3::expr(*ctx, Z3_mk_fpa_rtn(*ctx)); case 1: return z3::expr(*ctx, Z3_mk_fpa_rtp(*ctx)); case 2: return rtz(); case 3: return z3::expr(*ctx, Z3_mk_fpa_rna(*ctx)); default: return rne(); } }

static z3::expr tofp(E e) {
  auto it = fpc->find(e); if (it != fpc->end()) return it->second;
  Z3_context c = *ctx;
  z3::expr r(*ctx);
  switch (e->op) {
  case FADD: r = z3::expr(*ctx, Z3_mk_fpa_add(c, rne(), tofp(e->k[0]), tofp(e->k[1]))); break;
  case FSUB: r = z3::expr(*ctx, Z3_mk_fpa_sub(c, rne(), tofp(e->k[0]), tofp(e->k[1]))); break;
  case FMUL: r = z3::expr(*ctx, Z3_mk_fpa_mul(c, rne(), tofp(e->k[0]), tofp(e->k[1]))); break;
  case FDIV: r = z3::expr(*ctx, Z3_mk_fpa_div(c, rne(), tofp(e->k[0]), tofp(e->k[1]))); break;
  case FSQRT: r = z3::expr(*ctx, Z3_mk_fpa_sqrt(c, rne(), tofp(e->k[0]))); break;
  case FRND: r = z3::expr(*ctx, Z3_mk_fpa_round_to_integral(c, rm(e->v), tofp(e->k[0]))); break;
  case FPCVT: r = z3::expr(*ctx, Z3_mk_fpa_to_fp_float(c, rne(), tofp(e->k[0]), fsort(e->w))); break;
  case SITOF: r = z3::expr(*ctx, Z3_mk_fpa_to_fp_signed(c, rne(), tobv(e->k[0]->op == SEXT ? e->k[0]->k[0] : e->k[0]), fsort(e->w)));
    if (e->v) r = z3::expr(*ctx, Z3_mk_fpa_mul(c, rne(), r, z3::expr(*ctx, Z3_mk_fpa_numeral_double(c, ldexp(1.0, -(int)e->v), fsort(e->w))))); break;
  case UITOF: r = z3::expr(*ctx, Z3_mk_fpa_to_fp_unsigned(c, rne(), tobv(e->k[0]), fsort(e->w))); break;
  case ITE: r = z3::ite(tobool(e->k[0]), tofp(e->k[1]), tofp(e->k[2])); break;
  default: r = z3::expr(*ctx, Z3_mk_fpa_to_fp_bv(c, tobv(e), fsort(e->w)));
  }
  ctx->check_error();
  fpc->emplace(e, r); return r;
}
static z3::expr tobool(E e) {
  auto it = boolc->find(e); if (it != boolc->end()) return it->second;
  z3::expr r(*ctx);
  Z3_context c = *ctx;
  switch (e->op) {
  case CONST: r = ctx->bool_val(e->v != 0); break;
  case EQ: r = e->k[0]->w == 1 ? tobool(e->k[0]) == tobool(e->k[1]) : tobv(e->k[0]) == tobv(e->k[1]); break;
  case ULT: r = z3::ult(tobv(e->k[0]), tobv(e->k[1])); break;
  case ULE: r = z3::ule(tobv(e->k[0]), tobv(e->k[1])); break;
  case SLT: r = tobv(e->k[0]) < tobv(e->k[1]); break;
  case SLE: r = tobv(e->k[0]) <= tobv(e->k[1]); break;
  case AND: r = tobool(e->k[0]) && tobool(e->k[1]); break;
  case OR: r = tobool(e->k[0]) || tobool(e->k[1]); break;
  case XOR: r = isC(e->k[1]) ? !tobool(e->k[0]) : tobool(e->k[0]) != tobool(e->k[1]); break;
  case ITE: r = z3::ite(tobool(e->k[0]), tobool(e->k[1]), tobool(e->k[2])); break;
  case FEQ: r = z3::expr(*ctx, Z3_mk_fpa_eq(c, tofp(e->k[0]), tofp(e->k[1]))); break;
  case FLT: r = z3::expr(*ctx, Z3_mk_fpa_lt(c, tofp(e->k[0]), tofp(e->k[1]))); break;
  case FLE: r = z3::expr(*ctx, Z3_mk_fpa_leq(c, tofp(e->k[0]), tofp(e->k[1]))); break;
  case FUNO: r = z3::expr(*ctx, Z3_mk_fpa_is_nan(c, tofp(e->k[0]))) || z3::expr(*ctx, Z3_mk_fpa_is_nan(c, tofp(e->k[1]))); break;
  default: r = tobv(e) == ctx->bv_val(1, 1);
  }
  ctx->check_error();
  boolc->emplace(e, r); return r;
}
static z3::expr tobv(E e) {
  auto it = bvc->find(e); if (it != bvc->end()) return it->second;
  z3::expr r(*ctx);
  Z3_context c = *ctx;
  auto A = [&] { return tobv(e->k[0]); }; auto B = [&] { return tobv(e->k[1]); };
  switch (e->op) {
  case CONST: r = ctx->bv_val((uint64_t)e->v, e->w); break;
  case VAR: r = ctx->bv_const(("v" + std::to_string(e->v)).c_str(), e->w); break;
  case ADD: r = A() + B(); break; case SUB: r = A() - B(); break; case MUL: r = A() * B(); break;
  case UDIV: r = z3::udiv(A(), B()); break; case SDIV: r = A() / B(); break;
  case UREM: r = z3::urem(A(), B()); break; case SREM: r = z3::srem(A(), B()); break;
  case AND: if (e->w == 1) goto viabool; r = A() & B(); break;
  case OR: if (e->w == 1) goto viabool; r = A() | B(); break;
  case XOR: if (e->w == 1) goto viabool; r = A() ^ B(); break;
  case SHL: r = z3::shl(A(), B()); break; case LSHR: r = z3::lshr(A(), B()); break; case ASHR: r = z3::ashr(A(), B()); break;
  case ITE: if (e->w == 1) goto viabool; r = z3::ite(tobool(e->k[0]), B(), tobv(e->k[2])); break;
  case CONCAT: r = z3::concat(A(), B()); break;
  case EXTRACT: r = A().extract((unsigned)e->v + e->w - 1, (unsigned)e->v); break;
  case ZEXT: r = z3::zext(A(), e->w - e->k[0]->w); break;
  case SEXT: r = z3::sext(A(), e->w - e->k[0]->w); break;
  case FTOSI: { // x86 semantics: the indefinite value outside the range
    unsigned kw = e->k[0]->w; double lim = ldexp(1.0, (int)e->w - 1);
    auto fc = [&](double v) { return z3::expr(*ctx, Z3_mk_fpa_numeral_double(c, v, fsort(kw))); };
    z3::expr t(*ctx, Z3_mk_fpa_round_to_integral(c, rtz(), tofp(e->k[0])));
    z3::expr in = z3::expr(*ctx, Z3_mk_fpa_geq(c, t, fc(-lim))) && z3::expr(*ctx, Z3_mk_fpa_lt(c, t, fc(lim)));
    r = z3::ite(in, z3::expr(*ctx, Z3_mk_fpa_to_sbv(c, rtz(), t, e->w)), ctx->bv_val((uint64_t)(1ULL << (e->w - 1)), e->w)); break; }
  case FADD: case FSUB: case FMUL: case FDIV: case FSQRT: case FRND: case FPCVT: case SITOF: case UITOF:
    r = z3::expr(*ctx, Z3_mk_fpa_to_ieee_bv(c, tofp(e))); break;
  default: viabool: r = z3::ite(tobool(e), ctx->bv_val(1, 1), ctx->bv_val(0, 1));
  }
  ctx->check_error();
  bvc->emplace(e, r); return r;
}
static void init() {
  if (!ctx) { ctx = new z3::context(); bvc = new std::unordered_map<E, z3::expr>(); fpc = new std::unordered_map<E, z3::expr>(); boolc = new std::unordered_map<E, z3::expr>(); }
}
Sat z3check(const std::vector<E> &cs, Model *m, unsigned timeout_ms) {
  init();
  bool fp = false; for (E e : cs) fp |= e->fp;
  auto t0 = std::chrono::steady_clock::now();
  g_ss.z3++;
  Sat res = UNKNOWN;
  try {
    static z3::solver *inc = nullptr; static unsigned uses = 0;
    z3::solver *s = nullptr; z3::solver *own = nullptr;
    if (fp) {
      z3::tactic t = z3::tactic(*ctx, "simplify") & z3::tactic(*ctx, "propagate-values") & z3::tactic(*ctx, "fpa2bv") & z3::tactic(*ctx, "simplify") & z3::tactic(*ctx, "solve-eqs") & z3::tactic(*ctx, "bit-blast") & z3::tactic(*ctx, "sat");
      own = s = new z3::solver(t.mk_solver());
    } else {
      if (!inc || ++uses > 400) { delete inc; inc = new z3::solver(*ctx, "QF_BV"); uses = 0; }
      s = inc; s->push();
    }
    z3::params p(*ctx); p.set("timeout", timeout_ms); s->set(p);
    for (E e : cs) s->add(tobool(e));
    z3::check_result r = s->check();
    if (r == z3::sat) {
      res = SAT;
      if (m) {
        z3::model mod = s->get_model();
        std::unordered_set<u32> seen;
        for (E e : cs) for (u32 v : *e->sup) if (seen.insert(v).second) {
          z3::expr x = mod.eval(tobv(g_vars[v]), true);
          uint64_t u = 0; if (x.is_numeral_u64(u)) (*m)[v] = u; else (*m)[v] = 0;
        }
      }
    } else if (r == z3::unsat) res = UNSAT;
    if (own) delete own; else s->pop();
    if (res == SAT && m) for (E e : cs) if (!evalE(e, *m)) { g_ss.mismatch++; if (getenv("SYMX_DEBUG")) fprintf(stderr, "model mismatch: %s\n", showE(e).c_str()); res = UNKNOWN; break; }
  } catch (z3::exception &ex) { fprintf(stderr, "z3: %s\n", ex.msg()); res = UNKNOWN; }
  g_ss.z3_time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  { double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (el > 0.7 && getenv("SYMX_DEBUG")) { fprintf(stderr, "slow %.1f res=%d:\n", el, res); for (E e : cs) fprintf(stderr, "  %s\n", showE(e, 12).c_str()); } }
  if (res == UNKNOWN) { g_ss.unknown++; if (getenv("SYMX_DEBUG")) { fprintf(stderr, "unknown:\n"); for (E e : cs) fprintf(stderr, "  %s\n", showE(e, 12).c_str()); } }
  if (bvc->size() > 400000) { // keep memory bounded
  }
  return res;
}
std::string z3smt2(const std::vector<E> &cs) {
  init(); z3::solver s(*ctx); for (E e : cs) s.add(tobool(e)); return s.to_smt2();
}
const u64 *truthset(E cond, u32 var) {
  static std::unordered_map<E, u64 *> cache;
  auto it = cache.find(cond); if (it != cache.end()) return it->second;
  u64 *t = new u64[4]();
  Model m; unsigned n = 1u << g_vars[var]->w;
  for (unsigned v = 0; v < n; v++) { m[var] = v; if (evalE(cond, m)) t[v / 64] |= 1ULL << (v % 64); }
  cache[cond] = t; return t;
}
