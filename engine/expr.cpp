#include "expr.h"
std::unordered_set<E, EH, EQ_> g_tab;
std::vector<E> g_vars;
std::vector<std::string> g_varname;
u32 g_eid = 0;

static std::shared_ptr<const std::vector<u32>> g_empty = std::make_shared<const std::vector<u32>>();

static E intern(const Expr &x) {
  auto it = g_tab.find(&x);
  if (it != g_tab.end()) return *it;
  Expr *n = new Expr(x);
  n->id = g_eid++;
  if (n->op == CONST) n->sup = g_empty;
  else if (n->op != VAR) {
    std::shared_ptr<const std::vector<u32>> s = g_empty;
    for (int i = 0; i < 3; i++) if (n->k[i]) {
      n->undef |= n->k[i]->undef; n->fp |= n->k[i]->fp;
      auto &t = n->k[i]->sup;
      if (t->empty() || t == s) continue;
      if (s->empty()) { s = t; continue; }
      if (std::includes(s->begin(), s->end(), t->begin(), t->end())) continue;
      if (std::includes(t->begin(), t->end(), s->begin(), s->end())) { s = t; continue; }
      auto u = std::make_shared<std::vector<u32>>();
      std::set_union(s->begin(), s->end(), t->begin(), t->end(), std::back_inserter(*u));
      s = u;
    }
    n->sup = s;
    if (n->op >= FADD) n->fp = true;
  }
  g_tab.insert(n);
  return n;
}
static u64 hmix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
static E raw(Op op, unsigned w, E a, E b, E c, u64 v) {
  Expr x; x.op = op; x.w = (u8)w; x.undef = false; x.fp = false; x.v = v; x.k[0] = a; x.k[1] = b; x.k[2] = c;
  u64 h = hmix(op * 131 + w, v);
  h = hmix(h, a ? a->id + 1 : 0); h = hmix(h, b ? b->id + 1 : 0); h = hmix(h, c ? c->id + 1 : 0);
  x.h = h; return intern(x);
}
E mkConst(u64 v, unsigned w) {
  static E small[65][257];
  v &= mask(w);
  if (v <= 256) { E &s = small[w][v]; if (!s) s = raw(CONST, w, 0, 0, 0, v); return s; }
  return raw(CONST, w, 0, 0, 0, v);
}
E mkBool(bool b) { return mkConst(b, 1); }
E mkVar(const std::string &name, unsigned w, bool undef) {
  Expr *n = new Expr(); n->op = VAR; n->w = (u8)w; n->undef = undef; n->fp = false; n->id = g_eid++;
  n->v = g_vars.size(); n->k[0] = n->k[1] = n->k[2] = 0; n->h = hmix(77, n->id);
  auto s = std::make_shared<std::vector<u32>>(); s->push_back((u32)n->v); n->sup = s;
  g_vars.push_back(n); g_varname.push_back(name);
  return n;
}
E mkEq(E a, E b) { return mk(EQ, 1, a, b); }

static bool comm(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ || o == FADD || o == FMUL || o == FEQ || o == FUNO; }

static E extract1(E e, unsigned lo, unsigned w);
E mkExtract(E e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  if (isC(e)) return mkConst(e->v >> lo, w);
  if (e->op == VAR || e->op == EXTRACT || e->op == ZEXT) return extract1(e, lo, w);
  static std::unordered_map<u64, E> memo; // expressions are shared: visit each node once per slice
  u64 key = ((u64)e->id << 14) | (lo << 7) | w;
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  E r = extract1(e, lo, w); memo[key] = r; return r;
}
static E extract1(E e, unsigned lo, unsigned w) {
  switch (e->op) {
  case EXTRACT: return mkExtract(e->k[0], lo + (unsigned)e->v, w);
  case CONCAT: { unsigned lw = e->k[1]->w;
    if (lo + w <= lw) return mkExtract(e->k[1], lo, w);
    if (lo >= lw) return mkExtract(e->k[0], lo - lw, w);
    return mkConcat(mkExtract(e->k[0], 0, lo + w - lw), mkExtract(e->k[1], lo, lw - lo)); }
  case ZEXT: { unsigned kw = e->k[0]->w;
    if (lo >= kw) return mkConst(0, w);
    if (lo + w <= kw) return mkExtract(e->k[0], lo, w);
    return mkZext(mkExtract(e->k[0], lo, kw - lo), w); }
  case SEXT: { unsigned kw = e->k[0]->w;
    if (lo + w <= kw) return mkExtract(e->k[0], lo, w);
    if (lo < kw) return mkSext(mkExtract(e->k[0], lo, kw - lo), w);
    break; }
  case ITE: if (isC(e->k[1]) || isC(e->k[2])) return mkIte(e->k[0], mkExtract(e->k[1], lo, w), mkExtract(e->k[2], lo, w)); break;
  case AND: case OR: case XOR: if (isC(e->k[1])) return mk(e->op, w, mkExtract(e->k[0], lo, w), mkExtract(e->k[1], lo, w)); break;
  case ADD: case SUB: case MUL: if (lo == 0) return mk(e->op, w, mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w)); break;
  case SHL: if (isC(e->k[1])) { u64 s = e->k[1]->v; if (lo >= s) return mkExtract(e->k[0], lo - (unsigned)s, w); if (lo + w <= s) return mkConst(0, w); } break;
  case LSHR: if (isC(e->k[1])) { u64 s = e->k[1]->v; if (lo + s + w <= e->w) return mkExtract(e->k[0], lo + (unsigned)s, w); if (lo + s >= e->w) return mkConst(0, w); } break;
  case SITOF: if (w == 1 && lo == e->w - 1u) return mk(SLT, 1, e->k[0], mkConst(0, e->k[0]->w)); break; // sign
  default: break;
  }
  return raw(EXTRACT, w, e, 0, 0, lo);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->v << lo->w) | lo->v, w);
  if (isC(hi) && hi->v == 0) return mkZext(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->v == lo->v + lo->w) return mkExtract(hi->k[0], (unsigned)lo->v, w);
  // hi is an extract, lo is the low part of the same expression kept as a narrower node
  if (hi->op == EXTRACT && lo == mkExtract(hi->k[0], 0, lo->w) && hi->v == lo->w && hi->w + lo->w <= hi->k[0]->w) return mkExtract(hi->k[0], 0, w);
  if (hi->op == XOR && isC(hi->k[1]) && hi->k[0]->op == EXTRACT && lo->op == EXTRACT && hi->k[0]->k[0] == lo->k[0] && hi->k[0]->v == lo->v + lo->w) return mk(XOR, w, mkConcat(hi->k[0], lo), mkConst(hi->k[1]->v << lo->w, w));
  if (hi->op == ZEXT) return mkZext(mkConcat(hi->k[0], lo), w);
  if (hi->op == SEXT && hi->k[0]->op == EXTRACT && hi->k[0]->v == lo->w) { E x = hi->k[0]->k[0]; if (lo == mkExtract(x, 0, lo->w)) return mkSext(mkExtract(x, 0, lo->w + hi->k[0]->w), w); }
  // nested: concat(concat(x, a), b) where a,b adjacent
  if (hi->op == CONCAT) {
    E a = hi->k[1];
    if (a->op == EXTRACT && lo->op == EXTRACT && a->k[0] == lo->k[0] && a->v == lo->v + lo->w) return mkConcat(hi->k[0], mkExtract(a->k[0], (unsigned)lo->v, a->w + lo->w));
  }
  if (hi->op == ITE && lo->op == ITE && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  if (hi->op == ITE && isC(lo)) return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
  return raw(CONCAT, w, hi, lo, 0, lo->w);
}
E mkZext(E e, unsigned w) {
  if (w == e->w) return e;
  if (w < e->w) return mkExtract(e, 0, w);
  if (isC(e)) return mkConst(e->v, w);
  if (e->op == ZEXT) return mkZext(e->k[0], w);
  if (e->op == ITE && isC(e->k[1]) && isC(e->k[2])) return mkIte(e->k[0], mkZext(e->k[1], w), mkZext(e->k[2], w));
  return raw(ZEXT, w, e, 0, 0, 0);
}
E mkSext(E e, unsigned w) {
  if (w == e->w) return e;
  if (w < e->w) return mkExtract(e, 0, w);
  if (isC(e)) return mkConst((u64)sx(e->v, e->w), w);
  if (e->op == SEXT) return mkSext(e->k[0], w);
  if (e->op == ZEXT) return mkZext(e->k[0], w);
  if (e->op == ITE && isC(e->k[1]) && isC(e->k[2])) return mkIte(e->k[0], mkSext(e->k[1], w), mkSext(e->k[2], w));
  if (e->op == CONCAT && isC(e->k[1])) return mkConcat(mkSext(e->k[0], w - e->k[1]->w), e->k[1]);
  return raw(SEXT, w, e, 0, 0, 0);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->v ? a : b;
  if (a == b) return a;
  if (c->op == XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->v ? c : mkNot(c);
    if (isC(a)) return a->v ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->v ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (b->op == ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
  return raw(ITE, a->w, c, a, b, 0);
}

// ---- floating-point values that are exact integers scaled by a power of two, decided over bit-vectors
// signed range of a bit-vector expression (syntactic)
struct Rg { i64 lo, hi; };
static Rg full(unsigned w) { return w >= 64 ? Rg{INT64_MIN, INT64_MAX} : Rg{-(i64)(1ULL << (w - 1)), (i64)(1ULL << (w - 1)) - 1}; }
static Rg fit(__int128 lo, __int128 hi, unsigned w) { Rg f = full(w); return lo >= f.lo && hi <= f.hi ? Rg{(i64)lo, (i64)hi} : f; }
static Rg srange(E e);
static bool urange(E e, u64 &lo, u64 &hi) { // unsigned range
  lo = 0; hi = mask(e->w);
  switch (e->op) {
  case CONST: lo = hi = e->v; return true;
  case ZEXT: return urange(e->k[0], lo, hi);
  case AND: if (isC(e->k[1])) hi = e->k[1]->v; return true;
  case ITE: { u64 a, b, c, d; urange(e->k[1], a, b); urange(e->k[2], c, d); lo = std::min(a, c); hi = std::max(b, d); return true; }
  case EQ: case ULT: case ULE: case SLT: case SLE: hi = 1; return true;
  default: { Rg r = srange(e); if (r.lo >= 0) { lo = (u64)r.lo; hi = (u64)r.hi; } return true; }
  }
}
static Rg srange0(E e) {
  unsigned w = e->w;
  switch (e->op) {
  case CONST: { i64 v = sx(e->v, w); return {v, v}; }
  case ZEXT: { u64 a, b; urange(e->k[0], a, b); return fit(a, b, w); }
  case SEXT: return srange(e->k[0]);
  case AND: if (isC(e->k[1]) && sx(e->k[1]->v, w) >= 0) return {0, (i64)e->k[1]->v}; return full(w);
  case ADD: { Rg a = srange(e->k[0]), b = srange(e->k[1]); return fit((__int128)a.lo + b.lo, (__int128)a.hi + b.hi, w); }
  case SUB: { Rg a = srange(e->k[0]), b = srange(e->k[1]); return fit((__int128)a.lo - b.hi, (__int128)a.hi - b.lo, w); }
  case MUL: { Rg a = srange(e->k[0]), b = srange(e->k[1]); __int128 p[4] = {(__int128)a.lo * b.lo, (__int128)a.lo * b.hi, (__int128)a.hi * b.lo, (__int128)a.hi * b.hi};
    return fit(*std::min_element(p, p + 4), *std::max_element(p, p + 4), w); }
  case CONCAT: { Rg a = srange(e->k[0]); unsigned s = e->k[1]->w; u64 lo, hi; urange(e->k[1], lo, hi); return fit(((__int128)a.lo << s) + lo, ((__int128)a.hi << s) + hi, w); }
  case EXTRACT: if (e->v == 0) { Rg a = srange(e->k[0]), f = full(w); if (a.lo >= f.lo && a.hi <= f.hi) return a; } return full(w);
  case ITE: { Rg a = srange(e->k[1]), b = srange(e->k[2]); return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
  default: return full(w);
  }
}
static Rg srange(E e) {
  if (e->op == CONST || e->op == VAR) return srange0(e);
  static std::unordered_map<u32, Rg> memo; auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  Rg r = srange0(e); memo[e->id] = r; return r;
}
// sums in a canonical order, so that equal sums are the same node
struct Term { E atom; u64 c; u64 key; };
static bool linTerms(E e, u64 c, std::vector<Term> &out, u64 &k, unsigned depth) {
  if (isC(e)) { k += c * e->v; return true; }
  if (e->op == ADD && depth < 40) return linTerms(e->k[0], c, out, k, depth + 1) && linTerms(e->k[1], c, out, k, depth + 1);
  if (e->op == SUB && depth < 40) return linTerms(e->k[0], c, out, k, depth + 1) && linTerms(e->k[1], 0 - c, out, k, depth + 1);
  if (e->op == MUL && isC(e->k[1])) return linTerms(e->k[0], c * e->k[1]->v, out, k, depth + 1);
  if (e->op == CONCAT && isC(e->k[1])) { E h = e->k[0]; unsigned s = e->k[1]->w; k += c * e->k[1]->v; // (x << s) + const
    if (h->op == EXTRACT || h->op == ZEXT || h->op == SEXT || h->op == VAR || h->op == ADD || h->op == SUB) return linTerms(h->op == SEXT || h->op == ADD || h->op == SUB ? mkSext(h, e->w) : mkZext(h, e->w), c << s, out, k, depth + 1); k -= c * e->k[1]->v; }
  if (e->op == ZEXT && e->k[0]->op == CONCAT && isC(e->k[0]->k[1])) { E x = e->k[0]; k += c * x->k[1]->v; return linTerms(mkZext(x->k[0], e->w), c << x->k[1]->w, out, k, depth + 1); }
  if (e->op == SEXT && depth < 40 && (e->k[0]->op == ADD || e->k[0]->op == SUB || e->k[0]->op == MUL || e->k[0]->op == CONCAT)) { // a sum that cannot wrap extends term by term
    E x = e->k[0]; std::vector<Term> t; u64 kk = 0; if (linTerms(x, 1, t, kk, depth + 1)) { __int128 lo = sx(kk & mask(x->w), x->w), hi = lo; for (auto &q : t) { Rg r = srange(q.atom); __int128 cc = sx(q.c & mask(x->w), x->w), p0 = cc * r.lo, p1 = cc * r.hi; lo += std::min(p0, p1); hi += std::max(p0, p1); }
      Rg f = full(x->w); if (lo >= f.lo && hi <= f.hi) { k += c * (u64)sx(kk & mask(x->w), x->w); for (auto &q : t) out.push_back({mkSext(q.atom, e->w), c * (u64)sx(q.c & mask(x->w), x->w), 0}); return out.size() <= 24; } } }
  out.push_back({e, c, 0}); return out.size() <= 24;
}
// n >> k for a sum whose terms are multiples of 2^k, apart from a constant
static E linShift(E n, int k) { E x = n->op == SEXT ? n->k[0] : n; if (x->op != ADD && x->op != SUB) return nullptr; std::vector<Term> t; u64 kk = 0; unsigned w = x->w; if (!linTerms(x, 1, t, kk, 0)) return nullptr; i64 c0 = sx(kk & mask(w), w); __int128 lo = c0, hi = c0;
  for (auto &q : t) { i64 cc = sx(q.c & mask(w), w); if (cc & (((i64)1 << k) - 1)) return nullptr; Rg r = srange(q.atom); __int128 p0 = (__int128)cc * r.lo, p1 = (__int128)cc * r.hi; lo += std::min(p0, p1); hi += std::max(p0, p1); }
  Rg f = full(w); if (lo < f.lo || hi > f.hi) return nullptr; E r = mkConst((u64)(c0 >> k), w); for (auto &q : t) r = mk(ADD, w, r, mk(MUL, w, q.atom, mkConst((u64)(sx(q.c & mask(w), w) >> k), w))); return mkSext(r, n->w); }
static E linSum(unsigned w, E a, E b, bool minus) {
  std::vector<Term> t; u64 k = 0; if (!linTerms(a, 1, t, k, 0) || !linTerms(b, minus ? ~0ULL : 1, t, k, 0)) return nullptr; u64 m = mask(w); k &= m;
  for (auto &x : t) { x.c &= m; E q = x.atom; while (q->op == ZEXT || q->op == SEXT || (q->op == EXTRACT && q->v == 0)) q = q->k[0]; x.key = q->id; }
  std::stable_sort(t.begin(), t.end(), [](const Term &x, const Term &y) { return x.key != y.key ? x.key < y.key : x.atom->id < y.atom->id; });
  std::vector<Term> pos, neg; for (size_t i = 0; i < t.size();) { u64 c = t[i].c; size_t j = i + 1; while (j < t.size() && t[j].atom == t[i].atom) c += t[j++].c; c &= m; if (c) { if (sx(c, w) < 0 && c != 1ULL << (w - 1)) neg.push_back({t[i].atom, (0 - c) & m, 0}); else pos.push_back({t[i].atom, c, 0}); } i = j; }
  auto sum = [&](std::vector<Term> &v) { E r = nullptr; for (auto &q : v) { E x = q.c == 1 ? q.atom : (q.c & (q.c - 1)) == 0 ? mk(SHL, w, q.atom, mkConst(__builtin_ctzll(q.c), w)) : raw(MUL, w, q.atom, mkConst(q.c, w), 0, 0); r = r ? raw(ADD, w, r, x, 0, 0) : x; } return r; };
  E p = sum(pos), n = sum(neg); if (!p && !n) return mkConst(k, w); if (!n && k && (p->op == CONCAT || p->op == ITE)) return nullptr;
  if (!n) return k ? raw(ADD, w, p, mkConst(k, w), 0, 0) : p; if (!p) return raw(SUB, w, mkConst(k, w), n, 0, 0);
  if (k) p = raw(ADD, w, p, mkConst(k, w), 0, 0); return raw(SUB, w, p, n, 0, 0);
}
struct IV { bool ok, mz; int k; E n; Rg r; }; // value = n * 2^-k; mz: a zero may be a negative one
static const i64 LIM64 = (i64)1 << 60;
static IV none() { return {false, false, 0, nullptr, {0, 0}}; }
static IV iv(E n, int k, bool mz) { Rg r = srange(n); if (r.lo < -LIM64 || r.hi > LIM64) return none(); if (r.lo > 0 || r.hi < 0) mz = false; return {true, mz, k, n, r}; }
static E c64(i64 v) { return mkConst((u64)v, 64); }
static bool scaleTo(IV &a, int k) { if (k == a.k) return true; if (k - a.k > 40) return false; __int128 lo = (__int128)a.r.lo << (k - a.k), hi = (__int128)a.r.hi << (k - a.k); if (lo < -LIM64 || hi > LIM64) return false; a.n = mk(MUL, 64, a.n, c64((i64)1 << (k - a.k))); a.r = {(i64)lo, (i64)hi}; a.k = k; return true; }
static unsigned bitsFor(Rg r) { unsigned b = 1; while (b < 64) { Rg f = full(b); if (r.lo >= f.lo && r.hi <= f.hi) break; b++; } return b; }
static E narrow(E n, Rg r) { unsigned b = bitsFor(r); return b >= 64 ? n : mkSext(mkExtract(n, 0, b), 64); }
static IV ival(E e);
static IV ivConst(u64 v, unsigned w) {
  double d = w == 32 ? (double)b2f(v) : b2d(v); if (!(std::fabs(d) < 1e15)) return none();
  int k = 0; while (k < 24 && d != std::floor(d)) { d *= 2; k++; }
  if (d != std::floor(d) || std::fabs(d) > 1e17) return none();
  return iv(c64((i64)d), k, std::signbit(d) && d == 0);
}
static E asr(E n, int k) { if (k) if (E l = linShift(n, k)) return l; return k ? mk(ASHR, 64, n, c64(k)) : n; }
static IV ival0(E e) {
  unsigned w = e->w; i64 ex = w == 32 ? (i64)1 << 24 : (i64)1 << 53;
  if (w != 32 && w != 64) return none();
  auto exact = [&](IV r) { if (!r.ok || r.r.lo < -ex || r.r.hi > ex) return none(); return r; };
  switch (e->op) {
  case CONST: return ivConst(e->v, w);
  case SITOF: { IV r = iv(e->k[0]->w == 64 ? e->k[0] : mkSext(e->k[0], 64), (int)e->v, false); return exact(r); }
  case UITOF: { u64 lo, hi; urange(e->k[0], lo, hi); if (hi > (u64)LIM64) return none(); return exact(iv(mkZext(e->k[0], 64), 0, false)); }
  case ITE: { IV a = ival(e->k[1]), b = ival(e->k[2]); if (!a.ok || !b.ok) return none(); int k = std::max(a.k, b.k); if (!scaleTo(a, k) || !scaleTo(b, k)) return none(); return exact(iv(mkIte(e->k[0], a.n, b.n), k, a.mz || b.mz)); }
  case FADD: case FSUB: { IV a = ival(e->k[0]), b = ival(e->k[1]); if (!a.ok || !b.ok) return none(); int k = std::max(a.k, b.k); if (!scaleTo(a, k) || !scaleTo(b, k)) return none();
    bool mz = e->op == FADD ? a.mz && b.mz : a.mz; // x - y gives -0 only for -0 - +0
    return exact(iv(mk(e->op == FADD ? ADD : SUB, 64, a.n, b.n), k, mz)); }
  case FMUL: { IV a = ival(e->k[0]), b = ival(e->k[1]); if (!a.ok || !b.ok || a.k + b.k > 40) return none(); __int128 m = (__int128)std::max(std::llabs(a.r.lo), std::llabs(a.r.hi)) * std::max(std::llabs(b.r.lo), std::llabs(b.r.hi)); if (m > LIM64) return none();
    bool mz = a.mz || b.mz || a.r.lo < 0 || b.r.lo < 0; return exact(iv(mk(MUL, 64, a.n, b.n), a.k + b.k, mz)); }
  case FDIV: { if (!isC(e->k[1])) return none(); double d = w == 32 ? (double)b2f(e->k[1]->v) : b2d(e->k[1]->v); int x; if (!(d > 0) || std::isinf(d) || std::frexp(d, &x) != 0.5) return none(); x--; IV a = ival(e->k[0]); if (!a.ok) return none();
    if (x >= 0) { if (a.k + x > 40) return none(); a.k += x; return a; } if (x < -20) return none(); return exact(iv(mk(MUL, 64, a.n, c64((i64)1 << -x)), a.k, a.mz)); }
  case FPCVT: return exact(ival(e->k[0]));
  case FRND: { IV a = ival(e->k[0]); if (!a.ok) return none(); if (!a.k) return a; E n = a.n, neg = mk(SUB, 64, c64(0), n); bool mz = e->v ? a.mz || a.r.lo < 0 : a.mz;
    auto R = [&](E q, i64 lo, i64 hi) { return exact(iv(narrow(q, {lo, hi}), 0, mz)); };
    i64 lo = a.r.lo >> a.k, hi = (a.r.hi >> a.k) + 1; E fl = asr(n, a.k), ce = mk(SUB, 64, c64(0), asr(neg, a.k)), s = mk(SLT, 1, n, c64(0));
    switch (e->v) { case 0: return R(fl, lo, hi); case 1: return R(ce, lo, hi); case 2: return R(mkIte(s, ce, fl), lo, hi);
    case 3: { i64 h = (i64)1 << (a.k - 1); return R(mkIte(s, mk(SUB, 64, c64(0), asr(mk(ADD, 64, neg, c64(h)), a.k)), asr(mk(ADD, 64, n, c64(h)), a.k)), lo - 1, hi); }
    default: { i64 h = ((i64)1 << (a.k - 1)) - 1; E odd = mkZext(mkExtract(n, a.k, 1), 64); return R(asr(mk(ADD, 64, mk(ADD, 64, n, c64(h)), odd), a.k), lo, hi); } } }
  case XOR: if (isC(e->k[1]) && e->k[1]->v == 1ULL << (w - 1)) { IV a = ival(e->k[0]); if (!a.ok) return none(); return iv(mk(SUB, 64, c64(0), a.n), a.k, true); } return none();
  default: return none();
  }
}
static IV ival(E e) {
  if (e->op == VAR || e->op == EXTRACT || e->op == FSQRT) return none();
  static std::unordered_map<u32, IV> memo; auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  IV r = ival0(e); if (r.ok) r.n = narrow(r.n, r.r); memo[e->id] = r; return r;
}
static bool floaty(E e) { return (e->op >= FADD && e->op != FEQ && e->op != FLT && e->op != FLE && e->op != FUNO && e->op != FTOSI) || e->op == CONST || e->op == ITE || e->op == XOR; }
static E normalize(E e) { // the canonical scaled-integer form when it is exact, including the sign of zero
  if (e->op == CONST || e->op == SITOF) return e; // SITOF is rebuilt by mk
  IV r = ival(e); if (!r.ok || r.mz) return e; if (isC(r.n)) return mkConst(opeval(SITOF, e->w, (u64)r.k, 64, r.n->v, 0, 0), e->w); return raw(SITOF, e->w, r.n, 0, 0, (u64)r.k);
}
static E icmp(Op op, IV a, IV b) { int k = std::max(a.k, b.k); if (!scaleTo(a, k) || !scaleTo(b, k)) return nullptr; Rg u = {std::min(a.r.lo, b.r.lo), std::max(a.r.hi, b.r.hi)};
  if (op == SLT) { if (a.r.hi < b.r.lo) return mkBool(true); if (a.r.lo >= b.r.hi) return mkBool(false); } else if (op == SLE) { if (a.r.hi <= b.r.lo) return mkBool(true); if (a.r.lo > b.r.hi) return mkBool(false); } else if (a.r.hi < b.r.lo || b.r.hi < a.r.lo) return mkBool(false);
  unsigned w = bitsFor(u); return mk(op, 1, mkExtract(a.n, 0, w), mkExtract(b.n, 0, w)); }
static E scaledInt(Op op, unsigned w, E a, E b, u64 v) {
  switch (op) {
  case FEQ: case FLT: case FLE: if (floaty(a) && floaty(b)) { IV x = ival(a), y = ival(b); if (x.ok && y.ok) return icmp(op == FEQ ? EQ : op == FLT ? SLT : SLE, x, y);
      // against infinities and values beyond every scaled integer
      for (int s = 0; s < 2; s++) { E c = s ? b : a; IV &o = s ? x : y; if (isC(c) && o.ok) { double d = c->w == 32 ? (double)b2f(c->v) : b2d(c->v); if (d != d) return mkBool(false); if (std::fabs(d) >= 1.2e18) { if (op == FEQ) return mkBool(false); bool bigc = d > 0; return mkBool(s ? bigc : !bigc); } } } } return nullptr;
  case FUNO: { auto nn = [&](E e) { return isC(e) ? !(e->w == 32 ? b2f(e->v) != b2f(e->v) : b2d(e->v) != b2d(e->v)) : floaty(e) && ival(e).ok; }; bool x = nn(a), y = nn(b); if (x && y) return mkBool(false); if (x && a != b) return raw(FUNO, 1, b, b, 0, 0); if (y && a != b) return raw(FUNO, 1, a, a, 0, 0); return nullptr; }
  case FTOSI: if (floaty(a)) { IV x = ival(a); if (!x.ok) return nullptr; E q = x.n; if (x.k) { E neg = mk(SUB, 64, c64(0), q); q = mkIte(mk(SLT, 1, q, c64(0)), mk(SUB, 64, c64(0), asr(neg, x.k)), asr(q, x.k)); }
      Rg r = {-((-x.r.lo) >> x.k), x.r.hi >> x.k}, f = full(w); if (x.r.lo > 0) r.lo = 0; if (x.r.hi < 0) r.hi = 0;
      if (r.lo < f.lo || r.hi > f.hi) { E in = mkAnd(mk(SLE, 1, c64(f.lo), q), mk(SLE, 1, q, c64(f.hi))); return mkIte(in, mkExtract(q, 0, w), mkConst(1ULL << (w - 1), w)); }
      E t = narrow(q, r); return mkExtract(t, 0, w); } return nullptr;
  case SITOF: { if (v) return nullptr; Rg r = srange(a); i64 ex = w == 32 ? (i64)1 << 24 : (i64)1 << 53; if (r.lo < -ex || r.hi > ex) return nullptr; E n = narrow(a->w == 64 ? a : mkSext(a, 64), r); return raw(SITOF, w, n, 0, 0, 0); }
  case UITOF: { u64 lo, hi; urange(a, lo, hi); if (hi > (u64)LIM64) return nullptr; i64 ex = w == 32 ? (i64)1 << 24 : (i64)1 << 53; if (hi > (u64)ex) return nullptr; return raw(SITOF, w, narrow(mkZext(a, 64), {(i64)lo, (i64)hi}), 0, 0, 0); }
  case FADD: case FSUB: case FMUL: case FDIV: case FRND: case FPCVT: { if (!floaty(a) || (b && !floaty(b))) return nullptr; E e = raw(op, w, a, b, 0, v); E n = normalize(e); return n == e ? nullptr : n; }
  default: return nullptr;
  }
}
E mk(Op op, unsigned w, E a, E b, E c, u64 v) {
  switch (op) {
  case EXTRACT: return mkExtract(a, (unsigned)v, w);
  case CONCAT: return mkConcat(a, b);
  case ZEXT: return mkZext(a, w);
  case SEXT: return mkSext(a, w);
  case ITE: return mkIte(a, b, c);
  default: break;
  }
  if (isC(a) && (!b || isC(b))) return mkConst(opeval(op, w, v, a->w, a->v, b ? b->v : 0, 0), w);
  if (b && comm(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  u64 m = mask(w);
  if (op >= FADD) if (E n = scaledInt(op, w, a, b, v)) return n;
  switch (op) {
  case ADD:
    if (isC(b) && a->op == CONCAT && isC(a->k[1]) && b->v && (a->k[1]->v + b->v) < (1ULL << a->k[1]->w)) return mkConcat(a->k[0], mkConst(a->k[1]->v + b->v, a->k[1]->w));
    if (isC(b)) { if (!b->v) return a; if (a->op == ADD && isC(a->k[1])) return mk(ADD, w, a->k[0], mkConst(a->k[1]->v + b->v, w));
      if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->v + b->v, w), mkConst(a->k[2]->v + b->v, w)); }
    if (!isC(b)) if (E l = linSum(w, a, b, false)) return l;
    break;
  case SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mk(ADD, w, a, mkConst(0 - b->v, w));
    if (w > 8) if (E l = linSum(w, a, b, true)) return l;
    if (a->op == CONCAT && b->op == CONCAT && a->k[0] == b->k[0] && isC(a->k[1]) && isC(b->k[1])) return mkConst(a->k[1]->v - b->k[1]->v, w);
    if (a->op == ADD && a->k[0] == b) return a->k[1];
    if (a->op == ADD && a->k[1] == b) return a->k[0];
    break;
  case MUL:
    if (isC(b)) { if (!b->v) return b; if (b->v == 1) return a;
      if (a->op == ADD) return mk(ADD, w, mk(MUL, w, a->k[0], b), mk(MUL, w, a->k[1], b));
      if (a->op == MUL && isC(a->k[1])) return mk(MUL, w, a->k[0], mkConst(a->k[1]->v * b->v, w));
      if ((b->v & (b->v - 1)) == 0) return mk(SHL, w, a, mkConst(__builtin_ctzll(b->v), w)); }
    break;
  case UDIV: if (isC(b)) { if (b->v == 1) return a; if (b->v && !(b->v & (b->v - 1))) return mk(LSHR, w, a, mkConst(__builtin_ctzll(b->v), w)); } break;
  case UREM: if (isC(b) && b->v && !(b->v & (b->v - 1))) return mk(AND, w, a, mkConst(b->v - 1, w)); break;
  case SDIV: if (isC(b) && b->v == 1) return a; break;
  case AND:
    if (a == b) return a;
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZext(mk(AND, a->k[0]->w, a->k[0], b->k[0]), w);
    if (isC(b) && (w == 32 || w == 64) && b->v == m >> 1 && (a->op >= FADD || (a->op == XOR && isC(a->k[1]) && a->k[1]->v == m - (m >> 1))) && floaty(a)) { IV x = ival(a); // fabs
      if (x.ok) { E n = mkIte(mk(SLT, 1, x.n, c64(0)), mk(SUB, 64, c64(0), x.n), x.n); Rg r = {0, std::max(std::llabs(x.r.lo), std::llabs(x.r.hi))}; return raw(SITOF, w, narrow(n, r), 0, 0, (u64)x.k); } return raw(AND, w, a, b, 0, 0); }
    if (isC(b)) { if (!b->v) return b; if (b->v == m) return a;
      if (a->op == AND && isC(a->k[1])) return mk(AND, w, a->k[0], mkConst(a->k[1]->v & b->v, w));
      if (a->op == ZEXT) { unsigned kw = a->k[0]->w; return mkZext(mk(AND, kw, a->k[0], mkConst(b->v, kw)), w); }
      if ((b->v & (b->v + 1)) == 0) { unsigned n = __builtin_popcountll(b->v); return mkZext(mkExtract(a, 0, n), w); }
      if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->v & b->v, w), mkConst(a->k[2]->v & b->v, w)); }
    if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
    break;
  case OR:
    if (a == b) return a;
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZext(mk(OR, a->k[0]->w, a->k[0], b->k[0]), w);
    if (isC(b)) { if (!b->v) return a; if (b->v == m) return b; }
    if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
    break;
  case XOR:
    if (a == b) return mkConst(0, w);
    if (isC(b)) { if (!b->v) return a; if (a->op == XOR && isC(a->k[1])) return mk(XOR, w, a->k[0], mkConst(a->k[1]->v ^ b->v, w));
      if (w == 1 && b->v == 1) { // negated comparisons
        if (a->op == ULT) return mk(ULE, 1, a->k[1], a->k[0]);
        if (a->op == ULE) return mk(ULT, 1, a->k[1], a->k[0]);
        if (a->op == SLT) return mk(SLE, 1, a->k[1], a->k[0]);
        if (a->op == SLE) return mk(SLT, 1, a->k[1], a->k[0]);
      } }
    break;
  case SHL: case LSHR: case ASHR:
    if (isC(b)) { if (!b->v) return a; if (b->v >= w && op != ASHR) return mkConst(0, w);
      if (op == LSHR && b->v < w) return mkZext(mkExtract(a, (unsigned)b->v, w - (unsigned)b->v), w);
      if (op == ASHR && b->v < w) return mkSext(mkExtract(a, (unsigned)b->v, w - (unsigned)b->v), w);
      if (op == SHL && b->v < w) return mkConcat(mkExtract(a, 0, w - (unsigned)b->v), mkConst(0, (unsigned)b->v)); }
    break;
  case EQ:
    if (a == b) return mkConst(1, 1);
    if (isC(b)) {
      if (a->w == 1) return b->v ? a : mkNot(a);
      if (a->op == ZEXT) { unsigned kw = a->k[0]->w; if (b->v & ~mask(kw)) return mkConst(0, 1); return mk(EQ, 1, a->k[0], mkConst(b->v, kw)); }
      if (a->op == SEXT) { unsigned kw = a->k[0]->w; if (((u64)sx(b->v & mask(kw), kw) & mask(a->w)) != b->v) return mkConst(0, 1); return mk(EQ, 1, a->k[0], mkConst(b->v, kw)); }
      if (a->op == ADD && isC(a->k[1])) return mk(EQ, 1, a->k[0], mkConst(b->v - a->k[1]->v, a->w));
      if (a->op == XOR && isC(a->k[1])) return mk(EQ, 1, a->k[0], mkConst(b->v ^ a->k[1]->v, a->w));
      if (a->op == CONCAT) { unsigned lw = a->k[1]->w; return mkAnd(mk(EQ, 1, a->k[0], mkConst(b->v >> lw, a->k[0]->w)), mk(EQ, 1, a->k[1], mkConst(b->v, lw))); }
      if (a->op == ITE) {
        if (isC(a->k[1])) return a->k[1]->v == b->v ? mkOr(a->k[0], mk(EQ, 1, a->k[2], b)) : mkAnd(mkNot(a->k[0]), mk(EQ, 1, a->k[2], b));
        if (isC(a->k[2])) return a->k[2]->v == b->v ? mkOr(mkNot(a->k[0]), mk(EQ, 1, a->k[1], b)) : mkAnd(a->k[0], mk(EQ, 1, a->k[1], b));
      }
    }
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mk(EQ, 1, a->k[0], b->k[0]);
    if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mk(EQ, 1, a->k[0], b->k[0]);
    break;
  case ULT: case ULE:
    if (a == b) return mkConst(op == ULE, 1);
    if (isC(b)) { if (op == ULT && b->v == 0) return mkConst(0, 1); if (op == ULE && b->v == mask(a->w)) return mkConst(1, 1);
      if (a->op == ZEXT) { unsigned kw = a->k[0]->w; if (b->v > mask(kw)) return mkConst(1, 1); return mk(op, 1, a->k[0], mkConst(b->v, kw)); }
      if (op == ULT && b->v == 1) return mk(EQ, 1, a, mkConst(0, a->w)); 
      if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mk(op, 1, a->k[1], b), mk(op, 1, a->k[2], b)); }
    if (isC(a)) { if (op == ULE && a->v == 0) return mkConst(1, 1); if (op == ULT && a->v == mask(a->w)) return mkConst(0, 1);
      if (b->op == ZEXT) { unsigned kw = b->k[0]->w; if (a->v > mask(kw)) return mkConst(0, 1); return mk(op, 1, mkConst(a->v, kw), b->k[0]); }
      if (b->op == ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mk(op, 1, a, b->k[1]), mk(op, 1, a, b->k[2])); }
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mk(op, 1, a->k[0], b->k[0]);
    break;
  case SLT: case SLE:
    if (a == b) return mkConst(op == SLE, 1);
    if (isC(b)) {
      if (a->op == ZEXT) { unsigned kw = a->k[0]->w; if (sx(b->v, a->w) < 0) return mkConst(0, 1); return mk(op == SLT ? ULT : ULE, 1, a, b); (void)kw; }
      if (a->op == SEXT) { unsigned kw = a->k[0]->w; i64 s = sx(b->v, a->w); i64 lo = -(i64)(1ULL << (kw - 1)), hi = (i64)(1ULL << (kw - 1)) - 1;
        if (s > hi) return mkConst(1, 1); if (s < lo) return mkConst(0, 1); return mk(op, 1, a->k[0], mkConst((u64)s, kw)); }
      if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mk(op, 1, a->k[1], b), mk(op, 1, a->k[2], b)); }
    if (isC(a)) {
      if (b->op == ZEXT) { if (sx(a->v, b->w) < 0) return mkConst(1, 1); return mk(op == SLT ? ULT : ULE, 1, a, b); }
      if (b->op == SEXT) { unsigned kw = b->k[0]->w; i64 s = sx(a->v, b->w); i64 lo = -(i64)(1ULL << (kw - 1)), hi = (i64)(1ULL << (kw - 1)) - 1;
        if (s > hi) return mkConst(0, 1); if (s < lo) return mkConst(1, 1); return mk(op, 1, mkConst((u64)s, kw), b->k[0]); }
      if (b->op == ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mk(op, 1, a, b->k[1]), mk(op, 1, a, b->k[2])); }
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mk(op == SLT ? ULT : ULE, 1, a->k[0], b->k[0]);
    if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mk(op, 1, a->k[0], b->k[0]);
    break;
  case FPCVT: if (a->w == w) return a;
    if (w == 32 && a->op == FPCVT && a->k[0]->w == 32) return a->k[0];
    break;
  default: break;
  }
  return raw(op, w, a, b, c, v);
}

// value of vals[idx] (lo <= idx < hi known), built as a balanced tree over constant / affine runs
E rleSelect(const std::vector<u64> &vals, E idx, unsigned w, u64 lo, u64 hi) {
  struct Run { u64 s, e; int kind; u64 v; };
  std::vector<Run> runs;
  for (u64 i = lo; i < hi;) {
    u64 j = i + 1; while (j < hi && vals[j] == vals[i]) j++;
    u64 k = i + 1; while (k < hi && ((vals[k] - vals[k - 1]) & mask(w)) == 1) k++;
    if (k - i > j - i && k - i >= 3) { runs.push_back({i, k, 1, (vals[i] - i) & mask(w)}); i = k; }
    else { runs.push_back({i, j, 0, vals[i]}); i = j; }
  }
  struct B { static E go(const std::vector<Run> &r, size_t a, size_t b, E idx, unsigned w) {
    if (b - a == 1) { if (r[a].kind == 0) return mkConst(r[a].v, w);
      E x = idx->w >= w ? mkExtract(idx, 0, w) : mkZext(idx, w); return mk(ADD, w, x, mkConst(r[a].v, w)); }
    size_t m = (a + b) / 2;
    return mkIte(mk(ULT, 1, idx, mkConst(r[m].s, idx->w)), go(r, a, m, idx, w), go(r, m, b, idx, w)); } };
  return B::go(runs, 0, runs.size(), idx, w);
}

u64 evalE(E root, const Model &m) {
  if (isC(root)) return root->v;
  if (root->op == VAR) { auto it = m.find((u32)root->v); return it == m.end() ? 0 : it->second & mask(root->w); }
  static std::vector<u64> val; static std::vector<u32> stamp; static u32 cur = 0;
  static std::vector<E> st;
  cur++;
  if (val.size() < g_eid) { val.resize(g_eid + 4096); stamp.resize(g_eid + 4096, 0); }
  st.clear(); st.push_back(root);
  while (!st.empty()) {
    E e = st.back();
    if (stamp[e->id] == cur) { st.pop_back(); continue; }
    u64 r;
    if (isC(e)) r = e->v;
    else if (e->op == VAR) { auto it = m.find((u32)e->v); r = it == m.end() ? 0 : it->second & mask(e->w); }
    else {
      bool ready = true;
      if (e->op == ITE) {
        if (stamp[e->k[0]->id] != cur) { st.push_back(e->k[0]); continue; }
        E t = val[e->k[0]->id] ? e->k[1] : e->k[2];
        if (stamp[t->id] != cur) { st.push_back(t); continue; }
        r = val[t->id];
      } else {
        for (int i = 0; i < 3; i++) if (e->k[i] && stamp[e->k[i]->id] != cur) { st.push_back(e->k[i]); ready = false; }
        if (!ready) continue;
        u64 a = e->k[0] ? val[e->k[0]->id] : 0, b = e->k[1] ? val[e->k[1]->id] : 0, c = e->k[2] ? val[e->k[2]->id] : 0;
        if (e->op == CONCAT) r = (a << e->k[1]->w) | b;
        else r = opeval(e->op, e->w, e->v, e->k[0]->w, a, b, c);
      }
    }
    val[e->id] = r; stamp[e->id] = cur; st.pop_back();
  }
  return val[root->id];
}

std::string showE(E e, int d) {
  static const char *n[] = {"C","V","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>","a>>","==","u<","u<=","s<","s<=","ite","cat","ext","zx","sx","f+","f-","f*","f/","f==","f<","f<=","funo","fcvt","f2s","f2u","s2f","u2f","fsqrt","frnd"};
  if (isC(e)) return std::to_string(e->v);
  if (e->op == VAR) return g_varname[e->v];
  if (d == 0) return "..";
  std::string s = std::string("(") + n[e->op];
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + showE(e->k[i], d - 1);
  if (e->op == EXTRACT) s += "@" + std::to_string(e->v) + ":" + std::to_string(e->w);
  return s + ")";
}

// v as a decimal numeral over digit variables: fills the digits, least significant first
bool asDigits(E v, unsigned n, std::vector<E> &out) {
  std::vector<Term> t; u64 k = 0; if (!linTerms(v, 1, t, k, 0) || (k & mask(v->w))) return false; out.assign(n, nullptr); i64 sg = 1;
  for (auto &x : t) { E q = x.atom; while (q->op == ZEXT || q->op == SEXT) { if (q->op == SEXT) return false; q = q->k[0]; } if (q->op != VAR || q->w != 4) return false; i64 c = sx(x.c & mask(v->w), v->w) * sg, p = 1; unsigned i = 0; while (i < n && p != c) { p *= 10; i++; } if (i >= n || out[i]) return false; out[i] = q; }
  for (auto &x : out) if (!x) return false; return true;
}
