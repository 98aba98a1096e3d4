/* P01 map, P02 append and copy, P03 typed values, L01 object lists */
#include "vh.h"
#include "trax.h"
#include "region.h"
#define MAXE 8
typedef struct { char k[16], v[12]; int kl, vl, live; } entry;
static entry E[MAXE]; static int NE;
/* comparisons of our own, without library code; texts are concrete in length */
static int eqs(const char *a, int al, const char *b, int bl) { return al == bl && vh_same(a, b, (size_t)al); }
static int eqk(const char *a, int al, const char *b, int bl) { return (int)vh_concrete((uint64_t)eqs(a, al, b, bl)); }
static entry *find(entry *e, int n, const char *k, int kl) { for (int i = 0; i < n; i++) if (e[i].live && eqk(e[i].k, e[i].kl, k, kl)) return &e[i]; return NULL; }
static void put(entry *e, int *n, const char *k, int kl, const char *v, int vl) { entry *x = find(e, *n, k, kl); if (!x) { x = &e[(*n)++]; x->live = 1; memcpy(x->k, k, (size_t)kl + 1); x->kl = kl; } memcpy(x->v, v, (size_t)vl + 1); x->vl = vl; }
static int live(entry *e, int n) { int c = 0; for (int i = 0; i < n; i++) c += e[i].live; return c; }
static void check_key(trax_properties *p, entry *x, const char *k) { char *g = trax_properties_get(p, k); vh_assert((g != NULL) == (x != NULL), "presence of a key"); vh_assert(trax_properties_has(p, k) == (x != NULL), "has a key"); if (g && x) vh_assert(eqs(g, (int)strlen(g), x->v, x->vl), "value of a key"); free(g); }
static entry *EE; static int EN, seen[MAXE], strange;
static void visit(const char *k, const char *v, const void *o) { entry *x = find(EE, EN, k, (int)strlen(k)); vh_assert(x != NULL, "enumerates a key that was never stored"); if (!x) return; vh_assert(eqs(v, (int)strlen(v), x->v, x->vl), "enumerates another value"); seen[x - EE]++; strange += o != (const void *)&strange; }
static void check_all(trax_properties *p, entry *e, int n) { int i; for (i = 0; i < n; i++) check_key(p, e[i].live ? &e[i] : NULL, e[i].k); vh_assert(trax_properties_count(p) == live(e, n), "count"); EE = e; EN = n; memset(seen, 0, sizeof seen); strange = 0; trax_properties_enumerate(p, visit, &strange); for (i = 0; i < n; i++) vh_assert(seen[i] == e[i].live, "not enumerated once"); vh_assert(!strange, "enumerator argument"); }
static const char *KEYS[] = {"A", "a", "!", "Ab", "", "trax.name", "k\xc3\xa4"};   /* the first three share a bucket */
static int num_char(char c) { return (c >= '0') & (c <= '9'); }
static float dyad(const char *n, int digits, int div) { int neg = (int)vh_concrete(vh_sym("sign", 1)); int64_t i = vh_udec(n, digits); int q = vh_pick("part", 0, div - 1); double v = (double)i + (double)q / div; return (float)(neg ? -v : v); }
static trax_region *reg(int t) { trax_region *r; switch (t) { case 0: return trax_region_create_special(vh_int("code")); case 1: return trax_region_create_rectangle(vh_f32("x"), vh_f32("y"), 3, 4); case 2: r = trax_region_create_polygon(3); for (int i = 0; i < 3; i++) trax_region_set_polygon_point(r, i, vh_f32("px"), (float)i); return r; default: r = trax_region_create_mask(1, 2, 2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) trax_region_write_mask_row(r, i)[j] = (char)vh_u8("m"); return r; } }
static int same_region(trax_region *a, trax_region *b) { region_container *x = (region_container *)a, *y = (region_container *)b; if (x->type != y->type) return 0; switch (x->type) { case SPECIAL: return x->data.special == y->data.special; case RECTANGLE: return vh_same(&x->data.rectangle, &y->data.rectangle, sizeof(region_rectangle)); case POLYGON: return x->data.polygon.count == y->data.polygon.count && vh_same(x->data.polygon.x, y->data.polygon.x, sizeof(float) * (size_t)x->data.polygon.count) && vh_same(x->data.polygon.y, y->data.polygon.y, sizeof(float) * (size_t)x->data.polygon.count); default: return x->data.mask.x == y->data.mask.x && x->data.mask.y == y->data.mask.y && x->data.mask.width == y->data.mask.width && x->data.mask.height == y->data.mask.height && vh_same(x->data.mask.data, y->data.mask.data, (size_t)(x->data.mask.width * x->data.mask.height)); } }
static void spoil(trax_region *r) { region_container *x = (region_container *)r; if (x->type == POLYGON) memset(x->data.polygon.x, 0x55, sizeof(float) * (size_t)x->data.polygon.count); else if (x->type == MASK) memset(x->data.mask.data, 0x55, (size_t)(x->data.mask.width * x->data.mask.height)); else if (x->type == RECTANGLE) trax_region_set_rectangle(r, 9, 9, 9, 9); else trax_region_set_special(r, 77); }
void vh_main(void) {
  int mode = (int)vh_param("mode", 0), n = (int)vh_param("n", 2), k = (int)vh_param("k", 1), len = (int)vh_param("len", 1), i, j, l0 = vh_heap_live(); char key[16], val[16];
  trax_properties *p = trax_properties_create(), *q = NULL;
  switch (mode) {
  case 0: { /* arbitrary keys */ for (i = 0; i < n; i++) { int kl = vh_string(key, k, "k"), vl = vh_string(val, len, "v"); trax_properties_set(p, key, val); put(E, &NE, key, kl, val, vl); } check_all(p, E, NE); { int kl = vh_string(key, k, "q"); check_key(p, find(E, NE, key, kl), key); } vh_cover("map"); break; }
  case 1: { /* histories over keys of which some collide */ int nk = (int)vh_param("keys", 4); for (i = 0; i < n; i++) { int op = vh_pick("op", 0, nk); if (op == nk) { trax_properties_clear(p); for (j = 0; j < NE; j++) E[j].live = 0; } else { int vl = vh_string(val, len, "v"); trax_properties_set(p, KEYS[op], val); { entry *x = find(E, NE, KEYS[op], (int)strlen(KEYS[op])); if (!x) for (j = 0; j < NE; j++) if (!E[j].live && !strcmp(E[j].k, KEYS[op])) { E[j].live = 1; break; } } put(E, &NE, KEYS[op], (int)strlen(KEYS[op]), val, vl); } } check_all(p, E, NE); for (i = 0; i < 7; i++) check_key(p, find(E, NE, KEYS[i], (int)strlen(KEYS[i])), KEYS[i]); trax_properties_clear(p); vh_assert(trax_properties_count(p) == 0, "clearing leaves entries"); for (i = 0; i < 4; i++) check_key(p, NULL, KEYS[i]); vh_cover("map"); break; }
  case 2: { /* append */ entry S[MAXE], D[MAXE]; int ns = 0, nd = 0, ow = vh_pick("overwrite", 0, 1); memset(S, 0, sizeof S); memset(D, 0, sizeof D); q = trax_properties_create(); for (i = 0; i < n; i++) { int a = vh_pick("sk", 0, k), vl; if (a < k) { vl = vh_string(val, len, "sv"); trax_properties_set(p, KEYS[a], val); put(S, &ns, KEYS[a], (int)strlen(KEYS[a]), val, vl); } a = vh_pick("dk", 0, k); if (a < k) { vl = vh_string(val, len, "dv"); trax_properties_set(q, KEYS[a], val); put(D, &nd, KEYS[a], (int)strlen(KEYS[a]), val, vl); } }
      trax_properties_append(p, q, ow); for (i = 0; i < ns; i++) if (ow || !find(D, nd, S[i].k, S[i].kl)) put(D, &nd, S[i].k, S[i].kl, S[i].v, S[i].vl); check_all(q, D, nd); check_all(p, S, ns); vh_cover("append"); break; }
  case 3: { /* copy */ for (i = 0; i < n; i++) { int a = vh_pick("sk", 0, k), vl; if (a < k) { vl = vh_string(val, len, "sv"); trax_properties_set(p, KEYS[a], val); put(E, &NE, KEYS[a], (int)strlen(KEYS[a]), val, vl); } } q = trax_properties_copy(p); check_all(q, E, NE); for (i = 0; i < k; i++) trax_properties_set(p, KEYS[i], "other"); check_all(q, E, NE); trax_properties_clear(p); check_all(q, E, NE); trax_properties_set(q, "new", "x"); vh_assert(trax_properties_count(p) == 0, "copy shares entries"); vh_cover("append"); break; }
  case 4: { static const int X[] = {INT32_MIN, INT32_MAX, INT32_MIN + 1, 2147483646, 1000000000, -1999999999}; int e = vh_pick("extreme", 0, 6), v = e ? X[e - 1] : (int)vh_dec("v", 9); trax_properties_set_int(p, "n", v); vh_assert(trax_properties_get_int(p, "n", ~v) == v, "integer changed"); vh_assert(trax_properties_get_int(p, "m", v) == v, "default of a missing integer"); vh_cover("typed"); break; }
  case 5: { static const float F[] = {3.4028235e38f, -3.4028235e38f, 1e-7f, -0.25f, 16777215.f, 16777216.f, 1e10f, 0.f, -0.f, 1.5e20f, 0.000001f, 123456.789f}; float v = k ? dyad("v", n, k) : F[vh_pick("f", 0, 11)], g; trax_properties_set_float(p, "n", v); g = trax_properties_get_float(p, "n", -7); { double d = (double)g - (double)v, m = (double)v < 0 ? -(double)v : (double)v; if (d < 0) d = -d; vh_assert((g == v) || d <= 0.0000005001 + m * 1.2e-7, "real number changed"); } vh_assert(trax_properties_get_float(p, "m", v) == v, "default of a missing real number"); vh_cover("typed"); break; }
  case 6: { /* arbitrary texts read as numbers */ int def = 4242, l = vh_string(val, n, "t"), digits = l > 0, has = 0, odd = 0; int64_t v = 0; for (i = 0; i < l; i++) { char c = val[i]; vh_assume((c != 'x') & (c != 'X') & (c != '(')); digits &= num_char(c); has |= num_char(c); odd |= !(num_char(c) | (c == '+') | (c == '-') | (c == '.') | (c == 'e') | (c == 'E') | (c == ' ') | ((c >= '\t') & (c <= '\r'))); v = v * 10 + (c - '0'); }
      { int inf = l == 3 && ((val[0] | 32) == 'i') & ((val[1] | 32) == 'n') & ((val[2] | 32) == 'f'), nan = l == 3 && ((val[0] | 32) == 'n') & ((val[1] | 32) == 'a') & ((val[2] | 32) == 'n'), neg; neg = l == 4 && ((val[1] | 32) == 'i' || (val[1] | 32) == 'n'); int trail = l > 0 && !(num_char(val[l - 1]) | (val[l - 1] == '.')); vh_assume(!(inf | nan | neg)); trax_properties_set(p, "n", val); int g = trax_properties_get_int(p, "n", def); float f = trax_properties_get_float(p, "n", 42.5f);
        if (digits) { vh_assert(g == (int)v, "digits read as another integer"); vh_assert(f == (float)v, "digits read as another real number"); vh_cover("number"); } if (!has || odd || trail) { vh_assert(g == def, "non-numeric text read as an integer"); vh_assert(f == 42.5f, "non-numeric text read as a real number"); vh_cover("typed"); } } break; }
  case 7: { /* many keys: every bucket holds several; n picks one of them, stored again with an arbitrary text */ static char want[200][8]; int at = vh_pick("at", 0, n), hits = 0, vl; for (i = 0; i < n; i++) { sprintf(key, "key%d", i * 7); sprintf(want[i], "v%d", i); trax_properties_set(p, key, want[i]); } vl = vh_string(val, len, "v"); sprintf(key, "key%d", at * 7); trax_properties_set(p, key, val); memcpy(want[at], val, (size_t)vl + 1);
      for (i = 0; i <= n; i++) { char *g; sprintf(key, "key%d", i * 7); g = trax_properties_get(p, key); if (i == n && at != n) { vh_assert(!g, "key never stored"); continue; } vh_assert(g != NULL, "stored key is missing"); if (g) { vh_assert(strlen(g) == strlen(want[i]) && vh_same(g, want[i], strlen(g)), "value of a key"); hits++; } free(g); } vh_assert(trax_properties_count(p) == hits, "count of many keys"); vh_assert(hits == n + (at == n), "number of keys"); vh_cover("map"); break; }
  /* ---- L01 */
  case 10: { trax_object_list *o = trax_object_list_create(n); trax_region *r[4], *s; vh_assert(trax_object_list_count(o) == n, "size of a new list"); for (i = 0; i < n; i++) { r[i] = reg(vh_pick("kind", 0, 3)); trax_object_list_set(o, i, r[i]); trax_properties_set(trax_object_list_properties(o, i), "id", i ? "1" : "0"); } { trax_region *x = reg(1), *y[4]; int at = vh_int("at"), in = (at >= 0) & (at < n); for (i = 0; i < n; i++) y[i] = trax_region_clone(r[i]); if (in) at = (int)vh_concrete((uint64_t)at); vh_assert((trax_object_list_get(o, at) != NULL) == in, "region of an index"); vh_assert((trax_object_list_properties(o, at) != NULL) == in, "properties of an index"); trax_object_list_set(o, at, x); for (i = 0; i < n; i++) { vh_assert(in && i == at ? same_region(trax_object_list_get(o, i), x) : same_region(trax_object_list_get(o, i), r[i]), "list holds another region"); vh_assert(trax_object_list_get(o, i) != r[i], "list shares the region"); } vh_assert(trax_object_list_count(o) == n, "size changed"); for (i = 0; i < n; i++) { spoil(r[i]); trax_region_release(&r[i]); } spoil(x);
        for (i = 0; i < n; i++) { s = trax_object_list_get(o, i); vh_assert((in && i == at) || same_region(s, y[i]), "list shares the content of a region"); vh_assert(trax_properties_get_int(trax_object_list_properties(o, i), "id", -1) == (i ? 1 : 0), "properties changed"); trax_region_release(&y[i]); } if (in) vh_assert(!same_region(trax_object_list_get(o, at), x) , "list shares the content of a region"); trax_region_release(&x); if (in && n > 0) { trax_object_list_set(o, at, trax_object_list_get(o, at)); vh_assert(trax_region_get_type(trax_object_list_get(o, at)) == TRAX_REGION_RECTANGLE, "own region lost"); } } trax_object_list_release(&o); vh_assert(o == NULL, "list pointer kept"); vh_cover("list"); break; }
  case 11: { /* append */ int m = vh_pick("m", 0, k), self = vh_pick("self", 0, 1), t; trax_object_list *o = trax_object_list_create(n), *s = self ? o : trax_object_list_create(m); trax_region *r[8]; if (self) m = n; for (i = 0; i < n; i++) { r[i] = reg(vh_pick("kind", 1, 3)); trax_object_list_set(o, i, r[i]); trax_properties_set_int(trax_object_list_properties(o, i), "id", i); } for (i = 0; i < m; i++) { if (self) { r[n + i] = trax_region_clone(r[i]); continue; } r[n + i] = reg(vh_pick("kind", 0, 2)); trax_object_list_set(s, i, r[n + i]); trax_properties_set_int(trax_object_list_properties(s, i), "id", 100 + i); trax_properties_set(trax_object_list_properties(s, i), "more", "x y"); }
      t = trax_object_list_append(o, s); vh_assert(t == n + m, "size returned by append"); vh_assert(trax_object_list_count(o) == n + m, "size after append"); if (!self) { vh_assert(trax_object_list_count(s) == m, "source size changed"); for (i = 0; i < m; i++) { vh_assert(same_region(trax_object_list_get(s, i), r[n + i]), "source changed"); spoil(trax_object_list_get(s, i)); } trax_object_list_release(&s); } for (i = 0; i < n + m; i++) { trax_properties *x = trax_object_list_properties(o, i); vh_assert(same_region(trax_object_list_get(o, i), r[i]), "appended region differs"); vh_assert(trax_properties_get_int(x, "id", -1) == (i < n ? i : self ? i - n : 100 + i - n), "appended properties differ"); vh_assert(trax_properties_count(x) == 1 + (i >= n && !self), "appended property count"); trax_region_release(&r[i]); } if (n > 0) { trax_properties_set(trax_object_list_properties(o, 0), "id", "55"); if (self && n > 0) vh_assert(trax_properties_get_int(trax_object_list_properties(o, n), "id", -1) == 0, "appended properties are shared"); } trax_object_list_release(&o); vh_cover("list"); break; }
  }
  trax_properties_release(&p); vh_assert(p == NULL, "pointer kept"); if (q) trax_properties_release(&q);
  if (vh_param("only", 0) == 2) { vh_assert(vh_heap_live() == l0, "leak"); vh_cover("released"); }
}
