/* C++ interface: W01 sharing and release, W02 agreement with the C interface. */
#include "vh_io.h"
#include <trax.h>
#include <new>
using namespace trax;
static int only; /* 2: T01 leak check instead of the properties */
extern "C" char *vh_getenv(const char *n) { return NULL; }
#define A(c, l) do { int ok_ = (c) ? 1 : 0; if (!only) vh_assert(ok_, l); } while (0)
static std::string text(const char *b, int n) { return std::string(b, (size_t)n); }

/* ---- W01: histories over three wrappers; every object carries an identity in its contents */
static int base; /* arbitrary */
enum { EMPTY = -1, MOVED = -2, NONE = -3 };
static std::string ids(int id) { char t[3] = {'o', (char)('A' + id), 0}; return std::string(t); }
struct R_ { typedef Region T; static T make(int id) { return Region::create_special(base + id); } static int id(const T &o) { return o.type() == TRAX_REGION_SPECIAL ? o.get() - base : EMPTY; } static bool change(T &o, int id) { o.set(base + id); return true; } enum { empty = 1, tests = 1 }; };
struct P_ { typedef Properties T; static T make(int id) { Properties p; p.set("k", id); p.set("c", 7); return p; } static int id(const T &o) { if (o.get("k", -1) >= 0 && o.get("c", -1) != 7) return -9; return o.get("k", -1); } static bool change(T &o, int id) { if (o.size() == 0) o.set("c", 7); o.set("k", id); return true; } enum { empty = 1, tests = 1 }; };
struct I_ { typedef Image T; static T make(int id) { return Image::create_path(ids(id)); } static int id(const T &o) { return o.empty() ? EMPTY : o.get_path()[1] - 'A'; } static bool change(T &o, int id) { return false; } enum { empty = 1, tests = 1 }; };
struct IL_ { typedef ImageList T; static T make(int id) { ImageList l; l.set(Image::create_path(ids(id)), TRAX_CHANNEL_DEPTH); return l; } static int id(const T &o) { return o.has(TRAX_CHANNEL_DEPTH) ? I_::id(o.get(TRAX_CHANNEL_DEPTH)) : EMPTY; } static bool change(T &o, int id) { o.set(Image::create_path(ids(id)), TRAX_CHANNEL_DEPTH); return true; } enum { empty = 1, tests = 0 }; };
struct OL_ { typedef ObjectList T; static T make(int id) { ObjectList l(2); l.set(1, R_::make(id)); return l; } static int id(const T &o) { return o.size() == 2 ? R_::id(o.get(1)) : EMPTY; } static bool change(T &o, int id) { if (o.size() == 0) return false; o.set(1, R_::make(id)); return true; } enum { empty = 1, tests = 1 }; };
struct M_ { typedef Metadata T; static T make(int id) { Metadata m(id, TRAX_IMAGE_PATH, TRAX_CHANNEL_COLOR, ids(id)); m.set_custom("c", ids(id)); return m; } static int id(const T &o) { int f = o.region_formats(); return (f && (o.tracker_name() != ids(f) || o.get_custom("c") != ids(f))) ? -9 : f ? f : EMPTY; } static bool change(T &o, int id) { return false; } enum { empty = 1, tests = 0 }; };
template <class O> static void w_history(int n, int slots) {
  typedef typename O::T T; T *s[3] = {0, 0, 0}; int m[3] = {NONE, NONE, NONE}, next = 1, i;
  for (i = 0; i < slots; i++) { if (vh_pick("first", 0, 1)) { s[i] = new T(O::make(next)); m[i] = next++; } else { s[i] = new T(); m[i] = EMPTY; } }
  while (n-- > 0) {
    int op = vh_pick("op", 0, 6), a = vh_pick("a", 0, slots - 1), b = (op >= 1 && op <= 4) ? vh_pick("b", 0, slots - 1) : a;
    if (m[b] == MOVED && op != 5 && op != 0 && op != 6) vh_stop();
    switch (op) {
      case 0: delete s[a]; s[a] = new T(); m[a] = EMPTY; break;
      case 1: *s[a] = *s[b]; m[a] = m[b]; break;
      case 2: { if (a == b) vh_stop(); T *t = new T(*s[b]); delete s[a]; s[a] = t; m[a] = m[b]; break; }
      case 3: if (a == b) vh_stop(); *s[a] = std::move(*s[b]); m[a] = m[b]; m[b] = MOVED; break;
      case 4: { if (a == b) vh_stop(); T *t = new T(std::move(*s[b])); delete s[a]; s[a] = t; m[a] = m[b]; m[b] = MOVED; break; }
      case 5: *s[a] = O::make(next); m[a] = next++; break;
      case 6: if (m[a] == MOVED) vh_stop(); if (!O::change(*s[a], next)) vh_stop(); m[a] = next++; break;
    }
    for (i = 0; i < slots; i++) if (m[i] != MOVED) { A(O::id(*s[i]) == m[i], "a wrapper does not refer to its object"); if (O::tests) A((bool)*s[i] == (m[i] != EMPTY), "emptiness of a wrapper"); }
  }
  { int order = vh_pick("order", 0, slots - 1); for (i = 0; i < slots; i++) { int k = (i + order) % slots; delete s[k]; s[k] = 0; for (int j = 0; j < slots; j++) if (s[j] && m[j] != MOVED) A(O::id(*s[j]) == m[j], "an object is gone while a wrapper refers to it"); } }
  vh_cover("history");
}
/* elements taken out of lists and put into them live on by themselves */
static void w_elements(int n) {
  int kind = vh_pick("kind", 0, 1), i;
  if (kind == 0) { ObjectList *l = new ObjectList(2), *c = 0; Region r[3] = {R_::make(1), R_::make(2), Region()}; int m[3] = {1, 2, EMPTY}, e[2] = {0, 0}, ce[2] = {0, 0}; l->set(0, R_::make(0)); l->set(1, R_::make(0));
    for (i = 0; i < n; i++) { int op = vh_pick("op", 0, 5), a = vh_pick("a", 0, 2), x = vh_pick("x", 0, 1);
      switch (op) { case 0: if (!l) vh_stop(); if (a == 2) vh_stop(); l->set(x, r[a]); e[x] = m[a]; break; case 1: if (!l) vh_stop(); r[a] = l->get(x); m[a] = e[x]; break; case 2: r[a].set(base + 10 + i); m[a] = 10 + i; break; case 3: if (a || x || !l) vh_stop(); if (c) delete c; c = new ObjectList(*l); ce[0] = e[0]; ce[1] = e[1]; break; case 4: if (a || x || !l) vh_stop(); delete l; l = 0; break; case 5: if (a || !c) vh_stop(); c->set(x, R_::make(20 + i)); ce[x] = 20 + i; break; }
      for (int k = 0; k < 3; k++) A(R_::id(r[k]) == m[k], "a region outside of the list changed"); for (int k = 0; k < 2; k++) { if (l) A(R_::id(l->get(k)) == e[k], "list element"); if (c) A(R_::id(c->get(k)) == ce[k], "element of the copied list"); } }
    delete l; delete c; for (int k = 0; k < 3; k++) A(R_::id(r[k]) == m[k], "a region outside of the list changed"); }
  else { ImageList *l = new ImageList(), *c = 0; Image g[2] = {I_::make(1), I_::make(2)}; int m[2] = {1, 2}, e[2] = {EMPTY, EMPTY}, ce[2] = {EMPTY, EMPTY}; static const int CH[2] = {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_IR};
    for (i = 0; i < n; i++) { int op = vh_pick("op", 0, 5), a = vh_pick("a", 0, 1), x = vh_pick("x", 0, 1);
      switch (op) { case 0: if (!l) vh_stop(); l->set(g[a], CH[x]); e[x] = m[a]; break; case 1: if (!l) vh_stop(); g[a] = l->get(CH[x]); m[a] = e[x]; break; case 2: if (x) vh_stop(); g[a] = I_::make(10 + i); m[a] = 10 + i; break; case 3: if (a || x || !l) vh_stop(); if (c) delete c; c = new ImageList(*l); ce[0] = e[0]; ce[1] = e[1]; break; case 4: if (a || x || !l) vh_stop(); delete l; l = 0; break; case 5: if (a || !c) vh_stop(); c->set(I_::make(15 + i), CH[x]); ce[x] = 15 + i; break; }
      for (int k = 0; k < 2; k++) A(I_::id(g[k]) == m[k], "an image outside of the list changed"); for (int k = 0; k < 2; k++) { if (l) A(I_::id(l->get(CH[k])) == e[k], "list element"); if (c) A(I_::id(c->get(CH[k])) == ce[k], "element of the copied list"); } if (l) A(l->size() == (e[0] != EMPTY) + (e[1] != EMPTY), "number of images"); }
    delete l; delete c; for (int k = 0; k < 2; k++) A(I_::id(g[k]) == m[k], "an image outside of the list changed"); }
  vh_cover("history");
}

/* ---- W02 */
static int eq(const std::string &s, const char *b, int n) { return (int)s.size() == n && vh_same(s.data(), b, (size_t)n); }
static void w_props(int n) { /* every history of accesses, against C properties that are driven alike */
  static const char *K[] = {"a", "kk", "z.z"}; Properties p; trax_properties *c = trax_properties_create(); int i, k; char v[16];
  for (i = 0; i < n; i++) { int op = vh_pick("op", 0, 5); k = op == 3 || op == 4 ? 0 : vh_pick("key", 0, 2);
    switch (op) { case 0: { int l = 1; if (n > 1) { v[0] = (char)(i ? '1' + i : 's'); v[1] = 0; } else l = vh_string(v, 2, "value"); p.set(K[k], text(v, l)); trax_properties_set(c, K[k], v); break; } case 1: { int d = vh_pick("number", -1, 1) * 12; p.set(K[k], d); trax_properties_set_int(c, K[k], d); break; } case 2: { float f = (float)vh_pick("real", -1, 2) * 0.75f; p.set(K[k], f); trax_properties_set_float(c, K[k], f); break; }
      case 3: p.clear(); trax_properties_clear(c); break; case 4: { std::map<std::string, std::string> m; int l = 1; if (n > 1) { v[0] = (char)('m' + i); v[1] = 0; } else l = vh_string(v, 2, "value"); m[K[1]] = text(v, l); m[K[0]] = "x"; p.from_map(m); trax_properties_set(c, K[1], v); trax_properties_set(c, K[0], "x"); break; } case 5: { Properties q(p); q.set(K[k], "other"); q.clear(); break; } } }
  A(p.size() == trax_properties_count(c), "number of properties");
  for (k = 0; k < 3; k++) { char *t = trax_properties_get(c, K[k]); std::string d("none"), g = p.get(K[k], d); A(t ? eq(g, t, (int)strlen(t)) : g == d, "value differs"); if (!t) A(p.get(K[k], (const char *)NULL) == std::string(), "default differs"); A(p.get(K[k], 5) == trax_properties_get_int(c, K[k], 5), "integer differs"); A(p.get(K[k], true) == (trax_properties_get_int(c, K[k], 1) != 0), "truth value differs"); free(t); }
  { std::map<std::string, std::string> m; std::vector<std::string> keys; p.to_map(m); p.to_vector(keys); A((int)m.size() == trax_properties_count(c) && (int)keys.size() == trax_properties_count(c), "number of listed properties"); for (k = 0; k < 3; k++) { char *t = trax_properties_get(c, K[k]); int in = 0; for (size_t j = 0; j < keys.size(); j++) in += keys[j] == K[k]; A(in == (t != NULL) && (int)m.count(K[k]) == in, "listed properties"); if (t) A(eq(m[K[k]], t, (int)strlen(t)), "listed value differs"); free(t); } }
  trax_properties_release(&c); vh_cover("properties");
}
static void same_region(const Region &r, const trax_region *c) {
  A(r.type() == trax_region_get_type(c) && r.empty() == (c == NULL), "kind of region"); A((bool)r == (c != NULL), "presence of a region"); if (!c || r.type() != trax_region_get_type(c)) return;
  switch (r.type()) {
    case TRAX_REGION_SPECIAL: A(r.get() == trax_region_get_special(c), "special code"); break;
    case TRAX_REGION_RECTANGLE: { float a[4] = {0}, b[4] = {0}; r.get(&a[0], &a[1], &a[2], &a[3]); trax_region_get_rectangle(c, &b[0], &b[1], &b[2], &b[3]); A(!memcmp(a, b, sizeof a), "rectangle differs"); break; }
    case TRAX_REGION_POLYGON: { int n = trax_region_get_polygon_count(c), i; A(r.get_polygon_count() == n, "number of points"); for (i = 0; i < n; i++) { float a[2] = {0}, b[2] = {0}; r.get_polygon_point(i, &a[0], &a[1]); trax_region_get_polygon_point(c, i, &b[0], &b[1]); A(!memcmp(a, b, sizeof a), "point differs"); } break; }
    case TRAX_REGION_MASK: { int a[4] = {0}, b[4] = {0}, i; r.get_mask_header(&a[0], &a[1], &a[2], &a[3]); trax_region_get_mask_header(c, &b[0], &b[1], &b[2], &b[3]); A(!memcmp(a, b, sizeof a), "mask differs"); for (i = 0; i < b[3]; i++) A(vh_same(r.get_mask_row(i), trax_region_get_mask_row(c, i), (size_t)b[2]), "mask row differs"); break; }
  }
}
static int ftype(int k) { static const int T[] = {TRAX_REGION_SPECIAL, TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK}; return T[k]; }
static Region mkregion(int k, int sym, trax_region **c) { /* the same region in both interfaces */
  Region r; int i, j;
  switch (k) {
    case 0: { int v = sym ? vh_int("code") : 3; r = Region::create_special(v); *c = trax_region_create_special(v); break; }
    case 1: { float f[4]; for (i = 0; i < 4; i++) f[i] = sym == 1 || (sym == 2 && i == 2) ? (float)vh_range("side", i < 2 ? -4 : 1, 4) : (float)(i + 1); r = Region::create_rectangle(f[0], f[1], f[2], f[3]); *c = trax_region_create_rectangle(f[0], f[1], f[2], f[3]); break; }
    case 2: r = Region::create_polygon(3); *c = trax_region_create_polygon(3); for (i = 0; i < 3; i++) { float x = sym == 1 || (sym == 2 && i == 1) ? (float)vh_range("x", -2, 5) : (float)(i * 3), y = sym == 1 ? (float)vh_range("y", -2, 5) : (float)(i == 1 ? 5 : 0); r.set_polygon_point(i, x, y); trax_region_set_polygon_point(*c, i, x, y); } break;
    case 3: { int x = sym == 1 ? vh_range("mx", -3, 3) : 1, y = 2; r = Region::create_mask(x, y, 2, 2); *c = trax_region_create_mask(x, y, 2, 2); for (i = 0; i < 2; i++) for (j = 0; j < 2; j++) { char v = (char)(sym ? vh_range("bit", 0, 1) : i ^ j); r.write_mask_row(i)[j] = v; trax_region_write_mask_row(*c, i)[j] = v; } break; }
    default: *c = NULL; }
  return r;
}
static void w_region(int k, int conv, int sym) {
  trax_region *c, *d = NULL; Region r = mkregion(k, sym, &c), s(r), e; same_region(r, c); same_region(s, c); same_region(e, NULL);
  if (conv == 4) { Bounds b = r.bounds(); trax_bounds cb = c ? trax_region_bounds(c) : trax_no_bounds; A((b.left == cb.left) & (b.top == cb.top) & (b.right == cb.right) & (b.bottom == cb.bottom), "bounds differ"); { char *t = c ? trax_region_encode(c) : NULL; std::string g = r; A(t ? eq(g, t, (int)strlen(t)) : g.empty(), "text differs"); free(t); } if (k > 0) { float x = (float)vh_range("px", -6, 6) / 2, y = 1; A(r.contains(x, y) == (c && trax_region_contains(c, x, y) != 0), "containment differs"); } }
  else if (conv == 5) { for (int q = 0; q < 5; q++) { trax_region *oc; Region o = mkregion(q, 0, &oc); trax_bounds all = trax_no_bounds; float a, b; if (k == 0 || q == 0) { if (oc) trax_region_release(&oc); continue; } a = r.overlap(o); b = (c && oc) ? trax_region_overlap(c, oc, all) : 0; A(a == b, "overlap differs"); { trax_bounds w; w.left = 0; w.top = 0; w.right = (float)vh_pick("right", 1, 4); w.bottom = 3; Bounds W(0, 0, w.right, 3); a = r.overlap(o, W); b = (c && oc) ? trax_region_overlap(c, oc, w) : 0; A(a == b, "bounded overlap differs"); } if (oc) trax_region_release(&oc); } }
  else { d = trax_region_convert(c, ftype(conv)); Region q = r.convert(ftype(conv)); same_region(q, d); if (d && q) { /* the result is independent */ q.set(77); same_region(r, c); } if (d) trax_region_release(&d); }
  /* changing one of two wrappers leaves the other one alone */
  if (conv == 0 && c) { s.set(5); A(s.type() == TRAX_REGION_SPECIAL && s.get() == 5, "special code is not set"); same_region(r, c); s = r; s.set(1, 2, 3, 4); { float f[4]; A(s.type() == TRAX_REGION_RECTANGLE, "rectangle is not set"); s.get(&f[0], &f[1], &f[2], &f[3]); A(f[0] == 1 && f[1] == 2 && f[2] == 3 && f[3] == 4, "rectangle is not set"); } same_region(r, c);
    if (k == 2) { float x, y; s = r; s.set_polygon_point(1, 40, 41); s.get_polygon_point(1, &x, &y); A(x == 40 && y == 41, "point is not set"); same_region(r, c); } r.set(9); A(r.get() == 9, "special code is not set"); r.set(8); A(r.get() == 8, "special code is not set again"); }
  if (c) trax_region_release(&c); vh_cover("region");
}
static void w_image(int n) {
  int k = vh_pick("kind", 0, 4); char t[16]; Image g; int i, j;
  switch (k) {
    case 0: { int l = vh_string(t, n, "path"); g = Image::create_path(text(t, l)); A(g.type() == TRAX_IMAGE_PATH && eq(g.get_path(), t, l), "path differs"); break; }
    case 1: { int l = vh_string(t, n, "url"); g = Image::create_url(text(t, l)); if (g) A(g.type() == TRAX_IMAGE_URL && eq(g.get_url(), t, l), "url differs"); break; }
    case 2: { static const int F[] = {TRAX_IMAGE_MEMORY_GRAY8, TRAX_IMAGE_MEMORY_GRAY16, TRAX_IMAGE_MEMORY_RGB}, D[] = {1, 2, 3}; int f = vh_pick("format", 0, 2), w = vh_pick("w", 1, 2), h = vh_pick("h", 1, 2), a = 0, b = 0, c = 0; char px[2][6]; g = Image::create_memory(w, h, F[f]); A(g.type() == TRAX_IMAGE_MEMORY, "kind of image"); g.get_memory_header(&a, &b, &c); A(a == w && b == h && c == F[f], "header differs"); for (i = 0; i < h; i++) for (j = 0; j < w * D[f]; j++) g.write_memory_row(i)[j] = px[i][j] = (char)vh_u8("pixel"); { Image o(g); for (i = 0; i < h; i++) A(vh_same(o.get_memory_row(i), px[i], (size_t)(w * D[f])), "row differs"); } break; }
    case 3: { static const char PNG[] = "\x89PNG\r\n\x1a\n"; char d[12]; int l = 0, f = 0; const char *q; memcpy(d, PNG, 8); for (i = 8; i < 12; i++) d[i] = (char)vh_u8("byte"); g = Image::create_buffer(12, d); A(g.type() == TRAX_IMAGE_BUFFER, "kind of image"); q = g.get_buffer(&l, &f); A(l == 12 && f == TRAX_IMAGE_BUFFER_PNG && vh_same(q, d, 12), "buffer differs"); break; }
    default: A(g.empty() && g.type() == TRAX_IMAGE_EMPTY && !g, "empty image"); }
  { int ch = vh_int("channel"), at = vh_int("at"), known = (ch == 1) | (ch == 2) | (ch == 4); ImageList l; l.set(g, ch); int has = l.has(at); A(has == (known & (at == ch) & (k != 4)), "presence in the list"); A(l.size() == (int)(known & (k != 4)), "number of images"); Image o = l.get(at); A(o.type() == (has ? g.type() : TRAX_IMAGE_EMPTY), "image in the list"); ImageList e; A(e.size() == 0 && !e.has(ch), "fresh list"); }
  vh_cover("image");
}
static void w_list(int n) {
  int i; ObjectList l(n); int idx = vh_int("index"), at = vh_int("at"), in = (at >= 0) & (at < n); A(l.size() == n, "number of objects"); l.set(idx, Region::create_special(5)); Region r = l.get(at); A(in ? r.type() == TRAX_REGION_SPECIAL : r.empty(), "region in the list"); if (in) A(r.get() == (idx == at ? 5 : 0), "region in the list"); Properties p = l.properties(at); A(p.size() == 0, "properties in the list"); p.set("a", 1); A(l.properties(at).size() == 0, "properties of the list changed");
  ObjectList e; A(e.size() == 0, "empty list"); e.set(idx, r); A(e.get(at).empty() && e.properties(at).size() == 0, "empty list"); for (i = 0; i < n; i++) A(l.get(i).get() == (idx == i ? 5 : 0), "region in the list"); vh_cover("list");
}
static void w_meta(int n) {
  char t[3][8], v[8]; int l[3], i, has = vh_pick("has", 0, 7), vl, rf = vh_range("rf", 0, 15), im = vh_range("im", 0, 15), ch = vh_range("ch", 1, 7), which = vh_pick("which", 0, 2);
  for (i = 0; i < 3; i++) { l[i] = 0; t[i][0] = 0; if (!(has & (1 << i))) continue; if (i == which) { l[i] = vh_string(t[i], n, "text"); } else { strcpy(t[i], "x y"); l[i] = 3; } }
  Metadata m(rf, im, ch, text(t[0], l[0]), text(t[1], l[1]), text(t[2], l[2])); vl = vh_string(v, 2, "value"); m.set_custom("key", text(v, vl)); Metadata c(m), d; d = m;
  for (i = 0; i < 3; i++) { const Metadata &q = i == 0 ? m : i == 1 ? c : d; A(q.region_formats() == rf && q.image_formats() == im && q.channels() == ch, "formats differ"); A(eq(q.tracker_name(), t[0], l[0]) && eq(q.tracker_description(), t[1], l[1]) && eq(q.tracker_family(), t[2], l[2]), "descriptions differ"); A(eq(q.get_custom("key"), v, vl) && q.get_custom("other").empty(), "custom property differs"); }
  vh_cover("metadata");
}
/* ---- sessions: one endpoint in C++, the other one in C */
static trax_metadata *cmeta(int rf, int im, int ch, int multi) { trax_metadata *m = trax_metadata_create(rf, im, ch, "name", NULL, NULL, multi ? TRAX_METADATA_MULTI_OBJECT : 0); trax_properties_set(m->custom, "cust", "yes"); return m; }
static int rect_is(const Region &r, float a, float b, float c, float d) { float f[4]; if (r.type() != TRAX_REGION_RECTANGLE) return 0; r.get(&f[0], &f[1], &f[2], &f[3]); return (f[0] == a) & (f[1] == b) & (f[2] == c) & (f[3] == d); }
static int crect_is(trax_region *r, float a, float b, float c, float d) { float f[4]; if (!r || trax_region_get_type(r) != TRAX_REGION_RECTANGLE) return 0; trax_region_get_rectangle(r, &f[0], &f[1], &f[2], &f[3]); return (f[0] == a) & (f[1] == b) & (f[2] == c) & (f[3] == d); }
static int cprop_is(trax_properties *p, const char *k, char v) { char *g = trax_properties_get(p, k); int ok = g && g[0] == v && !g[1]; free(g); return ok; }
static char letter() { return (char)vh_range("value", 'a', 'z'); }
static void s_client(int n) { /* C++ client, C server */
  int version = vh_pick("version", 3, 4), objs = version < 4 ? 1 : vh_pick("objects", 1, 2), list = version < 4 ? 0 : vh_pick("list", 0, 1), i, k; trax_metadata *m = cmeta(TRAX_REGION_RECTANGLE | TRAX_REGION_POLYGON, TRAX_IMAGE_PATH | TRAX_IMAGE_MEMORY, TRAX_CHANNEL_COLOR | TRAX_CHANNEL_IR, version >= 4);
  if (!list && objs > 1) vh_stop();
  trax_handle *s = trax_server_setup_file_v(m, 0, 1, trax_no_log, version); trax_metadata_release(&m);
  { Client c(1, 0, Logging()); int v = 0; A((bool)c && c.is_alive(), "client is not created"); if (!c) return; A(c.get_parameter(TRAX_PARAMETER_VERSION, &v) == 1 && v == version, "version differs");
    { const Metadata q = c.metadata(); A(q.region_formats() == (TRAX_REGION_RECTANGLE | TRAX_REGION_POLYGON) && q.image_formats() == (TRAX_IMAGE_PATH | TRAX_IMAGE_MEMORY) && q.channels() == (TRAX_CHANNEL_COLOR | TRAX_CHANNEL_IR) && q.tracker_name() == "name" && q.get_custom("cust") == "yes", "metadata differs"); }
    for (k = 0; k < n; k++) {
      char pv = letter(), rv = letter(), img[2] = {letter(), 0}; int w = vh_range("width", 1, 9), code; ImageList il; Properties p; p.set("prop", std::string(1, pv)); il.set(Image::create_path(std::string("/") + img), TRAX_CHANNEL_IR); { Image g = Image::create_memory(1, 1, TRAX_IMAGE_MEMORY_GRAY8); g.write_memory_row(0)[0] = pv; il.set(g, TRAX_CHANNEL_COLOR); }
      if (k == 0) { if (list) { ObjectList o(objs); for (i = 0; i < objs; i++) o.set(i, Region::create_rectangle((float)i, 0, (float)w, 3)); code = c.initialize(il, o, p); } else code = c.initialize(il, Region::create_rectangle(0, 0, (float)w, 3), p); } else if (list && version >= 4) code = c.frame(il, ObjectList(), p); else code = c.frame(il, p);
      A(code == TRAX_OK && c.get_error().empty(), "request is refused");
      /* the C server */
      { trax_image_list *gl = NULL; trax_region *r = NULL; trax_object_list *o = NULL; trax_properties *q = trax_properties_create(); int got = version < 4 ? trax_server_wait_sot(s, &gl, &r, q) : trax_server_wait_mot(s, &gl, &o, q); A(got == (k == 0 ? TRAX_INITIALIZE : TRAX_FRAME), "request does not arrive");
        if (gl) { A(!strcmp(trax_image_get_path(trax_image_list_get(gl, TRAX_CHANNEL_IR)), (std::string("/") + img).c_str()), "path differs"); A(trax_image_get_memory_row(trax_image_list_get(gl, TRAX_CHANNEL_COLOR), 0)[0] == pv, "pixel differs"); A(trax_image_list_get(gl, TRAX_CHANNEL_DEPTH) == NULL, "image on an unused channel"); }
        if (version < 4) A(cprop_is(q, "prop", pv), "property differs"); else if (k > 0) A(cprop_is(q, "prop", pv), "property differs"); if (k == 0) { if (version < 4) A(crect_is(r, 0, 0, (float)w, 3), "region differs"); else { A(o && trax_object_list_count(o) == objs, "number of objects"); for (i = 0; i < objs; i++) A(crect_is(trax_object_list_get(o, i), (float)i, 0, (float)w, 3), "region differs"); } }
        trax_image_list_clear(gl); trax_image_list_release(&gl); if (r) trax_region_release(&r); if (o) trax_object_list_release(&o); trax_properties_release(&q); }
      { trax_object_list *o = trax_object_list_create(objs); for (i = 0; i < objs; i++) { trax_region *r = trax_region_create_rectangle((float)w, (float)i, 2, 2); trax_object_list_set(o, i, r); trax_region_release(&r); char t[2] = {rv, 0}; trax_properties_set(trax_object_list_properties(o, i), "rep", t); } if (version < 4) A(trax_server_reply_sot(s, trax_object_list_get(o, 0), trax_object_list_properties(o, 0)) == TRAX_OK, "reply is refused"); else A(trax_server_reply_mot(s, o) == TRAX_OK, "reply is refused"); trax_object_list_release(&o); }
      if (list) { ObjectList o; Properties q; A(c.wait(o, q) == TRAX_STATE, "reply does not arrive"); A(o.size() == objs, "number of objects"); for (i = 0; i < o.size(); i++) { A(rect_is(o.get(i), (float)w, (float)i, 2, 2), "replied region differs"); A(eq(o.properties(i).get("rep", "-"), &rv, 1), "replied property differs"); } } else { Region r; Properties q; A(c.wait(r, q) == TRAX_STATE, "reply does not arrive"); A(rect_is(r, (float)w, 0, 2, 2), "replied region differs"); A(eq(q.get("rep", "-"), &rv, 1), "replied property differs"); }
    }
    switch (vh_pick("end", 0, 2)) { case 0: { char why[2] = {letter(), 0}; A(c.terminate(why), "terminate fails"); A(!c.is_alive(), "terminated session is alive"); ImageList il; A(c.frame(il, Properties()) == TRAX_ERROR && !c.get_error().empty(), "call on a terminated session is accepted"); trax_image_list *gl = NULL; trax_region *r = NULL; trax_object_list *o = NULL; trax_properties *q = trax_properties_create(); int got = version < 4 ? trax_server_wait_sot(s, &gl, &r, q) : trax_server_wait_mot(s, &gl, &o, q); A(got == TRAX_QUIT, "quit does not arrive"); if (version < 4) A(cprop_is(q, "trax.reason", why[0]), "reason differs"); trax_properties_release(&q); break; }
      case 1: { trax_terminate(s, NULL); if (list) { ObjectList o; Properties q; A(c.wait(o, q) == TRAX_QUIT && o.size() == 0, "quit does not arrive"); } else { Region r; Properties q; A(c.wait(r, q) == TRAX_QUIT && r.empty(), "quit does not arrive"); } A(!c.is_alive(), "terminated session is alive"); break; }
      default: { Client d(c); A(d.is_alive(), "copied client"); } A(c.is_alive(), "session ends with a copy"); } }
  trax_cleanup(&s); vh_cover("dialogue");
}
static trax_image_list *cimages(char a) { trax_image_list *l = trax_image_list_create(); char t[3] = {'/', a, 0}; trax_image_list_set(l, trax_image_create_path(t), TRAX_CHANNEL_COLOR); t[1] = 'd'; trax_image_list_set(l, trax_image_create_path(t), TRAX_CHANNEL_DEPTH); return l; }
template <class S> static int swait(S &s, ImageList &i, Region &r, ObjectList &o, Properties &p, int list);
template <> int swait(ServerSOT &s, ImageList &i, Region &r, ObjectList &o, Properties &p, int list) { return s.wait(i, r, p); }
template <> int swait(ServerMOT &s, ImageList &i, Region &r, ObjectList &o, Properties &p, int list) { return list ? s.wait(i, o, p) : s.wait(i, r, p); }
template <class S> static int sreply(S &s, const Region &r, const ObjectList &o, const Properties &p, int list);
template <> int sreply(ServerSOT &s, const Region &r, const ObjectList &o, const Properties &p, int list) { return s.reply(r, p); }
template <> int sreply(ServerMOT &s, const Region &r, const ObjectList &o, const Properties &p, int list) { return list ? s.reply(o) : s.reply(r, p); }
template <class S> static void s_server(int n, int mot) { /* C++ server on the standard streams, C client */
  int list = mot ? vh_pick("list", 0, 1) : 0, objs = list ? vh_pick("objects", 1, 2) : 1, i, k; Metadata md(TRAX_REGION_RECTANGLE, TRAX_IMAGE_PATH, TRAX_CHANNEL_COLOR | TRAX_CHANNEL_DEPTH, "cpp", "", "", list ? TRAX_METADATA_MULTI_OBJECT : 0); md.set_custom("cust", "yes");
  { S s(md, Logging()); trax_handle *c = trax_client_setup_file(1, 0, trax_no_log); ImageList il; Region r; ObjectList o; Properties p; A((bool)s && c, "session is not created"); if (!c) return;
    A(c->version == (mot ? 4 : 3) && !strcmp(c->metadata->tracker_name, "cpp") && c->metadata->format_region == TRAX_REGION_RECTANGLE && c->metadata->channels == 3, "announced metadata"); { char *g = trax_properties_get(c->metadata->custom, "cust"); A(g && !strcmp(g, "yes"), "announced custom property"); free(g); }
    for (k = 0; k < n; k++) { char iv = letter(), pv = letter(), rv = letter(), pt[2] = {pv, 0}; int w = vh_range("width", 1, 9); trax_image_list *gl = cimages(iv); trax_properties *q = trax_properties_create(); trax_properties_set(q, "prop", pt);
      if (k == 0) { trax_object_list *ol = trax_object_list_create(objs); for (i = 0; i < objs; i++) { trax_region *t = trax_region_create_rectangle((float)i, 1, (float)w, 2); trax_object_list_set(ol, i, t); trax_region_release(&t); trax_properties_set(trax_object_list_properties(ol, i), "own", pt); } A(trax_client_initialize(c, gl, ol, q) == TRAX_OK, "request is refused"); trax_object_list_release(&ol); } else A(trax_client_frame(c, gl, NULL, q) == TRAX_OK, "request is refused");
      trax_properties_release(&q); trax_image_list_clear(gl); trax_image_list_release(&gl);
      { ImageList before(il); int bn = before.size(); A(swait(s, il, r, o, p, list) == (k == 0 ? TRAX_INITIALIZE : TRAX_FRAME), "request does not arrive"); A(before.size() == bn, "an earlier list changed"); }
      { std::string path = il.get(TRAX_CHANNEL_COLOR).get_path(); A(il.size() == 2 && path.size() == 2 && path[0] == '/' && path[1] == iv && il.get(TRAX_CHANNEL_DEPTH).get_path() == "/d", "images differ"); }
      if (k == 0) { if (list) { A(o.size() == objs, "number of objects"); for (i = 0; i < o.size(); i++) { A(rect_is(o.get(i), (float)i, 1, (float)w, 2), "region differs"); A(eq(o.properties(i).get("own", "-"), &pv, 1), "property of an object differs"); } } else A(rect_is(r, 0, 1, (float)w, 2), "region differs"); if (!mot) A(eq(p.get("prop", "-"), &pv, 1), "property differs"); else if (!list) A(eq(p.get("own", "-"), &pv, 1), "property of the object differs"); } else A(eq(p.get("prop", "-"), &pv, 1), "property differs");
      { ObjectList ro(objs); Properties rp; rp.set("rep", std::string(1, rv)); for (i = 0; i < objs; i++) ro.set(i, Region::create_rectangle((float)w, (float)i, 3, 3)); if (k == 0) { int sent = vh_ch[1].len; A(sreply(s, Region(), ObjectList(), rp, list) == TRAX_ERROR && !s.get_error().empty() && vh_ch[1].len == sent, "reply without a region"); } A(sreply(s, Region::create_rectangle((float)w, 0, 3, 3), ro, rp, list) == TRAX_OK, "reply is refused"); A(rp.size() == 1, "reply changes the properties"); }
      { trax_object_list *ol = NULL; trax_properties *rp = trax_properties_create(); A(trax_client_wait(c, &ol, rp) == TRAX_STATE, "reply does not arrive"); A(ol && trax_object_list_count(ol) == objs, "number of objects"); if (ol) { for (i = 0; i < objs; i++) A(crect_is(trax_object_list_get(ol, i), (float)w, (float)i, 3, 3), "replied region differs"); if (!list) A(cprop_is(trax_object_list_properties(ol, 0), "rep", rv), "replied property differs"); trax_object_list_release(&ol); } trax_properties_release(&rp); }
    }
    if (vh_pick("end", 0, 1)) { trax_terminate(c, NULL); A(swait(s, il, r, o, p, list) == TRAX_QUIT, "quit does not arrive"); A(!s.is_alive(), "terminated session is alive"); } else { s.terminate("x"); trax_object_list *ol = NULL; trax_properties *rp = trax_properties_create(); A(trax_client_wait(c, &ol, rp) == TRAX_QUIT && !ol, "quit does not arrive"); trax_properties_release(&rp); }
    A(sreply(s, r, o, p, list) == TRAX_ERROR && !s.get_error().empty(), "reply on a terminated session is accepted");
    trax_cleanup(&c); }
  vh_cover("dialogue");
}
static void s_none() { /* wrappers without a session, and empty arguments on one */
  Client c(1, 0, Logging()); int v, how = vh_pick("how", 0, 1); Region r; Properties p; ObjectList o; ImageList il; A(!c && !c.is_alive() && c.get_error().empty(), "client without a server"); A(!c.terminate("x") && c.get_parameter(TRAX_PARAMETER_VERSION, &v) == TRAX_ERROR && c.set_parameter(1, 1) == TRAX_ERROR, "call without a session"); A(c.wait(r, p) == TRAX_ERROR && c.wait(o, p) == TRAX_ERROR && c.initialize(il, r, p) == TRAX_ERROR && c.initialize(il, o, p) == TRAX_ERROR && c.frame(il, p) == TRAX_ERROR && c.frame(il, o, p) == TRAX_ERROR, "call without a session"); A(vh_ch[0].len == 0, "bytes without a session");
  { int version = how ? 4 : 3; vh_ch[1].len = vh_ch[1].pos = 0; trax_metadata *m = cmeta(TRAX_REGION_RECTANGLE, TRAX_IMAGE_PATH, TRAX_CHANNEL_COLOR, how); trax_handle *s = trax_server_setup_file_v(m, 0, 1, trax_no_log, version); trax_metadata_release(&m); { Client d(1, 0, Logging()); A((bool)d, "client is not created"); ImageList full; full.set(Image::create_path("/x"), TRAX_CHANNEL_COLOR); A(d.initialize(full, Region(), Properties()) == TRAX_ERROR, "request without a region"); A(d.initialize(il, Region::create_special(1), p) == TRAX_ERROR, "request without an image"); A(d.initialize(full, ObjectList(), p) == TRAX_ERROR, "request without objects"); A(vh_ch[0].len == 0, "bytes of a refused request"); } trax_cleanup(&s); }
  vh_cover("none");
}
template <class O> static void hist(int n) { w_history<O>(n, (int)vh_param("slots", 3)); }
extern "C" void vh_main(void) {
  int n = (int)vh_param("n", 2), k = (int)vh_param("k", 0), before = vh_heap_live(); only = (int)vh_param("only", 0);
  switch (vh_param("mode", 0)) {
    case 0: base = vh_range("base", 0, 100000); hist<R_>(n); break; case 1: hist<P_>(n); break; case 2: hist<I_>(n); break; case 3: hist<IL_>(n); break; case 4: base = vh_range("base", 0, 100000); hist<OL_>(n); break; case 5: hist<M_>(n); break; case 6: base = vh_range("base", 0, 100000); w_elements(n); break;
    case 10: w_props(n); break; case 11: w_region(k, (int)vh_param("conv", 0), (int)vh_param("sym", 1)); break; case 12: w_image(n); break; case 13: w_list(n); break; case 14: w_meta(n); break;
    case 20: s_client(n); break; case 21: s_server<ServerSOT>(n, 0); break; case 22: s_server<ServerMOT>(n, 1); break; case 23: s_none(); break;
  }
  if (only != 1) { vh_assert(vh_heap_live() == before, "an object is not released"); vh_cover("released"); }
}
