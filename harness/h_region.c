/* R01 text form, R02 arbitrary text, R03 conversion and bounds, R04 overlap, R05 containment, R06 mask window, R07 rasterization */
#include "vh.h"
#include <float.h>
#include "trax.h"
#include "region.h"
#define R(x) ((region_container *)(x))
static int iabs(int v) { return v < 0 ? -v : v; }
static int imin(int a, int b) { return a < b ? a : b; } static int imax(int a, int b) { return a > b ? a : b; }
static float coord(const char *n, int whole) { /* any float of magnitude below 10^whole */
  static const float L[] = {1, 10, 100, 1000, 1e4f, 1e5f, 1e6f, 1e7f, 1e8f, 1e9f}; float f = vh_f32(n); vh_assume((f > -L[whole]) & (f < L[whole])); return f; }
static float dyad(const char *n, int digits, int div) { /* any whole number of up to so many digits, plus any multiple of 1/div */
  int neg = (int)vh_concrete(vh_sym("sign", 1)); int64_t i = vh_udec(n, digits); int q = vh_pick("part", 0, div - 1); double v = (double)i + (double)q / div; return (float)(neg ? -v : v); }
static float quart(const char *n) { return (float)vh_range(n, -4000, 4000) / 8; }
static int dec32(const char *n) { static const int X[] = {INT32_MIN, INT32_MAX, INT32_MIN + 1, 1000000000, 2147483646, -2000000000}; int e = vh_pick("extreme", 0, 6); return e ? X[e - 1] : (int)vh_dec(n, 9); }
/* read back within the printed decimals (and the spacing of floats) */
static int close4(float a, float b) { if (a == b) return 1; double d = (double)a - (double)b, m = (double)a < 0 ? -(double)a : (double)a; if (d < 0) d = -d; return d <= 0.00005001 + m * 1.2e-7; }
static trax_region *mask_sym(int x, int y, int w, int h, const char *nm, int raw) { /* pixels 0/1, or any byte */
  trax_region *m = trax_region_create_mask(x, y, w, h); for (int i = 0; i < h; i++) { char *r = trax_region_write_mask_row(m, i); for (int j = 0; j < w; j++) { unsigned char c = vh_u8(nm); if (!raw) vh_assume(c <= 1); r[j] = (char)c; } } return m; }
static int pix(const trax_region *m, int x, int y) { int mx, my, w, h; trax_region_get_mask_header(m, &mx, &my, &w, &h); if (x < mx || y < my || x >= mx + w || y >= my + h) return 0; return trax_region_get_mask_row(m, y - my)[x - mx] != 0; }
static trax_region *poly_int(int n, int lo, int hi) { trax_region *p = trax_region_create_polygon(n); for (int i = 0; i < n; i++) { int x = vh_pick("x", lo, hi), y = vh_pick("y", lo, hi); trax_region_set_polygon_point(p, i, (float)x, (float)y); } return p; }
static trax_region *text_copy(const trax_region *r) { char *t = trax_region_encode(r); trax_region *d; vh_assert(t != NULL, "no text"); d = trax_region_decode(t); free(t); vh_assert(d != NULL, "own text refused"); vh_assert(trax_region_get_type(d) == trax_region_get_type(r), "kind changed"); return d; }
static void check_region(trax_region *d, int parsed) { int t = trax_region_get_type(d), i, j, n, w, h; volatile float s = 0; volatile int c = 0; float a, b;
  switch (t) {
  case TRAX_REGION_SPECIAL: c += trax_region_get_special(d); break;
  case TRAX_REGION_RECTANGLE: { float x, y, rw, rh; trax_region_get_rectangle(d, &x, &y, &rw, &rh); break; }
  case TRAX_REGION_POLYGON: n = trax_region_get_polygon_count(d); vh_assert(n >= 3, "polygon of less than three points"); for (i = 0; i < n; i++) { trax_region_get_polygon_point(d, i, &a, &b); uint32_t q; memcpy(&q, &a, 4); c += q & 1; memcpy(&q, &b, 4); c += q & 1; } break;
  case TRAX_REGION_MASK: trax_region_get_mask_header(d, NULL, NULL, &w, &h); vh_assert((w > 0) & (h > 0), "illegal mask size"); if (w <= 0 || h <= 0) break; { const char *p0 = trax_region_get_mask_row(d, 0); c += p0[0]; c += trax_region_get_mask_row(d, h - 1)[w - 1]; if ((long)w * h <= 64) for (i = 0; i < h; i++) for (j = 0; j < w; j++) { char v = trax_region_get_mask_row(d, i)[j]; vh_assert(!parsed | (v == 0) | (v == 1), "pixel neither set nor clear"); c += v; } } break;
  default: vh_assert(0, "region of no kind"); } }
static int same_region(trax_region *a, trax_region *b) { int t = trax_region_get_type(a), i; if (trax_region_get_type(b) != t) return 0;
  if (t == TRAX_REGION_SPECIAL) return trax_region_get_special(a) == trax_region_get_special(b);
  if (t == TRAX_REGION_RECTANGLE) return vh_same(&R(a)->data.rectangle, &R(b)->data.rectangle, sizeof(region_rectangle));
  if (t == TRAX_REGION_POLYGON) { int n = trax_region_get_polygon_count(a); return trax_region_get_polygon_count(b) == n && vh_same(R(a)->data.polygon.x, R(b)->data.polygon.x, sizeof(float) * (size_t)n) && vh_same(R(a)->data.polygon.y, R(b)->data.polygon.y, sizeof(float) * (size_t)n); }
  int x, y, w, h, x2, y2, w2, h2; trax_region_get_mask_header(a, &x, &y, &w, &h); trax_region_get_mask_header(b, &x2, &y2, &w2, &h2); if (!((x == x2) & (y == y2) & (w == w2) & (h == h2))) return 0; for (i = 0; i < h; i++) if (!vh_same(trax_region_get_mask_row(a, i), trax_region_get_mask_row(b, i), (size_t)w)) return 0; return 1; }
static trax_bounds NB() { trax_bounds b = {-FLT_MAX, FLT_MAX, -FLT_MAX, FLT_MAX}; return b; }
static void overlap_laws(trax_region *a, trax_region *b, float o) { float o2 = trax_region_overlap(b, a, NB()); vh_assert((o >= 0) & (o <= 1), "overlap outside 0..1"); vh_assert(o == o2, "overlap depends on the order"); }
static void shift(trax_region *r, int dx, int dy) { region_container *c = R(r); if (c->type == RECTANGLE) { c->data.rectangle.x += (float)dx; c->data.rectangle.y += (float)dy; } else if (c->type == POLYGON) for (int i = 0; i < c->data.polygon.count; i++) { c->data.polygon.x[i] += (float)dx; c->data.polygon.y[i] += (float)dy; } else if (c->type == MASK) { c->data.mask.x += dx; c->data.mask.y += dy; } }
void vh_main(void) {
  int mode = (int)vh_param("mode", 0), n = (int)vh_param("n", 3), k = (int)vh_param("k", 0), lo = (int)vh_param("lo", -2), hi = (int)vh_param("hi", 3), i, j, l0 = vh_heap_live(); trax_region *a = NULL, *b = NULL, *c = NULL; char t[300];
  switch (mode) {
  /* ---- R01 */
  case 0: { int v = dec32("code"); a = trax_region_create_special(v); b = text_copy(a); vh_assert(trax_region_get_special(b) == v, "code changed"); vh_cover("text"); break; }
  case 1: { float v[4] = {-3.25f, 100.5f, 20, 7.125f}, u[4]; v[k] = dyad("v", n, (int)vh_param("div", 16)); a = trax_region_create_rectangle(v[0], v[1], v[2], v[3]); b = text_copy(a); trax_region_get_rectangle(b, &u[0], &u[1], &u[2], &u[3]); for (i = 0; i < 4; i++) vh_assert(close4(v[i], u[i]), "coordinate changed"); vh_cover("text"); break; }
  case 2: { int m = vh_pick("points", 3, 6); a = trax_region_create_polygon(m); for (i = 0; i < m; i++) trax_region_set_polygon_point(a, i, (float)i * 1.5f - 2, -3.0f * (float)i); { int at = vh_pick("at", 0, 2 * m - 1); float f = dyad("v", n, (int)vh_param("div", 4)), x, y; trax_region_get_polygon_point(a, at / 2, &x, &y); trax_region_set_polygon_point(a, at / 2, at & 1 ? x : f, at & 1 ? f : y); }
      b = text_copy(a); vh_assert(trax_region_get_polygon_count(b) == m, "point count changed"); for (i = 0; i < m; i++) { float x, y, x2, y2; trax_region_get_polygon_point(a, i, &x, &y); trax_region_get_polygon_point(b, i, &x2, &y2); vh_assert(close4(x, x2) & close4(y, y2), "point changed"); } vh_cover("text"); break; }
  case 3: { int w = vh_pick("w", 1, n), h = vh_pick("h", 1, (int)vh_param("m", n)), x2, y2, w2, h2; a = mask_sym(-7, 12, w, h, "px", k); b = text_copy(a); trax_region_get_mask_header(b, &x2, &y2, &w2, &h2); vh_assert((x2 == -7) & (y2 == 12) & (w2 == w) & (h2 == h), "placement changed"); for (i = 0; i < h; i++) for (j = 0; j < w; j++) vh_assert((trax_region_get_mask_row(a, i)[j] != 0) == (trax_region_get_mask_row(b, i)[j] != 0), "pixel changed"); vh_cover("text"); break; }
  case 4: { int x = k ? 3 : dec32("x"), y = k ? dec32("y") : -5, x2, y2; a = trax_region_create_mask(k ? 3 : x, y, 2, 1); memcpy(trax_region_write_mask_row(a, 0), "\0\1", 2); b = text_copy(a); trax_region_get_mask_header(b, &x2, &y2, &i, &j); vh_assert((x2 == (k ? 3 : x)) & (y2 == y), "placement changed"); vh_assert(pix(b, x2 + 1, y2) == 1 || x2 == INT32_MAX || x2 > INT32_MAX - 3 || y2 == INT32_MAX, "pixel changed"); vh_cover("text"); break; }
  case 5: { /* long runs: a wide mask with one set pixel anywhere */ int w = (int)vh_param("w", 300), at = vh_pick("at", 0, 5), len = vh_pick("run", 1, 3); static const int P[] = {0, 1, 9, 10, 99, -1}; int p0 = P[at] < 0 ? w - len : P[at]; a = trax_region_create_mask(0, 0, w, 1); memset(trax_region_write_mask_row(a, 0), 0, (size_t)w); memset(trax_region_write_mask_row(a, 0) + p0, 1, (size_t)imin(len, w - p0)); b = text_copy(a); vh_assert(same_region(a, b), "pixels changed"); vh_cover("text"); break; }
  /* ---- R02 */
  case 10: { static const char *H[] = {"", "mask:", "mask:0,0,", "mask:1,2,2,2,", "mask:1,2,2,2,1,", "rect:", "poly:", "special:", "1,2,3,", "1,2,3,4,5,", "1,2,3,4,5,6,", "nan,", "nan,1,2,", ":", "mask:0,0,3,", "mask:-1,-1,1,1,1", "abcdefghijklmnop:", ",,,"}; static const char *T[] = {"", ",1", ",2,2", ",5,6"};
      strcpy(t, H[k]); i = (int)strlen(t); { int l = vh_string(t + i, n, "c"), q; for (q = 0; q < l; q++) vh_assume((t[i + q] != 'x') & (t[i + q] != 'X')); i += l; } strcpy(t + i, T[vh_param("tail", 0)]); { char *e = malloc(strlen(t) + 1); strcpy(e, t); a = trax_region_decode(e); free(e); } if (a) { check_region(a, 1); vh_cover("region"); } else vh_cover("refused"); break; }
  case 11: { static const char *D[] = {"2147483647", "65536", "4294967297", "-1", "1e99", "46341", "0", "0.5", "nan", "2", "-2147483648", "inf"}; int w = vh_pick("w", 0, 11), h = vh_pick("h", 0, 11); if ((w == 0 && h == 9) || (w == 9 && h == 0) || (w == 1 && h == 1)) ; /* sizes that need gigabytes are accepted; only the small ones are built here */
      if ((w == 0 || w == 1 || w == 5) && (h == 0 || h == 1 || h == 5 || h == 9) ) vh_assume((w == 0 && h != 9) || (w == 1 && h == 1) || (w == 1 && h == 0) || (w == 5 && h == 5)); if (w == 9 && h < 2) vh_assume(h == 1); if (w == 5 && h == 1) vh_assume(0); sprintf(t, "mask:%d,0,%s,%s,1,%s,2", k, D[w], D[h], D[vh_pick("r", 0, 11)]); a = trax_region_decode(t); if (a) { check_region(a, 1); vh_cover("region"); } else vh_cover("refused"); break; }
  case 12: { static const char *S[] = {"1e99", "-1e99", "2147483648", "-2147483649", "inf", "-inf", "1,1,1,1e99", "nan,nan,nan,1e99", "nan,0,0,-1e99", "nan,0,0,5", "nan,nan,nan,nan", "nan", "rect:1", "poly:1,2", "poly:1,2,3,4,5,6,7", "mask:1", "special:1,2", "mask:1,2,3", "rect:1,2,3,nan", "mask:1,1,2,2,-1,1", "mask:1,1,2,2,1e99,1", "mask:1,1,2,2,-1e99,1e99", "1,2", "1,2,3", "1,2,3,4,5"}; int s = vh_pick("s", 0, 24); a = trax_region_decode(S[s]); if (s == 9) vh_assert(trax_region_get_special(a) == -5, "legacy code"); if (a) { check_region(a, 1); vh_cover("region"); } else vh_cover("refused"); break; }
  /* ---- R03 */
  case 20: { /* bounds of a polygon, and its rectangle */ int m = k; trax_bounds bb; int tl = 0, tr = 0, tt = 0, tb = 0; a = trax_region_create_polygon(m); for (i = 0; i < m; i++) trax_region_set_polygon_point(a, i, coord("x", 6), coord("y", 6)); bb = trax_region_bounds(a);
      for (i = 0; i < m; i++) { float x, y; trax_region_get_polygon_point(a, i, &x, &y); vh_assert((x >= bb.left) & (x <= bb.right) & (y >= bb.top) & (y <= bb.bottom), "point outside the bounds"); tl |= x == bb.left; tr |= x == bb.right; tt |= y == bb.top; tb |= y == bb.bottom; }
      vh_assert(tl & tr & tt & tb, "bounds are not tight"); vh_cover("bounds"); break; }
  case 21: { int m = k; float x, y, w, h; trax_bounds bb; a = trax_region_create_polygon(m); for (i = 0; i < m; i++) trax_region_set_polygon_point(a, i, (float)vh_range("x", lo, hi), (float)vh_range("y", lo, hi)); bb = trax_region_bounds(a); b = trax_region_convert(a, TRAX_REGION_RECTANGLE); vh_assert(b && trax_region_get_type(b) == TRAX_REGION_RECTANGLE, "no rectangle"); trax_region_get_rectangle(b, &x, &y, &w, &h); vh_assert((x == bb.left) & (y == bb.top), "rectangle elsewhere"); vh_assert((x + w - 1 == bb.right) & (y + h - 1 == bb.bottom), "rectangle of another size"); vh_cover("bounds"); break; }
  case 22: { /* mask: bounds, rectangle, polygon */ int w = vh_pick("w", 1, n), h = vh_pick("h", 1, n), x = vh_range("mx", -1000, 1000), y = vh_range("my", -1000, 1000), l = 99, r = -99, tp = 99, bt = -99; trax_bounds bb; float fx, fy, fw, fh;
      a = mask_sym(x, y, w, h, "px", 1); for (i = 0; i < h; i++) for (j = 0; j < w; j++) if (trax_region_get_mask_row(a, i)[j]) { l = imin(l, j); r = imax(r, j); tp = imin(tp, i); bt = imax(bt, i); }
      bb = trax_region_bounds(a); b = trax_region_convert(a, TRAX_REGION_RECTANGLE); c = trax_region_convert(a, TRAX_REGION_POLYGON);
      if (r >= 0) { vh_assert((bb.left == (float)(x + l)) & (bb.right == (float)(x + r)) & (bb.top == (float)(y + tp)) & (bb.bottom == (float)(y + bt)), "wrong mask bounds"); trax_region_get_rectangle(b, &fx, &fy, &fw, &fh); vh_assert((fx == (float)(x + l)) & (fy == (float)(y + tp)) & (fw == (float)(r - l + 1)) & (fh == (float)(bt - tp + 1)), "wrong mask rectangle");
        trax_bounds cb = trax_region_bounds(c); vh_assert((cb.left == bb.left) & (cb.right == bb.right) & (cb.top == bb.top) & (cb.bottom == bb.bottom), "wrong mask polygon"); vh_cover("bounds"); } break; }
  case 23: { /* rectangle to polygon or mask and back */ int x = vh_range("rx", -1000, 1000), y = vh_range("ry", -1000, 1000), w = k ? vh_pick("w", 1, n) : vh_range("w", 1, 1000), h = k ? vh_pick("h", 1, n) : vh_range("h", 1, 1000); a = trax_region_create_rectangle((float)x, (float)y, (float)w, (float)h); b = trax_region_convert(a, k ? TRAX_REGION_MASK : TRAX_REGION_POLYGON); vh_assert(b != NULL, "no conversion"); c = trax_region_convert(b, TRAX_REGION_RECTANGLE); { float fx, fy, fw, fh; trax_bounds ba = trax_region_bounds(a), bb = trax_region_bounds(b); trax_region_get_rectangle(c, &fx, &fy, &fw, &fh); vh_assert((fx == (float)x) & (fy == (float)y) & (fw == (float)w) & (fh == (float)h), "rectangle changed"); vh_assert((ba.left == bb.left) & (ba.right == bb.right) & (ba.top == bb.top) & (ba.bottom == bb.bottom), "bounds changed"); }
      if (!k) { int l = 0; float px, py; for (i = 0; i < 4; i++) { trax_region_get_polygon_point(b, i, &px, &py); l |= ((px == (float)x) | (px == (float)(x + w - 1))) & ((py == (float)y) | (py == (float)(y + h - 1))) ? 0 : 1; } vh_assert(!l, "polygon point is no corner"); } vh_cover("bounds"); break; }
  case 24: { /* polygon to mask: placed at the bounds, and all of its rows and columns used */ a = poly_int(3, lo, hi); trax_bounds bb = trax_region_bounds(a), mb; int x, y, w, h; b = trax_region_convert(a, TRAX_REGION_MASK); vh_assert(b && trax_region_get_type(b) == TRAX_REGION_MASK, "no mask"); trax_region_get_mask_header(b, &x, &y, &w, &h); vh_assert((x == (int)bb.left) & (y == (int)bb.top) & (x + w - 1 == (int)bb.right) & (y + h - 1 == (int)bb.bottom), "mask elsewhere"); mb = trax_region_bounds(b); if (mb.left <= mb.right) vh_assert((mb.left >= bb.left) & (mb.right <= bb.right) & (mb.top >= bb.top) & (mb.bottom <= bb.bottom), "mask pixels outside the bounds"); vh_cover("bounds"); break; }
  case 25: { /* clone */ int w = 2, h = 2; if (k == 0) a = trax_region_create_special(vh_int("code")); else if (k == 1) { float v[4]; for (i = 0; i < 4; i++) v[i] = vh_f32("v"); a = trax_region_create_rectangle(v[0], v[1], v[2], v[3]); } else if (k == 2) { a = trax_region_create_polygon(n); for (i = 0; i < n; i++) trax_region_set_polygon_point(a, i, vh_f32("x"), vh_f32("y")); } else a = mask_sym(vh_int("mx"), vh_int("my"), w, h, "px", 1);
      b = trax_region_clone(a); c = trax_region_clone(b); vh_assert(same_region(a, b), "clone differs"); if (k == 0) trax_region_set_special(b, 17); else if (k == 1) trax_region_set_rectangle(b, 1, 2, 3, 4); else if (k == 2) for (i = 0; i < n; i++) trax_region_set_polygon_point(b, i, 5, 6); else for (i = 0; i < h; i++) memset(trax_region_write_mask_row(b, i), 9, (size_t)w); trax_region_release(&b); vh_assert(same_region(a, c), "clone is not independent"); vh_cover("bounds"); break; }
  case 26: { /* every conversion of extreme regions is safe */ static const float E[] = {0, 1, -1, 0.5f, 1e10f, -1e10f, 3e38f, -3e38f, 2147483648.0f, 46341}; float f[4]; for (i = 0; i < 4; i++) f[i] = 2; f[k] = E[vh_pick("e", 0, 9)]; f[(k + 1 + n) & 3] = E[vh_pick("e2", 0, 9)]; if (lo) a = trax_region_create_rectangle(f[0], f[1], f[2], f[3]); else { a = trax_region_create_polygon(3); trax_region_set_polygon_point(a, 0, f[0], f[1]); trax_region_set_polygon_point(a, 1, f[2], f[3]); trax_region_set_polygon_point(a, 2, 1, 1); }
      { int tt[] = {TRAX_REGION_SPECIAL, TRAX_REGION_RECTANGLE, TRAX_REGION_POLYGON, TRAX_REGION_MASK}; double w = (double)f[2], h = (double)f[3]; int to = vh_pick("to", 0, 3); if (to == 3) { trax_bounds q = trax_region_bounds(a); vh_assume(!(((double)q.right - q.left + 2) * ((double)q.bottom - q.top + 2) > 5e4 && ((double)q.right - q.left) * ((double)q.bottom - q.top) < 2.2e9)); } b = trax_region_convert(a, tt[to]); if (b) check_region(b, 0); (void)w; (void)h; } vh_cover("bounds"); break; }
  /* ---- R04 */
  case 30: { /* two masks against a pixel count */ int w1 = vh_pick("w1", 1, n), h1 = vh_pick("h1", 1, n), w2 = vh_pick("w2", 1, n), h2 = vh_pick("h2", 1, n), dx = vh_pick("dx", lo, hi), dy = vh_pick("dy", lo, hi), x, y, both = 0, any = 0; a = mask_sym(-1, 1, w1, h1, "p", k); b = mask_sym(-1 + dx, 1 + dy, w2, h2, "q", k);
      for (y = -9; y < 12; y++) for (x = -9; x < 12; x++) { int p = pix(a, x, y), q = pix(b, x, y); both += p & q; any += p | q; } { float o = trax_region_overlap(a, b, NB()); vh_assert(any ? o == (float)both / (float)any : o == 0, "wrong overlap of masks"); overlap_laws(a, b, o); } vh_cover("overlap"); break; }
  case 31: { /* rectangles with whole coordinates */ int w1 = vh_pick("w1", 1, n), h1 = vh_pick("h1", 1, n), w2 = vh_pick("w2", 1, n), h2 = vh_pick("h2", 1, n), dx = vh_pick("dx", lo, hi), dy = k ? vh_pick("dy", lo, hi) : 0, iw = imin(w1, dx + w2) - imax(0, dx), ih = imin(h1, dy + h2) - imax(0, dy), in = iw > 0 && ih > 0 ? iw * ih : 0, sx = vh_pick("place", 0, 2) * 1000 - 1003; a = trax_region_create_rectangle((float)sx, -3, (float)w1, (float)h1); b = trax_region_create_rectangle((float)(sx + dx), (float)(dy - 3), (float)w2, (float)h2);
      float o = trax_region_overlap(a, b, NB()); vh_assert(o == (float)in / (float)(w1 * h1 + w2 * h2 - in), "wrong overlap of rectangles"); overlap_laws(a, b, o); vh_assert(trax_region_overlap(a, a, NB()) == 1, "region does not overlap itself"); vh_cover("overlap"); break; }
  case 32: { /* polygons: laws */ a = poly_int(3, lo, hi); b = k == 0 ? poly_int(3, lo, 1) : k == 1 ? trax_region_create_rectangle((float)vh_pick("rx", lo, hi), (float)vh_pick("ry", lo, hi), (float)vh_pick("rw", 1, 2), (float)vh_pick("rh", 1, 2)) : mask_sym(lo, 0, 2, 2, "q", 0); float o = trax_region_overlap(a, b, NB()), o3; overlap_laws(a, b, o); vh_assert(trax_region_overlap(a, a, NB()) == 1, "region does not overlap itself"); { int far = (k != 2) ; trax_bounds p = trax_region_bounds(a), q = trax_region_bounds(b); if (far) vh_assert(!((p.left > q.right || q.left > p.right || p.top > q.bottom || q.top > p.bottom) && o != 0), "apart regions overlap"); } shift(a, -50, 70); shift(b, -50, 70); o3 = trax_region_overlap(a, b, NB()); vh_assert(o == o3, "overlap depends on the position"); vh_cover("overlap"); break; }
  case 33: { /* empty, special, extreme and apart regions */ trax_region *v[2]; for (i = 0; i < 2; i++) switch (vh_pick("kind", 0, 7)) { case 0: v[i] = trax_region_create_special(vh_pick("code", 0, 2)); break; case 1: v[i] = trax_region_create_mask(0, 0, 2, 2); memset(trax_region_write_mask_row(v[i], 0), 0, 4); break; case 2: v[i] = trax_region_create_rectangle(0, 0, 0, 0); break; case 3: v[i] = trax_region_create_rectangle(5, 5, -3, -3); break; case 4: v[i] = trax_region_create_rectangle(1e9f, 1e9f, 2, 2); break; case 5: v[i] = trax_region_create_rectangle(-3e38f, -3e38f, 3e38f, 3e38f); break; case 6: v[i] = trax_region_create_rectangle(0, 0, 1e6f, 1e6f); break; default: v[i] = trax_region_create_rectangle(0, 0, 2, 2); } a = v[0]; b = v[1]; overlap_laws(a, b, trax_region_overlap(a, b, NB())); vh_cover("overlap"); break; }
  case 34: { /* only pixels within the given bounds count */ int w = vh_pick("w", 1, n), h = vh_pick("h", 1, n), x, y, both = 0, any = 0; trax_bounds bo; int l = vh_pick("bl", -2, 2), tp = vh_pick("bt", -2, 1), r = l + vh_pick("bw", 0, 2), bt = tp + vh_pick("bh", 0, 2); bo.left = (float)l; bo.top = (float)tp; bo.right = (float)r; bo.bottom = (float)bt; a = mask_sym(-1, -1, w, h, "p", 0); b = trax_region_create_rectangle(0, -1, 2, 2); for (y = tp; y <= bt; y++) for (x = l; x <= r; x++) { int p = pix(a, x, y), q = x >= 0 && x <= 1 && y >= -1 && y <= 0; both += p & q; any += p | q; }
      float o = trax_region_overlap(a, b, bo); vh_assert((o >= 0) & (o <= 1), "overlap outside 0..1"); vh_assert(any ? 1 : o == 0, "overlap outside the bounds"); { int pa = 0, qa = 0; for (y = tp; y <= bt; y++) for (x = l; x <= r; x++) { pa |= pix(a, x, y); qa |= x >= 0 && x <= 1 && y >= -1 && y <= 0; } if (pa && qa) vh_assert(o == (float)both / (float)any, "wrong overlap within bounds"); } vh_cover("overlap"); break; }
  /* ---- R05 */
  case 40: { int w = vh_pick("w", 1, n), h = vh_pick("h", 1, n), mx = vh_pick("mx", lo, hi), my = vh_pick("my", lo, hi), in = 0; float x = k ? vh_f32("x") : quart("x"), y = k ? vh_f32("y") : quart("y"); a = mask_sym(mx, my, w, h, "px", 1); for (i = 0; i < h; i++) for (j = 0; j < w; j++) in |= (x >= (float)(mx + j)) & (x < (float)(mx + j + 1)) & (y >= (float)(my + i)) & (y < (float)(my + i + 1)) & (trax_region_get_mask_row(a, i)[j] != 0); vh_assert((trax_region_contains(a, x, y) != 0) == in, "wrong pixel"); vh_cover("contains"); break; }
  case 41: { int mx = vh_int("mx"), my = vh_int("my"); float x = vh_f32("x"), y = vh_f32("y"); a = mask_sym(mx, my, 2, 2, "px", 0); trax_region_contains(a, x, y); vh_cover("contains"); break; }
  case 42: { float rx = (float)vh_range("rx", -1000, 1000), ry = (float)vh_range("ry", -1000, 1000), rw = (float)vh_range("rw", 0, 1000), rh = (float)vh_range("rh", 0, 1000), x = vh_f32("x"), y = vh_f32("y"); a = trax_region_create_rectangle(rx, ry, rw, rh); vh_assert((trax_region_contains(a, x, y) != 0) == ((x >= rx) & (x <= rx + rw) & (y >= ry) & (y <= ry + rh)), "wrong side of an edge"); vh_cover("contains"); break; }
  case 43: { float x = n ? vh_f32("x") : quart("x"), y = n ? vh_f32("y") : quart("y"); trax_bounds q; int r; a = poly_int(k, lo, hi); q = trax_region_bounds(a); r = trax_region_contains(a, x, y); vh_assert(!(r != 0 & !((x >= q.left) & (x <= q.right) & (y >= q.top) & (y <= q.bottom))), "outside the bounds yet inside"); vh_cover("contains"); break; }
  case 44: { float x = vh_f32("x"), y = vh_f32("y"); int code = vh_int("code"); a = trax_region_create_special(code); vh_assert(!trax_region_contains(a, x, y), "special region contains a point"); vh_cover("contains"); break; }
  case 45: { /* strictly inside and strictly outside a rectangular or triangular polygon */ int w = vh_pick("w", 1, n), h = vh_pick("h", 1, n); float x = (float)vh_range("x", -20, 20) / 4, y = (float)vh_range("y", -20, 20) / 4; a = trax_region_create_polygon(k); trax_region_set_polygon_point(a, 0, 0, 0); trax_region_set_polygon_point(a, 1, (float)w, 0); trax_region_set_polygon_point(a, 2, (float)w, (float)h); if (k == 4) trax_region_set_polygon_point(a, 3, 0, (float)h); { int box = (x > 0) & (x < (float)w) & (y > 0) & (y < (float)h), r = trax_region_contains(a, x, y) != 0; if (k == 4) vh_assert(!box | r, "inside point reported outside"); else { vh_assert(!(box & (x * (float)h > y * (float)w)) | r, "inside point reported outside"); vh_assert(!(x * (float)h < y * (float)w) | !r, "outside point reported inside"); } } vh_cover("contains"); break; }
  /* ---- R06 */
  case 50: { int w = vh_pick("w", 1, n), h = vh_pick("h", 1, n), ww = vh_pick("ww", 1, (int)vh_param("win", n)), wh = vh_pick("wh", 1, (int)vh_param("win", n)), x = vh_pick("wx", lo, hi), y = vh_pick("wy", lo, hi); char *o = malloc((size_t)(ww * wh)); memset(o, 7, (size_t)(ww * wh)); a = mask_sym(0, -1, w, h, "px", 1); region_get_mask_offset(R(a), o, x, y, ww, wh); for (i = 0; i < wh; i++) for (j = 0; j < ww; j++) { int px = x + j, py = y + i + 1; char e = px >= 0 && py >= 0 && px < w && py < h ? trax_region_get_mask_row(a, py)[px] : 0; vh_assert(o[i * ww + j] == e, "wrong window pixel"); } if (x == 0 && y == 0) { memset(o, 7, (size_t)(ww * wh)); region_get_mask(R(a), o, ww, wh); for (i = 0; i < wh; i++) for (j = 0; j < ww; j++) { char e = j < w && i + 1 < h ? trax_region_get_mask_row(a, i + 1)[j] : 0; vh_assert(o[i * ww + j] == e, "wrong window pixel"); } } free(o); vh_cover("window"); break; }
  case 51: { /* a window anywhere */ int x = vh_range("wx", -1000000, 1000000), y = vh_range("wy", -1000000, 1000000), mx = vh_range("mx", -1000000, 1000000), my = vh_range("my", -1000000, 1000000); char *o = malloc(4); a = mask_sym(mx, my, 2, 2, "px", 1); memset(o, 7, 4); region_get_mask_offset(R(a), o, x, y, 2, 2); for (i = 0; i < 4; i++) { int px = x + (i & 1) - mx, py = y + (i >> 1) - my, e = 0, q; for (q = 0; q < 4; q++) e |= ((px == (q & 1)) & (py == (q >> 1))) ? R(a)->data.mask.data[q] : 0; vh_assert(o[i] == (char)e, "wrong window pixel"); } free(o); vh_cover("window"); break; }
  /* ---- R07 */
  case 60: { /* rectangle with whole corners, and the same as polygon */ int x = vh_pick("rx", lo, hi), y = vh_pick("ry", lo, hi), w = vh_pick("rw", 1, n), h = vh_pick("rh", 1, n), ox = vh_pick("ox", 0, 1) * -5, W = (int)vh_param("W", 3), H2 = (int)vh_param("H", 2); char *o = malloc((size_t)(W * H2)); memset(o, 7, (size_t)(W * H2)); a = trax_region_create_rectangle((float)(x + ox), (float)(y + ox), (float)w, (float)h); b = trax_region_convert(a, TRAX_REGION_POLYGON); region_get_mask_offset(R(k ? b : a), o, ox, ox, W, H2); for (i = 0; i < H2; i++) for (j = 0; j < W; j++) vh_assert(o[i * W + j] == ((j >= x) & (j < x + w) & (i >= y) & (i < y + h)), "wrong pixel"); free(o); vh_cover("raster"); break; }
  case 61: { /* any polygon stays inside the window, in its bounds, and within the rows */ int W = 3, H2 = 3; char *o = malloc(9); trax_bounds q; memset(o, 7, 9); a = poly_int(k, lo, hi); q = trax_region_bounds(a); region_get_mask_offset(R(a), o, 0, 0, W, H2); for (i = 0; i < H2; i++) for (j = 0; j < W; j++) { vh_assert((o[i * W + j] == 0) | (o[i * W + j] == 1), "pixel left unset"); vh_assert(!o[i * W + j] || ((float)j >= q.left && (float)j <= q.right && (float)i >= q.top && (float)i <= q.bottom), "pixel outside the polygon's bounds"); if (k == 3) { float *px = R(a)->data.polygon.x, *py = R(a)->data.polygon.y; int in = 0, out = 0, e; for (e = 0; e < 3; e++) { float s = (px[(e + 1) % 3] - px[e]) * ((float)i - py[e]) - (py[(e + 1) % 3] - py[e]) * ((float)j - px[e]); in += s > 0; out += s < 0; } vh_assert(!(in == 3 || out == 3) || o[i * W + j] == 1, "pixel inside the polygon not set"); } } { float *px = R(a)->data.polygon.x, *py = R(a)->data.polygon.y; int flat = (px[1] - px[0]) * (py[2] - py[0]) == (px[2] - px[0]) * (py[1] - py[0]); if (k == 3 && !flat) for (i = 0; i < k; i++) { float x, y; trax_region_get_polygon_point(a, i, &x, &y); if (x >= 0 && y >= 0 && x < W && y < H2) vh_assert(o[(int)y * W + (int)x] == 1, "vertex pixel not set"); } } free(o); vh_cover("raster"); break; }
  case 62: { /* coordinates anywhere: k = 3 arbitrary whole x of two points; k = 4 extreme coordinates */ static const float E[] = {0, -1, 1.5f, 3e38f, -3e38f, 2147483647.0f, -2147483648.0f, 4e9f, 1e-30f, 16777217.0f, -0.49999997f, 2.5f}; int W = 2, H2 = 3; char *o = malloc(6); float f[6] = {-1, -1, 0, 3, 4, 1}; if (k == 3) { f[0] = (float)vh_range("u", -8000000, 8000000); f[n] = (float)vh_range("v", -8000000, 8000000); } else { f[n] = E[vh_pick("u", 0, 11)]; f[hi] = E[vh_pick("v", 0, 11)]; }
      a = trax_region_create_polygon(3); for (i = 0; i < 3; i++) trax_region_set_polygon_point(a, i, f[2 * i], f[2 * i + 1]); region_get_mask_offset(R(a), o, 0, 0, W, H2); for (i = 0; i < 6; i++) vh_assert((o[i] == 0) | (o[i] == 1), "pixel left unset"); free(o); vh_cover("raster"); break; }
  case 63: { /* special regions set nothing */ char o[4] = {7, 7, 7, 7}; int code = vh_int("code"); a = trax_region_create_special(code); region_get_mask_offset(R(a), o, 0, 0, 2, 2); vh_assert(!o[0] & !o[1] & !o[2] & !o[3], "pixels of a region without a shape"); vh_cover("raster"); break; }
  }
  if (a) trax_region_release(&a); if (b) trax_region_release(&b); if (c) trax_region_release(&c);
  vh_assert(vh_heap_live() == l0, "leak");
}
