/* I01 transport of images, I02 arbitrary image text, I03 rows, I04 image lists */
#include "vh.h"
#include "trax.h"
char *image_encode(trax_image *image); trax_image *image_decode(char *buffer);
static int bpp(int f) { return f == TRAX_IMAGE_MEMORY_RGB ? 3 : f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 1; }
static const int FM[] = {TRAX_IMAGE_MEMORY_GRAY8, TRAX_IMAGE_MEMORY_GRAY16, TRAX_IMAGE_MEMORY_RGB};
static void check_decoded(trax_image *im) { /* storage covers what the image declares */
  int t = trax_image_get_type(im), i, w, h, f, l; volatile unsigned char s = 0; const char *d;
  switch (t) {
  case TRAX_IMAGE_PATH: l = (int)strlen(trax_image_get_path(im)); break;
  case TRAX_IMAGE_URL: l = (int)strlen(trax_image_get_url(im)); break;
  case TRAX_IMAGE_MEMORY: trax_image_get_memory_header(im, &w, &h, &f); vh_assert((w > 0) & (h > 0), "illegal dimensions accepted"); vh_assert((f == FM[0]) | (f == FM[1]) | (f == FM[2]), "illegal pixel format accepted");
    for (i = 0; i < h; i++) { d = trax_image_get_memory_row(im, i); for (l = 0; l < w * bpp(f); l++) s ^= (unsigned char)d[l]; } break;
  case TRAX_IMAGE_BUFFER: d = trax_image_get_buffer(im, &l, &f); vh_assert((f == TRAX_IMAGE_BUFFER_JPEG) | (f == TRAX_IMAGE_BUFFER_PNG), "illegal buffer format accepted"); vh_assert(l >= 0, "negative length"); for (i = 0; i < l; i++) s ^= (unsigned char)d[i]; break;
  default: vh_assert(0, "image of no kind");
  }
}
void vh_main(void) {
  int mode = (int)vh_param("mode", 0), n = (int)vh_param("n", 3), i, j, l0 = vh_heap_live(); char *e; trax_image *im, *d; char t[200];
  if (mode == 0) { int k = vh_string(t, n, "c"); im = trax_image_create_path(t); e = image_encode(im); d = image_decode(e); vh_assert(d != NULL, "path lost"); vh_assert(trax_image_get_type(d) == TRAX_IMAGE_PATH, "kind changed"); vh_assert((int)strlen(trax_image_get_path(d)) == k, "path length changed"); vh_assert(vh_same(trax_image_get_path(d), t, (size_t)k), "path changed"); vh_cover("transported"); }
  else if (mode == 1) { /* an URL of any scheme that does not name one of the other kinds */
    static const char *S[] = {"http://", "https://", "ftp://", "a:", "images:", "fil:", "dat:", "files://", "imag:", "data-x:", "git+ssh://", "abcdefghijklmno:"}; int k = (int)vh_param("k", -1), m = 0, c;
    if (k >= 0) { strcpy(t, S[k]); m = (int)strlen(t); } else { m = vh_pick("sl", 1, 5); for (i = 0; i < m; i++) { c = vh_u8("s"); vh_assume(((c >= 'a') & (c <= 'z')) | (c == '+') | (c == '.') | (c == '-')); t[i] = (char)c; } t[m] = 0; vh_assume(!((m == 4 && (memcmp(t, "file", 4) == 0 || memcmp(t, "data", 4) == 0)) || (m == 5 && memcmp(t, "image", 5) == 0))); t[m++] = ':'; }
    m += vh_string(t + m, n, "c"); im = trax_image_create_url(t); e = image_encode(im); d = image_decode(e); vh_assert(d != NULL, "url lost"); vh_assert(trax_image_get_type(d) == TRAX_IMAGE_URL, "kind changed"); vh_assert((int)strlen(trax_image_get_url(d)) == m, "url length changed"); vh_assert(vh_same(trax_image_get_url(d), t, (size_t)m), "url changed"); vh_cover("transported"); }
  else if (mode == 2) { int w = vh_pick("w", 1, n), h = vh_pick("h", 1, (int)vh_param("m", n)), f = FM[vh_param("k", 0)], L = w * bpp(f), w2, h2, f2;
    char *src = malloc((size_t)(L * h)); vh_bytes(src, L * h, "px"); im = trax_image_create_memory(w, h, f); for (i = 0; i < h; i++) memcpy(trax_image_write_memory_row(im, i), src + i * L, (size_t)L);
    e = image_encode(im); d = image_decode(e); vh_assert(d != NULL, "image lost"); vh_assert(trax_image_get_type(d) == TRAX_IMAGE_MEMORY, "kind changed"); trax_image_get_memory_header(d, &w2, &h2, &f2); vh_assert((w2 == w) & (h2 == h), "dimensions changed"); vh_assert(f2 == f, "pixel format changed");
    for (i = 0; i < h; i++) vh_assert(vh_same(trax_image_get_memory_row(d, i), src + i * L, (size_t)L), "pixels changed"); free(src); vh_cover("transported"); }
  else if (mode == 3) { int L = vh_pick("len", 5, 5 + n), png = vh_pick("png", 0, 1), l2, f2; char *src = malloc((size_t)L); vh_bytes(src, L, "by"); memcpy(src, png ? "\x89PNG" : "\xff\xd8\xff\xe0", 4);
    im = trax_image_create_buffer(L, src); const char *p = trax_image_get_buffer(im, &l2, &f2); vh_assert(l2 == L, "length"); vh_assert(f2 == (png ? TRAX_IMAGE_BUFFER_PNG : TRAX_IMAGE_BUFFER_JPEG), "format recognised"); vh_assert(vh_same(p, src, (size_t)L), "bytes stored");
    e = image_encode(im); d = image_decode(e); vh_assert(d != NULL, "image lost"); vh_assert(trax_image_get_type(d) == TRAX_IMAGE_BUFFER, "kind changed"); p = trax_image_get_buffer(d, &l2, &f2); vh_assert(l2 == L, "length changed"); vh_assert(f2 == (png ? TRAX_IMAGE_BUFFER_PNG : TRAX_IMAGE_BUFFER_JPEG), "format changed"); vh_assert(vh_same(p, src, (size_t)L), "bytes changed"); free(src); vh_cover("transported"); }
  else if (mode == 4) { /* arbitrary text after any of these heads, before any of these tails */
    static const char *H[] = {"", "image:", "image:1;", "image:1;1;", "image:2;1;gray8;", "image:1;1;rgb;", "image:1;1;gray16;", "data:", "data:image/png;", "data:image/jpeg;base64;", "file:", "file://", "image:1;1;x;", "image:-1;-1;gray8;", "image:0;5;gray8;"}; static const char *T[] = {"", ";1;gray8;AA==", ";AAAA", ";gray8;AAAA", "=", "=="};
    strcpy(t, H[vh_param("k", 0)]); i = (int)strlen(t); i += vh_string(t + i, n, "c"); strcpy(t + i, T[vh_param("tail", 0)]); e = malloc(strlen(t) + 1); strcpy(e, t);
    d = image_decode(e); im = NULL; if (d) { check_decoded(d); vh_cover("image"); } else vh_cover("refused"); }
  else if (mode == 5) { /* extreme dimensions */
    static const char *D[] = {"2147483647", "65536", "4294967297", "-1", "99999999999999999999", "46341", "0", "1073741825", "715827883", "2", "-2147483648", "18446744073709551617"}, *F[] = {"gray8", "gray16", "rgb", "GRAY8", "none", ""};
    sprintf(t, "image:%s;%s;%s;", D[vh_pick("w", 0, 11)], D[vh_pick("h", 0, 11)], F[vh_pick("f", 0, 5)]); i = (int)strlen(t); { int k = 4 * vh_pick("q", 0, 2); memset(t + i, 'A', (size_t)k); t[i + k] = 0; i += k; } if (n) i += vh_string(t + i, n, "c"); e = malloc(strlen(t) + 1); strcpy(e, t);
    d = image_decode(e); im = NULL; if (d) { check_decoded(d); vh_cover("image"); } else vh_cover("refused"); }
  else if (mode == 6) { int w = vh_pick("w", 1, n), h = vh_pick("h", 1, n), f = FM[vh_pick("f", 0, 2)], L = w * bpp(f); im = trax_image_create_memory(w, h, f); char *all = malloc((size_t)(L * h)); vh_bytes(all, L * h, "px");
    for (i = 0; i < h; i++) { char *r = trax_image_write_memory_row(im, i); const char *g = trax_image_get_memory_row(im, i); vh_assert(r == g, "reading and writing differ"); vh_assert(r - trax_image_write_memory_row(im, 0) == (long)i * L, "row does not start after the rows before it"); memcpy(r, all + i * L, (size_t)L); }
    for (i = 0; i < h; i++) vh_assert(vh_same(trax_image_get_memory_row(im, i), all + i * L, (size_t)L), "row content lost");
    vh_cover("rows"); free(all); e = NULL; d = NULL; }
  else { /* list: up to 3 stores under arbitrary codes, then every lookup */
    trax_image_list *li = trax_image_list_create(); trax_image *im3[3], *ex[3] = {0, 0, 0}; int code, k = vh_pick("k", 0, n); static const int CH[] = {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR};
    for (j = 0; j < 3; j++) { im3[j] = trax_image_create_path("p"); vh_assert(trax_image_list_get(li, CH[j]) == NULL, "fresh list not empty"); }
    for (j = 0; j < k; j++) { code = vh_int("code"); trax_image_list_set(li, im3[j], code); for (i = 0; i < 3; i++) if (code == CH[i]) ex[i] = im3[j]; }
    for (i = 0; i < 3; i++) vh_assert(trax_image_list_get(li, CH[i]) == ex[i], "wrong image for a channel");
    code = vh_int("get"); trax_image *g = trax_image_list_get(li, code); if (!((code == 1) | (code == 2) | (code == 4))) vh_assert(g == NULL, "unknown channel returns an image");
    code = vh_range("mask", 0, 7); vh_assert(trax_image_list_count(code) == (code & 1) + (code >> 1 & 1) + (code >> 2 & 1), "channel count");
    if (vh_pick("how", 0, 1)) { for (j = 0; j < k; j++) for (i = 0; i < 3; i++) if (ex[i] == im3[j]) im3[j] = NULL; int dup = 0; trax_image_list_clear(li); for (i = 0; i < 3; i++) vh_assert(trax_image_list_get(li, CH[i]) == NULL, "image survives clearing"); }
    trax_image_list_release(&li); vh_assert(li == NULL, "handle not reset"); for (j = 0; j < 3; j++) if (im3[j]) trax_image_release(&im3[j]); vh_cover("list"); im = d = NULL; e = NULL; }
  if (im) trax_image_release(&im); if (d) trax_image_release(&d); free(e);
  vh_assert(vh_heap_live() == l0, "leak");
}
