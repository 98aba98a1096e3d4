/* B01/B02: base64 */
#include "vh.h"
#include "base64.h"
void vh_main(void) {
  int mode = (int)vh_param("mode", 0), n = vh_pick("n", (int)vh_param("lo", 0), (int)vh_param("n", 5)), i, r, l;
  if (mode == 0) {
    unsigned char *src = malloc(n ? n : 1), *dst; char *enc; for (i = 0; i < n; i++) src[i] = i >= n - (int)vh_param("sym", 1000) ? vh_u8("b") : (unsigned char)(i * 37 + 11);
    l = base64encodelen(n); vh_assert(l == (n + 2) / 3 * 4 + 1, "advertised encoded length"); enc = malloc(l);
    r = base64encode(enc, src, n); vh_assert(r == l, "encoded length differs from the advertised one"); vh_assert((int)strlen(enc) == l - 1, "encoded text not terminated at its length");
    int bad = 0; int pad = (3 - n % 3) % 3; for (i = 0; i < l - 1; i++) { int c = (unsigned char)enc[i]; int ok = ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')) | (c == '+') | (c == '/'); if (i >= l - 1 - pad) ok = c == '='; bad |= !ok; } vh_assert(!bad, "encoded text outside the base64 alphabet");
    { static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; for (i = 0; i < n * 8; i += 6) { unsigned v = 0; for (int b = 0; b < 6; b++) { int q = i + b; v = v << 1 | (q < n * 8 ? (unsigned)(src[q / 8] >> (7 - q % 8)) & 1 : 0); } vh_assert(enc[i / 6] == A[v], "not the standard encoding"); } }
    r = base64decodelen(enc); vh_assert(r == n + 1, "advertised decoded length"); dst = malloc(r);
    r = base64decode(dst, enc); vh_assert(r == n, "decoded length"); vh_assert(vh_same(dst, src, n), "decoded bytes differ"); vh_cover("roundtrip"); free(src); free(dst); free(enc);
  } else {
    char *t = malloc(n + 1); unsigned char *dst; vh_text(t, n, "c");
    l = base64decodelen(t); vh_assert(l > 0, "advertised decoded size not positive"); vh_assert(l <= n + 1, "advertised decoded size exceeds the text"); dst = malloc(l);
    r = base64decode(dst, t); vh_assert(r >= 0, "negative decoded length"); vh_assert(r < l, "decoded more than advertised"); if (n == 0) vh_assert(r == 0, "empty text decodes to data"); vh_cover("decoded"); free(t); free(dst);
  }
}
