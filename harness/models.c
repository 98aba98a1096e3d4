/* C library models executed by symx (never linked into native replays, which use the real C library).
   Written so that comparisons on symbolic characters stay branch-free wherever the result allows it. */
#include "vh.h"
#include <stdarg.h>
#include <stddef.h>
#include <math.h>
#include <limits.h>
#include <strings.h>
typedef unsigned char uc;
void *memcpy(void *d, const void *s, size_t n) { __builtin_memcpy(d, s, n); return d; }
void *memmove(void *d, const void *s, size_t n) { __builtin_memmove(d, s, n); return d; }
void *memset(void *d, int c, size_t n) { __builtin_memset(d, c, n); return d; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
static int cmpn(const uc *x, const uc *y, size_t n) { int r = 0; while (n-- > 0) { int d = (int)x[n] - (int)y[n]; r = (int)vh_select(d != 0, (uint64_t)(uint32_t)d, (uint64_t)(uint32_t)r); } return r; }
int memcmp(const void *a, const void *b, size_t n) { return cmpn((const uc *)a, (const uc *)b, n); }
int bcmp(const void *a, const void *b, size_t n) { return cmpn((const uc *)a, (const uc *)b, n); }
int strcmp(const char *a, const char *b) { size_t n = 0; while (a[n] && b[n]) n++; return cmpn((const uc *)a, (const uc *)b, n + 1); }
int strncmp(const char *a, const char *b, size_t m) { size_t n = 0; if (!m) return 0; while (n + 1 < m && a[n] && b[n]) n++; return cmpn((const uc *)a, (const uc *)b, n + 1); }
int tolower(int c) { return (int)vh_select((c >= 'A') & (c <= 'Z'), (uint64_t)(uint32_t)(c + 32), (uint64_t)(uint32_t)c); }
int toupper(int c) { return (int)vh_select((c >= 'a') & (c <= 'z'), (uint64_t)(uint32_t)(c - 32), (uint64_t)(uint32_t)c); }
int strcasecmp(const char *a, const char *b) { size_t n = 0; int r = 0; while (a[n] && b[n]) n++; n++; while (n-- > 0) { int d = tolower((uc)a[n]) - tolower((uc)b[n]); r = (int)vh_select(d != 0, (uint64_t)(uint32_t)d, (uint64_t)(uint32_t)r); } return r; }
int strncasecmp(const char *a, const char *b, size_t m) { for (size_t n = 0; n < m; n++) { int d = tolower((uc)a[n]) - tolower((uc)b[n]); if (d) return d; if (!a[n]) return 0; } return 0; }
char *strcpy(char *d, const char *s) { size_t n = strlen(s); __builtin_memcpy(d, s, n + 1); return d; }
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); __builtin_memcpy(d, s, n + 1); return d + n; }
char *strncpy(char *d, const char *s, size_t m) { size_t n = strnlen(s, m); __builtin_memcpy(d, s, n); __builtin_memset(d + n, 0, m - n); return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t m) { size_t n = strnlen(s, m), k = strlen(d); __builtin_memcpy(d + k, s, n); d[k + n] = 0; return d; }
char *strdup(const char *s) { size_t n = strlen(s); char *p = (char *)malloc(n + 1); if (p) __builtin_memcpy(p, s, n + 1); return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)malloc(n + 1); if (p) { __builtin_memcpy(p, s, n); p[n] = 0; } return p; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
void *memchr(const void *s, int c, size_t n) { const uc *p = (const uc *)s; for (; n; n--, p++) if (*p == (uc)c) return (void *)p; return NULL; }
char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (;; h++) { if (strncmp(h, n, k) == 0) return (char *)h; if (!*h) return NULL; } }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { int m = 0; for (const char *p = a; *p; p++) m |= s[n] == *p; if (!m) break; } return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { int m = 0; for (const char *p = a; *p; p++) m |= s[n] == *p; if (m) break; } return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : NULL; }
char *strtok_r(char *s, const char *d, char **sv) { char *e; if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return NULL; } e = s + strcspn(s, d); if (!*e) { *sv = e; return s; } *e = 0; *sv = e + 1; return s; }
static char *tok_save; char *strtok(char *s, const char *d) { return strtok_r(s, d, &tok_save); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int abs(int v) { return (int)vh_select(v < 0, (uint64_t)(uint32_t)(0u - (unsigned)v), (uint64_t)(uint32_t)v); }
long labs(long v) { return (long)vh_select(v < 0, 0ul - (uint64_t)v, (uint64_t)v); }

/* ---- text to number */
static int all_concrete(const char *s) { for (;; s++) { if (!vh_is_concrete((uint64_t)(uc)*s)) return 0; if (!*s) return 1; } }
static const double P10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
double strtod(const char *s, char **end) {
  const char *p = s; int neg = 0, nd = 0, frac = 0, any = 0, big = 0; uint64_t m = 0; double v;
  if (all_concrete(s)) { uint64_t k; v = vh_host_strtod(s, &k); if (end) *end = (char *)s + k; return v; }
  while (isspace((uc)*p)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  { int c = tolower((uc)*p); if ((c == 'i') | (c == 'n')) { int c2 = tolower((uc)p[1]), full = 0; if (c2 == (c == 'i' ? 'n' : 'a')) { int c3 = tolower((uc)p[2]); full = c3 == (c == 'i' ? 'f' : 'n'); }
      if (full) { /* inf / nan (without the long spellings) */ const char *q = p + 3; if (c == 'i' && tolower((uc)*q) == 'i') vh_unsupported("strtod infinity spelling"); if (c == 'n' && *q == '(') vh_unsupported("strtod nan() spelling"); if (end) *end = (char *)q; v = c == 'i' ? __builtin_inf() : __builtin_nan(""); return neg ? -v : v; } } }
  if (*p == '0') { const char *q = p + 1; if ((*q == 'x') | (*q == 'X')) if (isxdigit((uc)q[1]) | (q[1] == '.')) vh_unsupported("strtod of hexadecimal text"); }
  for (; isdigit((uc)*p); p++) { any = 1; m = m * 10 + (uint64_t)((uc)*p & 15); nd++; }
  { uint64_t mi = m, mf = 0; int z = 0, k = 0, ok = nd <= 9;
    if (*p == '.') { const char *q = p + 1; if (any | isdigit((uc)*q)) { p = q; for (; isdigit((uc)*p); p++) { uint64_t g = (uint64_t)((uc)*p & 15); any = 1; m = m * 10 + g; nd++; frac++; if (!vh_is_concrete(g)) ok = 0; if (ok) { if (g) { for (; z; z--, k++) mf *= 10; mf = mf * 10 + g; k++; if (k > 9) ok = 0; } else z++; } } } }
    /* whole number and a concrete fraction that is a multiple of 2^-20: exact, no rounding */
    if (any && ok && (*p != 'e') & (*p != 'E')) { uint64_t d = 1; int i; for (i = 0; i < k; i++) d *= 10; if ((mf << 20) % d == 0) { if (end) *end = (char *)p; v = (double)(int64_t)mi; if (k) v = v + (double)(int64_t)mf / (double)(int64_t)d; return neg ? -v : v; } } }
  if (!any) { if (end) *end = (char *)s; return 0; }
  if (nd > 15) vh_unsupported("strtod of more than 15 symbolic digits");
  if ((*p == 'e') | (*p == 'E')) { const char *q = p + 1; int en = 0, ex = 0, ed = 0; if (*q == '-') { en = 1; q++; } else if (*q == '+') q++;
    if (isdigit((uc)*q)) { for (; isdigit((uc)*q); q++) { if (ed++ > 3) vh_unsupported("strtod exponent of more than 3 symbolic digits"); ex = ex * 10 + ((uc)*q - '0'); } p = q; ex = (int)vh_concrete((uint64_t)(uint32_t)ex); frac += en ? ex : -ex; big = 1; } }
  if (end) *end = (char *)p;
  if (big) { if (frac > 22 || frac < -22) { /* need correct rounding: settle the digits */ char t[64]; uint64_t k, mm = vh_concrete(m); int i = 0, z = 0; char d[24]; do { d[z++] = (char)('0' + mm % 10); mm /= 10; } while (mm); while (z) t[i++] = d[--z]; t[i++] = 'e'; { int e2 = -frac; if (e2 < 0) { t[i++] = '-'; e2 = -e2; } z = 0; do { d[z++] = (char)('0' + e2 % 10); e2 /= 10; } while (e2); while (z) t[i++] = d[--z]; } t[i] = 0; v = vh_host_strtod(t, &k); return neg ? -v : v; } }
  v = (double)(int64_t)m;
  if (frac > 0) v = v / P10[frac]; else if (frac < 0) { v = v * P10[-frac]; }
  return neg ? -v : v;
}
float strtof(const char *s, char **e) { if (!all_concrete(s)) vh_unsupported("strtof on symbolic text"); return (float)strtod(s, e); }
double atof(const char *s) { return strtod(s, NULL); }
long strtol(const char *s, char **end, int base) {
  const char *p = s; int neg = 0, any = 0, nd = 0, over = 0; uint64_t m = 0;
  while (isspace((uc)*p)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if (base == 16 || base == 0) { if (*p == '0') vh_unsupported("strtol prefix"); if (base == 0) base = 10; }
  for (;; p++) { uc c = (uc)*p; unsigned dg; if (isdigit(c)) dg = c & 15; else if (base == 16 && isxdigit(c)) dg = (unsigned)tolower(c) - 'a' + 10; else break; any = 1; if (m | nd) nd++; else if (!vh_is_concrete(dg) || dg) nd++; if (nd > 18) over = 1; if (!over) m = m * (uint64_t)base + dg; }
  if (end) *end = (char *)(any ? p : s);
  if (over) return neg ? LONG_MIN : LONG_MAX;
  return neg ? -(long)m : (long)m;
}
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }

/* ---- formatting */
typedef struct { char *b; size_t cap, n; } out_t;
static void put(out_t *o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static int fmt_u(char *d, uint64_t v, unsigned base, int upper) { int n = 0; if (base == 10 && !vh_is_concrete(v)) { uint64_t p = 10; int i; n = 1; while (n < 19 && v >= p) { p *= 10; n++; } if (n < 19) { for (i = 0; i < n; i++) d[i] = (char)('0' + vh_digit(v, i, n)); return n; } n = 0; } do { unsigned g = (unsigned)(v % base); d[n++] = (char)vh_select(g < 10, '0' + g, (upper ? 'A' : 'a') + g - 10); v /= base; } while (v); return n; } /* least significant first */
static void field(out_t *o, const char *txt, int n, int width, int left, char pad, int sign) { /* sign: leading sign stays before zero padding */
  int k = width - n, i = 0; if (!left && pad == '0' && sign && n) { put(o, txt[0]); i = 1; }
  if (!left) for (; k > 0; k--) put(o, pad);
  for (; i < n; i++) put(o, txt[i]); if (left) for (; k > 0; k--) put(o, ' '); }
static int vfmt(char *buf, size_t cap, const char *f, va_list ap) {
  out_t o; o.b = buf; o.cap = cap; o.n = 0;
  for (; *f; f++) {
    if (*f != '%') { put(&o, *f); continue; }
    f++;
    int left = 0, plus = 0, alt = 0, lng = 0, width = 0, prec = -1; char pad = ' ';
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '+') plus = 1; else if (*f == '0') pad = '0'; else if (*f == '#') alt = 1; else if (*f == ' ') alt = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = 1; width = -width; } } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 1; f++; }
    if (alt) vh_unsupported("printf flag");
    char t[48], r[48]; int n = 0, k;
    switch (*f) {
    case '%': put(&o, '%'); break;
    case 'c': t[0] = (char)va_arg(ap, int); field(&o, t, 1, width, left, ' ', 0); break;
    case 's': { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; int l = prec >= 0 ? (int)strnlen(s, (size_t)prec) : (int)strlen(s); field(&o, s, l, width, left, ' ', 0); break; }
    case 'd': case 'i': { int64_t v = lng ? va_arg(ap, long) : va_arg(ap, int); int neg = (int)vh_concrete(v < 0); k = fmt_u(r, neg ? 0 - (uint64_t)v : (uint64_t)v, 10, 0); if (neg) t[n++] = '-'; else if (plus) t[n++] = '+'; while (k < prec) r[k++] = '0'; while (k) t[n++] = r[--k]; field(&o, t, n, width, left, prec >= 0 ? ' ' : pad, neg | plus); break; }
    case 'u': case 'x': case 'X': { uint64_t v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); k = fmt_u(r, v, *f == 'u' ? 10 : 16, *f == 'X'); while (k < prec) r[k++] = '0'; while (k) t[n++] = r[--k]; field(&o, t, n, width, left, prec >= 0 ? ' ' : pad, 0); break; }
    case 'p': { void *v = va_arg(ap, void *); k = fmt_u(r, (uint64_t)v, 16, 0); t[n++] = '0'; t[n++] = 'x'; while (k) t[n++] = r[--k]; field(&o, t, n, width, left, ' ', 0); break; }
    case 'f': case 'F': case 'g': case 'e': {
      double v = va_arg(ap, double); uint64_t bits; __builtin_memcpy(&bits, &v, 8);
      if (vh_is_concrete(bits)) { char ff[8], big[400]; int q = 0; ff[q++] = '%'; if (plus) ff[q++] = '+'; ff[q++] = '.'; if (prec < 0) prec = 6; if (prec > 99) vh_unsupported("printf precision"); if (prec > 9) ff[q++] = (char)('0' + prec / 10); ff[q++] = (char)('0' + prec % 10); ff[q++] = *f; ff[q] = 0; n = vh_host_fmt(big, sizeof big, ff, v); field(&o, big, n, width, left, pad, (big[0] == '-') | (big[0] == '+')); break; }
      if (*f != 'f' && *f != 'F') vh_unsupported("printf %g of a symbolic value");
      if (prec < 0) prec = 6; if (prec > 6) vh_unsupported("printf precision of a symbolic value");
      if (v != v) { vh_unsupported("printf of symbolic nan"); }
      int neg = (int)vh_concrete(bits >> 63); double a = (neg ? -v : v) + 0.0; if (!(a < 1e9)) vh_unsupported("printf of a symbolic value of 1e9 or more");
      /* exact while the scaled value needs at most 53 bits, which holds for every float below 1e9 scaled by up to 1e6 */
      if ((double)(float)a != a) vh_unsupported("printf of a symbolic double with more than float precision");
      { double ip = __builtin_floor(a), fr = a - ip; uint64_t fb; __builtin_memcpy(&fb, &fr, 8); if (prec > 0 && vh_is_concrete(fb)) { uint64_t w = (uint64_t)(int64_t)ip, g = (uint64_t)(int64_t)__builtin_rint(fr * P10[prec]); char q[24]; int c2 = 0; if (g >= (uint64_t)P10[prec]) { g -= (uint64_t)P10[prec]; w++; } if (neg) t[n++] = '-'; else if (plus) t[n++] = '+'; k = fmt_u(q, w, 10, 0); while (k) t[n++] = q[--k]; t[n++] = '.'; while (c2 < prec) { r[c2++] = (char)('0' + g % 10); g /= 10; } while (c2) t[n++] = r[--c2]; field(&o, t, n, width, left, pad, neg | plus); break; } }
      uint64_t u = (uint64_t)(int64_t)__builtin_rint(a * P10[prec]); int c = 0; while (c < prec) { r[c++] = (char)('0' + u % 10); u /= 10; }
      if (neg) t[n++] = '-'; else if (plus) t[n++] = '+'; k = 0; { char w[24]; k = fmt_u(w, u, 10, 0); while (k) t[n++] = w[--k]; }
      if (prec) { t[n++] = '.'; while (c) t[n++] = r[--c]; }
      field(&o, t, n, width, left, pad, neg | plus); break; }
    default: vh_unsupported("printf conversion");
    }
  }
  if (cap) buf[o.n < cap ? o.n : cap - 1] = 0;
  return (int)o.n;
}
int vsnprintf(char *b, size_t cap, const char *f, va_list ap) { return vfmt(b, cap, f, ap); }
int vsprintf(char *b, const char *f, va_list ap) { return vfmt(b, (size_t)1 << 40, f, ap); }
int snprintf(char *b, size_t cap, const char *f, ...) { va_list ap; va_start(ap, f); int n = vfmt(b, cap, f, ap); va_end(ap); return n; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int n = vfmt(b, (size_t)1 << 40, f, ap); va_end(ap); return n; }

/* ---- output that no property observes */
static char dummy_file[256], dummy_stdin[256]; FILE *stdout = (FILE *)dummy_file, *stderr = (FILE *)dummy_file, *stdin = (FILE *)dummy_stdin;
int printf(const char *f, ...) { return 0; }
int fprintf(FILE *h, const char *f, ...) { return 0; }
int vfprintf(FILE *h, const char *f, va_list ap) { return 0; }
int vprintf(const char *f, va_list ap) { return 0; }
int puts(const char *s) { return 0; }
int putchar(int c) { return c; }
int fputs(const char *s, FILE *h) { strlen(s); return 0; }
int fputc(int c, FILE *h) { return c; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *h) { if (s * n) { volatile char c = ((const char *)p)[0]; c = ((const char *)p)[s * n - 1]; } return n; }
int fflush(FILE *h) { return 0; }
void perror(const char *s) {}
int setvbuf(FILE *h, char *b, int m, size_t n) { return 0; }
int fileno(FILE *h) { return h == (FILE *)dummy_stdin ? 0 : 1; }
static int errno_; int *__errno_location(void) { return &errno_; }
/* ---- environment and system calls: replaced by harness stubs where a property depends on them */
char *vh_getenv(const char *n) __attribute__((weak));
char *getenv(const char *n) { return vh_getenv ? vh_getenv(n) : NULL; }
char *secure_getenv(const char *n) { return getenv(n); }
long clock(void) { return 0; }
__attribute__((weak)) unsigned sleep(unsigned s) { return 0; }
__attribute__((weak)) int usleep(unsigned s) { return 0; }
void qsort(void *b, size_t n, size_t s, int (*c)(const void *, const void *)) { char *p = (char *)b; char t[64]; if (s > 64) vh_unsupported("qsort element size"); for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c(p + (j - 1) * s, p + j * s) > 0; j--) { memcpy(t, p + j * s, s); memcpy(p + j * s, p + (j - 1) * s, s); memcpy(p + (j - 1) * s, t, s); } }
unsigned short htons(unsigned short v) { return (unsigned short)((v << 8) | (v >> 8)); }
unsigned short ntohs(unsigned short v) { return (unsigned short)((v << 8) | (v >> 8)); }
unsigned inet_addr(const char *s) { return 0x0100007f; }
double pow(double a, double b) { vh_unsupported("pow"); return 0; }
double fmod(double a, double b) { return __builtin_fmod(a, b); }
