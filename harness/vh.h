/* Harness interface: the same harness runs inside symx (symbolic) and natively (replay of one counterexample). */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t vh_sym(const char *name, int bits);          /* fresh symbolic value */
uint64_t vh_param(const char *name, long dflt);       /* bound given by the driver */
void vh_assume_(int c); void vh_assert_(int c, const char *label); void vh_cover(const char *label);
uint64_t vh_concrete(uint64_t v);                     /* fork over the possible values */
int vh_heap_live(void);                               /* live heap blocks */
void vh_abort_ok(int ok); void vh_stop(void);
uint64_t vh_select(int c, uint64_t a, uint64_t b);    /* c ? a : b without a branch */
int vh_is_concrete(uint64_t v); uint64_t vh_digit(uint64_t v, int i, int n);  int vh_native(void);
void vh_fail(const char *msg); void vh_unsupported(const char *msg); void vh_trace(const char *n, uint64_t v);
double vh_host_strtod(const char *s, uint64_t *consumed); int vh_host_fmt(char *b, uint64_t cap, const char *f, double d);
void vh_main(void);
/* threads that run one at a time: 0 is the caller; a started function must never return */
void vh_co_init(int n); void vh_co_new(int id, void (*fn)(void *), void *arg); void vh_co_to(int id);
#define vh_assume(c) vh_assume_(!!(c))
#define vh_assert(c, l) vh_assert_(!!(c), l)
static inline unsigned char vh_u8(const char *n) { return (unsigned char)vh_sym(n, 8); }
static inline int vh_int(const char *n) { return (int)(uint32_t)vh_sym(n, 32); }
/* symbolic int within [lo,hi] */
static inline int vh_range(const char *n, int lo, int hi) {
  int b = 1; while (b < 32 && (((int64_t)hi - lo) >> b)) b++; int v = b < 32 ? lo + (int)(uint32_t)vh_sym(n, b) : vh_int(n); vh_assume((v >= lo) & (v <= hi)); return v; }
/* every whole number of up to n decimal digits, held as its digits (which makes its decimal text syntactic) */
static inline int64_t vh_udec(const char *n, int digits) { int64_t v = 0, p = 1; int k, i; { int b = 1; while ((digits - 1) >> b) b++; uint64_t q = vh_sym("digits", b); vh_assume(q < (uint64_t)digits); k = (int)vh_concrete(q) + 1; }
  for (i = 0; i < k; i++) { unsigned d = (unsigned)vh_sym(n, 4); vh_assume(d <= 9); if (i == k - 1 && k > 1) vh_assume(d >= 1); v += (int64_t)d * p; p *= 10; } return v; }
static inline int64_t vh_dec(const char *n, int digits) { int neg = (int)vh_concrete(vh_sym("sign", 1)); int64_t v = vh_udec(n, digits); return neg ? 0 - v : v; }
/* concrete choice in [lo,hi], one path each */
static inline int vh_pick(const char *n, int lo, int hi) { return (int)vh_concrete((uint64_t)(uint32_t)vh_range(n, lo, hi)); }
static inline void vh_bytes(char *b, int n, const char *name) { for (int i = 0; i < n; i++) b[i] = (char)vh_u8(name); }
/* n arbitrary non-NUL characters and a terminator */
static inline void vh_text(char *b, int n, const char *name) { for (int i = 0; i < n; i++) { unsigned char c = vh_u8(name); vh_assume(c != 0); b[i] = (char)c; } b[n] = 0; }
/* a text of 0..max characters (one path per length) */
static inline int vh_string(char *b, int max, const char *name) { int n = vh_pick("len", 0, max); vh_text(b, n, name); return n; }
/* branch-free comparison of n bytes */
static inline int vh_same(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; unsigned d = 0; for (size_t i = 0; i < n; i++) d |= (unsigned)(x[i] ^ y[i]); return d == 0; }
static inline float vh_f32(const char *n) { uint32_t u = (uint32_t)vh_sym(n, 32); float f; memcpy(&f, &u, 4); return f; }
#ifdef __cplusplus
}
#endif
#endif
