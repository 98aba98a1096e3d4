/* Native side of the harness interface: replays one assignment found by the solver. */
#include "vh.h"
#include <unistd.h>
#include <signal.h>
static uint64_t *in; static int nin, pin; static struct { char n[64]; long v; } par[64]; static int npar;
static volatile int live; static int counting;
void __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
static void onm(const volatile void *p, size_t n) { if (p) live++; }
static void onf(const volatile void *p) { if (p) live--; }
static void load(void) {
  const char *f = getenv("VH_REPLAY"); FILE *h; char line[512]; if (!f || !(h = fopen(f, "r"))) { fprintf(stderr, "no VH_REPLAY file\n"); _exit(3); }
  in = (uint64_t *)malloc(sizeof(uint64_t) * 400000);
  while (fgets(line, sizeof line, h)) { char nm[128]; unsigned long long v; long pv;
    if (sscanf(line, "param %60s %ld", nm, &pv) == 2) { strcpy(par[npar].n, nm); par[npar++].v = pv; }
    else if (sscanf(line, "input %60s %llu", nm, &v) == 2) in[nin++] = v; }
  fclose(h);
}
uint64_t vh_sym(const char *name, int bits) { uint64_t v = pin < nin ? in[pin++] : 0; return bits >= 64 ? v : v & ((1ULL << bits) - 1); }
uint64_t vh_param(const char *name, long d) { for (int i = 0; i < npar; i++) if (!strcmp(par[i].n, name)) return (uint64_t)par[i].v; return (uint64_t)d; }
void vh_assume_(int c) { if (!c) { fprintf(stderr, "VH-ASSUME-FALSE\n"); _exit(77); } }
void vh_assert_(int c, const char *l) { if (!c) { fprintf(stderr, "VH-ASSERT %s\n", l); _exit(66); } }
void vh_cover(const char *l) {}
uint64_t vh_concrete(uint64_t v) { return v; }
int vh_heap_live(void) { return live; }
void vh_abort_ok(int ok) {}
void vh_stop(void) { _exit(0); }
#include <pthread.h>
#include <semaphore.h>
static sem_t cosem[16]; static void (*cofn[16])(void *); static void *coarg[16]; static int comap[16], coused = 1, conow; /* slot 0: the main thread */
static void *corun(void *p) { int k = (int)(long)p; sem_post(&cosem[0]); while (sem_wait(&cosem[k])) {} cofn[k](coarg[k]); _exit(78); }
void vh_co_init(int n) { pthread_t t; int i; for (i = 0; i < n; i++) sem_init(&cosem[i], 0, 0); for (i = 1; i < n; i++) { pthread_create(&t, NULL, corun, (void *)(long)i); while (sem_wait(&cosem[0])) {} } }
void vh_co_new(int id, void (*fn)(void *), void *arg) { if (coused >= 16) _exit(78); comap[id] = coused; cofn[coused] = fn; coarg[coused++] = arg; }
void vh_co_to(int id) { int me = comap[conow], to = comap[id]; if (me == to) return; conow = id; sem_post(&cosem[to]); while (sem_wait(&cosem[me])) {} }
uint64_t vh_select(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int vh_is_concrete(uint64_t v) { return 1; }
uint64_t vh_digit(uint64_t v, int i, int n) { while (i--) v /= 10; return v % 10; }
int vh_native(void) { return 1; }
void vh_fail(const char *m) { fprintf(stderr, "VH-FAIL %s\n", m); _exit(66); }
void vh_unsupported(const char *m) { fprintf(stderr, "VH-UNSUPPORTED %s\n", m); _exit(78); }
void vh_trace(const char *n, uint64_t v) { fprintf(stderr, "trace %s %lld\n", n, (long long)v); }
int main(void) { load(); setvbuf(stdout, NULL, _IONBF, 0); if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onm, onf); vh_main(); fflush(stdout); _exit(0); }
