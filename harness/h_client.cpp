/* The client support library: X01 process start, X02 tracker output, X03 time, Z01 life of a tracker process, W03 trajectories. */
#include "vh_os.h"
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <trax/client.hpp>
#include "process.h"
static char *socket_env; /* value of TRAX_SOCKET */
extern "C" char *vh_getenv(const char *n) { return socket_env && !strcmp(n, "TRAX_SOCKET") ? socket_env : NULL; }
#ifdef VH_NATIVE_BUILD
extern "C" char *vho_getenv(const char *n) { return vh_getenv(n); }
#endif
extern "C" char **OS(environ); char **OS(environ);
static int only; /* 2: releases only */
#define A(c, l) do { int ok_ = (c) ? 1 : 0; if (!only) vh_assert(ok_, l); } while (0)
/* ---- time (X03) */
static long now_s, now_us, dl_s = -1, dl_ns, waits, wait_result;
static unsigned long mono_s, mono_ns;
extern "C" {
int OS(gettimeofday)(struct timeval *t, void *z) noexcept { t->tv_sec = now_s; t->tv_usec = now_us; return 0; }
int OS(clock_gettime)(clockid_t c, struct timespec *t) noexcept { t->tv_sec = (long)mono_s; t->tv_nsec = (long)mono_ns; return 0; }
int OS(pthread_cond_timedwait)(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { dl_s = t->tv_sec; dl_ns = t->tv_nsec; waits++; if (!*(int *)m) vh_fail("waits without the mutex"); return sched_on ? cond_wait(c, m, (dl_s - now_s) * 1000 + (dl_ns / 1000 - now_us) / 1000) : ETIMEDOUT; }
}
static void t_deadline() {
  static const long Q[] = {0, 1, 2, 59, 90000}; long ms = Q[vh_pick("whole", 0, 4)] * 1000 + (long)vh_range("milliseconds", 0, 999); vh_assume(ms > 0); now_s = (long)vh_range("seconds", 0, 2000000000); now_us = (long)vh_range("microseconds", 0, 999999);
  { Signal s; s.wait(ms); }
  A(waits == 1 && dl_ns >= 0 && dl_ns < 1000000000L, "deadline is not a valid time"); A((dl_s - now_s) * 1000000000L + (dl_ns - now_us * 1000L) == ms * 1000000L, "deadline is not the given time ahead"); vh_cover("time");
}
static void t_elapsed() { /* timers: differences of whole microseconds */
  mono_s = (unsigned long)vh_range("seconds", 0, 2000000000); mono_ns = (unsigned long)vh_range("nanoseconds", 0, 999999999); unsigned long t = mono_s * 1000000 + mono_ns / 1000;
  trax::timer_init(); trax::timer_state b = trax::timer_clock(); mono_s = (unsigned long)vh_range("later seconds", 0, 2000000000); mono_ns = (unsigned long)vh_range("later nanoseconds", 0, 999999999); if (vh_pick("again", 0, 1)) trax::timer_init();
  unsigned long u = mono_s * 1000000 + mono_ns / 1000; vh_assume(u >= t); double e = trax::timer_elapsed(b); A(e == (double)(u - t) / 1000000, "elapsed time differs"); A(e >= 0, "time runs backwards"); vh_cover("time");
}
/* ---- process start (X01) */
static char want[8][48]; static int nwant;
static int split(const char *s) { /* what a command means: words between spaces, or in double quotes; 0: nothing sensible, -1: not defined */
  nwant = 0; for (;;) { while (*s == ' ') s++; if (!*s) return nwant > 0; int n = 0; if (*s == '"') { s++; while (*s && *s != '"') { if ((*s == '\'') | (*s == '\\')) return -1; want[nwant][n++] = *s++; } if (!*s) return 0; s++; if (*s && *s != ' ') return -1; } else while (*s && *s != ' ') want[nwant][n++] = *s++; want[nwant++][n] = 0; } }
static int argv_is(const Child &c) { if (c.nargs != nwant) return 0; for (int i = 0; i < nwant; i++) if (strcmp(c.arg[i], want[i])) return 0; return 1; }
static const char *envof(const Child &c, const char *k) { const char *r = NULL; size_t n = strlen(k); int cnt = 0; for (int i = 0; i < c.nenv; i++) if (!strncmp(c.env[i], k, n) && c.env[i][n] == '=') { r = c.env[i] + n + 1; cnt++; } A(cnt <= 1, "a variable is set twice"); return r; }
static int open_fds() { int n = 0; for (int i = 0; i < NFD; i++) n += F[i].kind != 0; return n; }
static void p_command(int n) {
  char t[24]; int k, head = vh_pick("head", 0, 4); static const char *H[] = {"", "a", "x \"b", "\"c d\"", "p  q "}; strcpy(t, H[head]); k = (int)strlen(t); int m = vh_pick("length", 0, n); vh_text(t + k, m, "command"); t[k + m] = 0;
  int ok = split(t), refused = 0; if (ok < 0) vh_stop();
  try { Process p(t); A(!p.is_alive() && p.get_input() == -1 && p.get_output() == -1, "process runs before it is started"); if (vh_pick("start", 0, 1)) { bool r = p.start(); A(ok, "a command without a program is accepted"); A(r == (want[0][0] != 0), "start of a process"); if (r) { A(argv_is(C[0]), "arguments differ"); die(C[0], 0); } } } catch (std::runtime_error &e) { refused = 1; }
  A(refused == !ok, "refusal of a command"); A(bad_close == 0 && open_fds() == 0, "descriptors after the process"); vh_cover("command");
}
static void p_long(int n) { /* one long argument among others */
  std::string c; int quoted = vh_pick("quoted", 0, 1), i, before = vh_pick("before", 0, 1), after = vh_pick("after", 0, 1); if (before) c += "prog "; if (quoted) c += '"'; for (i = 0; i < n; i++) c.push_back(i % 7 ? 'a' : 'b'); if (quoted) c += '"'; if (after) c += " \"z\" "; int refused = 0;
  try { Process p(c); } catch (std::runtime_error &e) { refused = 1; } A(!refused, "a long argument is refused"); vh_cover("command");
}
static void p_streams() { /* environment, directory and descriptors */
  int expl = vh_pick("explicit", 0, 1), fail = vh_pick("fail", 0, 5), dir = vh_pick("directory", 0, 1), copy = vh_pick("copy", 0, 1), round; char v[4]; int vl = vh_string(v, 2, "value"); char e0[] = "HOME=/h", e1[] = "A=b=c", e2[] = "broken", e3[8] = "Z=", e4[] = "TRAX_IN=33", e5[] = "TRAX_OUT=34"; strcpy(e3 + 2, v); char *env[] = {e0, e1, e2, e3, expl ? e4 : NULL, e5, NULL}; OS(environ) = env;
  { Process p("prog arg", expl != 0); if (dir) p.set_directory("/work"); if (copy) p.copy_environment(); p.set_environment("A", "own"); p.set_environment("K", std::string(v, (size_t)vl));
    for (round = 0; round < 2; round++) {
      pipes_left = round == 0 && fail >= 1 && fail <= 3 ? fail - 1 : 1000; spawn_fails = round == 0 && fail == 4; chdir_fails = fail == 5; bool ok = p.start(); int good = !(round == 0 && fail >= 1 && fail <= 4); A(ok == (good != 0), "start of a process"); A(cwd_id == 0, "working directory is not restored"); if (!good) { A(open_fds() == 0, "descriptors after a failed start"); A(!p.is_alive(), "alive after a failed start"); }
      if (ok) { Child &c = C[nchild - 1]; A(c.cwd == (dir && fail != 5), "working directory of the process"); A(!p.start(), "started twice"); A(p.is_alive() && p.get_handle() == c.pid, "started process is not alive");
        A(envof(c, "A") && !strcmp(envof(c, "A"), "own"), "own variable differs"); A(envof(c, "K") && !strcmp(envof(c, "K"), v), "own variable differs"); A((envof(c, "HOME") != NULL) == (copy != 0), "inherited variable"); if (copy) { A(!strcmp(envof(c, "HOME"), "/h"), "inherited variable differs"); A(envof(c, "Z") && !strcmp(envof(c, "Z"), v), "inherited variable differs"); }
        int ci = 0, co = 1; if (expl) { const char *a = envof(c, "TRAX_IN"), *b = envof(c, "TRAX_OUT"); A(a && b, "descriptors are not announced"); if (a && b) { ci = atoi(a); co = atoi(b); } }
        A(ci >= 0 && ci < NFD && co >= 0 && co < NFD, "announced descriptors"); Fd in = F[p.get_input()], out = F[p.get_output()], err = F[p.get_error()];
        A(in.kind == 2 && c.fd[ci].kind == 1 && c.fd[ci].pipe == in.pipe, "input of the process is not connected"); A(out.kind == 1 && c.fd[co].kind == 2 && c.fd[co].pipe == out.pipe, "output of the process is not connected"); A(err.kind == 1 && c.fd[2].kind == 2 && c.fd[2].pipe == err.pipe, "error output of the process is not connected"); if (expl) A(c.fd[0].kind == 0 && c.fd[1].kind == 0, "standard streams are replaced");
        for (int i = 0; i < NFD; i++) { A(!(c.fd[i].kind == 2 && c.fd[i].pipe == in.pipe), "the process keeps its own input open"); A(!(c.fd[i].kind == 1 && (c.fd[i].pipe == out.pipe || c.fd[i].pipe == err.pipe)), "the process keeps its own output open"); }
        break; } }
    if (nchild && C[nchild - 1].alive) { int st = -7, code = vh_pick("code", 0, 5); if (code == 0) { p.kill(); child_step(C[nchild - 1], 1); A(!p.is_alive(&st) && st == -SIGKILL, "killed process"); } else if (code == 3) { p.stop(); A(C[nchild - 1].dying == 1 && p.is_alive(), "process is asked to stop"); die(C[nchild - 1], SIGTERM); A(!p.is_alive(&st) && st == -SIGTERM, "stopped process"); A(p.stop() && p.kill(), "signals to an ended process"); } else if (code == 4) die(C[nchild - 1], 0); else if (code < 3) { int x = vh_range("exit", 0, 255); die(C[nchild - 1], code == 1 ? x << 8 : SIGSEGV); A(!p.is_alive(&st) && st == (code == 1 ? x : -SIGSEGV), "exit status"); A(!p.is_alive(&st) && st == (code == 1 ? x : -SIGSEGV), "exit status is forgotten"); } } }
  A(bad_close == 0, "closes a descriptor that is not open"); A(open_fds() == 0 && acts_live == 0, "descriptors are left open"); for (int i = 0; i < nchild; i++) A(C[i].reaped, "a process is left behind"); vh_cover("streams");
}
static int scripted, gaveup; static void script(Child &c);
static void child_step(Child &c, int waiting) { if (!c.alive) return; if (c.dying & 2) { die(c, SIGKILL); return; } if (scripted) script(c); }
#include "h_client_life.h"
#include "h_client_net.h"
extern "C" void vh_main(void) {
  vh_co_init(8); int n = (int)vh_param("n", 2), before = vh_heap_live(); only = (int)vh_param("only", 0);
  switch (vh_param("mode", 0)) {
    case 0: p_command(n); break; case 1: p_long(n); break; case 2: p_streams(); break;
    case 10: t_deadline(); break; case 11: t_elapsed(); break;
    case 30: n_accept(); break; case 31: n_connect(); break; case 32: n_ports(); break;
    case 20: life(n); break; case 21: logging(n); break;
  }
  if (only != 1) { vh_assert(vh_heap_live() == before, "memory is not released"); vh_cover("released"); }
}
