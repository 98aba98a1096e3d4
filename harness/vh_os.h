/* The operating system as seen by support/client: descriptors, pipes, processes, threads and time. In the symbolic build these
   are the functions themselves, in native replays the repository's objects are renamed to call vh_ (see "wrap" in checks.py).
   Threads run one at a time and switch only inside the calls below: when one blocks, the next one that can run goes on in a
   fixed order, and time passes when none can. Apart from that, "delays" of them may happen anywhere: the thread that would run
   is passed over for the next one, or for one that still sleeps. */
#ifndef VH_OS_H
#define VH_OS_H
#include "vh.h"
#include <unistd.h>
#include <spawn.h>
#include <pthread.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
#ifdef VH_NATIVE_BUILD
#define OS(n) vho_##n
#else
#define OS(n) n
#endif
enum { NFD = 40, NPIPE = 18, NCHILD = 4, PCAP = 1400 };
struct Pipe { char d[PCAP]; int len, pos, rd, wr; };
struct Fd { int kind /* 1 read end, 2 write end, 3 socket */, pipe; };
/* sockets: what is read comes from pipe in, what is written goes to pipe out; peers wait as pairs of pipes until they are accepted */
enum { NSOCK = 30, NPEND = 3 }; struct Sock { int refs, port, listening, connected, in, out, npend, pin[NPEND], pout[NPEND]; };
struct Child { int pid, alive, dying, reaped, status, lines, cwd; Fd fd[NFD]; char arg[8][48]; int nargs, nenv; char env[12][48]; };
static Pipe P[NPIPE]; static int npipe; static Sock S[NSOCK]; static int nsock, net_calls, net_fail = -1 /* which of the calls fails */, net_busy /* how many ports are taken */, late /* failing attempts to connect */, attempts; static Fd F[NFD]; static Child C[NCHILD]; static int nchild, bad_close, pipes_left = 1000, spawn_fails, chdir_fails, in_os_n;
static int cwd_id; /* 0: where the test started, 1: elsewhere */ static char cwd_wanted[16];
static int cur /* running thread: 0 main, 1 watchdog, 2 logger */, sched_on, delays, limit_ms = 20000; static long now_ms, call_start; static int held[8];
enum { NT = 5, RUN = 0, SLEEP, LOCK, JOIN, COND, READ, DONE };
struct Thr { int st, on, signaled; long wake; const volatile void *obj; void *(*fn)(void *); void *arg, *ret; }; static Thr T[NT]; static int nthr;
static void child_step(Child &c, int waiting);
static int can_run(int k) { Thr &t = T[k]; switch (t.st) { case RUN: return 1; case SLEEP: return now_ms >= t.wake; case LOCK: return *(const volatile int *)t.obj == 0; case JOIN: return T[t.on].st == DONE; case COND: return t.signaled || now_ms >= t.wake; case READ: return P[t.on].pos < P[t.on].len || P[t.on].wr == 0 || (t.wake && now_ms >= t.wake); } return 0; }
static void step_children(int waiting) { for (int i = 0; i < nchild; i++) child_step(C[i], waiting); }
static void schedule() { /* the running thread has said in T[cur].st why it stops */
  int cand[NT], n, nrun, i, c, k; if (!sched_on) { if (!can_run(cur)) vh_fail("waits forever"); T[cur].st = RUN; return; }
  if (T[cur].st != RUN) step_children(1);
  for (;;) {
    for (n = i = 0; i < NT; i++) { k = (cur + i) % NT; if ((k == 0 || k <= nthr) && T[k].st != DONE && can_run(k)) cand[n++] = k; }
    nrun = n; for (i = 0; i < NT; i++) if ((i == 0 || i <= nthr) && (T[i].st == SLEEP || ((T[i].st == COND || T[i].st == READ) && T[i].wake)) && !can_run(i)) { int at = n; while (at > nrun && T[cand[at - 1]].wake > T[i].wake) { cand[at] = cand[at - 1]; at--; } cand[at] = i; n++; }
    if (!n) vh_fail("deadlock: no thread can go on"); if (now_ms - call_start > limit_ms) vh_fail("a call takes too long");
    c = delays > 0 && n > 1 ? vh_pick("delay", 0, delays < n - 1 ? delays : n - 1) : 0; delays -= c; k = cand[c];
    if (c < nrun) break; if (T[k].wake > now_ms) now_ms = T[k].wake; step_children(1); if (c || can_run(k)) break; }
  T[k].st = RUN; if (k != cur) { cur = k; vh_co_to(k); } }
static void point() { if (sched_on && delays > 0) schedule(); }
static void sleep_ms(long ms) { T[cur].st = SLEEP; T[cur].wake = now_ms + ms; schedule(); }
extern "C" {
static int newfd(int kind, int pipe) { for (int i = 3; i < NFD; i++) if (!F[i].kind) { F[i].kind = kind; F[i].pipe = pipe; return i; } vh_unsupported("descriptors"); return -1; }
int OS(pipe)(int *f) noexcept { if (pipes_left-- <= 0) { errno = EMFILE; return -1; } if (npipe >= NPIPE) vh_unsupported("pipes"); Pipe &p = P[npipe]; p.rd = p.wr = 1; f[0] = newfd(1, npipe); f[1] = newfd(2, npipe); npipe++; return 0; }
static int inpipe(const Fd &f) { return f.kind == 1 ? f.pipe : f.kind == 3 && S[f.pipe].connected ? S[f.pipe].in : -1; }
static int outpipe(const Fd &f) { return f.kind == 2 ? f.pipe : f.kind == 3 && S[f.pipe].connected ? S[f.pipe].out : -1; }
static void dropfd(Fd &f) { if (f.kind == 1) P[f.pipe].rd--; if (f.kind == 2) P[f.pipe].wr--; if (f.kind == 3) { Sock &s = S[f.pipe]; if (--s.refs == 0) { if (s.connected) { P[s.in].rd--; P[s.out].wr--; } while (s.npend) { s.npend--; P[s.pin[s.npend]].rd--; P[s.pout[s.npend]].wr--; } s.listening = s.connected = 0; } } f.kind = 0; }
static void holdfd(const Fd &f) { if (f.kind == 1) P[f.pipe].rd++; if (f.kind == 2) P[f.pipe].wr++; if (f.kind == 3) S[f.pipe].refs++; }
int OS(close)(int fd) { point(); if (fd < 0) { errno = EBADF; return -1; } if (fd >= NFD || !F[fd].kind) { bad_close++; return -1; } dropfd(F[fd]); return 0; }
int OS(dup)(int fd) noexcept { if (fd < 0 || fd >= NFD || !F[fd].kind) { errno = EBADF; return -1; } holdfd(F[fd]); return newfd(F[fd].kind, F[fd].pipe); }
static void die(Child &c, int status) { if (!c.alive) return; c.alive = 0; c.status = status; for (int i = 0; i < NFD; i++) dropfd(c.fd[i]); }
static int recording, traffic_n; static char traffic[6000]; static void record(const char *s, int n) { if (traffic_n + n > (int)sizeof traffic) vh_unsupported("record"); memcpy(traffic + traffic_n, s, (size_t)n); traffic_n += n; }
static long rd(int fd, void *b, size_t n) {
  if (fd < 0 || fd >= NFD || inpipe(F[fd]) < 0) { errno = EBADF; return -1; }
  int q = inpipe(F[fd]); Pipe &p = P[q]; point(); while (p.pos == p.len) { if (p.wr == 0) return 0; T[cur].st = READ; T[cur].on = q; T[cur].wake = 0; schedule(); }
  size_t a = (size_t)(p.len - p.pos); if (a > n) a = n; memcpy(b, p.d + p.pos, a); p.pos += (int)a; return (long)a; }
static long wr(int fd, const void *b, size_t n) {
  if (fd < 0 || fd >= NFD || outpipe(F[fd]) < 0) { errno = EBADF; return -1; }
  Pipe &p = P[outpipe(F[fd])]; if (p.rd == 0) { errno = EPIPE; return -1; } if (p.len + (int)n > PCAP) vh_unsupported("pipe capacity"); memcpy(p.d + p.len, b, n); p.len += (int)n; if (recording) record((const char *)b, (int)n); return (long)n; }
long OS(read)(int fd, void *b, size_t n) { return rd(fd, b, n); }
long vh_read(int fd, void *b, size_t n) { return rd(fd, b, n); }
long vh_write(int fd, const void *b, size_t n) { return wr(fd, b, n); }
static Sock *sockof(int fd) { if (fd < 0 || fd >= NFD || F[fd].kind != 3) { errno = ENOTSOCK; return NULL; } return &S[F[fd].pipe]; }
long vh_recv(int fd, void *b, size_t n, int f) { return sockof(fd) ? rd(fd, b, n) : -1; }
long vh_send(int fd, const void *b, size_t n, int f) { Sock *s = sockof(fd); if (s && s->connected && P[s->out].rd == 0 && !(f & MSG_NOSIGNAL)) vh_fail("a broken connection ends the program"); return s ? wr(fd, b, n) : -1; }
static int net_fails() { point(); if (net_calls++ == net_fail) { errno = ENOBUFS; return 1; } return 0; }
int OS(socket)(int d, int ty, int pr) noexcept { if (net_fails()) return -1; if (nsock >= NSOCK) vh_unsupported("sockets"); Sock &s = S[nsock]; memset((void *)&s, 0, sizeof s); s.refs = 1; s.port = -1; return newfd(3, nsock++); }
int OS(setsockopt)(int fd, int l, int o, const void *v, socklen_t n) noexcept { return !sockof(fd) || net_fails() ? -1 : 0; }
static int port_of(const struct sockaddr *a) { if (((const struct sockaddr_in *)a)->sin_family != AF_INET || ((const struct sockaddr_in *)a)->sin_addr.s_addr != 0x0100007f) vh_fail("not the local host"); unsigned p = ((const struct sockaddr_in *)a)->sin_port; return (int)((p & 255) << 8 | p >> 8); }
int OS(bind)(int fd, const struct sockaddr *a, socklen_t n) noexcept { Sock *s = sockof(fd); if (!s || net_fails()) return -1; if (net_busy > 0) { net_busy--; errno = EADDRINUSE; return -1; } for (int i = 0; i < nsock; i++) if (S[i].refs && S[i].port == port_of(a)) { errno = EADDRINUSE; return -1; } s->port = port_of(a); return 0; }
int OS(listen)(int fd, int q) noexcept { Sock *s = sockof(fd); if (!s || net_fails()) return -1; if (s->port < 0) vh_fail("listens nowhere"); s->listening = 1; return 0; }
static int link_to(int port, Sock &c) { for (int i = 0; i < nsock; i++) { Sock &s = S[i]; if (!s.refs || !s.listening || s.port != port) continue; if (npipe + 2 > NPIPE || s.npend >= NPEND) vh_unsupported("connections"); c.in = npipe++; c.out = npipe++; P[c.in].rd = P[c.in].wr = P[c.out].rd = P[c.out].wr = 1; s.pin[s.npend] = c.out; s.pout[s.npend++] = c.in; c.connected = 1; return 1; } return 0; }
int OS(connect)(int fd, const struct sockaddr *a, socklen_t n) { Sock *s; if (++attempts > 40) vh_fail("tries to connect forever"); s = sockof(fd); if (!s || net_fails()) return -1; if (late > 0) { late--; errno = ECONNREFUSED; return -1; } if (!link_to(port_of(a), *s)) { errno = ECONNREFUSED; return -1; } return 0; }
int OS(accept)(int fd, struct sockaddr *a, socklen_t *n) { Sock *s = sockof(fd); if (!s || !s->listening || net_fails()) return -1; if (!s->npend) vh_fail("waits forever for a connection"); if (nsock >= NSOCK) vh_unsupported("sockets"); int k = nsock++; Sock &c = S[k]; memset((void *)&c, 0, sizeof c); c.refs = 1; c.port = -1; c.connected = 1; c.in = s->pin[0]; c.out = s->pout[0]; s->npend--; for (int i = 0; i < s->npend; i++) { s->pin[i] = s->pin[i + 1]; s->pout[i] = s->pout[i + 1]; } return newfd(3, k); }
int vh_close(int fd) { return OS(close)(fd); }
int OS(shutdown)(int fd, int how) noexcept { return 0; }
int vh_shutdown(int fd, int how) { return 0; }
static int select_socket(int fd, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) { /* a failure leaves the sets alone */
  Sock &s = S[F[fd].pipe]; int k; if (net_fails()) return -1; if (!s.listening) vh_unsupported("select on this socket"); if (!s.npend && tv && (tv->tv_sec || tv->tv_usec)) { long until = now_ms + tv->tv_sec * 1000 + tv->tv_usec / 1000; while (!s.npend && now_ms < until) { if (!sched_on) now_ms = until; else sleep_ms(until - now_ms > 100 ? 100 : until - now_ms); } } else if (!s.npend && !tv) vh_fail("waits forever for a connection");
  k = s.npend > 0; if (!k) FD_CLR(fd, r); if (w) FD_CLR(fd, w); if (e) FD_CLR(fd, e); return k; }
int OS(select)(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
  int fd = n - 1, k; if (fd >= 0 && fd < NFD && F[fd].kind == 3) return select_socket(fd, r, w, e, tv); if (fd < 0 || fd >= NFD || F[fd].kind != 1) { if (cur) sleep_ms(50); errno = EBADF; return -1; }
  Pipe &p = P[F[fd].pipe]; k = p.pos < p.len || p.wr == 0; if (k) point(); else { T[cur].st = READ; T[cur].on = F[fd].pipe; T[cur].wake = now_ms + tv->tv_sec * 1000 + tv->tv_usec / 1000; if (sched_on) schedule(); else T[cur].st = RUN; k = p.pos < p.len || p.wr == 0; }
  if (!k) FD_CLR(fd, r); FD_CLR(fd, e); return k; }
static Child *byPid(int pid) { for (int i = 0; i < nchild; i++) if (C[i].pid == pid) return &C[i]; return NULL; }
static int polite; /* a child may be killed only after it was asked to end */
int OS(kill)(int pid, int sig) noexcept { Child *c = byPid(pid); if (!c || c->reaped) vh_fail("signal to a process that is not a child any more"); if (!c->alive) return 0; if (sig == SIGKILL) { if (polite && !(c->dying & 1)) vh_fail("ended by force without having been asked to end"); c->dying |= 2; } else if (sig == SIGTERM) c->dying |= 1; else vh_unsupported("signal"); return 0; }
int OS(waitpid)(int pid, int *st, int opt) { point(); Child *c = byPid(pid); if (!c || c->reaped) { errno = ECHILD; return -1; } if (c->alive && c->dying && !(opt & WNOHANG)) child_step(*c, 1); if (c->alive) { if (!(opt & WNOHANG)) vh_fail("waits forever for a process"); return 0; } c->reaped = 1; if (st) *st = c->status; return pid; }
struct Act { int op, a, b; }; static Act acts[16]; static int nacts, acts_live;
int OS(posix_spawn_file_actions_init)(posix_spawn_file_actions_t *x) noexcept { acts_live++; nacts = 0; return 0; }
int OS(posix_spawn_file_actions_destroy)(posix_spawn_file_actions_t *x) noexcept { acts_live--; return 0; }
static int act(int o, int a, int b) { if (nacts >= 16) vh_unsupported("file actions"); acts[nacts].op = o; acts[nacts].a = a; acts[nacts++].b = b; return 0; }
int OS(posix_spawn_file_actions_addclose)(posix_spawn_file_actions_t *x, int fd) noexcept { return act(0, fd, 0); }
int OS(posix_spawn_file_actions_adddup2)(posix_spawn_file_actions_t *x, int a, int b) noexcept { return act(1, a, b); }
static void copyt(char *d, const char *s) { int i; for (i = 0; s[i]; i++) { if (i >= 47) vh_unsupported("text length"); d[i] = s[i]; } d[i] = 0; }
int OS(posix_spawnp)(pid_t *pid, const char *file, const posix_spawn_file_actions_t *x, const posix_spawnattr_t *at, char *const *argv, char *const *envp) {
  if (spawn_fails || !file[0]) return ENOENT; if (nchild >= NCHILD) vh_unsupported("processes");
  Child &c = C[nchild++]; memset((void *)&c, 0, sizeof c); c.pid = 100 + nchild; c.alive = 1; c.cwd = cwd_id; vh_assert(!strcmp(file, argv[0]), "program and first argument differ");
  for (; argv[c.nargs]; c.nargs++) { if (c.nargs >= 8) vh_unsupported("arguments"); copyt(c.arg[c.nargs], argv[c.nargs]); } for (; envp[c.nenv]; c.nenv++) { if (c.nenv >= 12) vh_unsupported("environment"); copyt(c.env[c.nenv], envp[c.nenv]); }
  for (int i = 0; i < NFD; i++) c.fd[i] = F[i];
  for (int i = 0; i < nacts; i++) { if (acts[i].op == 0) c.fd[acts[i].a].kind = 0; else { if (!c.fd[acts[i].a].kind) { nchild--; return EBADF; } c.fd[acts[i].b] = c.fd[acts[i].a]; } }
  for (int i = 0; i < NFD; i++) holdfd(c.fd[i]);
  *pid = c.pid; return 0; }
char *OS(getcwd)(char *b, size_t n) noexcept { const char *t = cwd_id ? cwd_wanted : "/home"; if (strlen(t) + 1 > n) { errno = ERANGE; return NULL; } strcpy(b, t); return b; }
int OS(chdir)(const char *d) noexcept { if (!strcmp(d, "/home")) { cwd_id = 0; return 0; } if (chdir_fails) return -1; if (strlen(d) > 15) vh_unsupported("directory"); strcpy(cwd_wanted, d); cwd_id = 1; return 0; }
static void run_forever(void *a) { int k = (int)(long)a; T[k].ret = T[k].fn(T[k].arg); if (held[k]) vh_fail("a thread ends with a mutex"); T[k].st = DONE; schedule(); vh_fail("a thread comes back"); }
int OS(usleep)(useconds_t us) { if (!sched_on) step_children(0); else sleep_ms(us / 1000); return 0; }
static void usleep_main() { OS(usleep)(100000); }
unsigned OS(sleep)(unsigned s) { if (sched_on) sleep_ms(s ? s * 1000 : 50); return 0; }
/* threads */
int OS(pthread_create)(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) noexcept { if (nthr >= NT - 1) vh_unsupported("threads"); nthr++; T[nthr].st = RUN; T[nthr].fn = f; T[nthr].arg = arg; *t = (pthread_t)nthr; vh_co_new(nthr, run_forever, (void *)(long)nthr); return 0; }
int OS(pthread_join)(pthread_t t, void **r) { int k = (int)t; if (k < 1 || k > nthr || !T[k].fn) vh_fail("joins no thread"); T[cur].st = JOIN; T[cur].on = k; schedule(); *r = T[k].ret; T[k].fn = NULL; while (nthr && !T[nthr].fn) nthr--; return 0; }
int OS(pthread_attr_init)(pthread_attr_t *a) noexcept { return 0; }
int OS(pthread_attr_destroy)(pthread_attr_t *a) noexcept { return 0; }
pthread_t OS(pthread_self)() noexcept { return (pthread_t)(cur + 10); }
int OS(pthread_equal)(pthread_t a, pthread_t b) noexcept { return a == b; }
static int mutexes;
int OS(pthread_mutex_init)(pthread_mutex_t *m, const pthread_mutexattr_t *a) noexcept { *(int *)m = 0; mutexes++; return 0; }
int OS(pthread_mutex_destroy)(pthread_mutex_t *m) noexcept { mutexes--; if (*(int *)m) vh_fail("destroys a locked mutex"); return 0; }
int OS(pthread_mutex_lock)(pthread_mutex_t *m) noexcept { point(); while (*(volatile int *)m) { if (*(int *)m == cur + 1) vh_fail("deadlock: locks a mutex that it holds"); T[cur].st = LOCK; T[cur].obj = m; schedule(); } *(int *)m = cur + 1; held[cur]++; return 0; }
int OS(pthread_mutex_unlock)(pthread_mutex_t *m) noexcept { if (*(int *)m != cur + 1) vh_fail("unlocks a mutex of another thread"); *(int *)m = 0; held[cur]--; point(); return 0; }
int OS(pthread_cond_init)(pthread_cond_t *c, const pthread_condattr_t *a) noexcept { return 0; }
int OS(pthread_cond_destroy)(pthread_cond_t *c) noexcept { return 0; }
int OS(pthread_cond_signal)(pthread_cond_t *c) noexcept { for (int k = 0; k < NT; k++) if (T[k].st == COND && T[k].obj == c && !T[k].signaled) { T[k].signaled = 1; break; } return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, long ms) { OS(pthread_mutex_unlock)(m); T[cur].st = COND; T[cur].obj = c; T[cur].signaled = 0; T[cur].wake = ms < 0 ? 0 : now_ms + ms; schedule(); int s = T[cur].signaled; OS(pthread_mutex_lock)(m); return s ? 0 : ETIMEDOUT; }
int OS(pthread_cond_wait)(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, -1); }
}
#endif
