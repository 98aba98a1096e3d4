/* C01: the command line client: a whole run of its main function on files in memory and a modelled tracker */
#include "vh_os.h"
#include <iostream>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <trax/client.hpp>
#include "region.h"
extern "C" char *vh_getenv(const char *n) { return NULL; }
#ifdef VH_NATIVE_BUILD
extern "C" char *vho_getenv(const char *n) { return vh_getenv(n); }
#endif
extern "C" char **OS(environ); char **OS(environ);
#define A(c, l) vh_assert((c) ? 1 : 0, l)
extern "C" {
int OS(gettimeofday)(struct timeval *t, void *z) noexcept { t->tv_sec = 1000 + now_ms / 1000; t->tv_usec = now_ms % 1000 * 1000; return 0; }
int OS(clock_gettime)(clockid_t c, struct timespec *t) noexcept { t->tv_sec = 1000 + now_ms / 1000; t->tv_nsec = now_ms % 1000 * 1000000; return 0; }
int OS(pthread_cond_timedwait)(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cond_wait(c, m, (t->tv_sec - 1000) * 1000 + t->tv_nsec / 1000000 - now_ms); }
int OS(sigaction)(int s, const struct sigaction *a, struct sigaction *o) noexcept { return 0; }
int OS(sigemptyset)(sigset_t *s) noexcept { return 0; }
#ifndef VH_NATIVE_BUILD
char *optarg; int optind = 1, opterr, optopt; static int optat;
int getopt(int n, char *const *v, const char *opts) noexcept { /* words of the form -x, -xyz, -x value, -xvalue; ends at -- or the first other word */
  if (!optat) { if (optind >= n || v[optind][0] != '-' || !v[optind][1]) return -1; if (!strcmp(v[optind], "--")) { optind++; return -1; } optat = 1; }
  int c = v[optind][optat++]; const char *o = strchr(opts, c); if (!o || c == ':') { optopt = c; if (!v[optind][optat]) { optat = 0; optind++; } return '?'; }
  if (o[1] == ':') { if (v[optind][optat]) optarg = (char *)v[optind] + optat; else if (++optind < n) optarg = v[optind]; else { optopt = c; optat = 0; return '?'; } optind++; optat = 0; return c; }
  if (!v[optind][optat]) { optat = 0; optind++; } return c; }
#endif
}
/* files: in memory here, in a directory of its own in native replays */
#ifdef VH_NATIVE_BUILD
static char where[] = "/tmp/vhcliXXXXXX";
static void files_begin() { if (!mkdtemp(where) || chdir(where)) vh_unsupported("directory"); }
static void files_end() { chdir("/"); std::string s(where); for (const char *n : {"i", "g", "o", "t", "s", "f0", "f1", "f2", "f3"}) unlink((s + "/" + n).c_str()); rmdir(where); }
static void put(const char *n, const std::string &t) { FILE *f = fopen(n, "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
static int get(const char *n, char *b, int cap) { FILE *f = fopen(n, "r"); if (!f) return -1; int k = (int)fread(b, 1, (size_t)cap - 1, f); fclose(f); b[k] = 0; return k; }
#else
static void files_begin() {} static void files_end() {}
static void put(const char *n, const std::string &t) { std::ofstream f(n); f << t; f.close(); }
static int get(const char *n, char *b, int cap) { for (int i = 0; i < std::vh_nfiles; i++) if (!strcmp(std::vh_files[i].name, n)) { int k = std::vh_files[i].len; if (k >= cap) vh_unsupported("file size"); memcpy(b, std::vh_files[i].data, (size_t)k); b[k] = 0; return k; } return -1; }
#endif
int cli_main(int argc, char **argv);
enum { MAXF = 6 };
enum { SAME, FAR, HALF, SLOWLY, KINDS, CRASHES = 10, HANGS, GARBAGE };
static int frames, kind[MAXF], blank[MAXF], ends_at = -1, ends_how, thr, again, timings, own_init, given, formats, param_sent, longer, shorter, fails_to_start, query, bad, depth, conn, buf, gone = -1, sym; static unsigned char sv[3], se, sp, sd[3]; static long busy_until[NCHILD];
struct Msg { int proc, type, frame; char text[200]; }; static Msg msgs[16]; static int nmsgs;
static const char *const GT[] = {"0.0000,0.0000,10.0000,10.0000", "1.0000,0.0000,10.0000,10.0000", "2.0000,0.0000,10.0000,10.0000", "3.0000,0.0000,10.0000,10.0000", "4.0000,0.0000,10.0000,10.0000", "5.0000,0.0000,10.0000,10.0000"};
static const char *const IN[] = {"0.0000,1.0000,10.0000,10.0000", "1.0000,1.0000,10.0000,10.0000", "2.0000,1.0000,10.0000,10.0000", "3.0000,1.0000,10.0000,10.0000", "4.0000,1.0000,10.0000,10.0000", "5.0000,1.0000,10.0000,10.0000"};
static void reply_text(int f, char *b) { int k = kind[f]; snprintf(b, 48, k == FAR ? "%d.0000,500.0000,10.0000,10.0000" : k == HALF ? "%d.0000,0.0000,10.0000,5.0000" : "%d.0000,0.0000,10.0000,10.0000", f); }
static void cputs(Child &c, int fd, const char *s) { Pipe &p = P[outpipe(c.fd[fd])]; int n = (int)strlen(s); if (p.len + n > PCAP) vh_unsupported("pipe capacity"); memcpy(p.d + p.len, s, (size_t)n); p.len += n; }
static int cfd(Child &c, const char *k, int d) { size_t n = strlen(k); for (int i = 0; i < c.nenv; i++) if (!strncmp(c.env[i], k, n) && c.env[i][n] == '=') return atoi(c.env[i] + n + 1); return d; }
/* t has these characters as they are written in messages and then a quote */
static int esc(const char *t, const unsigned char *c, int n) { for (int i = 0; i < n; i++) { if (c[i] == '"' || c[i] == '\\' || c[i] == '\n') { if (*t++ != '\\') return 0; if (*t++ != (c[i] == '\n' ? 'n' : (char)c[i])) return 0; } else if (*t++ != (char)c[i]) return 0; } return *t == '"'; }
static int said[NCHILD], due[NCHILD];
static void child_step(Child &c, int waiting) { if (!c.alive) return; if (c.dying) { die(c, c.dying & 2 ? SIGKILL : SIGTERM); return; }
  int k = (int)(&c - C), in = cfd(c, "TRAX_IN", 0), out = cfd(c, "TRAX_OUT", 1); if (fails_to_start) { die(c, 256); return; }
  int port = cfd(c, "TRAX_SOCKET", -1); A((port >= 0) == (conn == 2) && (cfd(c, "TRAX_IN", -1) >= 0) == (conn == 1) && (cfd(c, "TRAX_OUT", -1) >= 0) == (conn == 1), "kind of connection");
  if (port >= 0) { in = out = NFD - 1; if (c.fd[in].kind == 0) { if (nsock >= NSOCK) vh_unsupported("sockets"); Sock &s = S[nsock]; memset((void *)&s, 0, sizeof s); if (!link_to(port, s)) vh_fail("the tracker finds nobody at the port it was given"); s.refs = 1; s.port = -1; c.fd[in].kind = 3; c.fd[in].pipe = nsock++; } }
  if (!said[k]) { said[k] = 1; cputs(c, out, "@@TRAX:hello \"trax.version=3\" \"trax.region=rectangle\" "); cputs(c, out, buf ? "\"trax.image=buffer\" " : "\"trax.image=path\" "); cputs(c, out, depth == 1 ? "\"trax.channels=color;depth\" \n" : depth == 2 ? "\"trax.channels=ir;color\" \n" : "\"trax.channels=color\" \n"); due[k] = -1; return; }
  if (due[k] >= 0) { if (now_ms < busy_until[k]) return; char b[80], r[48]; reply_text(due[k], r); snprintf(b, sizeof b, "@@TRAX:state \"%s\" \"a=b\" \n", r); cputs(c, out, b); due[k] = -1; }
  Pipe &p = P[inpipe(c.fd[in])]; for (;;) { int e = p.pos; while (e < p.len && p.d[e] != '\n') e++; if (e >= p.len) return; int n = e - p.pos; if (nmsgs >= 16 || n >= 200) vh_unsupported("messages"); Msg &m = msgs[nmsgs++]; memcpy(m.text, p.d + p.pos, (size_t)n); m.text[n] = 0; p.pos = e + 1; m.proc = k; m.type = m.text[7]; m.frame = -1; { const char *q = strstr(m.text, buf ? "data:image/jpeg;/9j/4GY" : "/f"); if (q) m.frame = buf ? q[23] - 'w' : q[2] - '0'; if (q && buf) { static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; unsigned v = (unsigned)sd[0] << 16 | (unsigned)sd[1] << 8 | sd[2]; A((q[24] == b64[v >> 18]) & (q[25] == b64[v >> 12 & 63]) & (q[26] == b64[v >> 6 & 63]) & (q[27] == b64[v & 63]) & (q[28] == '"'), "contents of the image"); } else if (q && sym) A(esc(q + 3, &sp, 1), "path of the image"); }
    if (m.type == 'q') { nmsgs--; die(c, 0); return; } if (m.frame < 0 || m.frame >= frames) vh_fail("an image that is not in the list");
    if (depth) { const char *d = strstr(m.text, depth == 1 ? "/d" : "/r"), *f = strstr(m.text, "/f"); A(d && d[2] - '0' == m.frame && (depth == 1 ? f < d : f < d) && !strstr(m.text, depth == 1 ? "/r" : "/d"), "images of the other channels"); }
    if (m.frame == ends_at) { if (ends_how == CRASHES) { die(c, SIGSEGV); return; } if (ends_how == HANGS) { return; } cputs(c, out, "@@TRAX:state \"1.0,zz\" \n"); continue; }
    due[k] = m.frame; if (kind[m.frame] == SLOWLY) { busy_until[k] = now_ms + 300; return; } char b[80], r[48]; reply_text(due[k], r); snprintf(b, sizeof b, "@@TRAX:state \"%s\" \"a=b\" \n", r); cputs(c, out, b); due[k] = -1; } }
static float overlap_of(int f) { if (blank[f] && !own_init) return 0; char r[48]; reply_text(f, r); trax_region *a = trax_region_decode(GT[f]), *b = trax_region_decode(r); float o = trax_region_overlap(a, b, trax_no_bounds); trax_region_release(&a); trax_region_release(&b); return o; }
static float threshold() { return thr == 1 || thr == 4 ? 0 : thr == 2 ? 0.5f : 1; }
extern "C" void OS(exit)(int code) noexcept { /* the end of the run: compare with what should have happened */
  static char got[1200], want[1200], tm[400]; int at = 0, f = 0, n = 0, proc = 0, failed = 0, slow[MAXF], nt = 0, broke = fails_to_start; want[0] = 0; call_start = now_ms;
  if (query || bad) { A(nmsgs == 0, "unwanted requests"); A((code == 0) == (query && !fails_to_start), "answer to a query"); if (bad) A(nchild == 0, "a tracker is started without need"); A(get("o", got, sizeof got) < 0, "unwanted results"); vh_cover("query"); n = nmsgs; frames = 0; }
  else { while (f < frames && !broke) {
    if (blank[f]) { at += snprintf(want + at, 60, "0\n"); slow[nt++] = 0; f++; continue; }
    int first = 1; for (;; f++) { if (f >= frames) break; if (f == gone) { broke = 1; break; }
      A(n < nmsgs && msgs[n].proc == proc && msgs[n].frame == f && msgs[n].type == (first ? 'i' : 'f'), "request to the tracker"); if (n < nmsgs) { if (first) { A(strstr(msgs[n].text, own_init ? IN[f] : GT[f]) != NULL, "the object is not the one of the file"); const char *q = strstr(msgs[n].text, "\"k="); A((q != NULL) == (given != 0), "parameters of the tracker"); if (q) A(esc(q + 3, sv, sym ? 2 : 1), "value of a parameter"); } }
      n++; if (f == ends_at) { broke = 1; break; }
      if (thr && overlap_of(f) <= threshold()) { failed = 1; break; }
      char r[48]; reply_text(f, r); at += snprintf(want + at, 60, "%s\n", first ? "1" : r); slow[nt++] = kind[f] == SLOWLY ? 2 : 1; first = 0; }
    if (broke || f >= frames) break;
    if (failed) { failed = 0; at += snprintf(want + at, 60, "2\n"); slow[nt++] = 0; int to = again ? f + again : frames; for (f++; f < to && f < frames; f++) { at += snprintf(want + at, 60, "0\n"); slow[nt++] = 0; } if (!again) break; proc++; } }
  A(nmsgs == n, "requests to the tracker"); int k = get("o", got, sizeof got);
  if (broke) { A(code != 0, "a failed run is not reported"); vh_cover("broken"); }
  else { A(code == 0, "a good run is reported as failed"); A(frames == 0 || k >= 0, "no results"); if (k >= 0) { A(k == at && vh_same(got, want, (size_t)at), "results differ"); }
    if (timings) { int lines = 0; char *q = tm; k = get("t", tm, sizeof tm); if (frames) A(k >= 0, "no timings"); while (k > 0 && *q) { double v = atof(q); if (lines < nt) A(slow[lines] == 0 ? v == 0 : slow[lines] == 1 ? v >= 0 && v < 0.25 : v >= 0.3 && v < 0.5, "time of a frame"); lines++; while (*q && *q != '\n') q++; if (*q) q++; } A(k < 0 || lines == nt, "number of timings"); }
    else A(get("t", tm, sizeof tm) < 0, "unwanted timings"); vh_cover("run"); } }
  for (int i = 0; i < nchild; i++) { A(C[i].reaped, "a process is left behind"); A(sym || cfd(C[i], "E", -1) == (given ? 7 : -1), "environment of the tracker"); if (sym) for (int j = 0; j < C[i].nenv; j++) if (C[i].env[j][0] == 'E') A((C[i].env[j][3] == (char)se) & (C[i].env[j][4] == 0), "value of a variable"); A(C[i].nargs == 2 && !strcmp(C[i].arg[0], "tracker") && !strcmp(C[i].arg[1], "a b"), "command of the tracker"); } A(nthr == 0, "a thread is left behind"); int open = 0; for (int i = 0; i < NFD; i++) open += F[i].kind != 0; A(open == 0 && bad_close == 0, "descriptors");
  files_end(); vh_stop(); __builtin_unreachable();
}
extern "C" void vh_main(void) {
  vh_co_init(8); int n = (int)vh_param("n", 3), i, argc = 0; sched_on = 1; limit_ms = 60000; delays = (int)vh_param("delays", 0); char *env[] = {NULL}; OS(environ) = env; char *argv[40], rt[4]; files_begin();
  int nl = vh_pick("last line", 0, 1); conn = (int)vh_param("conn", 0); frames = vh_pick("frames", (int)vh_param("lo", 0), n); thr = vh_pick("threshold", 0, (int)vh_param("thrs", 3)); again = thr ? vh_pick("again", 0, 2) : 0; timings = (int)vh_param("timings", 1); own_init = (int)vh_param("init", 0); given = (int)vh_param("given", 1); fails_to_start = (int)vh_param("nostart", 0); query = (int)vh_param("query", 0); bad = vh_param("bad", 0) ? vh_pick("bad", 1, 3) : 0; depth = (int)vh_param("depth", 0); buf = (int)vh_param("buf", 0); sym = (int)vh_param("sym", 0); sv[0] = 'v'; if (sym) { sv[0] = vh_u8("v"); sv[1] = vh_u8("v"); se = vh_u8("e"); sp = vh_u8("p"); vh_assume(sv[0] && sv[1] && se && sp && sp != '\n' && sp != ';'); if (buf) sp = 0; } if (buf) { for (i = 0; i < 3; i++) sd[i] = sym ? vh_u8("d") : (unsigned char)('a' + i); if (frames && vh_param("gone", 0)) gone = vh_pick("gone", 0, frames - 1); }
  for (i = 0; i < frames; i++) { kind[i] = vh_pick("reply", 0, (int)vh_param("kinds", 3) - 1); blank[i] = vh_param("blanks", 1) ? vh_pick("blank", 0, 1) : 0; } if (vh_param("ends", 0) && frames) { ends_at = vh_pick("ends at", 0, frames - 1); ends_how = CRASHES + vh_pick("ends how", 0, 2); }
  longer = vh_pick("longer", 0, 2); std::string im, gt, in;
  for (i = 0; i < frames + (longer == 1); i++) { im += "./f"; im += (char)('0' + i); if (sym && !buf) im += (char)sp; if (depth) { im += ";./d"; im += (char)('0' + i); im += ";./r"; im += (char)('0' + i); } if (i + 1 < frames + (longer == 1) || nl) im += "\n"; }
  for (i = 0; i < frames + (longer == 2); i++) { int last = i + 1 == frames + (longer == 2); if (own_init || i >= frames || !blank[i]) gt += GT[i]; if (!last || nl || gt.empty() || gt[gt.size() - 1] == '\n') gt += "\n"; }
  int given_inits = own_init ? vh_pick("initializations", 0, frames) : frames; for (i = 0; i < given_inits; i++) { if (!blank[i]) in += IN[i]; in += "\n"; } for (; i < frames; i++) blank[i] = 1;
  if (bad != 1) put("i", im); if (buf) for (i = 0; i < frames; i++) if (i != gone) { std::string d("\xff\xd8\xff\xe0" "f"); d += (char)('0' + i); for (int j = 0; j < 3; j++) d += (char)sd[j]; char name[4] = {'.', '/', 'f', 0}; put((std::string(name) + (char)('0' + i)).c_str(), d); } put("g", gt); if (own_init) put("s", in); 
#define W(x) argv[argc++] = (char *)(x)
  W("traxclient"); W("-I"); W("i"); W("-Gg"); W("-O"); W("o"); W("-t"); W("1"); if (timings) { W("-T"); W("t"); } if (own_init) { W("-S"); W("s"); } if (given) { W("-p"); static char kv[8] = "k=", ev[8] = "E=7"; memcpy(kv + 2, sv, 2); if (sym) ev[3] = (char)se; W(kv); W("-e"); W(ev); } if (thr) { W("-f"); W(thr == 1 ? "0" : thr == 2 ? "0.5" : thr == 3 ? "1.5" : "-0.5"); } if (again) { W("-r"); rt[0] = (char)('0' + again); rt[1] = 0; W(rt); } if (conn == 1) W("-x"); if (conn == 2) W("-X"); if (query) W("-Q"); W("-s"); if (bad == 2) W("-Z"); W("--"); if (bad != 3) { W("tracker"); W("a b"); } argv[argc] = NULL;
  cli_main(argc, argv); vh_fail("the program goes on after its end");
}
