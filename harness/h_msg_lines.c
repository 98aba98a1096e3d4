/* Differential check of the message reader against an independent decoder written from docs/protocol.rst.
   A stream of bytes is split into lines; a line that is a well-formed message is delivered, any other is skipped. */
#define VH_CAP 24000
#include "vh_io.h"
#include "message.h"
#define MAXM 6
#define MAXA 40
typedef struct { int type, na, np; int as[MAXA], al[MAXA]; int ks[MAXA], kl[MAXA], vs[MAXA], vl[MAXA]; } msg;
static msg ref[MAXM]; static int nref;
static char pool[60000]; static int pp;
static const char *NAMES[] = {"hello", "initialize", "frame", "quit", "state", "status"};
static const int CODES[] = {TRAX_HELLO, TRAX_INITIALIZE, TRAX_FRAME, TRAX_QUIT, TRAX_STATE, TRAX_STATE};
static int low(int c) { return c + 32 * ((c >= 'A') & (c <= 'Z')); }
static int alnum(int c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
static int keyok(const char *k, int n) { int bad = 0; if (n < 1 || n > 64) return 0; for (int i = 0; i < n; i++) { int c = (unsigned char)k[i]; bad |= !(alnum(c) | (c == '.') | (c == '_')); } return !bad; }
static int loose; /* arbitrary bytes: only safety is checked, the decoder is not consulted */
/* one complete line (without its line break) */
static int line(const char *s, int n, msg *m) {
  int i, k; m->na = m->np = 0; m->type = -1;
  if (n < 7 || memcmp(s, "@@TRAX:", 7)) return 0;
  i = 7; while (i < n && alnum((unsigned char)s[i])) i++;
  for (k = 0; k < 6; k++) { int l = (int)strlen(NAMES[k]), eq = 1; if (l != i - 7) continue; for (int j = 0; j < l; j++) eq &= low((unsigned char)s[7 + j]) == NAMES[k][j]; if (eq) { m->type = CODES[k]; break; } }
  if (m->type < 0) return 0;
  if (i < n && s[i] != ' ') return 0;
  while (1) {
    int q, st, iskv = 0, ks = 0, kl = 0;
    while (i < n && s[i] == ' ') i++;
    if (i >= n) return 1;
    q = s[i] == '"'; if (q) i++;
    st = pp; ks = pp;
    while (1) {
      int c, lit = 0;
      if (i >= n) { if (q) return 0; break; }
      c = (unsigned char)s[i];
      if (c == '\\') { i++; if (i >= n) return 0; c = (unsigned char)s[i]; if (c == 'n') c = '\n'; lit = 1; }
      if (!lit && q && c == '"') { i++; if (i < n && s[i] != ' ') return 0; break; }
      if (!lit && !q && c == ' ') break;
      if (!lit && !q && !loose) vh_assume((c != '"') & (c != '\r')); /* not specified: quotes and carriage returns in or between unquoted text */
      vh_assume(c != 0);
      i++;
      if (!lit && c == '=' && !iskv && keyok(pool + st, pp - st)) { iskv = 1; kl = pp - ks; st = pp; continue; }
      pool[pp++] = (char)c;
    }
    if (iskv) { for (k = 0; k < m->np; k++) if (m->kl[k] == kl && memcmp(pool + m->ks[k], pool + ks, (size_t)kl) == 0) break; if (k == m->np) { m->np++; m->ks[k] = ks; m->kl[k] = kl; } m->vs[k] = st; m->vl[k] = pp - st; }
    else { m->as[m->na] = st; m->al[m->na++] = pp - st; }
  }
}
static void decode(const char *d, int n) { int s = 0, i; nref = 0; pp = 0; for (i = 0; i < n; i++) if (d[i] == '\n') { if (line(d + s, i - s, &ref[nref])) nref++; s = i + 1; } }

static msg *cur; static int seen[MAXA], extra;
static void visit(const char *k, const char *v, const void *o) { int kl = (int)strlen(k), vl = (int)strlen(v);
  for (int i = 0; i < cur->np; i++) if (!seen[i] && cur->kl[i] == kl && cur->vl[i] == vl && memcmp(pool + cur->ks[i], k, (size_t)kl) == 0 && memcmp(pool + cur->vs[i], v, (size_t)vl) == 0) { seen[i] = 1; return; } extra++; }

static void sym(int n, const char *nm) { char b[16]; vh_bytes(b, n, nm); vh_feed(1, b, n); }
static void rep(char c, int n) { static char t[6000]; memset(t, c, (size_t)n); vh_feed(1, t, n); }
/* a line with symbolic content: n bytes that are no line break */
static void symline(int n, const char *nm) { char b[16]; for (int i = 0; i < n; i++) { unsigned char c = vh_u8(nm); vh_assume(c != '\n'); b[i] = (char)c; } vh_feed(1, b, n); }
#define A_MSG "@@TRAX:frame \"first one\" \"a.b=c d\" \n"
#define B_MSG "@@TRAX:state second \"k=v\" x=y \n"
void vh_main(void) {
  int mode = (int)vh_param("mode", 0), n = (int)vh_param("n", 2), i, j, t, k = (int)vh_param("k", 0), sock = (int)vh_param("sock", 0);
  int cut = (int)vh_param("cut", 0), live0;
  vh_frag_in = (int)vh_param("frag", 0); vh_frag_max = (int)vh_param("fmax", 3); vh_read_err = (int)vh_param("err", 0);
  message_stream *r; string_list *al; trax_properties *pr;
  switch (mode) {
  case 0: vh_feeds(1, "@@TRAX:frame "); sym(n, "b"); vh_feeds(1, "\n@@TRAX:quit \n"); break; /* arguments */
  case 1: vh_feeds(1, "@@TRAX:"); sym(n, "b"); vh_feeds(1, "\n" B_MSG); break;               /* message name */
  case 2: { /* every message name in any letter case, and near misses */
    const char *nm = NAMES[k]; char b[16]; int l = (int)strlen(nm); for (i = 0; i < l; i++) { unsigned char c = vh_u8("c"); vh_assume((c == (unsigned char)nm[i]) | (c == (unsigned char)(nm[i] - 32))); b[i] = (char)c; }
    vh_feeds(1, "@@TRAX:"); vh_feed(1, b, l); sym(n, "b"); vh_feeds(1, " x\n" B_MSG); break; }
  case 3: { /* key length limit */
    int l = vh_pick("klen", 62, 67), at = vh_pick("at", 0, 1) * (l - 1); char b[80]; memset(b, 'k', (size_t)l); b[at] = (char)vh_u8("c");
    vh_feeds(1, k ? "@@TRAX:frame \"" : "@@TRAX:frame "); vh_feed(1, b, l); vh_feeds(1, k ? "=v w\" z\n" : "=v w\n"); break; }
  case 4: vh_feed(1, "@@TRAX:", k); sym(n, "b"); vh_feeds(1, "\n" A_MSG); symline(n - 1, "d"); vh_feeds(1, "\n" B_MSG); break; /* junk before and between */
  case 5: { /* a malformed line between two messages */
    static const char *J[] = {"plain text ", "@@TRAX:other x=y ", "@@TRAX:frame \"un", "@@TRAX:frame \"q=un", "@@TRAX:frame \"a\"", "@@TRAX:frame \"k=a\"", "@@TRAX:frame p q=r a\\", "@@TRAX:frame p q=r k=a\\", "@@TRAX:frame p \"a\\", "@@TRAX:frame p \"k=a\\", "@@TRAX:frame p z=1 \"w=2\" \"u", "@@TRAX", "@@TRAX:", "@@@TRAX:frame ", "x@@TRAX:frame ", " @@TRAX:frame ", "@@TRAX: frame ", "@@TRAX:frame.x ", "@@TRAX:frame= ", "@@TRAX:hell ", "@@TRAX:helloo ", "", "@@trax:frame "};
    vh_feeds(1, A_MSG); vh_feeds(1, J[k]); symline(n, "b"); vh_feeds(1, "\n" B_MSG); break; }
  case 6: sym(n, "b"); break; /* nothing but arbitrary bytes */
  case 7: { /* beyond the buffer growth step: name, key, value, positional, at the chunk boundary */
    static const char *H7[] = {"@@TRAX:", "@@TRAX:frame ", "@@TRAX:frame \"", "@@TRAX:frame a=", "@@TRAX:frame \"a=", ""}; int l = vh_pick("len", (int)vh_param("lo", 4094), (int)vh_param("hi", 4098));
    vh_feeds(1, H7[k]); rep('a', l); sym(n, "b"); if (k == 2 || k == 4) vh_feeds(1, "\""); vh_feeds(1, "\n" B_MSG); break; }
  case 8: { vh_feeds(1, "@@TRAX:hello "); int m = vh_pick("count", 8, 34); for (i = 0; i < m; i++) { char b[12]; strcpy(b, k ? "kx=v " : "ax "); b[1] = (char)('A' + i); vh_feeds(1, b); } sym(n, "b"); vh_feeds(1, "\n"); break; } /* many arguments */
  case 9: vh_feeds(1, A_MSG "junk \"\n" B_MSG "@@TRAX:status \"esc \\\" \\\\ \\n.\" 'v\\ w' \n@@TRAX:QUIT\n"); break; /* fixed stream, used with fragmentation and cuts */
  case 10: { /* a message across the refill boundary */
    int l = 4096 - vh_pick("before", 0, (int)vh_param("span", 40)); rep('z', l); vh_feeds(1, "\n" A_MSG); vh_feeds(1, "@@TRAX:frame "); sym(n, "b"); vh_feeds(1, "\n"); rep('y', 4096); vh_feeds(1, "\n" B_MSG); break; }
  }
  if (cut) { int at = vh_pick("cut", vh_ch[1].len > 250 ? vh_ch[1].len - 250 : 0, vh_ch[1].len); vh_ch[1].len = at; }
  loose = mode == 6;
  if (!loose) decode(vh_ch[1].d, vh_ch[1].len);
  live0 = vh_heap_live();
  r = create_message_stream_file(1, 2); if (sock) { r->flags = TRAX_STREAM_SOCKET; r->socket.server = -1; r->socket.socket = 1; }
  if (loose) {
    for (i = 0; i < MAXM; i++) { al = list_create(1); pr = trax_properties_create(); t = read_message(r, NULL, al, pr);
      vh_assert((t == -1) | ((t >= TRAX_HELLO) & (t <= TRAX_STATE)), "unknown result code"); list_destroy(&al); trax_properties_release(&pr); if (t == -1) break; }
    vh_cover("arbitrary");
  } else {
    for (i = 0; i < nref + 3; i++) {
      al = list_create(1); pr = trax_properties_create(); t = read_message(r, NULL, al, pr);
      if (i >= nref) { vh_assert(t == -1, "message reported that is not in the stream"); vh_assert(list_size(al) == 0, "arguments without a message"); vh_assert(trax_properties_count(pr) == 0, "properties without a message"); }
      else {
        cur = &ref[i]; vh_assert(t == cur->type, "wrong or missing message"); vh_assert(list_size(al) == cur->na, "wrong number of arguments");
        for (j = 0; j < cur->na; j++) { vh_assert((int)strlen(al->buffer[j]) == cur->al[j], "wrong argument length"); vh_assert(vh_same(al->buffer[j], pool + cur->as[j], (size_t)cur->al[j]), "wrong argument"); }
        vh_assert(trax_properties_count(pr) == cur->np, "wrong number of properties"); memset(seen, 0, sizeof seen); extra = 0; trax_properties_enumerate(pr, visit, NULL); vh_assert(!extra, "wrong property"); for (j = 0; j < cur->np; j++) vh_assert(seen[j], "missing property");
      }
      list_destroy(&al); trax_properties_release(&pr);
    }
    vh_cover("decoded");
  }
  destroy_message_stream(&r);
  vh_assert(vh_heap_live() == live0, "leak after releasing stream and results");
}
