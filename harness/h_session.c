/* Sessions: F01 capabilities, H01 introduction, H02 termination, H03 H04 server waits, H05 client wait, H06 client requests,
   H07 server replies, S01 whole dialogues; E01 error text and T01 leaks over the same runs.
   The streams are byte channels: 0 client to server, 1 server to client. Incoming messages are composed and outgoing ones
   taken apart here, without the library's reader and writer. */
#define VH_CAP 9000
#include "vh_io.h"
#include "trax.h"

static int only;                                        /* 0: the property of the mode, 1: error texts (E01), 2: leaks (T01) */
#define A(c, l) do { if (!only) vh_assert(c, l); } while (0)

/* ---- composing messages */
static void m_type(int ch, const char *t) { vh_feeds(ch, "@@TRAX:"); vh_feeds(ch, t); }
static void m_argn(int ch, const char *s, int n) { vh_feeds(ch, " \""); vh_feed(ch, s, n); vh_feeds(ch, "\""); }
static void m_arg(int ch, const char *s) { m_argn(ch, s, (int)strlen(s)); }
static void m_prop(int ch, const char *k, const char *v, int n) { vh_feeds(ch, " \""); vh_feeds(ch, k); vh_feeds(ch, "="); vh_feed(ch, v, n); vh_feeds(ch, "\""); }
static void m_end(int ch) { vh_feeds(ch, "\n"); }
static int plain(char *b, int max, const char *name) { int n = vh_string(b, max, name), i; for (i = 0; i < n; i++) { char c = b[i]; vh_assume((c != '"') & (c != '\\') & (c != '\n') & (c != '\r')); } return n; }

/* ---- taking messages apart */
#define MA 6
typedef struct { int type, na, np, al[MA], vl[MA]; char a[MA][120], k[MA][24], v[MA][40]; } omsg;
static const char *NAMES[] = {"hello", "initialize", "frame", "quit", "state"}; static const int CODES[] = {TRAX_HELLO, TRAX_INITIALIZE, TRAX_FRAME, TRAX_QUIT, TRAX_STATE};
static int take(int ch, int *pos, omsg *m) {
  vh_chan *c = &vh_ch[ch]; int p = *pos, i, k; char w[16];
  m->na = m->np = 0; m->type = -1;
  while (p < c->len && c->d[p] == '\n') p++;
  if (p >= c->len) { *pos = p; return 0; }
  for (i = 0; i < 7; i++) { vh_assert(p < c->len && c->d[p] == "@@TRAX:"[i], "output is not a message"); p++; }
  for (k = 0; p < c->len && c->d[p] >= 'a' && c->d[p] <= 'z' && k < 15; p++) w[k++] = c->d[p]; w[k] = 0;
  for (i = 0; i < 5; i++) if (!strcmp(w, NAMES[i])) m->type = CODES[i];
  vh_assert(m->type >= 0, "unknown message in the output");
  while (p < c->len && c->d[p] != '\n') {
    char t[160]; int n = 0, eq = -1; vh_assert(c->d[p] == ' ', "output is not a message"); p++;
    if (p < c->len && c->d[p] == '\n') break;
    vh_assert(p < c->len && c->d[p] == '"', "output is not a message"); p++;
    while (p < c->len && c->d[p] != '"') { if (c->d[p] == '\\') p++; if (eq < 0 && c->d[p] == '=') eq = n; vh_assert(n < 159, "output argument too long for the decoder"); t[n++] = c->d[p++]; }
    p++; t[n] = 0;
    { int key = eq > 0; for (i = 0; i < eq; i++) if (!((t[i] >= 'a' && t[i] <= 'z') || t[i] == '.' || (t[i] >= '0' && t[i] <= '9'))) key = 0;
      if (key) { vh_assert(m->np < MA && eq < 24 && n - eq - 1 < 40, "too many properties in the output"); memcpy(m->k[m->np], t, (size_t)eq); m->k[m->np][eq] = 0; memcpy(m->v[m->np], t + eq + 1, (size_t)(n - eq)); m->vl[m->np++] = n - eq - 1; }
      else { vh_assert(m->na < MA && n < 120, "too many arguments in the output"); memcpy(m->a[m->na], t, (size_t)n + 1); m->al[m->na++] = n; } }
  }
  vh_assert(p < c->len && c->d[p] == '\n', "output line is not ended"); p++; *pos = p; return 1;
}
static int o_prop(omsg *m, const char *k, const char *v, int n) { for (int i = 0; i < m->np; i++) if (!strcmp(m->k[i], k)) return m->vl[i] == n && vh_same(m->v[i], v, (size_t)n); return 0; }

/* ---- error texts: present after a failure only, terminated, with the numbers involved; and leaks */
static int has_number(const char *t, int v) { char d[12]; int n = 0, i, j; unsigned u = v < 0 ? 0u - (unsigned)v : (unsigned)v; char r[12]; do { r[n++] = (char)('0' + u % 10); u /= 10; } while (u); for (i = 0; i < n; i++) d[i] = r[n - 1 - i];
  for (i = 0; t[i]; i++) { if (i && t[i - 1] >= '0' && t[i - 1] <= '9') continue; for (j = 0; j < n && t[i + j] == d[j]; j++) ; if (j == n && !(t[i + j] >= '0' && t[i + j] <= '9')) return 1; } return 0; }
static void after(trax_handle *h, int code, int got, int want) { /* got/want: counts named by the message, -1 if none */
  const char *t = trax_get_error(h), *u; int n = 0; if (only != 1) return;
  if (code != TRAX_ERROR) { vh_assert(t == NULL, "error text after a successful call"); vh_cover("success"); return; }
  vh_assert(t != NULL, "no error text after a failed call"); while (t[n] && n < 200) { vh_assert(t[n] >= 32 && t[n] < 127, "error text is not text"); n++; } vh_assert(n > 0 && n < 200, "error text is empty or not terminated");
  if (got >= 0) { vh_assert(has_number(t, got) && has_number(t, want), "error text does not report the numbers involved"); vh_cover("numbers"); }
  trax_is_alive(h); u = trax_get_error(h); vh_assert(u != NULL && !strcmp(t, u), "error text did not survive"); vh_cover("error");
}

/* ---- building blocks */
static const int CH[3] = {TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR};
static int chcount(int m) { return ((m & 1) != 0) + ((m & 2) != 0) + ((m & 4) != 0); }
static trax_handle *mkserver(int version, int rf, int im, int ch, int multi) { trax_metadata *md = trax_metadata_create(rf, im, ch, NULL, NULL, NULL, multi ? TRAX_METADATA_MULTI_OBJECT : 0); trax_handle *h = trax_server_setup_file_v(md, 0, 1, trax_no_log, version); trax_metadata_release(&md); vh_assert(h != NULL, "server is not created"); return h; }
static void list_text(char *b, int m, const char *const *names) { b[0] = 0; for (int i = 0; i < 4; i++) if (names[i][0] && (m & (1 << i))) { strcat(b, names[i]); strcat(b, ";"); } }
static const char *const RN[] = {"", "rectangle", "polygon", "mask"}, *const IN[] = {"path", "url", "memory", "buffer"}, *const CN[] = {"color", "depth", "ir", ""};
static trax_handle *mkclient(int version, int rf, int im, int ch, int multi) { char t[64], v[2]; trax_handle *h; m_type(1, "hello"); v[0] = (char)('0' + version); v[1] = 0; m_prop(1, "trax.version", v, 1);
  list_text(t, rf, RN); m_prop(1, "trax.region", t, (int)strlen(t)); list_text(t, im, IN); m_prop(1, "trax.image", t, (int)strlen(t)); list_text(t, ch, CN); m_prop(1, "trax.channels", t, (int)strlen(t)); if (multi) m_prop(1, "trax.multiobject", "1", 1); m_end(1);
  h = trax_client_setup_file(1, 0, trax_no_log); vh_assert(h != NULL, "client is not created"); return h; }
static const char *PATHS[3] = {"/c", "/d", "/i"};
static trax_image_list *pathlist(int present) { trax_image_list *l = trax_image_list_create(); for (int i = 0; i < 3; i++) if (present & (1 << i)) trax_image_list_set(l, trax_image_create_path(PATHS[i]), CH[i]); return l; }
static void droplist(trax_image_list **l) { if (*l) { trax_image_list_clear(*l); trax_image_list_release(l); } }
static int is_path(const char *a, int n, const char *want) { int w = (int)strlen(want); if (n == w) return vh_same(a, want, (size_t)w); return n == w + 7 && !memcmp(a, "file://", 7) && vh_same(a + 7, want, (size_t)w); }
static trax_object_list *objects(int n, int w) { trax_object_list *o = trax_object_list_create(n); for (int i = 0; i < n; i++) { trax_region *r = trax_region_create_rectangle((float)(i + 1), 2, (float)w, 4); trax_object_list_set(o, i, r); trax_region_release(&r); } return o; }
static int rect_is(trax_region *r, float x, float y, float w, float h) { float a, b, c, d; if (!r || trax_region_get_type(r) != TRAX_REGION_RECTANGLE) return 0; trax_region_get_rectangle(r, &a, &b, &c, &d); return (a == x) & (b == y) & (c == w) & (d == h); }
static int prop_is(trax_properties *p, const char *k, const char *v, int n) { char *g = trax_properties_get(p, k); int ok = g && (int)strlen(g) == n && vh_same(g, v, (size_t)n); free(g); return ok; }

/* ---- F01 and H01 */
static void f_combos(int n) {
  int v = vh_pick("version", 1, 4), rf = vh_pick("rf", 0, 7) * 2, im = vh_pick("im", 0, 15), ch = vh_pick("ch", 1, 7); trax_handle *s = mkserver(v, rf, im, ch, 0), *c = trax_client_setup_file(1, 0, trax_no_log);
  A(c != NULL, "introduction refused"); if (c) { A(c->metadata->format_region == (rf ? rf : TRAX_REGION_RECTANGLE), "region formats differ"); A(c->metadata->format_image == (im ? im : TRAX_IMAGE_PATH), "image formats differ"); A(c->metadata->channels == (v < 2 ? TRAX_CHANNEL_COLOR : ch), "channels differ"); A(c->version == v, "version differs"); vh_cover("hello"); trax_cleanup(&c); }
  trax_cleanup(&s);
}
static void f_lists(int n) {
  static const struct { const char *t; int m; } IM[] = {{NULL, 1}, {"", 1}, {"path", 1}, {"path;", 1}, {"url;memory", 6}, {"buffer;buffer;", 8}, {"memory;;url;path", 7}, {"path;url;memory;buffer;", 15}, {"buffer;path;buffer;path", 9}, {"jpeg", -1}, {"path;jpeg", -1}, {"Path", -1}, {";", 1}, {"path;path;path;path;path;path;path;path;path;path;path", 1}},
    RG[] = {{NULL, 2}, {"", 2}, {"rectangle", 2}, {"polygon;", 4}, {"mask;rectangle", 10}, {"mask;polygon;rectangle;mask", 14}, {"special", -1}, {"polygon;;mask", 12}, {"rectangles", -1}, {";;", 2}},
    CL[] = {{NULL, 1}, {"", 1}, {"color", 1}, {"depth;", 2}, {"color,depth", 3}, {"ir,color;depth", 7}, {"ir", 4}, {"ir;ir", 4}, {"red", -1}, {"depth,,color", 3}, {",", 1}};
  int which = vh_pick("list", 0, 2), a = which == 0 ? vh_pick("im", 0, 13) : 0, b = which == 1 ? vh_pick("rg", 0, 9) : 0, d = which == 2 ? vh_pick("cl", 0, 10) : 0, v = vh_pick("v", 1, 4), order = vh_pick("order", 0, 1); trax_handle *c; char vt[2]; vt[0] = (char)('0' + v); vt[1] = 0;
  m_type(1, "hello"); if (order) m_prop(1, "trax.version", vt, 1); if (IM[a].t) m_prop(1, "trax.image", IM[a].t, (int)strlen(IM[a].t)); if (RG[b].t) m_prop(1, "trax.region", RG[b].t, (int)strlen(RG[b].t)); if (CL[d].t) m_prop(1, "trax.channels", CL[d].t, (int)strlen(CL[d].t)); if (!order) m_prop(1, "trax.version", vt, 1); m_end(1);
  c = trax_client_setup_file(1, 0, trax_no_log); if (IM[a].m > 0 && RG[b].m > 0 && CL[d].m > 0) A(c != NULL, "introduction refused");
  if (c) { if (IM[a].m > 0) A(c->metadata->format_image == IM[a].m, "image formats differ"); if (RG[b].m > 0) A(c->metadata->format_region == RG[b].m, "region formats differ"); if (CL[d].m > 0) A(c->metadata->channels == (v < 2 ? 1 : CL[d].m), "channels differ"); vh_cover("hello"); trax_cleanup(&c); }
}
static void f_text(int n) { static const char *K[] = {"trax.image", "trax.region", "trax.channels"}, *H[] = {"", "path;", "mask", "url;", "color;", "ir,"}; char t[40]; int k = vh_pick("key", 0, 2), h = vh_pick("head", 0, 5), l = (int)strlen(H[h]); trax_handle *c; strcpy(t, H[h]); l += plain(t + l, n, "t"); m_type(1, "hello"); m_prop(1, "trax.version", "4", 1); m_prop(1, K[k], t, l); m_end(1); c = trax_client_setup_file(1, 0, trax_no_log); if (c) { A(c->metadata->channels != 0, "no channels"); vh_cover("hello"); trax_cleanup(&c); } }
static void h_meta(int n) {
  static const char *CK[] = {"custom", "Trax.x", "trax.foo", "trax.", "trax", "a.trax.b", "_9"}; static const int RES[] = {0, 0, 1, 1, 0, 0, 0};
  int v = vh_pick("version", 0, 4), multi = vh_pick("multi", 0, 1), ck = vh_pick("key", 0, 7), i; char t[3][8], cv[8]; int l[3], cl = 0; trax_metadata *m; trax_handle *s, *c;
  { int which = vh_pick("which", 0, 3), others = vh_pick("others", 0, 7); for (i = 0; i < 3; i++) { l[i] = -1; if (which == i) l[i] = vh_string(t[i], n, "text"); else if (others & (1 << i)) { strcpy(t[i], "A \"b"); l[i] = 4; } } if (which < 3 && (others & (1 << which))) { if (n < 3) return; } if (which < 3) { if (ck != 7 && ck != 0 && ck != 2) return; strcpy(cv, "x"); cl = 1; } else cl = -1; }
  m = trax_metadata_create(TRAX_REGION_POLYGON, TRAX_IMAGE_URL, TRAX_CHANNEL_COLOR | TRAX_CHANNEL_IR, l[0] < 0 ? NULL : t[0], l[1] < 0 ? NULL : t[1], l[2] < 0 ? NULL : t[2], multi ? TRAX_METADATA_MULTI_OBJECT : 0);
  if (ck < 7) { if (cl < 0) cl = vh_string(cv, n, "value"); trax_properties_set(m->custom, CK[ck], cv); }
  s = trax_server_setup_file_v(m, 0, 1, trax_no_log, v); trax_metadata_release(&m); if (!v) v = TRAX_VERSION; c = trax_client_setup_file(1, 0, trax_no_log);
  A(c != NULL, "introduction refused"); if (c) { char *g[3]; int pv = -1, pc = -1, pm = -1; g[0] = c->metadata->tracker_name; g[1] = c->metadata->tracker_description; g[2] = c->metadata->tracker_family;
    trax_get_parameter(c, TRAX_PARAMETER_VERSION, &pv); trax_get_parameter(c, TRAX_PARAMETER_CLIENT, &pc); trax_get_parameter(c, TRAX_PARAMETER_MULTIOBJECT, &pm); A(pv == v, "version differs"); A(pc == 1, "client is not a client"); A(pm == (v >= 4 && multi), "multi-object ability differs");
    trax_get_parameter(s, TRAX_PARAMETER_MULTIOBJECT, &pm); A(pm == (v >= 4 && multi), "multi-object ability of the server"); trax_get_parameter(s, TRAX_PARAMETER_CLIENT, &pc); A(pc == 0, "server is a client");
    for (i = 0; i < 3; i++) { A((g[i] != NULL) == (l[i] >= 0), "presence of a description"); if (g[i] && l[i] >= 0) A((int)strlen(g[i]) == l[i] && vh_same(g[i], t[i], (size_t)l[i]), "description differs"); }
    A(c->metadata->format_region == TRAX_REGION_POLYGON && c->metadata->format_image == TRAX_IMAGE_URL && c->metadata->channels == (v < 2 ? 1 : 5), "formats differ");
    if (ck < 7 && !RES[ck]) { A(trax_properties_count(c->metadata->custom) == 1, "custom properties"); A(prop_is(c->metadata->custom, CK[ck], cv, cl), "custom property differs"); } else A(trax_properties_count(c->metadata->custom) == 0, "reserved property among the custom ones");
    vh_cover("hello"); trax_cleanup(&c); }
  trax_cleanup(&s);
}
static void h_hello(int n) { /* introductions that are none */ int k = vh_pick("kind", 0, 5), ok = 0; trax_handle *c; switch (k) { case 0: break; case 1: m_type(1, "state"); m_arg(1, "1,2,3,4"); m_end(1); break; case 2: m_type(1, "hello"); m_arg(1, "text"); m_prop(1, "trax.version", "4", 1); m_end(1); break; case 3: m_type(1, "hello"); m_end(1); ok = 1; break; case 4: m_type(1, "hello"); m_prop(1, "trax.version", "3", 1); break; case 5: vh_feeds(1, "noise\n"); m_type(1, "hello"); m_prop(1, "custom", "x", 1); m_end(1); ok = 1; break; }
  c = trax_client_setup_file(1, 0, trax_no_log); A((c != NULL) == ok, "introduction"); if (c) { A(c->version == 1, "default version"); A(c->metadata->format_image == TRAX_IMAGE_PATH && c->metadata->format_region == TRAX_REGION_RECTANGLE && c->metadata->channels == TRAX_CHANNEL_COLOR, "defaults"); A(trax_properties_count(c->metadata->custom) == (k == 5), "custom properties"); trax_cleanup(&c); } else A(vh_ch[0].len == 0, "bytes after a failed introduction"); vh_cover("hello"); }

/* ---- H02 */
static int bare; /* callers that do not want the properties */
static int call(trax_handle *h, int srv, int v, int op, const char *reason) { /* one request, reply or wait */
  trax_image_list *im = NULL; trax_region *r = NULL; trax_object_list *o = NULL; trax_properties *p = bare ? NULL : trax_properties_create(); int code;
  if (srv) switch (op) {
    case 0: code = trax_server_wait_sot(h, &im, &r, p); break; case 1: code = trax_server_wait_mot(h, &im, &o, p); break;
    case 2: r = trax_region_create_rectangle(1, 2, 3, 4); code = trax_server_reply_sot(h, r, p); break; default: o = objects(1, 3); code = trax_server_reply_mot(h, o); break;
  } else switch (op) {
    case 0: case 1: code = trax_client_wait(h, &o, p); break; case 2: im = pathlist(7); o = objects(1, 3); code = trax_client_initialize(h, im, o, p); break; default: im = pathlist(7); code = trax_client_frame(h, im, NULL, p); break; }
  after(h, code, -1, -1); if (code == TRAX_ERROR && op < 2) A(!im && !o && (!r), "a failed wait delivers something");
  droplist(&im); if (r) trax_region_release(&r); if (o) trax_object_list_release(&o); if (p) trax_properties_release(&p); return code; }
static void h_quit(int n) {
  int srv = vh_pick("server", 0, 1), v = vh_pick("version", 1, 4), multi = vh_pick("multi", 0, 1), how = vh_pick("how", 0, 4), in = srv ? 0 : 1, out = 1 - in, start, pos, i, rl = 0, busy = vh_pick("busy", 0, 1); char reason[8]; bare = vh_pick("bare", 0, 1); omsg m; trax_handle *h;
  if (srv) h = mkserver(v, 2, 1, 1, multi); else h = mkclient(v, 2, 1, 1, multi);
  if (busy) { if (srv) { m_type(0, "initialize"); if (v < 4) m_arg(0, "/c"); m_arg(0, "1,2,3,4"); m_end(0); if (v >= 4) { m_type(0, "frame"); m_arg(0, "/c"); m_end(0); } vh_assert(call(h, 1, v, v < 4 ? 0 : 1, NULL) == TRAX_INITIALIZE, "session does not start"); } else vh_assert(call(h, 0, v, 2, NULL) == TRAX_OK, "session does not start"); }
  start = pos = vh_ch[out].len; A(trax_is_alive(h), "fresh session is not alive");
  /* a received quit is only looked for while something is tracked on the client */
  if (how == 2 && !srv && !busy) how = 0;
  switch (how) { case 0: i = trax_terminate(h, NULL); A(i == TRAX_OK, "terminate fails"); after(h, i, -1, -1); break; case 1: rl = plain(reason, n, "reason"); i = trax_terminate(h, reason); A(i == TRAX_OK, "terminate fails"); break;
    case 2: rl = plain(reason, n, "reason"); m_type(in, "quit"); m_prop(in, "trax.reason", reason, rl); m_end(in); i = call(h, srv, v, srv && v < 4 ? 0 : 1, NULL); A(i == TRAX_QUIT, "quit is not delivered"); break;
    case 3: rl = plain(reason, n, "reason"); trax_terminate(h, reason); trax_terminate(h, "other"); break; default: break; }
  if (how == 4) { trax_cleanup(&h); A(h == NULL, "handle kept"); A(take(out, &pos, &m) && m.type == TRAX_QUIT && m.na == 0 && m.np == 0, "cleanup sends no plain quit"); A(!take(out, &pos, &m), "more than one message"); vh_cover("quit"); return; }
  A(!trax_is_alive(h), "terminated session is alive");
  if (how != 2) { A(take(out, &pos, &m), "no quit message"); A(m.type == TRAX_QUIT && m.na == 0, "not a quit message"); if (how == 0) A(m.np == 0, "quit with a reason"); else A(m.np == 1 && o_prop(&m, "trax.reason", reason, rl), "reason differs"); }
  A(!take(out, &pos, &m), "more than one message on termination"); start = vh_ch[out].len;
  /* the peer keeps talking */
  m_type(in, srv ? "frame" : "state"); m_arg(in, srv ? "/c" : "1,2,3,4"); m_end(in);
  for (i = 0; i < 2; i++) { int op = vh_pick("op", 0, 4); if (op == 4) { A(trax_terminate(h, "again") == TRAX_OK, "repeated terminate fails"); continue; } A(call(h, srv, v, op, NULL) == TRAX_ERROR, "call on a terminated session is accepted"); A(!trax_is_alive(h), "session comes back"); A(vh_ch[out].len == start, "bytes from a terminated session"); }
  trax_cleanup(&h); A(h == NULL, "handle kept"); A(vh_ch[out].len == start, "bytes from a terminated session"); vh_cover("quit");
}

/* ---- H03 to H05: kinds of incoming arguments */
typedef struct { const char *t; int im, rg; } kind;
static const kind KD[] = {{"/img", TRAX_IMAGE_PATH, 0}, {"1,2,3,4", TRAX_IMAGE_PATH, TRAX_REGION_RECTANGLE}, {"http://a/b", TRAX_IMAGE_URL, 0}, {"image:2;1;gray8;QUI=", TRAX_IMAGE_MEMORY, 0}, {"image:0;1;gray8;QQ==", 0, 0}, {"data:image/png;base64;iVBORw0KGgo=", TRAX_IMAGE_BUFFER, 0}, {"0,0,5,0,5,5", TRAX_IMAGE_PATH, TRAX_REGION_POLYGON}, {"mask:1,2,2,2,1,2,1", TRAX_IMAGE_URL, TRAX_REGION_MASK}, {"file:///x", TRAX_IMAGE_PATH, 0}, {"data:text/plain;QQ==", 0, 0}, {"image:1;1;rgb;QQ==", 0, 0}, {"1,2,3", TRAX_IMAGE_PATH, 0}, {"-7", TRAX_IMAGE_PATH, TRAX_REGION_SPECIAL}};
static int img_ok(trax_image *g, int k) { if (!g || trax_image_get_type(g) != KD[k].im) return 0; switch (k) { case 2: case 7: return !strcmp(trax_image_get_url(g), KD[k].t); case 3: { int w, h, f; const char *r; trax_image_get_memory_header(g, &w, &h, &f); r = trax_image_get_memory_row(g, 0); return w == 2 && h == 1 && f == TRAX_IMAGE_MEMORY_GRAY8 && r[0] == 'A' && r[1] == 'B'; } case 5: { int l, f; const char *b = trax_image_get_buffer(g, &l, &f); return f == TRAX_IMAGE_BUFFER_PNG && l == 8 && !memcmp(b, "\x89PNG\r\n\x1a\n", 8); } case 8: return !strcmp(trax_image_get_path(g), "/x"); default: return !strcmp(trax_image_get_path(g), KD[k].t); } }
static int reg_ok(trax_region *r, int k) { if (!r || trax_region_get_type(r) != KD[k].rg) return 0; if (k == 1) return rect_is(r, 1, 2, 3, 4); if (k == 12) return trax_region_get_special(r) == -7; if (k == 6) { float x, y; trax_region_get_polygon_point(r, 2, &x, &y); return trax_region_get_polygon_count(r) == 3 && x == 5 && y == 5; } { int x, y, w, h; trax_region_get_mask_header(r, &x, &y, &w, &h); return x == 1 && y == 2 && w == 2 && h == 2 && !trax_region_get_mask_row(r, 0)[0] && trax_region_get_mask_row(r, 0)[1] && trax_region_get_mask_row(r, 1)[0] && !trax_region_get_mask_row(r, 1)[1]; } }
static void feed(int ch, int type, int na, const int *k, const char *v, int vl) { for (int i = 0; i < 5; i++) if (CODES[i] == type) m_type(ch, NAMES[i]); for (int i = 0; i < na; i++) m_arg(ch, KD[k[i]].t); if (vl >= 0) m_prop(ch, "key", v, vl); m_end(ch); }
static void h_sot(int n) {
  int v = vh_pick("version", 1, 3), chm = (int)vh_param("ch", 1), im = (int)vh_param("im", 15), nk = (int)vh_param("kinds", 8), nch = chcount(chm), round, extra = (int)vh_param("extra", 2); trax_handle *h = mkserver(v, 14, im, chm, 0);
  for (round = 0; round < n; round++) {
    static const int TY[] = {TRAX_INITIALIZE, TRAX_FRAME, TRAX_QUIT, TRAX_STATE, TRAX_HELLO, -1}; int ty = TY[vh_pick("type", 0, 5)], na = ty < 0 ? 0 : vh_pick("args", 0, nch + extra), k[8], i, exp = TRAX_ERROR, code, ok = 1, vl = -1, got = -1, want = -1, alive = trax_is_alive(h); char val[8]; trax_image_list *il = (trax_image_list *)8; trax_region *r = (trax_region *)8; trax_properties *p = trax_properties_create();
    { static const int RGK[] = {1, 6, 7, 11, 12}; int right = na == nch + (ty == TRAX_INITIALIZE); for (i = 0; i < na; i++) k[i] = !right ? (i & 1) : i < nch ? vh_pick("kind", 0, nk - 1) : RGK[vh_pick("region", 0, 4)]; } if (vh_param("lean", 0)) { vl = 1; val[0] = (char)vh_range("value", 'a', 'z'); val[1] = 0; } else if (vh_pick("prop", 0, 1)) vl = plain(val, 2, "value");
    if (ty >= 0) feed(0, ty, na, k, val, vl);
    for (i = 0; i < nch && i < na; i++) ok &= (KD[k[i]].im & im) != 0;
    if (ty == TRAX_INITIALIZE) { if (na != nch + 1) { got = na; want = nch + 1; } else if (ok && KD[k[nch]].rg) exp = ty; } else if (ty == TRAX_FRAME) { if (na != nch) { got = na; want = nch; } else if (ok) exp = ty; } else if (ty == TRAX_QUIT) { if (na) { got = na; want = 0; } else exp = ty; }
    if (!alive) { exp = TRAX_ERROR; got = -1; }
    code = trax_server_wait_sot(h, &il, &r, p); after(h, code, got, want);
    A(code == exp, "result of the wait"); A((il != NULL) == (exp == TRAX_INITIALIZE || exp == TRAX_FRAME), "delivered images"); A((r != NULL) == (exp == TRAX_INITIALIZE), "delivered region");
    if (code == exp && code != TRAX_ERROR) { if (il) { int j = 0; for (i = 0; i < 3; i++) { trax_image *g = trax_image_list_get(il, CH[i]); if (chm & (1 << i)) A(img_ok(g, k[j++]), "delivered image differs"); else A(!g, "image for a channel that is not used"); } } if (r) A(reg_ok(r, k[nch]), "delivered region differs"); A(trax_properties_count(p) == (vl >= 0), "number of delivered properties"); if (vl >= 0) A(prop_is(p, "key", val, vl), "delivered property differs"); vh_cover("delivered"); }
    A(trax_is_alive(h) == (alive && exp != TRAX_QUIT), "alive");
    if (il && code != TRAX_ERROR) droplist(&il); if (r && code != TRAX_ERROR) trax_region_release(&r); trax_properties_release(&p);
    if (ty < 0) break;
  }
  trax_cleanup(&h);
}
static void h_mot(int n) {
  int chm = (int)vh_param("ch", 1), nch = chcount(chm), multi = vh_pick("multi", 0, 1), nm = (int)vh_param("kinds", 12), many = (int)vh_param("many", 0), K[48], id[48], VL[48], i, at = 0, tracked = 0, dead = 0, end = 0, ask; static char V[48][8]; n += many; trax_handle *h = mkserver(4, 14, TRAX_IMAGE_PATH | TRAX_IMAGE_MEMORY, chm, multi); static const int RK[3] = {1, 6, 7};
  for (i = 0; i < n; i++) { int a[8], j; K[i] = i < many ? 1 : vh_pick("msg", 0, nm - 1); id[i] = RK[i % 3]; VL[i] = -1; for (j = 0; j < 8; j++) a[j] = 0; if (i < many) { V[i][0] = (char)('a' + i % 26); VL[i] = 1; } else if (K[i] == 1 || K[i] == 2) VL[i] = plain(V[i], 1, "value");
    switch (K[i]) { case 0: feed(0, TRAX_INITIALIZE, 0, a, NULL, -1); break; case 1: a[0] = id[i]; feed(0, TRAX_INITIALIZE, 1, a, V[i], VL[i]); break; case 2: feed(0, TRAX_FRAME, nch, a, V[i], VL[i]); break; case 3: feed(0, TRAX_QUIT, 0, a, NULL, -1); break; case 4: a[0] = 1; feed(0, TRAX_STATE, 1, a, NULL, -1); break; case 5: a[0] = 11; feed(0, TRAX_INITIALIZE, 1, a, NULL, -1); break; case 6: a[1] = 1; feed(0, TRAX_INITIALIZE, 2, a, NULL, -1); break;
      case 7: feed(0, TRAX_FRAME, nch - 1, a, NULL, -1); break; case 8: a[nch - 1] = 4; feed(0, TRAX_FRAME, nch, a, NULL, -1); break; case 9: feed(0, TRAX_QUIT, 1, a, NULL, -1); break; case 10: feed(0, TRAX_FRAME, nch + 1, a, NULL, -1); break; default: a[nch - 1] = 2; feed(0, TRAX_FRAME, nch, a, NULL, -1); break; } }
  for (ask = 0; ask <= n && !end; ask++) {
    int exp = TRAX_ERROR, cnt = 0, started = 0, last = -1, obj[48], got = -1, want = -1, code; trax_image_list *il = (trax_image_list *)8; trax_object_list *ol = (trax_object_list *)8; trax_properties *p = trax_properties_create();
    while (!dead) { if (at >= n) { end = 1; break; } last = at++; 
      if (K[last] == 0) { started = 1; tracked = 0; if (cnt) vh_stop(); continue; }
      if (K[last] == 1) { started = 1; obj[cnt++] = last; continue; }
      if (K[last] == 2) { if (started && !cnt) break; exp = started && tracked == 0 ? TRAX_INITIALIZE : TRAX_FRAME; break; }
      if (K[last] == 3) { exp = TRAX_QUIT; break; }
      if (K[last] == 6) { got = 2; want = 1; } if (K[last] == 7 && (!started || cnt)) { got = nch - 1; want = nch; } if (K[last] == 9) { got = 1; want = 0; } if (K[last] == 10 && (!started || cnt)) { got = nch + 1; want = nch; }
      break; }
    if (dead) end = 1;
    code = trax_server_wait_mot(h, &il, &ol, p); after(h, code, got, want);
    A(code == exp, "result of the wait"); if (exp == TRAX_INITIALIZE || exp == TRAX_FRAME) tracked += cnt; else cnt = 0;
    A((il != NULL) == (exp == TRAX_INITIALIZE || exp == TRAX_FRAME), "delivered images"); A((ol != NULL) == (cnt > 0), "delivered objects");
    if (code == exp && code > 0) { if (il) for (i = 0; i < 3; i++) { trax_image *g = trax_image_list_get(il, CH[i]); if (chm & (1 << i)) A(img_ok(g, 0), "delivered image differs"); else A(!g, "image for a channel that is not used"); }
      if (ol) { A(trax_object_list_count(ol) == cnt, "number of delivered objects"); if (trax_object_list_count(ol) == cnt) for (i = 0; i < cnt; i++) { A(reg_ok(trax_object_list_get(ol, i), id[obj[i]]), "delivered object differs"); A(trax_properties_count(trax_object_list_properties(ol, i)) == 1 && prop_is(trax_object_list_properties(ol, i), "key", V[obj[i]], VL[obj[i]]), "object properties differ"); } }
      if (exp != TRAX_QUIT) { A(trax_properties_count(p) == 1 && prop_is(p, "key", V[last], VL[last]), "frame properties differ"); vh_cover("delivered"); }
      if (exp == TRAX_QUIT) dead = 1; }
    if (exp == TRAX_INITIALIZE || exp == TRAX_FRAME) { /* replies are expected for exactly the tracked objects */
      int t = multi ? tracked : tracked == 1; trax_object_list *o = objects(tracked ? tracked : 1, 3); code = trax_server_reply_mot(h, o); A((code == TRAX_OK) == (t > 0), "object count expected in replies"); trax_object_list_release(&o); }
    A(trax_is_alive(h) == !dead, "alive"); if (code != TRAX_ERROR || exp > 0) { if (il && il != (void *)8) droplist(&il); if (ol && ol != (void *)8) trax_object_list_release(&ol); } trax_properties_release(&p);
  }
  trax_cleanup(&h);
}
static void h_cwait(int n) {
  int v = vh_pick("version", 3, 4), k = v == 4 ? vh_pick("objects", 0, (int)vh_param("k", 3)) : vh_pick("objects", 0, 1), nm = (int)vh_param("kinds", 10), K[16], VL[16], i, at = 0, round; static char V[16][8]; trax_handle *h = mkclient(v, 2, 1, 1, 1); static const int RK[3] = {1, 6, 7};
  if (k) { trax_image_list *il = pathlist(1); trax_object_list *o = objects(k, 3); vh_assert(trax_client_initialize(h, il, o, NULL) == TRAX_OK, "session does not start"); droplist(&il); trax_object_list_release(&o); }
  for (i = 0; i < n; i++) { int a[4]; a[0] = RK[i % 3]; a[1] = 1; VL[i] = -1; K[i] = vh_pick("msg", 0, nm - 1); if (K[i] == 0 || K[i] == 2) VL[i] = plain(V[i], 1, "value");
    switch (K[i]) { case 0: feed(1, TRAX_STATE, 1, a, V[i], VL[i]); break; case 1: feed(1, TRAX_STATE, 1, a, NULL, -1); break; case 2: feed(1, TRAX_QUIT, 0, a, V[i], VL[i]); break; case 3: feed(1, TRAX_STATE, 0, a, NULL, -1); break; case 4: feed(1, TRAX_STATE, 2, a, NULL, -1); break; case 5: a[0] = 11; feed(1, TRAX_STATE, 1, a, NULL, -1); break; case 6: feed(1, TRAX_FRAME, 1, a, NULL, -1); break; case 7: feed(1, TRAX_QUIT, 1, a, NULL, -1); break; case 8: feed(1, TRAX_HELLO, 0, a, NULL, -1); break; default: feed(1, TRAX_INITIALIZE, 0, a, NULL, -1); break; } }
  for (round = 0; round < 2; round++) {
    int exp = TRAX_STATE, first = at, last = -1, got = -1, want = -1, code, alive = trax_is_alive(h); trax_object_list *o = (trax_object_list *)8; trax_properties *p = trax_properties_create();
    if (!alive || k < 1) exp = TRAX_ERROR; else for (i = 0; i < k; i++) { if (at >= n) { exp = TRAX_ERROR; break; } last = at++; if (K[last] < 2) continue; exp = K[last] == 2 ? TRAX_QUIT : TRAX_ERROR; if (K[last] == 3) { got = 0; want = 1; } if (K[last] == 4) { got = 2; want = 1; } if (K[last] == 7) { got = 1; want = 0; } break; }
    code = trax_client_wait(h, &o, p); after(h, code, got, want); A(code == exp, "result of the wait"); A((o != NULL) == (exp == TRAX_STATE), "delivered objects");
    if (o && code == exp) { A(trax_object_list_count(o) == k, "number of states"); for (i = 0; i < k; i++) { trax_properties *q = trax_object_list_properties(o, i); A(reg_ok(trax_object_list_get(o, i), RK[(first + i) % 3]), "state region differs"); A(trax_properties_count(q) == (VL[first + i] >= 0), "state properties"); if (VL[first + i] >= 0) A(prop_is(q, "key", V[first + i], VL[first + i]), "state property differs"); } vh_cover("delivered"); }
    if (exp == TRAX_QUIT) { A(prop_is(p, "key", V[last], VL[last]), "quit property differs"); vh_cover("quit"); }
    A(trax_is_alive(h) == (alive && exp != TRAX_QUIT), "alive"); if (o && o != (void *)8) trax_object_list_release(&o); trax_properties_release(&p);
    if (at >= n && exp == TRAX_ERROR) break;
  }
  trax_cleanup(&h);
}

/* ---- H06 */
static void h_request(int n) {
  static const int RF[] = {2, 4, 8, 12, 14}; int v = vh_pick("version", (int)vh_param("vlo", 1), 4), multi = vh_pick("multi", 0, 1), chm = (int)vh_param("ch", 0), rf = RF[vh_pick("rf", 0, (int)vh_param("rf", 2))], maxo = (int)vh_param("objs", 2), tracked = 0, i, j, q, pos = 0; trax_handle *h; omsg m;
  if (!chm) chm = vh_pick("ch", 1, 7); if (v < 2) { if (chm != 1) return; } h = mkclient(v, rf, 1, chm, multi); if (v < 4) multi = 0;
  for (q = 0; q < n; q++) {
    int init = vh_pick("initialize", 0, 1), no = vh_pick("objects", 0, maxo), nolist = !no && !init && vh_pick("nolist", 0, 1), lean = (int)vh_param("lean", 0), bad = !lean && no && vh_pick("empty", 0, 1), have = vh_pick("absent", 0, 1) ? lean ? 0 : vh_pick("have", 0, 7) : 7, refuse = 0, code, vl, start = vh_ch[0].len, reset = 0; char val[8], ov[8][4]; trax_image_list *il = pathlist(have); trax_object_list *o = nolist ? NULL : objects(no, 3); trax_properties *p = trax_properties_create();
    if (bad) { trax_region *r = trax_region_create_rectangle(1, 1, 0, 0); trax_object_list_set(o, no - 1, r); trax_region_release(&r); }
    if (lean) { vl = 1; val[0] = (char)vh_range("value", 'a', 'z'); val[1] = 0; } else vl = plain(val, 1, "value"); trax_properties_set(p, "key", val); for (i = 0; i < no; i++) { ov[i][0] = (char)vh_range("ov", 'a', 'z'); ov[i][1] = 0; trax_properties_set(trax_object_list_properties(o, i), "id", ov[i]); }
    if ((have & chm) != chm) refuse = 1; if (init && no < 1) refuse = 1; if (init && no > 1 && !multi) refuse = 1; if (!init && v < 4 && no > 0) refuse = 1; if (!init && v >= 4 && !multi && tracked + no > 1) refuse = 1; if (bad && rf == 8) refuse = 1; if (bad && (rf & 8) && !(rf & 2)) refuse = 1;
    code = init ? trax_client_initialize(h, il, o, p) : trax_client_frame(h, il, o, p); after(h, code, -1, -1);
    A((code == TRAX_OK) == !refuse && (code == TRAX_ERROR) == refuse, "request accepted"); if (refuse) A(vh_ch[0].len == start, "a refused request puts something on the stream");
    if (!refuse) {
      if (v >= 4 && init && tracked > 0) { A(take(0, &pos, &m), "message missing"); A(m.type == TRAX_INITIALIZE && m.na == 0 && m.np == 0, "restart message"); tracked = 0; reset = 1; }
      for (i = 0; i < (v >= 4 ? no : 0); i++) { A(take(0, &pos, &m), "message missing"); A(m.type == TRAX_INITIALIZE && m.na == 1, "object message"); A(m.np == 1 && o_prop(&m, "id", ov[i], 1), "object properties"); if (m.na == 1 && !only) { trax_region *r = trax_region_decode(m.a[0]); A(r && (trax_region_get_type(r) & rf), "region is not in a format of the server"); if (r && !(bad && i == no - 1)) { trax_bounds b = trax_region_bounds(r); A(b.left == i + 1 && b.top == 2 && b.right == i + 3 && b.bottom == 5, "region differs"); } if (r) trax_region_release(&r); } }
      A(take(0, &pos, &m), "message missing"); A(m.type == (init && v < 4 ? TRAX_INITIALIZE : TRAX_FRAME), "message type"); A(m.na == chcount(chm) + (init && v < 4), "number of arguments"); A(m.np == 1 && o_prop(&m, "key", val, vl), "request properties");
      for (i = j = 0; i < 3; i++) if (chm & (1 << i)) { if (j < m.na) A(is_path(m.a[j], m.al[j], PATHS[i]), "image differs"); j++; }
      if (init && v < 4 && m.na == j + 1 && !only) { trax_region *r = trax_region_decode(m.a[j]); A(r && (trax_region_get_type(r) & rf), "region is not in a format of the server"); if (r && !bad) { trax_bounds b = trax_region_bounds(r); A(b.left == 1 && b.top == 2 && b.right == 3 && b.bottom == 5, "region differs"); } if (r) trax_region_release(&r); }
      if (v >= 4) tracked += no; else if (init) tracked = 1; vh_cover("accepted");
    } else vh_cover("refused");
    A(!take(0, &pos, &m), "more messages than expected"); droplist(&il); if (o) trax_object_list_release(&o); trax_properties_release(&p);
  }
  /* what is tracked shows in the number of states collected by a wait */
  { trax_object_list *o; int code; for (i = 0; i < tracked; i++) { m_type(1, "state"); m_arg(1, "1,2,3,4"); m_end(1); } code = trax_client_wait(h, &o, NULL); A(code == (tracked ? TRAX_STATE : TRAX_ERROR), "tracked objects"); if (o) { A(trax_object_list_count(o) == tracked, "number of tracked objects"); trax_object_list_release(&o); } }
  trax_cleanup(&h);
}

/* ---- H07 */
static void h_reply(int n) {
  int v = vh_pick("version", 1, 4), multi = vh_pick("multi", 0, 1), t = vh_pick("tracked", 0, v >= 4 ? (int)vh_param("objs", 2) : 1), i, q, dead, pos, m4 = v >= 4 && multi; trax_handle *h = mkserver(v, 14, 1, 1, multi); omsg m; int a[2] = {0, 1}, c[1] = {1};
  if (t && v < 4) feed(0, TRAX_INITIALIZE, 2, a, NULL, -1); if (t && v >= 4) { for (i = 0; i < t; i++) feed(0, TRAX_INITIALIZE, 1, c, NULL, -1); feed(0, TRAX_FRAME, 1, a, NULL, -1); }
  if (t) { trax_image_list *il; trax_region *r; trax_object_list *o; if (v < 4) { vh_assert(trax_server_wait_sot(h, &il, &r, NULL) == TRAX_INITIALIZE, "session does not start"); trax_region_release(&r); } else { vh_assert(trax_server_wait_mot(h, &il, &o, NULL) == TRAX_INITIALIZE, "session does not start"); trax_object_list_release(&o); } droplist(&il); }
  dead = vh_pick("dead", 0, 1); if (dead) trax_terminate(h, NULL); pos = vh_ch[1].len;
  for (q = 0; q < n; q++) {
    int sot = vh_pick("single", 0, 1), no = sot ? 1 : vh_pick("objects", 0, (int)vh_param("objs", 2) + 1), code, refuse = dead, start = vh_ch[1].len, vl = -1, kd[8]; char val[8][4]; trax_region *r[8], *dec; trax_object_list *o = NULL; trax_properties *p = NULL;
    for (i = 0; i < no; i++) { kd[i] = vh_pick("kind", 0, 2); switch (kd[i]) { case 0: r[i] = trax_region_create_special(i + 3); break; case 1: r[i] = trax_region_create_rectangle((float)i, 2, 3, 4.5f); break; default: r[i] = trax_region_create_mask(i, 2, 2, 1); trax_region_write_mask_row(r[i], 0)[0] = 0; trax_region_write_mask_row(r[i], 0)[1] = 1; break; } val[i][0] = (char)vh_range("pv", ' ', 'Z'); val[i][1] = 0; vh_assume(val[i][0] != '"'); }
    if (sot) { if (vh_pick("props", 0, 1)) { p = trax_properties_create(); trax_properties_set(p, "key", val[0]); vl = 1; } if (v >= 4) refuse = 1; code = trax_server_reply_sot(h, r[0], p); }
    else { if (v < 4) { for (i = 0; i < no; i++) trax_region_release(&r[i]); continue; } /* unspecified */ o = trax_object_list_create(no); for (i = 0; i < no; i++) { trax_object_list_set(o, i, r[i]); trax_properties_set(trax_object_list_properties(o, i), "key", val[i]); } vl = 1; if (no != t || (!m4 && no != 1)) refuse = 1; code = trax_server_reply_mot(h, o); }
    after(h, code, -1, -1); A(code == (refuse ? TRAX_ERROR : TRAX_OK), "reply accepted"); if (refuse) { A(vh_ch[1].len == start, "a refused reply puts something on the stream"); vh_cover("refused"); }
    else { for (i = 0; i < no; i++) { A(take(1, &pos, &m), "state missing"); A(m.type == TRAX_STATE && m.na == 1, "not a state message"); A(m.np == (vl >= 0), "state properties"); if (vl >= 0) A(o_prop(&m, "key", val[i], 1), "state property differs"); dec = m.na == 1 && !only ? trax_region_decode(m.a[0]) : NULL;
        A(dec != NULL, "state region"); if (dec) { switch (kd[i]) { case 0: A(trax_region_get_type(dec) == TRAX_REGION_SPECIAL && trax_region_get_special(dec) == i + 3, "state region differs"); break; case 1: A(rect_is(dec, (float)i, 2, 3, 4.5f), "state region differs"); break; default: { int x, y, w, hh; A(trax_region_get_type(dec) == TRAX_REGION_MASK, "state region differs"); trax_region_get_mask_header(dec, &x, &y, &w, &hh); A(x == i && y == 2 && w == 2 && hh == 1 && !trax_region_get_mask_row(dec, 0)[0] && trax_region_get_mask_row(dec, 0)[1], "state region differs"); } } trax_region_release(&dec); } } vh_cover("accepted"); }
    A(!take(1, &pos, &m), "more messages than expected"); for (i = 0; i < no; i++) trax_region_release(&r[i]); if (o) trax_object_list_release(&o); if (p) trax_properties_release(&p);
  }
  trax_cleanup(&h);
}

/* ---- S01 */
static char anychar(const char *n) { return vh_param("wide", 0) ? (char)vh_u8(n) : (char)vh_range(n, 'a', 'z'); }
static trax_image *picture(int kind, int ch, char *keep) { trax_image *g; switch (kind) { case 0: keep[0] = '/'; keep[1] = (char)vh_range("path", 'a', 'z'); keep[2] = (char)('0' + ch); keep[3] = 0; return trax_image_create_path(keep); case 1: strcpy(keep, "http://h/"); keep[9] = (char)vh_range("url", 'a', 'z'); keep[10] = 0; return trax_image_create_url(keep); case 2: { int i; g = trax_image_create_memory(2, 1, TRAX_IMAGE_MEMORY_GRAY8); for (i = 0; i < 2; i++) trax_image_write_memory_row(g, 0)[i] = keep[i] = (char)vh_u8("pixel"); return g; } default: memcpy(keep, "\xff\xd8\xff\xe0", 4); keep[4] = (char)vh_u8("data"); keep[5] = (char)vh_u8("data"); return trax_image_create_buffer(6, keep); } }
static int same_picture(trax_image *g, int kind, const char *keep) { int w, h, f; const char *b; static const int T[] = {TRAX_IMAGE_PATH, TRAX_IMAGE_URL, TRAX_IMAGE_MEMORY, TRAX_IMAGE_BUFFER}; if (!g || trax_image_get_type(g) != T[kind]) return 0; switch (kind) { case 0: b = trax_image_get_path(g); return strlen(b) == 3 && vh_same(b, keep, 3); case 1: b = trax_image_get_url(g); return strlen(b) == 10 && vh_same(b, keep, 10); case 2: trax_image_get_memory_header(g, &w, &h, &f); b = trax_image_get_memory_row(g, 0); return w == 2 && h == 1 && f == TRAX_IMAGE_MEMORY_GRAY8 && vh_same(b, keep, 2); default: b = trax_image_get_buffer(g, &w, &f); return w == 6 && f == TRAX_IMAGE_BUFFER_JPEG && vh_same(b, keep, 6); } }
static trax_region *shape(int kind, int i, int tag) { trax_region *r; switch (kind) { case 0: return trax_region_create_rectangle((float)(i - 1), (float)tag, 3.25f, 4); case 1: r = trax_region_create_polygon(3); trax_region_set_polygon_point(r, 0, (float)i, -1.5f); trax_region_set_polygon_point(r, 1, (float)tag, 7); trax_region_set_polygon_point(r, 2, 3, 8); return r; default: r = trax_region_create_mask(tag, i - 1, 2, 2); { int a; for (a = 0; a < 4; a++) trax_region_write_mask_row(r, a / 2)[a % 2] = (char)((tag >> a) & 1); } return r; } }
static int same_shape(trax_region *r, int kind, int i, int tag) { float x, y; int a, b, w, h, k; if (!r) return 0; switch (kind) { case 0: return rect_is(r, (float)(i - 1), (float)tag, 3.25f, 4); case 1: if (trax_region_get_type(r) != TRAX_REGION_POLYGON || trax_region_get_polygon_count(r) != 3) return 0; trax_region_get_polygon_point(r, 0, &x, &y); if (x != i || y != -1.5f) return 0; trax_region_get_polygon_point(r, 1, &x, &y); if (x != tag || y != 7) return 0; trax_region_get_polygon_point(r, 2, &x, &y); return x == 3 && y == 8; default: if (trax_region_get_type(r) != TRAX_REGION_MASK) return 0; trax_region_get_mask_header(r, &a, &b, &w, &h); if (a != tag || b != i - 1 || w != 2 || h != 2) return 0; for (k = 0; k < 4; k++) if ((trax_region_get_mask_row(r, k / 2)[k % 2] != 0) != ((tag >> k) & 1)) return 0; return 1; } }
static void s_dialog(int n) {
  int v = (int)vh_param("version", 0), multi, chm = (int)vh_param("ch", 1), ik = (int)vh_param("images", 4), rk = (int)vh_param("regions", 3), maxo = (int)vh_param("objs", 2), tracked = 0, step, i, kinds[8], quit = 0; trax_handle *s, *c; char keep[3][16];
  if (!v) v = vh_pick("version", 1, 4); multi = v >= 4 ? vh_pick("multi", 0, 1) : 0; s = mkserver(v, 14, 15, chm, multi); c = trax_client_setup_file(1, 0, trax_no_log); vh_assert(c != NULL, "introduction fails"); if (v < 2) chm = 1;
  if (v < 2 && (int)vh_param("ch", 1) != 1) { trax_cleanup(&c); trax_cleanup(&s); return; }
  for (step = 0; step < n && !quit; step++) {
    int op = step == 0 ? 0 : vh_pick("step", 0, 2), no = op == 0 ? vh_pick("objects", 1, multi ? maxo : 1) : op == 1 && multi ? vh_pick("more", 0, 1) : 0, pk = vh_pick("image", 0, ik - 1), code, exp, rl; char val[8][4], fv[4], rv[8][4]; trax_image_list *il = trax_image_list_create(), *got = NULL; trax_object_list *o = trax_object_list_create(no), *go = NULL; trax_region *gr = NULL; trax_properties *p = trax_properties_create(), *gp = trax_properties_create();
    if (op == 2) { /* either side quits */ int bys = vh_pick("by", 0, 1); trax_properties_release(&p); p = trax_properties_create(); quit = 1; rl = plain(fv, vh_param("wide", 0) ? 2 : 0, "reason"); if (!rl) { strcpy(fv, "r s"); rl = 3; }
      if (bys) { trax_terminate(s, fv); code = trax_client_wait(c, &go, gp); } else { trax_terminate(c, fv); code = v < 4 ? trax_server_wait_sot(s, &got, &gr, gp) : trax_server_wait_mot(s, &got, &go, gp); }
      A(code == TRAX_QUIT, "quit is not received"); A(!trax_is_alive(s) && !trax_is_alive(c), "alive after quit"); A(!got && !go && !gr, "quit delivers data"); if (bys || v < 4) A(prop_is(gp, "trax.reason", fv, rl), "reason differs"); vh_cover("quit"); goto next; }
    for (i = 0; i < 3; i++) if (chm & (1 << i)) trax_image_list_set(il, picture(pk, i, keep[i]), CH[i]);
    for (i = 0; i < no; i++) { trax_region *r; kinds[i] = vh_pick("region", 0, rk - 1); r = shape(kinds[i], i, 5 + step); trax_object_list_set(o, i, r); trax_region_release(&r); val[i][0] = anychar("ov"); vh_assume(val[i][0] != 0); val[i][1] = 0; if (v >= 4) trax_properties_set(trax_object_list_properties(o, i), "object", val[i]); }
    fv[0] = anychar("fv"); vh_assume(fv[0] != 0); fv[1] = 0; trax_properties_set(p, "frame", fv);
    code = op == 0 ? trax_client_initialize(c, il, o, p) : trax_client_frame(c, il, o, p); A(code == TRAX_OK, "request refused");
    if (op == 0) tracked = 0; exp = op == 0 ? TRAX_INITIALIZE : TRAX_FRAME; code = v < 4 ? trax_server_wait_sot(s, &got, &gr, gp) : trax_server_wait_mot(s, &got, &go, gp); tracked += no;
    A(code == exp, "request is not what is received"); if (code != exp) { quit = 1; goto next; }
    for (i = 0; i < 3; i++) { trax_image *g = trax_image_list_get(got, CH[i]); if (chm & (1 << i)) A(same_picture(g, pk, keep[i]), "image differs"); else A(!g, "image of an unused channel"); }
    A(trax_properties_count(gp) == 1 && prop_is(gp, "frame", fv, 1), "request properties differ");
    if (v < 4) { A((gr != NULL) == (op == 0), "region"); if (gr) A(same_shape(gr, kinds[0], 0, 5 + step), "region differs"); }
    else { A((go != NULL) == (no > 0), "objects"); if (go) { A(trax_object_list_count(go) == no, "number of objects differs"); for (i = 0; i < no && i < trax_object_list_count(go); i++) { A(same_shape(trax_object_list_get(go, i), kinds[i], i, 5 + step), "region differs"); A(trax_properties_count(trax_object_list_properties(go, i)) == 1 && prop_is(trax_object_list_properties(go, i), "object", val[i], 1), "object properties differ"); } } }
    if (go) trax_object_list_release(&go); if (gr) trax_region_release(&gr);
    /* reply */
    { trax_object_list *a = trax_object_list_create(tracked); for (i = 0; i < tracked; i++) { trax_region *r; kinds[i] = i ? (kinds[0] + i) % 3 : vh_pick("answer", 0, rk - 1); r = shape(kinds[i], i, 9 - step); trax_object_list_set(a, i, r); rv[i][0] = anychar("rv"); vh_assume(rv[i][0] != 0); rv[i][1] = 0; trax_properties_set(trax_object_list_properties(a, i), "state", rv[i]); if (v < 4) code = trax_server_reply_sot(s, r, trax_object_list_properties(a, i)); trax_region_release(&r); } if (v >= 4) code = trax_server_reply_mot(s, a); trax_object_list_release(&a); A(code == TRAX_OK, "reply refused"); }
    code = trax_client_wait(c, &go, NULL); A(code == TRAX_STATE, "reply is not received"); A(go != NULL, "no states"); if (go) { A(trax_object_list_count(go) == tracked, "number of states differs"); for (i = 0; i < tracked && i < trax_object_list_count(go); i++) { A(same_shape(trax_object_list_get(go, i), kinds[i], i, 9 - step), "state region differs"); A(trax_properties_count(trax_object_list_properties(go, i)) == 1 && prop_is(trax_object_list_properties(go, i), "state", rv[i], 1), "state properties differ"); } }
    A(trax_is_alive(s) && trax_is_alive(c), "session ends by itself"); if (step == n - 1) vh_cover("dialogue");
  next:
    if (go) trax_object_list_release(&go); droplist(&got); droplist(&il); trax_object_list_release(&o); trax_properties_release(&p); trax_properties_release(&gp);
  }
  trax_cleanup(&c); trax_cleanup(&s);
}
void vh_main(void) {
  int mode = (int)vh_param("mode", 0), n = (int)vh_param("n", 1), l0 = vh_heap_live(); only = (int)vh_param("only", 0);
  switch (mode) { case 0: f_combos(n); break; case 1: f_lists(n); break; case 2: f_text(n); break; case 3: h_meta(n); break; case 4: h_hello(n); break; case 5: h_quit(n); break; case 6: h_sot(n); break; case 7: h_mot(n); break; case 8: h_cwait(n); break; case 9: h_request(n); break; case 10: h_reply(n); break; case 11: s_dialog(n); break; }
  if (only == 2) { vh_assert(vh_heap_live() == l0, "leak"); vh_cover("released"); }
}
