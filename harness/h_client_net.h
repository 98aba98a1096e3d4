/* N01: connections over sockets, with any one call to the network failing */
int create_server_socket(int port); void destroy_server_socket(int server); namespace trax { extern int next_available_socket_port; }
#include <memory>
static const char HELLO[] = "@@TRAX:hello \"trax.version=3\" \"trax.region=rectangle\" \"trax.image=path\" \"trax.channels=color\" \n";
static int peer(int port) { if (nsock >= NSOCK) vh_unsupported("sockets"); Sock &s = S[nsock]; memset((void *)&s, 0, sizeof s); s.refs = 1; s.port = -1; if (!link_to(port, s)) return -1; return nsock++; }
static void psays(int k, const char *t) { Pipe &p = P[S[k].out]; int n = (int)strlen(t); memcpy(p.d + p.len, t, (size_t)n); p.len += n; }
static void pcloses(int k) { Fd f; f.kind = 3; f.pipe = k; dropfd(f); }
static int heard(int k, const char *t) { Pipe &p = P[S[k].in]; return p.len - p.pos >= (int)strlen(t) && !memcmp(p.d + p.pos, t, strlen(t)); }
static void n_accept() { /* the client listens, a tracker may connect and may say hello */
  int port = vh_range("port", 1, 65535), who = vh_pick("peer", 0, 5) /* none, talks, leaves, talks and leaves, says something else, talks too much */, tmo = vh_pick("timeout", 0, 2), fail, sid, k = -1; char log[4]; net_fail = fail = vh_pick("failing call", -1, 9);
  sid = create_server_socket(port); int failed = net_fail >= 0 && net_calls > net_fail; A(bad_close == 0, "closes a descriptor that is not open");
  if (sid < 0) { A(failed, "cannot listen although nothing fails"); A(open_fds() == 0, "descriptors are left open"); vh_cover("refused"); return; }
  A(open_fds() == 1 && F[sid].kind == 3 && S[F[sid].pipe].listening && S[F[sid].pipe].port == port, "does not listen where it should");
  if (who) { k = peer(port); if (k < 0) vh_fail("no connection"); if (who == 1 || who == 3 || who == 5) psays(k, HELLO); if (who == 5) psays(k, "@@TRAX:state \"1,2,3,4\" \n"); if (who >= 2 && who < 5) pcloses(k); }
  long t0 = now_ms; trax_handle *h = trax_client_setup_socket(sid, tmo, trax_no_log); int later = !failed && net_fail >= 0 && net_calls > net_fail; A(now_ms - t0 <= tmo * 1000L, "waits longer than it should"); A(bad_close == 0, "closes a descriptor that is not open");
  if (!h) { A((who != 1 && who != 5) || later, "a tracker that connects is not accepted"); A(open_fds() == 1, "descriptors are left open"); }
  else { A(who == 1 || who == 3 || who == 5, "a connection with nobody"); A(open_fds() == 2, "number of descriptors"); A(trax_is_alive(h), "alive");
    if (who == 1 || who == 5) { trax_image_list *il = trax_image_list_create(); trax_image *im = trax_image_create_path("/i"); trax_image_list_set(il, im, TRAX_CHANNEL_COLOR); trax_object_list *ol = trax_object_list_create(1); trax_region *rg = trax_region_create_rectangle(1, 2, 3, 4); trax_object_list_set(ol, 0, rg); A(trax_client_initialize(h, il, ol, NULL) == TRAX_OK, "request over the connection"); A(heard(k, "@@TRAX:initialize "), "request does not arrive"); trax_region_release(&rg); trax_object_list_release(&ol); trax_image_release(&im); trax_image_list_release(&il); }
    trax_cleanup(&h); A(open_fds() == 1, "descriptors after the session"); if (who == 1 || who == 5) { psays(k, "x"); A(P[S[k].in].wr == 0, "the connection is not closed"); } vh_cover("session"); }
  A(S[F[sid].pipe].listening, "does not listen any more"); net_fail = -1; if (vh_pick("again", 0, 1)) { int m = peer(port); if (m < 0) vh_fail("no second connection"); psays(m, HELLO); h = trax_client_setup_socket(sid, tmo, trax_no_log); if (h) { trax_cleanup(&h); } A(open_fds() == 1, "descriptors after the second session"); }
  destroy_server_socket(sid); A(open_fds() == 0 && bad_close == 0, "descriptors after the server"); destroy_server_socket(-1); A(bad_close == 0, "closes a descriptor that is not open"); vh_cover("accept");
}
static void n_connect() { /* the tracker connects to the port in its environment */
  int port = vh_pick("port", 0, 1) ? 65535 : 9090, k = nsock++; char t[12]; Sock &s = S[k]; memset((void *)&s, 0, sizeof s); s.refs = 1; s.port = port; s.listening = 1; snprintf(t, sizeof t, "%d", port); socket_env = t; late = vh_pick("late", 0, 3); net_fail = vh_pick("failing call", -1, 5); int bye = vh_pick("bye", 0, 1);
  trax_metadata *m = trax_metadata_create(TRAX_REGION_RECTANGLE, TRAX_IMAGE_PATH, TRAX_CHANNEL_COLOR, "name", NULL, NULL, 0); trax_handle *h = trax_server_setup_v(m, trax_no_log, 3); trax_metadata_release(&m); int failed = net_fail >= 0 && net_calls > net_fail; A(bad_close == 0, "closes a descriptor that is not open");
  if (!h) { A(failed, "no connection although nothing fails"); A(open_fds() == 0, "descriptors are left open"); vh_cover("refused"); return; }
  A(open_fds() == 1 && s.npend == 1, "not connected once"); Pipe &in = P[s.pin[0]], &out = P[s.pout[0]]; A(in.len > 13 && !memcmp(in.d, "@@TRAX:hello ", 13), "the introduction does not arrive");
  { const char *q = bye ? "@@TRAX:quit \n" : "@@TRAX:initialize \"/i\" \"1,2,3,4\" \n@@TRAX:quit \n"; memcpy(out.d, q, strlen(q)); out.len = (int)strlen(q); }
  trax_image_list *il = NULL; trax_region *r = NULL; trax_properties *p = trax_properties_create(); int c = trax_server_wait_sot(h, &il, &r, p); A(c == (bye ? TRAX_QUIT : TRAX_INITIALIZE), "request over the connection"); if (!bye) { int at = in.len; A(trax_server_reply_sot(h, r, p) == TRAX_OK && in.len > at, "answer over the connection"); }
  if (r) trax_region_release(&r); if (il) { trax_image_list_clear(il); trax_image_list_release(&il); } trax_properties_release(&p); trax_cleanup(&h); A(open_fds() == 0 && bad_close == 0, "descriptors after the session"); A(in.wr == 0 && out.rd == 0, "the connection is not closed"); vh_cover("session");
}
static void n_ports() { /* the port that is announced is the one that is listened on */
  trax::next_available_socket_port = vh_pick("low", 0, 1) ? vh_range("first", 1025, 9999) : vh_pick("first", 65524, 65535); net_busy = vh_pick("busy", 0, 11); net_fail = vh_param("fail", 0) ? vh_pick("failing call", -1, 5) : -1; int busy = net_busy, fails = net_fail, used = -1; scripted = sched_on = polite = 1; reply_w = '3'; char *env[] = {NULL}; OS(environ) = env;
  try { std::map<std::string, std::string> e; std::ostringstream log; TrackerProcess t("tracker", e, 1, CONNECTION_SOCKETS, VERBOSITY_DEFAULT, "", &log); for (int i = 0; i < nsock; i++) if (S[i].refs && S[i].listening) { A(used < 0, "listens twice"); used = i; } A(used >= 0, "does not listen"); A(open_fds() == 1, "descriptors are left open"); net_fail = -1; std::unique_ptr<TrackerProcess> u; if (vh_param("two", 0)) { u.reset(new TrackerProcess("tracker", e, 1, CONNECTION_SOCKETS, VERBOSITY_DEFAULT, "", &log)); A(open_fds() == 2, "number of descriptors"); } bool ok = t.query(); A(ok && nchild == 1, "a good tracker is not started"); A(cfd(C[0], "TRAX_SOCKET", -1) == S[used].port, "the port differs from the one that is announced"); A(S[used].port > 0 && S[used].port <= 65535, "not a port"); call_start = now_ms; if (u) { ok = u->query(); A(ok && nchild == 2, "a second good tracker is not started"); A(cfd(C[1], "TRAX_SOCKET", -1) != S[used].port, "two trackers are told the same port"); call_start = now_ms; } vh_cover("session"); }
  catch (std::runtime_error &x) { A(busy + (fails >= 0) >= 10, "gives up although a port is free"); vh_cover("refused"); }
  os_is_clean();
}
