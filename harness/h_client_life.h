/* Z01: the life of a tracker process under a misbehaving tracker and any schedule of the watchdog and the logger */
using namespace trax;
static int how[NCHILD], phase[NCHILD], want_stop, talk; static long busy_until[NCHILD]; static char pre[1300] = "", note[1300] = "note\n", last_words[1300] = ""; static char reply_w; static int saw[4], mot, objs[NCHILD], last_empty;
static void cputs(Child &c, int fd, const char *s) { if (fd < 0 || outpipe(c.fd[fd]) < 0) return; Pipe &p = P[outpipe(c.fd[fd])]; int n = (int)strlen(s); if (p.len + n > PCAP) vh_unsupported("pipe capacity"); memcpy(p.d + p.len, s, (size_t)n); p.len += n; if (recording && fd != 2) record(s, n); }
static int cfd(Child &c, const char *k, int d) { size_t n = strlen(k); for (int i = 0; i < c.nenv; i++) if (!strncmp(c.env[i], k, n) && c.env[i][n] == '=') return atoi(c.env[i] + n + 1); return d; }
static int line_of(Child &c, int fd) { /* first letter of the next message for the tracker, 0: none */
  if (fd < 0 || inpipe(c.fd[fd]) < 0) return 0; Pipe &p = P[inpipe(c.fd[fd])]; int i, e = p.pos; while (e < p.len && p.d[e] != '\n') e++; if (e >= p.len) return 0; i = p.pos; p.pos = e + 1; last_empty = e - i < 20; return e - i > 7 && !memcmp(p.d + i, "@@TRAX:", 7) ? p.d[i + 7] : 0; }
enum { GOOD, DEAF, HANG, EXITS, QUITS_EARLY, CRASH, GARBAGE, SAYS_QUIT, TOO_NEW, SLOW, MUTE_TALKER, LATE, NHOW };
static int is_good(int k) { return how[k] == GOOD || how[k] == SLOW; }
static void script(Child &c) {
  int k = (int)(&c - C), w = how[k], in = cfd(c, "TRAX_IN", 0), out = cfd(c, "TRAX_OUT", 1), m, port = cfd(c, "TRAX_SOCKET", -1);
  if ((c.dying & 1) && w != DEAF) { die(c, SIGTERM); return; }
  if (w == EXITS) { die(c, 3 << 8); return; }
  if (w == SLOW && now_ms < busy_until[k]) return;
  if (port >= 0) { in = out = NFD - 1; if (w == LATE && !busy_until[k]) busy_until[k] = now_ms + 1150; if (w == LATE && now_ms < busy_until[k]) return; if (c.fd[in].kind == 0 && w != DEAF && w != HANG) { if (nsock >= NSOCK) vh_unsupported("sockets"); Sock &s = S[nsock]; memset((void *)&s, 0, sizeof s); if (!link_to(port, s)) vh_fail("the tracker finds nobody at the port it was given"); s.refs = 1; s.port = -1; c.fd[in].kind = 3; c.fd[in].pipe = nsock++; } }
  if (phase[k] == 0) { if (w == SLOW && !busy_until[k]) { busy_until[k] = now_ms + 300; return; } if (w == DEAF || w == HANG || w == MUTE_TALKER) { if (w == MUTE_TALKER) { cputs(c, out, "blah\n"); phase[k] = 1; } return; } phase[k] = 1; if (talk) cputs(c, 2, note); cputs(c, out, pre);
    cputs(c, out, w == TOO_NEW ? "@@TRAX:hello \"trax.version=9\" \"trax.region=rectangle\" \"trax.image=path\" \"trax.channels=color\" \n" : mot ? "@@TRAX:hello \"trax.version=4\" \"trax.region=rectangle\" \"trax.image=path\" \"trax.channels=color\" \"trax.multiobject=1\" \n" : "text\n@@TRAX:hello \"trax.version=3\" \"trax.region=rectangle\" \"trax.image=path\" \"trax.channels=color\" \n"); if (w == QUITS_EARLY) die(c, 0); return; }
  while ((m = line_of(c, in)) != 0) { saw[m == 'i' ? 0 : m == 'f' ? 1 : m == 'q' ? 2 : 3]++;
    if (m == 'q') { if (w == MUTE_TALKER || w == DEAF) continue; die(c, 0); return; }
    if (w == CRASH) { cputs(c, out, last_words); die(c, SIGSEGV); return; } if (w == GARBAGE) { cputs(c, out, "@@TRAX:state \"1.0,zz\" \n"); continue; } if (w == SAYS_QUIT) { cputs(c, out, "@@TRAX:quit \n"); die(c, 0); return; } if (w == MUTE_TALKER) continue;
    if (mot && m == 'i') { if (last_empty) objs[k] = 0; else objs[k]++; continue; }
    for (int o = mot ? objs[k] : 1; o > 0; o--) { char t[] = "@@TRAX:state \"1.0,2.0,W.0,4.0\" \"a=b\" \n"; t[strlen("@@TRAX:state \"1.0,2.0,")] = reply_w; cputs(c, out, t); } if (w == SLOW) { busy_until[k] = now_ms + 200; return; } }
}
static bool stopper() { return want_stop != 0; } static bool content() { return false; }
static void good_result(const Region &r, const Properties &p) { float f[4]; A(r.type() == TRAX_REGION_RECTANGLE, "result differs"); r.get(f, f + 1, f + 2, f + 3); A(f[0] == 1 && f[1] == 2 && f[2] == (float)(reply_w - '0') && f[3] == 4, "result differs"); A(p.get("a", "") == "b", "result differs"); }
static void os_is_clean() {
  A(bad_close == 0, "closes a descriptor that is not open"); A(open_fds() == 0 && acts_live == 0, "descriptors are left open"); for (int i = 0; i < nchild; i++) A(C[i].reaped, "a process is left behind"); A(nthr == 0, "a thread is left behind"); A(mutexes == 0, "a mutex is not destroyed"); }
static void life(int n) {
  int first = (int)vh_param("how", 0), mode = vh_param("sock", 0) ? 2 : vh_pick("mode", 0, 1), i; scripted = sched_on = polite = 1; delays = (int)vh_param("delays", 0); talk = (int)vh_param("talk", 0); mot = (int)vh_param("mot", 0); reply_w = (char)vh_range("reply", '1', '9');
  for (i = 0; i < NCHILD; i++) { how[i] = i && vh_param("then", 0) ? GOOD : first; busy_until[i] = 0; } char *env[] = {NULL}; OS(environ) = env;
  int cannot = 0; if (vh_param("nostart", 0)) spawn_fails = cannot = 1; if (vh_param("nopipe", 0)) { pipes_left = vh_pick("pipes", 0, 5); cannot = pipes_left < 3; } const char *cmd = "tracker x"; if (vh_param("badcmd", 0)) { cmd = "\"tracker"; cannot = 1; }
  { std::map<std::string, std::string> e; e["A"] = "b"; std::ostringstream log; TrackerProcess t(cmd, e, 1, mode == 2 ? CONNECTION_SOCKETS : mode ? CONNECTION_EXPLICIT : CONNECTION_DEFAULT, vh_param("debug", 0) ? VERBOSITY_DEBUG : vh_param("silent", 0) ? VERBOSITY_SILENT : VERBOSITY_DEFAULT, "", &log); t.register_watchdog(stopper); t.register_watchdog(content);
    ImageList il; il.set(Image::create_path("/i"), TRAX_CHANNEL_COLOR); Region r0 = Region::create_rectangle(1, 2, 3, 4); int tr = 0, due = 0 /* answers that are still to come */, n_obj = 0, lost = 0 /* nothing is known about the tracker any more */;
    A(!t.ready() && !t.tracking(), "alive before it is started");
    for (i = 0; i < n; i++) { int op = vh_pick("op", 0, 7), threw = 0, was = nchild && C[nchild - 1].alive, old = nchild, usable = was && is_good(old - 1) && !lost, cnt = 0, tr0 = tr, few = pipes_left < 3; bool ok = false; call_start = now_ms; limit_ms = 8000;
      try { switch (op) {
        case 0: ok = t.query(); break;
        case 1: if (mot) { cnt = vh_pick("objects", 1, 2); ObjectList l(cnt); for (int k = 0; k < cnt; k++) l.set(k, r0); ok = t.initialize(il, l); } else ok = t.initialize(il, r0); break;
        case 2: if (mot) { ObjectList l; Properties p; ok = t.wait(l, p); if (ok && usable) { A(l.size() == n_obj, "number of results differs"); for (int k = 0; k < l.size(); k++) good_result(l.get(k), l.properties(k)); } } else { Region r; Properties p; ok = t.wait(r, p); if (ok) good_result(r, p); } break;
        case 3: if (mot) { cnt = vh_pick("objects", 0, 1); ObjectList l(cnt); for (int k = 0; k < cnt; k++) l.set(k, r0); ok = t.frame(il, l); } else ok = t.frame(il); break;
        case 4: ok = t.reset(); A(!t.tracking(), "still tracking after a reset"); break;
        case 5: OS(usleep)(1500000); break;
        case 6: { bool rd = t.ready(), tk = t.tracking(), mo = t.multiobject(); if (usable) { A(rd, "a good tracker is not alive"); A(tk == (tr != 0), "whether the tracker is tracking"); A(mo == (mot != 0), "whether the tracker handles several objects"); } if (old && !C[old - 1].alive && !was) A(!rd && !tk && !mo, "alive without a process"); Metadata m = t.metadata(); if (usable) A(m.region_formats() == TRAX_REGION_RECTANGLE && m.image_formats() == TRAX_IMAGE_PATH && m.channels() == TRAX_CHANNEL_COLOR, "description of the tracker"); break; }
        case 7: want_stop = 1; for (int k = 0; k < 3; k++) usleep_main(); A(!t.ready(), "still alive after it was to be stopped"); want_stop = 0; break; } }
      catch (std::runtime_error &x) { threw = 1; }
      if (held[0]) vh_fail("returns holding a mutex");
      if ((op == 1 || op == 2 || op == 3) && !ok) { tr = 0; A(!t.tracking(), "tracking after a failure"); }
      if (cannot) { A(nchild == 0 && !t.ready() && !ok, "started although it cannot be"); if (op <= 4 || op == 6) A(threw, "a failed start is not reported"); continue; }
      if (few && (op == 4 || (op <= 1 && !was))) { A(threw && nchild == old, "a failed start is not reported"); tr = 0; continue; }
      int fresh = nchild > old; A(nchild <= old + 1, "started more than once"); if (!nchild) { A(op >= 5 || threw, "success without a tracker"); continue; }
      if (fresh) { A(op == 0 || op == 1 || op == 4, "started when it should not be"); tr = due = n_obj = 0; lost = 0; }
      if (fresh && was && op != 4) A(!is_good(old - 1), "a living tracker is replaced");
      int w = how[nchild - 1]; if (w == TOO_NEW) A(saw[0] + saw[1] == 0 && (!fresh || threw), "talks to a tracker of an unknown version"); if (w == HANG || w == DEAF || w == EXITS || w == MUTE_TALKER || w == LATE) A(!ok, "success without an answer"); if (op == 2 && (w == CRASH || w == GARBAGE || w == SAYS_QUIT || w == QUITS_EARLY)) A(!ok, "a result that was never sent");
      if (!(usable || (fresh && is_good(nchild - 1)))) { if (!fresh) lost = 1; continue; }
      switch (op) { /* a good tracker */
        case 0: A(!threw && ok == (fresh != 0), "a good tracker is not started"); break;
        case 4: A(!threw && ok && fresh, "a good tracker is not started again"); A(old == 0 || C[old - 1].reaped, "the tracker before is still there"); break;
        case 1: A(!threw && ok, "a good tracker is not initialized"); if (mot) { if (due) lost = 1; n_obj = cnt; } tr = 1; due++; break;
        case 2: if (!tr0) A(threw, "a result without a target"); else if (due) { A(ok, "the answer of a good tracker is lost"); due--; } else { A(!ok && !C[nchild - 1].alive, "a result that was never sent"); tr = 0; } break;
        case 3: if (!tr0) A(threw, "a frame without a target"); else { A(ok, "a frame is refused"); if (due && mot && cnt) lost = 1; n_obj += cnt; due++; } break;
        case 6: A(!threw, "nothing is known about a good tracker"); break;
        case 7: A(!C[nchild - 1].alive, "still alive after it was to be stopped"); tr = 0; break; }
      if (op != 7 && C[nchild - 1].alive == 0) tr = 0; if (op != 7 && op != 2) A(C[nchild - 1].alive, "a good tracker is gone");
      if (!lost && tr) A(t.tracking(), "not tracking after a success");
    }
    call_start = now_ms;
  }
  os_is_clean(); vh_cover("life");
}

/* X02: what is exchanged with the tracker and what it writes to its error output appears in the log line by line, lines of more than 255 bytes cut */
static int cut_lines(const char *s, int n, char *d) { int k = 0, l = 0; for (int i = 0; i < n; i++) { if (++l < 256 || (l == 256 && s[i] == '\n')) d[k++] = s[i]; else if (l == 256) d[k++] = '\n'; if (s[i] == '\n') l = 0; } return k; }
static void logging(int n) {
  static const int PAD[] = {0, 253, 254, 255, 256, 1020}; int where = (int)vh_param("where", 0), silent = (int)vh_param("silent", 0), i, k = PAD[vh_pick("pad", 0, (int)vh_param("pads", 5))], m = vh_pick("length", 0, n), ends = vh_pick("ends", 0, 1), w = (int)vh_param("how", 0); char *t = where == 0 ? pre : where == 1 ? note : last_words; static char want[6000], err[2600], got[6000];
  for (i = 0; i < k; i++) t[i] = where == 1 ? 'N' : 'x'; vh_text(t + k, m, "text"); for (i = 0; i < m; i++) { vh_assume(t[k + i] != '@'); if (where == 1) vh_assume((t[k + i] == '\n') | ((t[k + i] >= 'B') & (t[k + i] <= 'P'))); else vh_assume((t[k + i] < 'B') | (t[k + i] > 'P')); } if (ends) t[k + m++] = '\n'; t[k + m] = 0;
  scripted = sched_on = recording = 1; delays = (int)vh_param("delays", 0); talk = where == 1; reply_w = '3'; how[0] = w; char *env[] = {NULL}; OS(environ) = env; std::string text;
  { std::ostringstream log; { std::map<std::string, std::string> e; TrackerProcess t(std::string("tracker"), e, 1, (int)vh_param("explicit", 0) ? CONNECTION_EXPLICIT : CONNECTION_DEFAULT, silent ? VERBOSITY_SILENT : VERBOSITY_DEFAULT, "", &log); ImageList il; il.set(Image::create_path("/i"), TRAX_CHANNEL_COLOR); Region r0 = Region::create_rectangle(1, 2, 3, 4), r; Properties p;
      bool ok = t.initialize(il, r0); A(ok, "a good tracker is not initialized"); try { ok = t.wait(r, p); } catch (std::runtime_error &x) { ok = false; } A(ok == (w == GOOD), "answer"); if (ok && vh_param("frames", 0)) { t.frame(il); t.wait(r, p); } }
    text = log.str(); }
  int tn = cut_lines(traffic, traffic_n, want), en = where == 1 ? cut_lines(note, k + m, err) : 0, ti = 0, ei = 0, j; if (silent) tn = en = 0;
  if (vh_param("show", 0)) { for (i = 0; i < (int)text.size(); i++) vh_trace("log", (unsigned char)text[(size_t)i]); }
  for (i = j = 0; i < (int)text.size(); i++) got[j++] = text[(size_t)i];
  if (where == 1) { if (ends) { for (i = 0; i < j;) { char *from = got[i] == 'N' || (got[i] >= 'B' && got[i] <= 'P') || (got[i] == '\n') ? err : want; int *at = from == err ? &ei : &ti, lim = from == err ? en : tn; int nl; do { A(*at < lim && got[i] == from[*at], "log differs from what was written"); (*at)++; nl = got[i] == '\n'; i++; } while (i < j && !nl); } A(ti == tn, "traffic is missing in the log"); A(ei == en, "error output is missing in the log"); } else { for (i = 0; i < j; i++) { if (got[i] >= 'B' && got[i] <= 'P') { while (ei < en && err[ei] == '\n') ei++; A(ei < en && err[ei] == got[i], "log differs from what was written"); ei++; } } while (ei < en && err[ei] == '\n') ei++; A(ei == en, "error output is missing in the log"); } }
  else { A(j == tn, "length of the log differs"); for (i = 0; i < tn && i < j; i++) A(got[i] == want[i], "log differs from what was exchanged"); }
  os_is_clean(); vh_cover("log");
}
