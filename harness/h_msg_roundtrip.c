/* M01: write_message then read_message yields the same message; M04: exactly one line. */
#define VH_CAP 24000
#include "vh_io.h"
#include "message.h"
static int nprops; static char pk[4][8]; static char pv[4][8];
static void visit(const char *k, const char *v, const void *o) { if (nprops < 4) { strncpy(pk[nprops], k, 7); strncpy(pv[nprops], v, 7); } nprops++; }
static const char *TYPES[] = {"hello", "initialize", "frame", "quit", "state"};
void vh_main(void) {
  int na = (int)vh_param("args", 1), np = (int)vh_param("props", 1), maxl = (int)vh_param("len", 2), line = (int)vh_param("line", 0);
  int type = vh_pick("type", TRAX_HELLO, (int)vh_param("types", 5)); static char a[3][6000], v[6000]; int al[3], vl = 0, i, lo = (int)vh_param("lo", 0), hi = (int)vh_param("hi", 0);
  message_stream *w = create_message_stream_file(0, 1), *r = create_message_stream_file(1, 2);
  string_list *al1 = list_create(2), *al2 = list_create(2); trax_properties *p1 = trax_properties_create(), *p2 = trax_properties_create();
  for (i = 0; i < na; i++) { int pre = hi ? vh_pick("pre", lo, hi) : 0; memset(a[i], 'x', (size_t)pre); al[i] = pre + vh_string(a[i] + pre, maxl, "arg");
    list_append(al1, a[i]); }
  if (np) { int pre = hi ? vh_pick("pre", lo, hi) : 0; memset(v, 'y', (size_t)pre); vl = pre + vh_string(v + pre, maxl, "val"); trax_properties_set(p1, "k.1", v); if (np > 1) trax_properties_set(p1, "b_", "two words"); }
  write_message(w, NULL, type, al1, p1);
  if (line) { /* exactly one line with prefix, name and one line break at the very end */
    vh_chan *c = &vh_ch[1]; int bad = 0, n = c->len; const char *t = TYPES[type - 1]; int tl = (int)strlen(t);
    vh_assert(n > 7 + tl, "line shorter than prefix and name"); vh_assert(vh_same(c->d, "@@TRAX:", 7), "prefix missing"); vh_assert(vh_same(c->d + 7, t, tl), "name missing"); vh_assert((c->d[7 + tl] == ' ') | (c->d[7 + tl] == '\n'), "name not terminated");
    for (i = 0; i + 1 < n; i++) bad |= c->d[i] == '\n'; vh_assert(!bad, "line break inside a message"); vh_assert(c->d[n - 1] == '\n', "message not terminated by a line break"); vh_cover("line");
  } else {
    /* an argument that reads as key=value is a property by the grammar: outside the claim */
    for (i = 0; i < na; i++) { int j, pre = 1, kv = 0; for (j = 0; j < al[i]; j++) { int ch = (unsigned char)a[i][j]; kv |= pre & (ch == '='); pre &= ((ch >= '0') & (ch <= '9')) | ((ch >= 'a') & (ch <= 'z')) | ((ch >= 'A') & (ch <= 'Z')) | (ch == '.') | (ch == '_'); } vh_assume(!kv); }
    int t = read_message(r, NULL, al2, p2); vh_assert(t == type, "type changed");
    vh_assert(list_size(al2) == na, "argument count changed");
    for (i = 0; i < na; i++) { vh_assert((int)strlen(al2->buffer[i]) == al[i], "argument length changed"); vh_assert(vh_same(al2->buffer[i], a[i], al[i]), "argument content changed"); }
    nprops = 0; trax_properties_enumerate(p2, visit, NULL); vh_assert(nprops == np, "property count changed");
    if (np) { char *g = trax_properties_get(p2, "k.1"); vh_assert(g != NULL, "property lost"); vh_assert((int)strlen(g) == vl, "value length changed"); vh_assert(vh_same(g, v, vl), "value content changed"); free(g); }
    if (np > 1) { char *g = trax_properties_get(p2, "b_"); vh_assert(g != NULL && strcmp(g, "two words") == 0, "second property changed"); free(g); }
    vh_cover("roundtrip");
  }
}
