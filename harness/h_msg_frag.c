/* M03: a message written over a transport with short writes arrives completely and in order; reads split arbitrarily give the same messages. */
#include "vh_io.h"
#include "message.h"
void vh_main(void) {
  int len = (int)vh_param("len", 1), sock = (int)vh_param("sock", 0), rd = (int)vh_param("rd", 0), t;
  vh_frag_max = (int)vh_param("fmax", 3);
  message_stream *w = create_message_stream_file(0, 1), *r; string_list *al = list_create(1); trax_properties *pr = trax_properties_create();
  if (sock) { w->flags = TRAX_STREAM_SOCKET; w->socket.server = -1; w->socket.socket = 1; }
  if (!rd) {
    char a[8]; int n = vh_string(a, len, "arg"); list_append(al, a); list_append(al, "b"); trax_properties_set(pr, "k", a);
    write_message(w, NULL, TRAX_STATE, al, pr);             /* unlimited transport into channel 1 */
    if (sock) w->socket.socket = 2; else w->files.output = 2;
    vh_frag_out = (int)vh_param("out", 2); write_message(w, NULL, TRAX_STATE, al, pr); /* limited transport into channel 2 */
    vh_assert(vh_ch[1].len == vh_ch[2].len, "number of bytes on the stream"); vh_assert(vh_same(vh_ch[1].d, vh_ch[2].d, (size_t)vh_ch[1].len), "bytes on the stream");
  } else { /* every split of the stream into reads */
    int cap = (int)vh_param("cap", 26); vh_feeds(1, "@@TRAX:quit \"a\\n\" k=v\n"); vh_feeds(1, "@@TRAX:quit\n"); vh_assert(vh_ch[1].len > cap, "cap");
    r = create_message_stream_file(1, 2); if (sock) { r->flags = TRAX_STREAM_SOCKET; r->socket.server = -1; r->socket.socket = 1; }
    vh_frag_in = 3; vh_frag_left = (int)vh_param("cuts", 3); t = read_message(r, NULL, al, pr); vh_assert(t == TRAX_QUIT, "first message lost"); vh_assert(list_size(al) == 1 && strcmp(al->buffer[0], "a\n") == 0, "argument changed"); char *v = trax_properties_get(pr, "k"); vh_assert(v && strcmp(v, "v") == 0, "property changed"); free(v); trax_properties_clear(pr);
    t = read_message(r, NULL, al, pr); vh_assert(t == TRAX_QUIT, "second message lost"); vh_assert(list_size(al) == 0, "argument appeared"); vh_assert(trax_properties_count(pr) == 0, "property appeared");
    t = read_message(r, NULL, al, pr); vh_assert(t == -1, "message appeared");
  }
  vh_cover("delivered");
}
