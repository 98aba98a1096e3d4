/* Byte channels standing in for descriptors and sockets; identical in symx and in native replays.
   The repository sources are compiled with -Dread=vh_read -Dwrite=vh_write -Drecv=vh_recv -Dsend=vh_send ... */
#ifndef VH_IO_H
#define VH_IO_H
#include "vh.h"
#ifndef VH_CAP
#define VH_CAP 6000
#endif
#define VH_NCH 6
typedef struct { char d[VH_CAP]; int len, pos, closed; } vh_chan;
static vh_chan vh_ch[VH_NCH];
static int vh_frag_in;    /* 0: as much as there is, 1: one byte at a time, 2: symbolic fragment length, 3: the first vh_frag_left of any length */
static int vh_frag_left = 3;
static int vh_frag_out;   /* same for writes */
static int vh_frag_max = 3, vh_read_err = 0 /* 1: failing read instead of end of stream */, vh_write_fail_at = -1, vh_total_out = 0;
static int vh_closed_fd[VH_NCH], vh_reads_after_end = 0, vh_max_end_reads = 50;
#ifdef __cplusplus
extern "C" {
#endif
long vh_read(int fd, void *b, size_t n) {
  vh_chan *c = &vh_ch[fd]; size_t a = (size_t)(c->len - c->pos);
  if (a == 0) { if (++vh_reads_after_end > vh_max_end_reads) vh_fail("keeps reading after the end of the stream without terminating"); return vh_read_err ? -1 : 0; }
  if (a > n) a = n;
  if (vh_frag_in == 1) a = 1;
  else if (vh_frag_in == 2 && a > 1) { int m = (int)a < vh_frag_max ? (int)a : vh_frag_max; a = (size_t)vh_pick("rd", 1, m); }
  else if (vh_frag_in == 3 && a > 1 && vh_frag_left > 0) { vh_frag_left--; a = (size_t)vh_pick("rd", 1, (int)a); }
  memcpy(b, c->d + c->pos, a); c->pos += (int)a; return (long)a;
}
long vh_write(int fd, const void *b, size_t n) {
  vh_chan *c = &vh_ch[fd]; size_t a = n;
  if (vh_write_fail_at >= 0 && vh_total_out >= vh_write_fail_at) return -1;
  if (a == 0) return 0;
  if (vh_frag_out == 1) a = 1;
  else if (vh_frag_out == 2 && a > 1) { int m = (int)a < vh_frag_max ? (int)a : vh_frag_max; a = (size_t)vh_pick("wr", 1, m); }
  if (c->len + (int)a > VH_CAP) vh_unsupported("channel capacity");
  memcpy(c->d + c->len, b, a); c->len += (int)a; vh_total_out += (int)a; return (long)a;
}
long vh_recv(int fd, void *b, size_t n, int f) { return vh_read(fd, b, n); }
long vh_send(int fd, const void *b, size_t n, int f) { return vh_write(fd, b, n); }
int vh_close(int fd) { if (fd >= 0 && fd < VH_NCH) vh_closed_fd[fd]++; return 0; }
int vh_shutdown(int fd, int how) { return 0; }
#ifdef __cplusplus
}
#endif
static inline void vh_feed(int ch, const char *s, int n) { vh_chan *c = &vh_ch[ch]; if (c->len + n > VH_CAP) vh_unsupported("channel capacity"); memcpy(c->d + c->len, s, (size_t)n); c->len += n; }
static inline void vh_feeds(int ch, const char *s) { vh_feed(ch, s, (int)strlen(s)); }
#endif
