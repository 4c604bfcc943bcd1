PROP="P03"
NEEDS="the same packet is written in three pieces: two short writes in a row"
BREAKS="after the second short write the packet is continued from the wrong byte, so the client gets bytes twice"
EDITS=[("pktserv/pktsocket.c","            msgbuf->pos += result;","            msgbuf->pos = msgbuf->data + result;")]
FILES={"w.c":'''
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
static char out[4096]; static size_t nout; static int turn;
static ssize_t my_write(int fd, const void *b, size_t n)
{
    static const int take[] = { 4, 3, -1, 5, 100, 2, 100 };
    int t = take[turn++ % 7];
    if (t < 0) { errno = EWOULDBLOCK; return -1; }
    if ((size_t)t < n) n = t;
    memcpy(out + nout, b, n); nout += n; return n;
}
#include "config.h"
#include "pktserv/pktbuffers.h"
#define write my_write
#include "bsdqueue.h"
#include "pktserv/pktserv_internal.h"
extern cbuf_t *cbufs;
#include "pktserv/pktsocket.c"
cbuf_t *cbufs; static cbuf_t tab[MAX_USERS];
void vmdb(int l, const char *f, ...) {}
void mdb(int l, const char *f) {}
int add_pollfd(int fd) { return 0; }
int sslsocket_read(cbuf_t *c, void *b, size_t n) { return -1; }
int sslsocket_write(cbuf_t *c, void *b, size_t n) { return -1; }
int sslsocket_accept(cbuf_t *c) { return -1; }
int main(void)
{
    static const char *const P[] = { "\\016dStatus:First", "\\010bsecond\\0" };
    cbuf_t *c = &tab[5]; int i; char want[64]; size_t n = 0;
    cbufs = tab; c->fd = 5; TAILQ_INIT(&c->wlist);
    for (i = 0; i < 2; i++) {
        msgbuf_t *m = _msgbuf_alloc(NULL, 64);
        m->len = (unsigned char)P[i][0] + 1; memcpy(m->data, P[i], strlen(P[i])); m->pos = m->data;
        memset(m->data + strlen(P[i]), 0, m->len - strlen(P[i]));
        memcpy(want + n, m->data, m->len); n += m->len;
        if (TAILQ_EMPTY(&c->wlist)) { TAILQ_INSERT_HEAD(&c->wlist, m, entries); } else { TAILQ_INSERT_TAIL(&c->wlist, m, entries); }
        c->wlist_size++;
    }
    c->state = WANT_WRITE;
    for (i = 0; i < 10 && !TAILQ_EMPTY(&c->wlist); i++) if (pktsocket_write(c) < 0) return 2;
    if (nout != n || memcmp(out, want, n)) { printf("FAILED: %zu bytes written for %zu\\n", nout, n); return 1; }
    return 0;
}
'''}
SH='''
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cfg=$(dirname "$(find . -name config.h -path '*_build*' | head -1)"); [ -n "$cfg" ] || cfg=.
gcc -w -DPKTSERV_INTERNAL=1 -I. -I"$cfg" -Ipktserv -Iserver -DHAVE_CONFIG_H -o "$t/w" "$d/w.c" pktserv/pktbuffers.c || exit 3
timeout 60 "$t/w"
'''
