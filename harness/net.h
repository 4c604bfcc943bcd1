/* what the harnesses of the network layer share: the server's side of it */
#pragma once
#include "pkt_env.h"
#ifndef MAXPK
#define MAXPK 12
#endif
/* per connection: what the server was told and did */
struct side {
    int announced, lost, npk;
    int pklen[MAXPK]; unsigned char pk[MAXPK][NIN + 2];  /* packets processed */
    int asked;                                           /* the server asked to drop it */
    unsigned char want[NOUT]; int wantlen;               /* bytes of the packets accepted for sending */
    int sends, refused;
};
static struct side sd[NCONN];
static int conn_of(int fd)
{
    VP_ASSERT(fd >= FIRST && fd < NFD && vp_at[fd] >= 0, "the server is told of a descriptor that is closed");
    return vp_at[fd];
}
static void on_dispatch(int c);                          /* given by each harness */
static void on_new(int c);
static void on_lost(int c);
static void cb_new(int fd, int secure)
{
    int c = conn_of(fd);
    VP_ASSERT(sd[c].announced == 0, "a connection is announced twice");
    VP_ASSERT(secure == vc[c].tls, "a connection is announced as what it is not");
    if (vc[c].tls) VP_ASSERT(vc[c].shook, "announced before the handshake is finished");
    sd[c].announced = 1;
    on_new(c);
}
static void cb_lost(int fd)
{
    int c = conn_of(fd);
    VP_ASSERT(sd[c].lost == 0, "the loss of a connection is reported twice");
    sd[c].lost++;
    on_lost(c);
}
static void cb_packet(int fd, char *p)
{
    int c = conn_of(fd), n = (unsigned char)p[0], i;
    VP_ASSERT(sd[c].announced && !sd[c].lost, "a packet of a connection that is not announced, or lost");
    VP_ASSERT(!sd[c].asked, "a packet is processed after the server dropped the connection");
    VP_BOUND(sd[c].npk < MAXPK, "packets of the model");
    n = (int)vp_conc_(n);
    VP_ASSERT(n + 1 <= NIN, "a packet longer than everything that was sent");
    for (i = 0; i <= n; i++) sd[c].pk[sd[c].npk][i] = (unsigned char)p[i];
    sd[c].pklen[sd[c].npk++] = n + 1;
    VP_ASSERT(p[n + 1] == 0, "the packet is not terminated");
    on_dispatch(c);
}
/* the server sends a packet of n bytes; notes it if it is accepted */
static void say(int c, const unsigned char *b, int n)
{
    int r; unsigned char t[NOUT];
    memcpy(t, b, n);
    r = pktserv_send(vc[c].fd, (char *)t, (size_t)n);
    sd[c].sends++;
    if (r < 0) { sd[c].refused++; if (!vc[c].failed) return; }   /* part of it may be out when the connection failed */
    VP_BOUND(sd[c].wantlen + n <= NOUT, "output of the model");
    memcpy(sd[c].want + sd[c].wantlen, b, n);
    sd[c].wantlen += n;
}
static void drop(int c) { sd[c].asked = 1; pktserv_disconnect(vc[c].fd); }
static pktserv_cb_t cbs = { 0 };
static void cb_idle(int i);
static int cb_ok(int fd);
static void net_start(int with_tls)
{
    cbs.idle = cb_idle; cbs.dispatch = cb_packet; cbs.new_client = cb_new; cbs.lost_client = cb_lost; cbs.ok2read = cb_ok;
    net_init(&cbs, with_tls);
}
/* the packets of the first n bytes of the stream; *end: 1 if they end in an
 * impossible length, which ends the connection */
static int parse(const unsigned char *in, int n, int *off, int *end)
{
    int i = 0, k = 0;
    *end = 0;
    while (i < n) {
        int l = in[i];
        if (l == 0 || l == 255) { *end = 1; break; }
        if (i + 1 + l > n) break;
        l = (int)vp_conc_(l);
        off[k++] = i;
        i += l + 1;
    }
    return k;
}
/* the packets processed for c are the first ones of its stream; all of them if all is set */
static void same_packets(int c, int all)
{
    int off[NIN], end, k = parse(vc[c].in, vc[c].arrived, off, &end), i, j;
    VP_ASSERT(sd[c].npk <= k, "more packets processed than were sent");
    if (all) VP_ASSERT(sd[c].npk == k, "a complete packet was not processed");
    for (i = 0; i < sd[c].npk; i++) {
        int l = (int)vp_conc_(vc[c].in[off[i]]) + 1, ok = 1;
        VP_ASSERT(sd[c].pklen[i] == l, "a packet of another length was processed");
        for (j = 0; j < l; j++) ok &= sd[c].pk[i][j] == vc[c].in[off[i] + j];
        VP_ASSERT(ok, "a packet was processed with other bytes");
    }
}
/* what was written to c is the beginning of what was accepted for it; all of it if all is set */
static void same_output(int c, int all)
{
    int i, ok = 1;
    VP_ASSERT(vc[c].outlen <= sd[c].wantlen, "more was written than the server sent");
    if (all) VP_ASSERT(vc[c].outlen == sd[c].wantlen, "a packet accepted for sending was not written");
    for (i = 0; i < vc[c].outlen; i++) ok &= vc[c].out[i] == sd[c].want[i];
    VP_ASSERT(ok, "other bytes were written than the server sent");
}

/* the network moves on only when the server has nothing left to do: then any
 * further bytes arrive on any connections, or they end */
static int total[NCONN], fin_at[NCONN], chunk;
static int arrive(int conns)
{
    int c, open = 0, moved = 0;
    for (c = 0; c < conns; c++) {
        int left, k;
        if (vc[c].fd < 0 || vc[c].closed || vc[c].failed) continue;
        left = total[c] - vc[c].arrived;
        if (left) {
            if (chunk) {             /* long streams: a choice of pieces */
                static const int P[] = { 1, 2, 100, 253, 254, 255 };
                k = chunk > 1 ? vp_pick(0, 6) : 6;
                if (k < 6) chunk--;
                k = k == 6 ? left : P[k];
                if (k > left) k = left;
            } else k = vp_pick(conns > 1 ? 0 : 1, left);
            vc[c].arrived += k;
            moved |= k > 0;
            open = 1;
        }
        if (vc[c].arrived == total[c] && fin_at[c] && !vc[c].fin) {
            open = 1;
            if (vp_pick(0, 1)) { vc[c].fin = fin_at[c]; moved = 1; }
        }
    }
    if (!open) return 0;
    VP_ASSUME(moved);
    return 1;
}
