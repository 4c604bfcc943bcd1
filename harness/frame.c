/* input of plain connections: any bytes, arriving in any pieces */
#ifndef B
#define B 6
#endif
#include "net.h"
static int replies, slow, conns, idles, held;
static unsigned char rep[3] = { 2, 'r', 0 };
static void on_new(int c) { if (replies) say(c, rep, 3); }
static void on_lost(int c) { }
static int cb_ok(int fd) { if (slow > 0 && vp_pick(0, 1)) { slow--; held = 1; return 0; } held = 0; return 1; }
static void cb_idle(int i) { if (replies > 1 && idles > 0 && vp_nconn && vp_at[FIRST] >= 0 && sd[0].announced && !sd[0].lost && vp_pick(0, 1)) { idles--; say(0, rep, 3); } }
static void on_dispatch(int c)
{
    VP_ASSERT(!held, "a packet is read from a client that is held back");
    if (!replies) return;
    say(c, rep, 3);
    if (conns > 1 && vc[1 - c].fd >= 0 && !vc[1 - c].closed && sd[1 - c].announced && !sd[1 - c].lost) say(1 - c, rep, 3);
}
static void finish(void)
{
    int c, end, off[NIN], k;
    for (c = 0; c < conns; c++) {
        k = parse(vc[c].in, vc[c].arrived, off, &end);
        same_packets(c, !vc[c].failed && vc[c].fin < 2);
        same_output(c, !vc[c].failed && !vc[c].closed);
        if (end || vc[c].fin || vc[c].failed) VP_ASSERT(vc[c].closed == 1 && sd[c].lost == 1, "a connection that ended was not closed");
        else VP_ASSERT(!vc[c].closed && !sd[c].lost, "a connection was closed for no reason");
        VP_WITNESS(!vc[c].closed && k >= 2, "two packets");
        VP_WITNESS(vc[c].fin == 1 && k >= 1, "end of stream after a packet");
    }
    net_end();
}
void net_round(int ready)
{
    VP_ASSERT(vp_rounds < 90, "the server polls on and on without getting anywhere");
    if (ready) return;
    if (arrive(conns)) vp_round_again = 1;
    else finish();
}
static void bytes(int c, int n)
{
    int i;
    for (i = 0; i < n; i++) vc[c].in[i] = vp_byte();
    total[c] = n;
}
static const int LEN[] = { 1, 2, 252, 253, 254, 255 };
void harness(void)
{
    int i, o = 0, l, c;
    conns = 1;
    switch (vp_case) {
    case 0:                             /* any bytes, any pieces, any end */
        bytes(0, vp_pick(1, B));
        fin_at[0] = vp_pick(0, 3);
        break;
    case 1:                             /* two connections, each packet answered to both */
        conns = 2; replies = 1; vp_werr = 1;
        for (c = 0; c < 2; c++) { bytes(c, B / 2); VP_ASSUME((vc[c].in[0] >= 1) & (vc[c].in[0] <= 3)); }
        fin_at[0] = vp_pick(0, 1);
        break;
    case 2:                             /* the server sends at any time, even within a packet */
        replies = 2; idles = 1 + vp_deep; vp_werr = 1 + vp_deep;
        bytes(0, B - 1);
        VP_ASSUME((vc[0].in[0] >= 1) & (vc[0].in[0] <= 3));
        break;
    case 3:                             /* long packets */
        chunk = 4;
        for (i = 0; i < 2; i++) {
            l = LEN[vp_pick(0, 5)];
            vc[0].in[o] = (unsigned char)l;
            memset(vc[0].in + o + 1, 'x' + i, l);
            vc[0].in[o + 1] = vp_byte();
            vc[0].in[o + l] = vp_byte();
            o += l + 1;
        }
        total[0] = o;
        break;
    case 4:                             /* a client that is slowed down */
        slow = 3; vp_eintr = 1;
        bytes(0, B - 1);
        VP_ASSUME((vc[0].in[0] >= 1) & (vc[0].in[0] <= 3));
        break;
    }
    vp_backlog = conns;
    net_start(0);
    pktserv_run();
}
