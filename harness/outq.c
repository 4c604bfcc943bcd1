/* output: whole packets, in order, whatever the writes do */
#include "net.h"
static int given, conns, K, after, stuck_from = 99, mid;
static int sizes[16], slowly, again;
static unsigned char text[16][4];
static int allowed(int c) { return vc[c].fd >= 0 && !vc[c].closed && sd[c].announced && !sd[c].lost && !sd[c].asked; }
static int cb_ok(int fd) { return 1; }
static void on_lost(int c) { }
static int sent, waits = 1;
static void one(void)
{
    int c = conns > 1 ? vp_pick(0, 1) : 0, before;
    if (!allowed(c) && given != 2) return;
    before = vc[c].outlen;
    say(c, text[sent], sizes[sent]);
    sent++;
    (void)before;
}
static void on_new(int c) { int i; if (after == 1) vc[0].full = 1; if (given == 2) { drop(0); after = 2; } if (conns == 1 && !mid) for (i = 0; i < K; i++) one(); }
static void on_dispatch(int c) { if (sent < K) one(); }
static void cb_idle(int i)
{
    if (slowly || again) {
        if (again && sd[0].announced && !vc[0].closed) {         /* the first one: so many packets, then it hangs up */
            if (sent < again) { vc[0].full = 1; say(0, text[0], 2); sent++; }
            else { vc[0].fin = 2; sent = 0; }
            return;
        }
        if (again) {
            if (sent == 0 && sd[1].announced) {
                say(1, text[0], 2);
                VP_ASSERT(vc[1].outlen == 2, "a packet to a client that reads is not written");
                vc[1].full = 1;
                for (; sent < K; sent++) say(1, text[sent], 2);
                VP_ASSERT(sd[1].refused == 0, "a packet to a new client was refused");
                vc[1].full = 0;
            }
            return;
        }
        if (sent < K && allowed(0) && vc[0].outlen == sd[0].wantlen) one();
        return;
    }
    if (mid && sent < K && vp_pick(0, 1)) one();
}
static void finish(void)
{
    int c, off[NIN], end;
    if (again) {
        VP_ASSERT(vc[0].closed == 1 && sd[0].lost == 1 && vc[1].fd == vc[0].fd, "the first client is gone");
        VP_ASSERT(!vc[1].closed && sd[1].sends == K + 1, "the second client is served");
        same_output(1, 1);
        VP_WITNESS(again == 7, "a descriptor used again");
        net_end();
    }
    if (slowly) VP_ASSERT(sd[0].sends == K && vc[0].outlen == 2 * K && !vc[0].closed, "a client that needs a second attempt at times was given up");
    for (c = 0; c < conns; c++) {
        int alive = !vc[c].failed && !sd[c].asked && !vc[c].fin && !given;
        int many = after && !given && K > MAX_SENDPACKET_QUEUE;          /* may have been given up after that many attempts */
        if (many && vc[c].closed) alive = 0;
        if (given == 2) VP_ASSERT(sd[c].refused == sd[c].sends && !vc[c].outlen, "a packet was taken for a connection that is being closed");
        if (many) VP_ASSERT(sd[c].refused >= 1 && sd[c].sends - sd[c].refused <= MAX_SENDPACKET_QUEUE, "the queue is not bounded");
        if (many) VP_ASSERT(sd[c].sends - sd[c].refused >= MAX_SENDPACKET_QUEUE, "a packet was refused while there was room");
        same_output(c, alive);
        if (alive) VP_ASSERT(!vc[c].closed && !sd[c].lost, "a connection was closed for no reason");
        else VP_ASSERT(vc[c].closed == 1 && sd[c].lost == 1, "a connection that failed was not closed");
        if (alive) VP_ASSERT(sd[c].refused == 0 || many, "a packet was refused while there was room");
        if (alive) same_packets(c, 1);
        else same_packets(c, 0);
        VP_WITNESS(after && sd[c].refused == 2 && sd[c].sends == 12, "queue full");
        VP_WITNESS(given == 1 && sd[c].lost && sd[c].sends == 2, "given up");
        VP_WITNESS(alive && sd[c].wantlen > 3 && vp_werr == 0, "written in spite of failures");
    }
    (void)off; (void)end;
    net_end();
}
void net_round(int ready)
{
    VP_ASSERT(vp_rounds < 90, "the server polls on and on without getting anywhere");
    if (ready) return;
    if (again && vc[0].closed && vp_nconn == 1 && !vp_backlog) { vp_backlog = 1; vp_round_again = 1; return; }
    if (mid && (sent < K || (again && vp_nconn < 2)) && waits-- > 0) return;          /* time passes */
    if (arrive(conns)) vp_round_again = 1;
    else if (after == 1) { after = 2; vc[0].full = 0; vp_round_again = 1; }
    else finish();
}
static void packets_(int n, int big)
{
    int i, j;
    K = n;
    for (i = 0; i < n; i++) {
        sizes[i] = big || conns > 1 ? 2 : vp_pick(1, 3);
        for (j = 0; j < sizes[i]; j++) text[i][j] = big || (conns > 1 && j) ? (unsigned char)(j ? i : 1) : vp_byte();
    }
}
void harness(void)
{
    int i;
    conns = 1;
    switch (vp_case) {
    case 0:                             /* packets of any content, writes of any result */
        packets_(3, 0);
        vp_werr = 3 + vp_deep;
        break;
    case 1:                             /* to two clients, at any time, also in the middle of their packets */
        conns = 2; mid = 1;
        packets_(2 + vp_deep, 0);
        vp_werr = 1 + vp_deep;
        for (i = 0; i < 1 + vp_deep; i++) { vc[i].in[0] = 2; vc[i].in[1] = 'a'; vc[i].in[2] = vp_byte(); total[i] = 3; }
        break;
    case 2:                             /* a client that does not read for a while: the queue fills */
        packets_(vp_pick(0, 1) ? MAX_SENDPACKET_QUEUE + 2 : MAX_SENDPACKET_QUEUE - 2, 1);
        after = 1;
        break;
    case 3:                             /* writes that would block for ever: given up */
        packets_(2, 0);
        given = 1;
        vc[0].full = 2;
        break;
    case 4:                             /* sending to a client that is being dropped */
        packets_(2, 0);
        given = 2;
        break;
    case 5:                             /* every packet needs a second attempt, and in the end all are written */
        packets_(14, 1);
        mid = 1; waits = 40;
        slowly = 1;
        vp_stutter = vp_pick(1, 2);
        break;
    case 6:                             /* the next client on the descriptor of one that never read */
        packets_(MAX_SENDPACKET_QUEUE, 1);
        mid = 1; waits = 99; again = vp_pick(1, MAX_SENDPACKET_QUEUE);
        break;
    }
    vp_backlog = conns;
    net_start(0);
    pktserv_run();
}
