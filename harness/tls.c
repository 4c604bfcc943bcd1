/* TLS connections: the same bytes as on a plain one, whatever the library answers */
#ifndef B
#define B 5
#endif
#include "net.h"
static int replies, conns, idles, fail1;
static unsigned char rep[3] = { 2, 'r', 0 }, rep2[2] = { 1, 'q' };
static int allowed(int c) { return vc[c].fd >= 0 && !vc[c].closed && sd[c].announced && !sd[c].lost && !sd[c].asked; }
static void on_new(int c) { if (replies) { say(c, rep, 3); say(c, rep2, 2); } }
static void on_lost(int c) { }
static int cb_ok(int fd) { return 1; }
static void cb_idle(int i) { if (replies && idles > 0 && vp_nconn && allowed(0) && vp_pick(0, 1)) { idles--; say(0, rep2, 2); } }
static void on_dispatch(int c) { if (replies) say(c, rep, 3); }
static void finish(void)
{
    int c, end, off[NIN], k;
    for (c = 0; c < conns; c++) {
        k = parse(vc[c].in, vc[c].arrived, off, &end);
        same_packets(c, vc[c].failed ? vc[c].fin == 1 && !vp_fatal_used && vc[c].shook : vc[c].fin < 2 && (vc[c].shook || !vc[c].tls));
        same_output(c, !vc[c].failed && !vc[c].closed);
        if (end || vc[c].fin || vc[c].failed) {
            VP_ASSERT(vc[c].closed == 1, "a connection that ended was not closed");
            if (sd[c].announced) VP_ASSERT(sd[c].lost == 1, "the loss of a connection was not reported");
        } else VP_ASSERT(!vc[c].closed && !sd[c].lost && sd[c].announced, "a connection was closed, or not announced, for no reason");
        VP_WITNESS(!vc[c].closed && k >= 2 && vc[c].tls, "two packets");
        VP_WITNESS(vc[c].failed && !vc[c].fin && k >= 1 && sd[c].npk == 1, "failure after a packet");
        VP_WITNESS(fail1 && vp_fatal_used && !vc[c].failed && sd[c].npk == 1, "another connection fails");
        VP_WITNESS(vc[c].tls && vc[c].failed && !vc[c].shook, "failed handshake");
    }
    net_end();
}
void net_round(int ready)
{
    VP_ASSERT(vp_rounds < 90, "the server polls on and on without getting anywhere");
    if (ready) return;
    if (arrive(conns)) vp_round_again = 1;
    else finish();
}
/* bytes with lengths that occur in TLS connections: none are empty */
static void bytes(int c, int n)
{
    int i;
    for (i = 0; i < n; i++) { vc[c].in[i] = vp_byte(); VP_ASSUME(vc[c].in[i] >= 1); }
    total[c] = n;
}
void harness(void)
{
    conns = 1;
    vc[0].tls = 1;
    switch (vp_case) {
    case 0:                             /* input, with calls that have to be repeated */
        bytes(0, B);
        vp_tlserr = 2;
        fin_at[0] = vp_pick(0, 3);
        break;
    case 1:                             /* failures for good */
        bytes(0, B - 1);
        VP_ASSUME(vc[0].in[0] <= 2);
        vp_tlserr = 1; vp_fatal = 1; replies = 1;
        break;
    case 2:                             /* output as well, at any time */
        bytes(0, B - 1);
        VP_ASSUME(vc[0].in[0] <= 2);
        vp_tlserr = 2 + vp_deep; replies = 1; idles = 1;
        break;
    case 3:                             /* next to a plain connection */
        conns = 2; replies = 1;
        vp_tlserr = 1;
        bytes(0, 3); bytes(1, 2);
        VP_ASSUME((vc[0].in[0] <= 2) & (vc[1].in[0] == 1));
        break;
    case 4:                             /* two of them, one of which fails */
        conns = 2; vc[1].tls = 1; replies = 1; fail1 = 1;
        vp_tlserr = vp_deep; vp_fatal = 1;
        bytes(0, 2); bytes(1, 2);
        VP_ASSUME((vc[0].in[0] == 1) & (vc[1].in[0] == 1));
        break;
    }
    vp_backlog = conns;
    net_start(1);
    pktserv_run();
}
