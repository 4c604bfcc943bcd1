/* connections: announced once, closed once, lost once, and independent of each other */
#include "net.h"
#ifndef S
#define S 3
#endif
static int steps, acts, lostacts, crowd;
static unsigned char rep[2] = { 1, 'r' };
static int allowed(int c) { return vc[c].fd >= 0 && !vc[c].closed && sd[c].announced && !sd[c].lost && !sd[c].asked; }
static int cb_ok(int fd) { return 1; }
/* what the server may do within a callback for c: nothing, drop somebody, send to somebody */
static void act(int c)
{
    int a, d;
    if (acts <= 0) return;
    a = vp_pick(0, 2);
    if (!a) return;
    acts--;
    d = vp_pick(0, vp_nconn - 1);
    if (!allowed(d)) return;
    if (a == 1) drop(d);
    else say(d, rep, 2);
}
static void on_new(int c) { act(c); }
static void on_dispatch(int c) { act(c); }
static void on_lost(int c) { if (lostacts) act(c); }
static void cb_idle(int i) { if (vp_nconn) act(-1); }
static void finish(void)
{
    int c;
    for (c = 0; c < vp_nconn; c++) {
        int ended = vc[c].fin || vc[c].fd >= NFD || sd[c].asked || vc[c].failed;
        if (ended) {
            VP_ASSERT(vc[c].closed == 1, "a connection that ended was not closed");
            VP_ASSERT(sd[c].lost == 1 || !sd[c].announced, "the loss of a connection was not reported");
            if (vc[c].fd >= NFD) VP_ASSERT(!sd[c].announced, "a connection without room is announced");
            same_packets(c, vc[c].fd < NFD && vc[c].fin == 1 && !sd[c].asked && !vc[c].failed);
            same_output(c, 0);
        } else {
            VP_ASSERT(!vc[c].closed && !sd[c].lost, "a connection was ended by what happened to others");
            VP_ASSERT(sd[c].announced == 1, "a connection was not announced");
            same_packets(c, 1);
            same_output(c, 1);
        }
        VP_WITNESS(crowd && c == 3 && vc[3].closed && sd[2].npk == 1, "no room");
        VP_WITNESS(c == 2 && vc[2].fd == vc[0].fd && vc[0].closed && sd[2].npk == 1, "a descriptor used again");
        VP_WITNESS(c == 1 && vc[0].fin == 1 && vc[0].closed && sd[1].npk == 2, "one ended, another served");
    }
    net_end();
}
void net_round(int ready)
{
    int c, e, moved = 0, a;
    VP_ASSERT(vp_rounds < 90, "the server polls on and on without getting anywhere");
    if (ready) return;
    for (c = 0; c < vp_nconn; c++) if (sd[c].asked && !vc[c].closed) VP_FAIL("a connection the server dropped is still there");
    if (steps <= 0) finish();
    steps--;
    if (vp_nconn < NCONN && vp_pick(0, 1)) { vp_backlog = 1; moved = 1; }
    for (c = 0; c < vp_nconn; c++) {
        if (vc[c].fd < 0 || vc[c].closed || vc[c].fin) continue;
        e = vp_pick(0, 4);              /* nothing, a packet, the ends; a packet may come with the end of the stream */
        if (e == 0) continue;
        moved = 1;
        a = e == 1 || (e == 2 && vp_pick(0, 1));
        if (a) {
            VP_BOUND(vc[c].arrived + 2 <= NIN, "input of the model");
            vc[c].in[vc[c].arrived] = 1; vc[c].in[vc[c].arrived + 1] = (unsigned char)('a' + c);
            vc[c].arrived += 2;
        }
        if (e > 1) vc[c].fin = e - 1;
    }
    VP_ASSUME(moved);
    vp_round_again = 1;
}
void harness(void)
{
    steps = S;
    switch (vp_case) {
    case 0: acts = 1; vp_backlog = 2; break;
    case 1: acts = 2; lostacts = 1; vp_backlog = 2; steps = S - 1; break;
    case 2: acts = 1; vp_backlog = 1; steps = S + 1; break;
    case 3: acts = 2; vp_werr = 1; vp_backlog = 2; steps = S - 1; break;      /* output that has to wait */
    case 4: crowd = 1; vp_backlog = NCONN; steps = S - 1; vp_aerr = 1; break; /* more connections than there is room for */
    }
    net_start(0);
    pktserv_run();
}
