/* a client the network layer has given up (its queue stayed full, or its
 * connection failed) is closed by the next periodic pass, and only that one. */
#include "srv.h"
#include "mapdb.h"
#include <sys/socket.h>
void harness(void)
{
    int who = vp_pick(1, 3), how = vp_pick(0, 2), r = vp_pick(0, 2), i, other;
    srv_init();
    add_group(1, "Alpha");
    for (i = 1; i < NU; i++) add_user(i, "Alpha");
    other = who == 1 ? 3 : 1;
    clear_ev();
    vp_send_to = who;
    vp_send_result = r == 0 ? 0 : r == 1 ? -1 : -2;
    if (how == 0) cmd(other, "m", who == 1 ? "ann x" : who == 2 ? "bob x" : "cat x");
    else if (how == 1) pkt(other, 'b', "x");
    else cmd(other, "beep", who == 1 ? "ann" : who == 2 ? "bob" : "cat");
    VP_ASSERT(vp_sent[who] >= 1, "nothing is sent to the client");
    VP_ASSERT(vp_sent[who] == 1 || vp_send_result != -2, "something is sent to a client that was given up");
    vp_send_result = 0;
    clear_ev();
    s_didpoll(0);
    for (i = 1; i < NU; i++)
        VP_ASSERT((vp_disc[i] > 0) == (i == who && r == 2), r == 2 && i == who ? "a client that was given up is not closed" : "a client that was not given up is closed");
    VP_WITNESS(r == 2, "given up");
    VP_WITNESS(r == 1, "a packet refused");
}
