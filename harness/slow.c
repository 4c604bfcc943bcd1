/* a client restricted to slow messages is not read from again within the
 * second in which it last sent something; everybody else always is */
#include "srv.h"
#include "msgs.h"
void harness(void)
{
    int n, d = vp_int(0, 100), e = vp_int(0, 100), r;
    long p = vp_int(0, 7);
    srv_init();
    any_members("Alpha", "Alphab", 1);
    n = vp_pick(1, NU - 1);
    u_tab[n].perms = p;
    u_tab[n].t_recv = T0 + d;
    u_tab[n].t_sent = T0 + vp_int(0, 100);
    vp_now = T0 + d + e;
    snap();
    clear_ev();
    r = ok2read(n);
    VP_ASSERT(r == (!(p & PERM_SLOWMSGS) || e >= 1), "exactly a client slowed down is held back, for a second");
    all_same("asking whether to read from a client changed something");
    VP_ASSERT(vp_nev == 0, "asking whether to read from a client sent something");
    VP_WITNESS(!r, "held back");
}
