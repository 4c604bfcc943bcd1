/* a new connection: where it comes from is noted for it alone */
#include "srv.h"
#include "mapdb.h"
#include "fs.h"
#include <netinet/in.h>
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l) { memset(a, 0, *l); a->sa_family = AF_INET; return 0; }
static char *nm[4];
char *getremotename(int fd) { return nm[fd]; }
void harness(void)
{
    static const int L[] = { 0, 1, 2, 62, 63, 64, 65, 66, 255 };
    static char b[256], w[256], want[256]; int i, l, sec = vp_pick(0, 1);
    srv_init();
    fs_text("./motd", "hi\n");
    add_group(1, "Alpha");
    add_user(1, "Alpha");
    if (vp_pick(0, 1)) {                        /* somebody was here before */
        nm[ME] = "old";
        s_new_user(ME, 1);
        pkt(ME, 'a', "uo\1Old\1Alpha\1login\1");
        VP_ASSERT(on(ME) && !strcmp(u_tab[ME].nodeid, "old"), "the host of a user");
        s_lost_user(ME);
    }
    S_kill[ME] = 0;
    l = L[vp_pick(0, 8)];
    for (i = 0; i < l; i++) b[i] = (char)(i < 2 ? vp_int(33, 126) : 'x');
    b[l] = 0;
    nm[ME] = l || vp_pick(0, 1) ? b : 0;
    snap();
    clear_ev();
    s_new_user(ME, sec);
    for (i = 0; i < MAX_USERS; i++) if (i != ME) VP_ASSERT(same_u(i), "a connection changed another client's entry");
    VP_ASSERT(vp_nev == 1 && count_type(ME, 'j') == 1, "a connection is not greeted with the protocol packet alone");
    strcpy(want, b);
    if (l > MAX_NODELEN) want[MAX_NODELEN] = 0;
    VP_ASSERT(!strcmp(u_tab[ME].nodeid, want), "the host noted is not the client's");
    if (l) VP_ASSERT(!!u_tab[ME].secure == sec, "the kind of connection noted is not the client's");
    VP_WITNESS(l == 255 && b[0] == '[', "a long name");
    pkt(ME, 'a', "ub\1Bob\1Alpha\1login\1");
    VP_ASSERT(on(ME), "the login");
    clear_ev();
    cmd(1, "whereis", "bob");
    strcpy(w, "ub@"); strcat(w, want);
    VP_ASSERT(told(1, w), "the address shown is not the client's");
    VP_ASSERT(!told(1, "old"), "the address shown is a former client's");
}
