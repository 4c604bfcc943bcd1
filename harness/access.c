/* who may log in: the permission file and the denial list */
#include "srv.h"
#include "fs.h"
#include <netinet/in.h>
static int fam;                     /* 0 IPv4, 1 IPv4 in IPv6, 2 IPv6, 3 unknown */
static unsigned char ip[4];
static char host[12] = "host2";
char *getremotename(int fd) { return host; }
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
    struct sockaddr_in s; struct sockaddr_in6 s6; int i;
    if (fam == 3) return -1;
    if (fam == 0) {
        memset(&s, 0, sizeof s);
        s.sin_family = AF_INET;
        memcpy(&s.sin_addr, ip, 4);
        memcpy(a, &s, sizeof s);
        *l = sizeof s;
        return 0;
    }
    memset(&s6, 0, sizeof s6);
    s6.sin6_family = AF_INET6;
    if (fam == 1) s6.sin6_addr.s6_addr[10] = s6.sin6_addr.s6_addr[11] = 0xff;
    else { s6.sin6_addr.s6_addr[0] = 0x20; s6.sin6_addr.s6_addr[1] = 1; }
    for (i = 0; i < 4; i++) s6.sin6_addr.s6_addr[12 + i] = ip[i];
    if (fam == 2) for (i = 0; i < 4; i++) s6.sin6_addr.s6_addr[4 + i] = ip[i];   /* where an IPv4 address would be */
    memcpy(a, &s6, sizeof s6);
    *l = sizeof s6;
    return 0;
}
static void start(void)
{
    srv_init();
    fs_text("./motd", "hi\n");
    add_group(1, "Alpha");
    add_user(1, "Alpha");
    s_new_user(ME, 0);
    clear_ev();
}
static void login(const char *id)
{
    char b[MAX_PKT_LEN];
    strcpy(b, id); strcat(b, "\1Dan\1Alpha\1login\1");
    snap();
    clear_ev();
    pkt(ME, 'a', b);
}
static void outcome(int deny)
{
    VP_ASSERT(on(ME) == !deny, deny ? "a denied client was let in" : "a client was refused that nothing denies");
    VP_ASSERT(count_type(ME, 'a') == !deny, "login acknowledged exactly when granted");
    VP_ASSERT(count_type(ME, 'g') == deny, "told to leave exactly when refused");
    if (deny) {
        int i;
        VP_ASSERT(count_type(ME, 'e') >= 1, "a refused client is not told why");
        for (i = 0; i < MAX_USERS; i++) if (i != ME) VP_ASSERT(same_u(i) && (i >= NU || vp_sent[i] == 0), "a refused login was noticed");
        for (i = 0; i < MAX_GROUPS; i++) VP_ASSERT(same_g(i), "a refused login changed a group");
        s_didpoll(0);
        VP_ASSERT(vp_disc[ME] == 1, "a refused client is not disconnected");
    }
    VP_ASSERT(fs_open_files() == 0, "a file was left open");
    invariants();
}
static char file[FS_SIZE];
/* one line of the permission file; does it match the client, and what does it say (1 deny, 2 slow)? */
static int line(int full, int *perm)
{
    static const char *const PS[] = { "PERM_DENY", "perm_null", "Perm_SlowMsgs", "perm_slowmsgs|PERM_DENY", "PERM_DENY|PERM_NULL", "other", "|" };
    static const int PV[] = { 1, 0, 2, 3, 1, 0, 0 };
    static const char *const UN[] = { "id7", "ID7", "id8", "id" };
    static const char *const HN[] = { "host2", "HOSt2", "host", "1.2.3.4" };
    static const char *const MASK[] = { "255.255.255.255", "255.255.0.0", "0.0.0.0", "128.0.0.0" };
    static const unsigned MV[] = { 0xffffffff, 0xffff0000, 0, 0x80000000 };
    static const char *const JUNK[] = { "\n", "# user id7 host2 PERM_DENY\n", "\tuser id7 host2 PERM_DENY\n", "user id7 host2\n", "user\n", "host id7 host2 PERM_DENY\n", "  \n" };
    int k = vp_pick(0, 3), p, m = 0;
    if (k == 0) { strcat(file, JUNK[full ? vp_pick(0, 6) : 1 + 2 * vp_pick(0, 1)]); return 0; }
    if (k == 3 && !full) VP_ASSUME(0);
    if (k == 1) {
        int u = full ? vp_pick(0, 3) : 1 + vp_pick(0, 1), h = full ? vp_pick(0, 3) : 1 + vp_pick(0, 1);
        strcat(file, full && vp_pick(0, 1) ? "USER  " : "user\t"); strcat(file, UN[u]); strcat(file, " "); strcat(file, HN[h]);
        m = u < 2 && h < 2;
    } else {
        int a = vp_pick(0, 3), j; char t[16]; unsigned want, have;
        j = (int)strlen(file);
        strcat(file, k == 2 ? "mask " : "MASK ");
        /* an address with one arbitrary digit, or 0.0.0.0, or 128.0.0.0 */
        if (a == 2) { strcpy(t, "0.0.0.0"); want = 0; }
        else if (a == 3) { strcpy(t, "128.0.0.0"); want = 0x80000000; }
        else { int d = vp_int('0', '9'); strcpy(t, a == 0 ? "10.2.3.4" : "10.2.0.0"); t[a == 0 ? 7 : 3] = (char)d; want = (10u << 24) | (a == 0 ? (2u << 16) | (3u << 8) | (unsigned)(d - '0') : (unsigned)(d - '0') << 16); }
        (void)j;
        strcat(file, t); strcat(file, " "); strcat(file, MASK[a]);
        have = (unsigned)ip[0] << 24 | (unsigned)ip[1] << 16 | (unsigned)ip[2] << 8 | ip[3];
        m = (fam < 2) & ((have & MV[a]) == want);
    }
    p = vp_pick(0, full ? 6 : 2);
    strcat(file, " "); strcat(file, PS[p]); strcat(file, "\n");
    *perm = PV[p];
    return m;
}
static void perms(int lines)
{
    int i, m, perm, p = 0, done = 0, deny;
    fam = vp_pick(0, 3);
    for (i = 0; i < 4; i++) ip[i] = vp_byte();
    start();
    file[0] = 0;
    for (i = 0; i < lines; i++) {
        perm = 0;
        m = line(lines == 1, &perm);
        p = !done & m ? perm : p;
        done |= m;
    }
    if (lines) fs_text("./icbd.perms", file);
    deny = fam == 3 || (p & 1);
    login("id7");
    VP_WITNESS(deny && fam == 0 && done, "denied");
    VP_WITNESS(!deny && (p & 2) && fam == 1, "slowed");
    if (deny) outcome(1);
    else {
        outcome(0);
        VP_ASSERT((u_tab[ME].perms & PERM_SLOWMSGS ? 1 : 0) == !!(p & 2), "the restriction on messages is not the one the file states");
        VP_ASSERT(count_ev(ME, 'd', "Permissions", "slowmsgs") == !!(p & 2), "the client is told of its restriction");
    }
}
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
/* the denial list: entries end at white space, or at the end of the file */
static void list(int lines)
{
    static const char *const END[] = { "\n", " go away\n", "\tno\n", "" };
    char id[4], e[16]; int i, n = 2, k, m, any = 0, end = 0, which = -1, lo = lines == 1 ? 'A' : 'a';
    for (i = 0; i < n; i++) { id[i] = (char)vp_int(lines == 1 ? '0' : 'a', 'z'); VP_ASSUME((id[i] <= '9') | (id[i] >= 'a') | ((id[i] >= 'A') & (id[i] <= 'Z'))); }
    id[n] = 0;
    fam = 0;
    for (i = 0; i < 2; i++) { host[i] = (char)vp_int(lo, 'z'); VP_ASSUME((host[i] <= 'Z') | (host[i] >= 'a')); }
    strcpy(host + 2, "Q.x");
    start();
    file[0] = 0;
    for (i = 0; i < lines; i++) {
        char a = (char)vp_int(lo, 'z'), b = (char)vp_int(lo, 'z');
        VP_ASSUME((a <= 'Z') | (a >= 'a')); VP_ASSUME((b <= 'Z') | (b >= 'a'));
        k = lines == 1 ? vp_pick(0, 6) : i ? vp_pick(0, 2) : 3 + vp_pick(0, 3);
        m = 0;
        switch (k) {
        case 0: strcpy(e, "a*@*"); e[0] = a; m = up(id[0]) == up(a); break;                      /* first letter of the id */
        case 1: strcpy(e, "*@??\?.x"); e[2] = a; m = up(host[0]) == up(a); break;                 /* first letter of the host */
        case 2: strcpy(e, "?b@*"); e[1] = b; m = up(id[1]) == up(b); break;
        case 3: strcpy(e, "*@ab*"); e[2] = a; e[3] = b; m = (up(host[0]) == up(a)) & (up(host[1]) == up(b)); break;
        case 4: strcpy(e, "ab@*.X"); e[0] = a; e[1] = b; m = (up(id[0]) == up(a)) & (up(id[1]) == up(b)); break;
        case 5: strcpy(e, "ab"); e[0] = a; e[1] = b; m = 0; break;                               /* no host: matches nobody */
        case 6: strcpy(e, "?\?\?@*"); m = 0; break;                                              /* longer than the id */
        }
        end = vp_pick(0, i == lines - 1 ? 3 : 2);
        strcat(file, e); strcat(file, END[end]);
        which = (m & (which < 0)) ? end : which;
        any |= m;
    }
    fs_text("./icbd.deny", file);
    login(id);
    VP_WITNESS(any && end == 3 && which == 3, "denied by the last word of the file");
    VP_WITNESS(!any && end == 0, "nothing matches");
    if (any) {
        outcome(1);
        if (which == 1) VP_ASSERT(told(ME, "go away"), "the reason given is not passed on");
    } else outcome(0);
}
void harness(void)
{
    switch (vp_case) {
    case 0: perms(vp_pick(0, 1)); break;
    case 1: perms(2); break;
    case 2: list(1); break;
    case 3: list(2); break;
    }
}
