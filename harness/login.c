/* logins: granted only with a valid, free nickname, and exactly as asked */
#include "srv.h"
#include "fs.h"
#include <netinet/in.h>
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
    struct sockaddr_in s;
    memset(&s, 0, sizeof s);
    s.sin_family = AF_INET;
    s.sin_addr.s_addr = htonl(0x7f000001);
    memcpy(a, &s, sizeof s);
    *l = sizeof s;
    return 0;
}
static int nickchar(int c)
{
    return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '.') | (c == '!') | (c == '\'')
        | (c == '$') | (c == '+') | (c == ',') | (c == '/') | (c == '?') | (c == '_') | (c == '@');
}
/* slots 1 and 3 as they are in any state; ME just connected */
static void others(int any)
{
    int i, w;
    srv_init();
    fs_text("./motd", "hi\n");
    for (i = 1; i < NU; i += 2) {
        w = vp_pick(0, 2);
        if (w == 1) { if (!g_tab[1].name[0]) add_group(1, "Alpha"); add_user(i, "Alpha"); }
        if (w == 2) { if (!g_tab[2].name[0]) add_group(2, "Alphab"); add_user(i, "Alphab"); }
    }
    if (any && g_tab[1].name[0]) { any_group(1); any_mod(1); }
    s_new_user(ME, 0);
    VP_ASSERT(count_type(ME, 'j') == 1 && vp_nev == 1, "the greeting");
    clear_ev();
}
static void login(const char *id, const char *nick, const char *group, const char *how, const char *pw)
{
    char b[MAX_PKT_LEN];
    strcpy(b, id); strcat(b, "\1"); strcat(b, nick); strcat(b, "\1"); strcat(b, group); strcat(b, "\1"); strcat(b, how);
    strcat(b, "\1"); strcat(b, pw);
    snap();
    clear_ev();
    pkt(ME, 'a', b);
}
/* nothing is left of a refused login */
static void refused(int probe)
{
    int i;
    VP_ASSERT(!on(ME) && u_tab[ME].nickname[0] == 0 && u_tab[ME].group[0] == 0, "a refused login kept a nickname or group");
    VP_ASSERT(count_type(ME, 'e') + count_ev(ME, 'd', 0, 0) >= 1, "a refused client is not told why");
    VP_ASSERT(count_type(ME, 'g') == 1, "a refused client is not told to leave");
    for (i = 0; i < MAX_USERS; i++) if (i != ME) VP_ASSERT(same_u(i), "a refused login changed another user");
    for (i = 0; i < MAX_GROUPS; i++) VP_ASSERT(same_g(i), "a refused login changed a group");
    for (i = 0; i < NU; i++) if (i != ME) VP_ASSERT(vp_sent[i] == 0 || (probe && g_tab[1].mod == i && count_ev(i, 'd', "Probe", 0) == vp_sent[i]), "somebody heard of a refused login");
    clear_ev();
    pkt(ME, 'b', "hello");
    cmd(ME, "m", "Ann x");
    VP_ASSERT(vp_nev == 0, "a refused client is still served");
    s_didpoll(0);
    VP_ASSERT(vp_disc[ME] == 1, "a refused client is not disconnected");
    for (i = 0; i < NU; i++) if (i != ME) VP_ASSERT(vp_disc[i] == 0, "somebody else was disconnected");
    invariants();
}
static void granted(const char *id, const char *nick, const char *group, int g /* group existed */)
{
    int i, hears;
    VP_ASSERT(on(ME), "a valid login was refused");
    VP_ASSERT(!strcmp(u_tab[ME].nickname, nick), "not the requested nickname");
    VP_ASSERT(!strcmp(u_tab[ME].loginid, id), "not the given login id");
    VP_ASSERT(ieq(u_tab[ME].group, group), "not the requested group");
    VP_ASSERT(count_type(ME, 'a') == 1 && count_type(ME, 'g') == 0 && count_type(ME, 'e') == 0, "the login is acknowledged");
    VP_ASSERT((told(ME, u_tab[ME].group) || (g && told(ME, g_tab[g].name))) && count_ev(ME, 'd', "Status", 0) >= 1, "the client is not told its group");
    for (i = 1; i < NU; i++) if (i != ME) {
        VP_ASSERT(same_u(i), "a login changed another user");
        hears = g && in(i, g) && g_tab[g].volume != QUIET;
        VP_ASSERT(count_ev(i, 'd', "Sign-on", 0) == hears && vp_sent[i] == hears, "the group, and nobody else, hears the sign-on");
        if (hears) VP_ASSERT(told(i, nick), "the sign-on does not name the user");
    }
    for (i = 0; i < MAX_GROUPS; i++) if (sg[i].name[0]) VP_ASSERT(same_g(i), "a login changed an existing group");
    if (!g) {
        for (i = 1; i < MAX_GROUPS; i++) if (g_tab[i].name[0] && ieq(g_tab[i].name, group)) break;
        VP_ASSERT(i < MAX_GROUPS, "the group was not made");
        if (strcmp(group, "1")) VP_ASSERT(g_tab[i].mod == ME && told(ME, "moderator"), "who makes a group moderates it");
        else VP_ASSERT(g_tab[i].mod == -1 && g_tab[i].control == PUBLIC, "group 1 is public");
    }
    invariants();
    s_didpoll(0);
    for (i = 0; i < NU; i++) VP_ASSERT(vp_disc[i] == 0, "a client was disconnected");
    /* a second login on the same connection has no effect */
    snap();
    clear_ev();
    pkt(ME, 'a', vp_pick(0, 1) ? "zz\1Zed\1Alphab\1login\1" : "x");
    VP_ASSERT(count_type(ME, 'e') == 1 && vp_nev == 1, "a second login is not refused");
    all_same("a second login had an effect");
}
/* any nickname, into any kind of group */
static void nicks(int groups)
{
    static const char *const G[] = { "", "Alpha", "alPHA", "1", "Alphab", "New", ".Sec" };
    static const char *const R[] = { "1", "Alpha", "Alpha", "1", "Alphab", "New", "Sec" };
    char nick[4], f[4]; int i, n, free_ = 1, gp, g, ok, restr;
    others(groups);
    gp = groups ? vp_pick(0, 6) : 2 * vp_pick(0, 1);
    for (g = 1; g < MAX_GROUPS; g++) if (g_tab[g].name[0] && ieq(g_tab[g].name, R[gp])) break;
    if (g == MAX_GROUPS) g = 0;
    n = groups ? 3 : vp_pick(0, 3);
    if (groups) strcpy(nick, vp_pick(0, 1) ? "aNN" : "D n");
    else for (i = 0; i < n; i++) { nick[i] = i ? (char)vp_int('A', 'z') : (char)vp_int(2, 255); if (i) VP_ASSUME((nick[i] >= 'a') | (nick[i] <= 'Z')); }
    nick[n] = 0;
    if (!groups && n == 3 && on(1) && on(3)) { u_tab[1].nickname[0] = '?'; u_tab[3].nickname[0] = '_'; }     /* names that others are filtered to */
    for (i = 0; i < n; i++) {
        int c = (unsigned char)nick[i], ok = nickchar(c);
        f[i] = ok ? c : c == ' ' ? '_' : '?';
    }
    f[n] = 0;
    for (i = 0; i < MAX_USERS; i++) if (u_tab[i].nickname[0] && ieq(u_tab[i].nickname, f)) free_ = 0;
    restr = g && g_tab[g].control == RESTRICTED;
    ok = n > 0 && free_ && !restr;
    login("id7", nick, G[gp], "login", "");
    VP_WITNESS(ok && g == 1, "granted into an existing group");
    VP_WITNESS(n == 3 && !free_ && nick[0] == 'a', "nickname in use");
    VP_WITNESS(restr && n > 0, "restricted group");
    if (ok) granted("id7", f, R[gp], g); else refused(n > 0 && free_ && restr);
}
/* lengths and login ids */
static void ids(void)
{
    char id[16], nick[16]; int i, n, k, ok = 1;
    others(0);
    n = vp_pick(0, 5); k = vp_pick(0, 3);
    if (n <= 3) for (i = 0; i < n; i++) id[i] = (char)vp_int(2, 255);
    else for (n = n == 4 ? 12 : 13, i = 0; i < n; i++) id[i] = 'k';
    if (n == 12) id[11] = (char)vp_int(2, 255);
    id[n] = 0;
    for (i = 0; i < n; i++) ok &= (id[i] >= 'a' && id[i] <= 'z') || (id[i] >= 'A' && id[i] <= 'Z') || (id[i] >= '0' && id[i] <= '9');
    k = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 12 : 13;
    for (i = 0; i < k; i++) nick[i] = 'n';
    nick[k] = 0;
    ok = ok && n >= 1 && n <= 12 && k >= 1 && k <= 12;
    login(id, nick, "New", "login", "");
    VP_WITNESS(ok && n == 12 && k == 12, "longest names");
    VP_WITNESS(!ok && n == 2 && k == 1, "bad login id");
    if (ok) granted(id, nick, "New", 0); else refused(0);
}
/* any group name */
static void groups(void)
{
    char g[4], f[4]; int i, n = vp_pick(1, 2);
    srv_init();
    fs_text("./motd", "hi\n");
    add_group(1, "Alpha");
    add_user(1, "Alpha");
    s_new_user(ME, 0);
    for (i = 0; i < n; i++) {
        int c = vp_int(2, 255);
        g[i] = (char)c;
        f[i] = c == '~' || (c != '@' && nickchar(c)) ? c : c == ' ' ? '_' : '?';
    }
    g[n] = f[n] = 0;
    VP_ASSUME(g[0] != '.' && g[0] != '@' && strcmp(f, "1"));
    VP_WITNESS(n == 2 && g[0] == '@' - 1 && (unsigned char)g[1] == 200, "a group name with a forbidden character");
    login("id7", "Zed", g, "login", "");
    granted("id7", "Zed", f, 0);
    VP_ASSERT(!strcmp(u_tab[ME].group, f), "the group name in effect is not the filtered one");
}
/* kinds of login, too few fields, following a user, the administrator */
static void kinds(void)
{
    static const char *const A[] = { "admin", "ADMIN", "Admin", "admins", "Server", "SERVER" };
    static const char *const W[] = { "Zp9", "", "Zp8", "Zp99", "x" };
    int k = vp_pick(0, 3), i;
    others(k == 1);
    if (k == 0) {                     /* kind of login */
        char how[7]; int ok;
        i = vp_pick(0, 4);
        strcpy(how, i == 0 ? "LOGIN" : i == 1 ? "login" : i == 2 ? "logi" : i == 3 ? "" : "x");
        if (i == 4) { how[0] = (char)vp_int(2, 255); VP_ASSUME(how[0] != 'w' && how[0] != 'W'); }
        ok = i < 2;
        login("id7", "Dan", "New", how, "");
        if (ok) granted("id7", "Dan", "New", 0); else refused(0);
    } else if (k == 1) {              /* following a user */
        int g = 0, vis;
        int lg = vp_pick(0, 1);
        i = vp_pick(0, 1);
        if (lg && on(1)) strcpy(u_tab[1].nickname, "Ann-Catherin");
        if (on(1)) for (g = 1; g < MAX_GROUPS; g++) if (ieq(g_tab[g].name, u_tab[1].group)) break;
        vis = i == 0 && g && g_tab[g].visibility == VISIBLE && g_tab[g].control != RESTRICTED;
        login("id7", "Dan", i ? (lg ? "@ann-catheri" : "@nobody") : lg ? "@ann-catherin" : "@ann", "login", "");
        VP_WITNESS(vis, "following a user");
        if (vis) granted("id7", "Dan", g_tab[g].name, g); else refused(1);
    } else if (k == 2) {              /* the administrator's and the server's names */
        int a = vp_pick(0, 5), w = vp_pick(0, 4), ok;
        ok = a < 3 ? w == 0 : a == 3;
        login("id7", A[a], "New", "login", W[w]);
        VP_WITNESS(a == 0 && ok, "administrator");
        if (ok) granted("id7", A[a], "New", 0); else refused(0);
    } else {                          /* too few fields */
        static const char *const S[] = { "", "a", "a\1b", "a\1b\1c", "\1\1", "id7\1Dan\1New" };
        snap();
        pkt(ME, 'a', S[vp_pick(0, 5)]);
        VP_ASSERT(count_type(ME, 'g') == 1, "a refused client is not told to leave");
        VP_ASSERT(!on(ME) && u_tab[ME].nickname[0] == 0, "logged in without the fields");
        for (i = 0; i < MAX_USERS; i++) if (i != ME) VP_ASSERT(same_u(i) && (i >= NU || vp_sent[i] == 0), "a refused login had an effect");
        for (i = 0; i < MAX_GROUPS; i++) VP_ASSERT(same_g(i), "a refused login had an effect");
        s_didpoll(0);
        VP_ASSERT(vp_disc[ME] == 1, "a refused client is not disconnected");
    }
}
/* looking who is there without logging in changes nothing */
static void wholist(void)
{
    int i;
    others(1);
    login("id7", "Dan", vp_pick(0, 1) ? "Alpha" : "", vp_pick(0, 1) ? "w" : "wg", "");
    VP_ASSERT(!on(ME) && u_tab[ME].nickname[0] == 0, "logged in by a who request");
    VP_ASSERT(count_type(ME, 'a') == 0 && count_type(ME, 'g') == 1 && count_type(ME, 'i') + count_type(ME, 'e') >= 1, "the list, then the end");
    for (i = 0; i < MAX_USERS; i++) if (i != ME) VP_ASSERT(same_u(i) && (i >= NU || vp_sent[i] == 0), "a who request had an effect");
    for (i = 0; i < MAX_GROUPS; i++) VP_ASSERT(same_g(i), "a who request had an effect");
    s_didpoll(0);
    VP_ASSERT(vp_disc[ME] == 1, "not disconnected");
}
void harness(void)
{
    switch (vp_case) {
    case 0: nicks(0); break;
    case 4: nicks(1); break;
    case 1: ids(); break;
    case 2: kinds(); break;
    case 3: wholist(); break;
    case 5: groups(); break;
    }
}
