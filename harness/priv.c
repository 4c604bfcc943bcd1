/* who is not logged in can do nothing; administration needs the admin */
#include "srv.h"
#include "mapdb.h"
#include "fs.h"
extern int log_level; extern long TimeToDie;
static const char *const CMDS[] = { "drop", "shutdown", "wall", "beep", "cancel", "g", "invite", "pass", "boot", "status", "topic", "motd", "m",
    "echoback", "name", "v", "w", "whereis", "restart", "news", "hush", "shush", "s_help", "exclude", "shuttime", "notify", "talk", "ping", "nobeep",
    "away", "noaway", "log", "stats", "p", "read", "whois", "rname", "write", "delete", "cp", "secure", "nosecure" };
#define NCMDS ((int)(sizeof CMDS / sizeof CMDS[0]))
static void died(void) { VP_FAIL("the server exits at an unauthorised request"); }
static void world(void)
{
    srv_init();
    any_members("Alpha", "Alphab", 0);
    vp_db_put("ann.nick", "Ann"); vp_db_put("ann.password", "abc"); vp_db_put("ann.home", "ua@ha");
    vp_db_put("bob.nick", "Bob"); vp_db_put("bob.password", "xyz"); vp_db_put("bob.home", "ub@hb");
    vp_on_exit = died;
}
static void unharmed(int quiet)
{
    int i;
    for (i = 0; i < NU; i++) {
        if (i != ME || quiet) VP_ASSERT(vp_sent[i] == 0, "a client without a login caused something to be sent");
        VP_ASSERT(vp_disc[i] == 0, "a client without a login had someone disconnected");
    }
    all_same("a client without a login changed something");
    VP_ASSERT(TimeToDie <= 0 && log_level == 7 && vp_execed == 0 && vp_forked == 0 && vp_exited == 0, "a client without a login administered the server");
    VP_ASSERT(vp_db_changes == vp_db_flushed && vp_db_changes == 6, "a client without a login changed the database");
}
/* connected but not logged in, or marked for dropping */
static void nologin(void)
{
    int i, kill, type; char t[8];
    world();
    log_level = 7;
    kill = vp_pick(0, 1);
    if (kill) S_kill[ME] = vp_pick(1, 2);
    else {
        s_lost_user(ME);
        for (i = 1; i < MAX_GROUPS; i++) if (g_tab[i].name[0] && !members(g_tab[i].name)) return;
        s_new_user(ME, 0);
        if (vp_pick(0, 1)) { strcpy(u_tab[ME].password, "Zp9"); }
    }
    type = vp_pick(0, 1);
    snap();
    clear_ev();
    vp_disc[ME] = 0;
    vp_db_changes = vp_db_flushed = 6;
    if (type) {
        static const char *const A[] = { "", "Ann", "Ann abc", "5", "x y z", "-q", "server p xyz" };
        cmd(ME, CMDS[vp_pick(0, NCMDS - 1)], A[vp_pick(0, 6)]);
    } else {
        int full = vp_pick(0, 1), n = full ? 2 : 0, c = full ? "bhmnl"[vp_pick(0, 4)] : vp_int(1, 255);
        VP_ASSUME(kill || c != 'a');
        for (i = 0; i < n; i++) t[i] = (char)vp_int(1, 255);
        t[n] = 0;
        pkt(ME, (char)c, t);
        VP_WITNESS(c == 'b' && !kill && on(1) && n, "an open message without login");
    }
    unharmed(kill);
}
/* administration, with any name and password */
static int stopped;
static void stop(void) { stopped = 1; VP_ASSERT(0, "the server exits before the announced time"); }
static void admin(void)
{
    static const char *const N[] = { "Bob", "Admin", "ADMIN", "admin2", "Admi" };
    int nm = vp_pick(0, 4), op = vp_pick(0, 4), i, is, d, l; char pw[4], vp[8];
    world();
    if (op == 1) nm = vp_pick(0, 1) ? 0 : 3;            /* restarting itself is not modelled */
    strcpy(u_tab[ME].nickname, N[nm]);
    l = vp_pick(0, 1) * 3;
    for (i = 0; i < l; i++) pw[i] = (char)vp_int(1, 127);
    pw[l] = 0;
    strcpy(u_tab[ME].password, pw);
    is = (nm == 1 || nm == 2) && !strcmp(pw, "Zp9");
    VP_ASSUME(is || !ieq(pw, "Zp9"));
    log_level = 0;
    snap();
    clear_ev();
    if (op == 0) cmd(ME, "shutdown", "5");
    if (op == 1) cmd(ME, "restart", vp_pick(0, 1) ? "quiet" : "");
    if (op == 2) cmd(ME, "wall", "hello you");
    if (op == 3) cmd(ME, "log", "3");
    if (op == 4) {
        static const char *const V[] = { "Ann", "ann", "Cat", "Nobody", "" };
        int v = vp_pick(0, 4), k = vp_pick(0, 4), own; char a[24];
        d = v < 2 ? (on(1) ? 1 : 0) : v == 2 ? (on(3) ? 3 : 0) : 0;
        for (i = 0; i < k; i++) vp[i] = (char)vp_int('a', 'z');
        vp[k] = 0;
        strcpy(a, V[v]); strcat(a, " "); strcat(a, vp);
        cmd(ME, "drop", a);
        own = d == 1 && !strcmp(vp, "abc");
        VP_WITNESS(own && !is, "dropping a lost connection of one's own");
        VP_WITNESS(d == 3 && is, "the administrator drops a client");
        if (!d || (!is && !own)) {
            VP_ASSERT(count_type(ME, 'e') == 1 && vp_nev == 1, "the refusal of a drop");
            all_same("a refused drop had an effect");
            for (i = 0; i < NU; i++) VP_ASSERT(!vp_disc[i], "a refused drop had an effect");
            return;
        }
        VP_ASSERT(vp_disc[d] + S_kill[d] == 1, "a permitted drop had no effect");
        s_didpoll(0);
        VP_ASSERT(vp_disc[d] >= 1, "a dropped client is not disconnected");
        for (i = 0; i < MAX_USERS; i++) if (i != d) VP_ASSERT(!vp_disc[i] && same_u(i), "a drop affected someone else");
        return;
    }
    VP_WITNESS(is && op == 2 && on(1) && on(3), "a broadcast");
    if (!is) {
        VP_ASSERT(count_type(ME, 'e') == 1 && vp_nev == 1, "the refusal of an administrative command");
        VP_ASSERT(TimeToDie <= 0 && log_level == 0 && vp_execed == 0 && vp_forked == 0, "someone without the right administered the server");
        all_same("a refused command had an effect");
        vp_now += 100000;
        for (i = 1; i < NU; i++) u_tab[i].t_recv = vp_now;
        s_didpoll(0);
        return;
    }
    all_same("an administrative command changed users or groups");
    if (op == 2) for (i = 1; i < NU; i++) VP_ASSERT(count_ev(i, 'f', "WALL", "hello you") == on(i) && vp_sent[i] == on(i), "a broadcast reaches everyone once");
    if (op == 3) VP_ASSERT(log_level == 3, "the log level");
    if (op == 0) {
        for (i = 1; i < NU; i++) VP_ASSERT(count_type(i, 'f') == on(i), "everyone is told of the shutdown");
        vp_on_exit = stop;
        vp_now += vp_int(0, 299);
        s_didpoll(0);
        vp_on_exit = 0;
        vp_now = T0 + 300;
        s_didpoll(0);
        VP_FAIL("the server does not shut down at the announced time");
    }
}
/* nobody acts as the resident user, whatever descriptor the system hands out */
static void resident(void)
{
    int i, n = MAX_REAL_USERS + vp_pick(0, 1) * (MAX_USERS - 1 - MAX_REAL_USERS); char t[4];
    world();
    log_level = 7;
    snap();
    clear_ev();
    if (vp_pick(0, 1)) {
        s_new_user(n, vp_pick(0, 1));
        VP_ASSERT(vp_disc[n] >= 1, "a client on the resident user's descriptor is kept");
        VP_ASSERT(bytes_same(u_tab[n].nodeid, "localhost", 10), "a client became the resident user");
    }
    vp_db_changes = vp_db_flushed = 6;
    i = vp_pick(0, 5);
    if (i == 0) cmd(n, "boot", "Ann");
    if (i == 1) cmd(n, "m", "ann hello");
    if (i == 2) pkt(n, 'a', "id7\1Zed\1Alpha\1login\1");
    if (i == 3) cmd(n, "p", "xyz");
    if (i == 4) cmd(n, "g", "Alpha");
    if (i == 5) { t[0] = (char)vp_int(1, 255); t[1] = 0; pkt(n, 'b', t); }
    for (i = 0; i < NU; i++) VP_ASSERT(vp_sent[i] == 0 && vp_disc[i] == 0, "someone acting as the resident user is heard");
    all_same("someone acting as the resident user changed something");
    VP_ASSERT(vp_db_changes == 6, "someone acting as the resident user changed the database");
    VP_WITNESS(on(1), "on the resident user's descriptor");
}
void harness(void)
{
    switch (vp_case) {
    case 2: resident(); break;
    case 0: nologin(); break;
    case 1: admin(); break;
    }
}
