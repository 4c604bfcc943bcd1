/* the periodic pass: who is booted for idling, who loses or gets the
 * moderator's role, who is disconnected, and when the server stops */
#include "srv.h"
#include "mapdb.h"
extern time_t TimeToDie;
extern int ShutdownNotify;
static int idle[8], due[8];
static long dueat;
static int gi(const char *n) { int g; for (g = 0; g < MAX_GROUPS; g++) if (g_tab[g].name[0] && ieq(g_tab[g].name, n)) return g; return -1; }
#ifndef LO
#define LO 101
#define HI 102
#endif
static int hi = HI;
static int limit(void) { return vp_pick(0, 1) ? vp_int(LO, hi) : 0; }
static void set_idle(int i) { idle[i] = vp_int(LO, hi); u_tab[i].t_recv = T0 - idle[i]; }
/* ---- booting ------------------------------------------------------------- */
static void boots(void)
{
    static const char *const MSG[] = { "", "bye %s", "gone" };
    int i, g, m, n = 0, ms, msg; char t[80], y[80], og[4][MAX_GROUPLEN + 1];
    srv_init();
    any_members("Alpha", "Alphab", 0);
    if (on(3) && vp_pick(0, 1)) { add_group(3, "~Idle~"); strcpy(u_tab[3].group, "~Idle~"); g_tab[3].idleboot = limit(); if (!members("Alphab") && g_tab[2].name[0]) clear_group_item(2); }
    for (g = 1; g < 3; g++) if (g_tab[g].name[0]) { g_tab[g].idleboot = limit(); g_tab[g].volume = vp_int(QUIET, LOUD); }
    msg = vp_pick(0, 2);
    strcpy(g_tab[1].idleboot_msg, MSG[msg]);
    m = vp_pick(0, 3);
    VP_ASSUME(m == 0 || on(m));
    if (m) { g_tab[1].mod = m; if (g_tab[2].name[0] && vp_pick(0, 1)) g_tab[2].mod = m; }
    if (vp_pick(0, 1)) { g_tab[1].control = RESTRICTED; g_tab[1].visibility = SECRET; g_tab[1].idlemod = 100000; }
    for (i = 1; i < NU; i++) if (on(i)) set_idle(i);
    /* who is due, decided one by one so that each run has one answer */
    for (i = 1; i < NU; i++) if (on(i)) {
        g = gi(u_tab[i].group);
        due[i] = (int)vp_conc_(!ieq(u_tab[i].group, "~IDLE~") && g_tab[g].idleboot > 0 && idle[i] > g_tab[g].idleboot);
        n += due[i];
    }
    snap();
    for (i = 1; i < NU; i++) strcpy(og[i], su[i].group);
    clear_ev();
    s_didpoll(0);
    VP_WITNESS(n == 3, "three booted");
    VP_WITNESS(n == 1 && due[ME] && m == ME, "the moderator booted");
    for (i = 1; i < NU; i++) {
        VP_ASSERT(vp_disc[i] == 0, "someone is disconnected");
        if (!on(i)) { VP_ASSERT(vp_sent[i] == 0, "something is sent to a connection without login"); continue; }
        ms = ieq(su[i].group, "Alpha") ? msg : 0;
        VP_ASSERT(ieq(u_tab[i].group, due[i] ? "~IDLE~" : su[i].group), due[i] ? "an idle user is not moved" : "a user who is not due is moved");
        strcpy(y, ms == 1 ? "bye you" : ms == 2 ? "gone" : "A swarm of bats swoops down and carries you away.");
        if (due[i]) VP_ASSERT(count_ev(i, 'd', "Idle-Boot", y) >= 1, "the idle user is not told");
        if (n == 1) for (m = 1; m < NU; m++) if (due[m] && m != i && ieq(og[m], og[i])) {
            strcpy(t, ms == 1 ? "bye " : ms == 2 ? "gone" : "A swarm of bats swoops down and carries "); if (ms != 2) strcat(t, NICKS[m]); if (!ms) strcat(t, " away.");
            VP_ASSERT(count_ev(i, 'd', "Idle-Boot", t) == (sg[ieq(og[i], "Alpha") ? 1 : 2].volume != QUIET), "the group is not told of an idle user");
        }
        if (!n) VP_ASSERT(vp_sent[i] == 0, "something is said though nobody is due");
        strcpy(su[i].group, u_tab[i].group);
        VP_ASSERT(same_u(i), "the idle check changed more than the group");
    }
    for (g = 1; g < 3; g++) if (sg[g].name[0]) {
        int stay = 0;
        for (i = 1; i < NU; i++) if (on(i) && !due[i] && ieq(u_tab[i].group, sg[g].name)) stay++;
        VP_ASSERT((g_tab[g].name[0] != 0) == (stay > 0) || (!stay && ieq(g_tab[g].name, "~IDLE~")), "an empty group remains, or one with members vanished");
        if (!stay) continue;
        m = sg[g].mod;
        if (m <= 0 || !due[m]) { VP_ASSERT(g_tab[g].mod == m, "a moderator who is not due is replaced"); }
        else {
            VP_ASSERT(g_tab[g].mod > 0 && in(g_tab[g].mod, g), "the booted moderator's group is not given to a member");
            for (i = 1; i < NU; i++) if (in(i, g)) VP_ASSERT(u_tab[i].t_recv <= u_tab[g_tab[g].mod].t_recv, "the new moderator is not the most recently active member");
        }
        g_tab[g].mod = sg[g].mod;
        VP_ASSERT(same_g(g), "the idle check changed a group's settings");
        if (sg[g].mod > 0 && !on(sg[g].mod)) g_tab[g].mod = -1;
    }
    invariants();
}
/* ---- moderators ------------------------------------------------------------ */
static void mods(void)
{
    int i, m, w, give, alt = 0, least = 0, lose; char t[80];
    hi = 109;
    srv_init();
    any_members("Alpha", "Alphab", 0);
    any_group(1);
    g_tab[1].idleboot = 0;
    if (g_tab[2].name[0]) { g_tab[2].idleboot = 0; g_tab[2].control = PUBLIC; g_tab[2].mod = vp_pick(0, 1) ? ME : -1; g_tab[2].idlemod = 1; }
    g_tab[1].idlemod = vp_int(LO, hi);      /* never 0: that stands for the longest that is allowed */
    for (i = 1; i < NU; i++) if (on(i)) { set_idle(i); if (vp_pick(0, 1)) strcpy(u_tab[i].awaymsg, "%s away"); }
    m = vp_pick(0, 4);
    VP_ASSUME(m == 0 || m == 4 || on(m));
    g_tab[1].mod = m >= 1 && m <= 3 ? m : -1;
    if (m == 4) { strcpy(g_tab[1].missingmod, "Dan"); g_tab[1].modtimeout = T0 + vp_int(-200, 200); }
    for (i = 1; i < NU; i++) if (in(i, 1) && !u_tab[i].awaymsg[0]) {
        least |= 1;
        if (m >= 1 && m <= 3 && i != m) alt |= idle[i] < idle[m];
    }
    lose = m >= 1 && m <= 3 && g_tab[1].control != PUBLIC && idle[m] > g_tab[1].idlemod && alt;
    give = lose || (m == 4 && g_tab[1].modtimeout < T0 && least);
    give = (int)vp_conc_(give);
    snap();
    clear_ev();
    s_didpoll(0);
    VP_WITNESS(give && m == 4, "the time for coming back is over");
    VP_WITNESS(give && m == ME, "an idle moderator");
    VP_WITNESS(give && m && m != 4 && !in(m, 1), "an idle moderator elsewhere");
    for (i = 0; i < MAX_USERS; i++) VP_ASSERT(same_u(i), "the idle check changed a user");
    w = g_tab[1].mod;
    if (give) {
        VP_ASSERT(w > 0 && in(w, 1) && !u_tab[w].awaymsg[0], "the new moderator is not a present member");
        for (i = 1; i < NU; i++) if (in(i, 1) && !u_tab[i].awaymsg[0]) VP_ASSERT(idle[w] <= idle[i], "the new moderator is not the least idle member");
        if (m != 4) VP_ASSERT(w != m, "an idle moderator keeps the role");
        VP_ASSERT(g_tab[1].modtimeout == 0 && !g_tab[1].missingmod[0], "the group is still held for someone");
        strcpy(t, u_tab[w].nickname); strcat(t, " is now mod.");
        for (i = 1; i < NU; i++) if (on(i)) VP_ASSERT(count_ev(i, 'd', "Timeout", t) == in(i, 1), "the group is not told the new moderator");
        if (m != 4) VP_ASSERT(count_ev(m, 'd', "Idle-Mod", 0) == 1, "the idle moderator is not told");
        g_tab[1].mod = sg[1].mod; g_tab[1].modtimeout = sg[1].modtimeout; strcpy(g_tab[1].missingmod, sg[1].missingmod);
    } else {
        VP_ASSERT(w == sg[1].mod, "a moderator is replaced who is not due");
        for (i = 0; i < NU; i++) VP_ASSERT(vp_sent[i] == 0, "something is said though no moderator is due");
    }
    for (i = 0; i < MAX_GROUPS; i++) VP_ASSERT(same_g(i), "the idle check changed a group");
}
/* ---- dropping and stopping ------------------------------------------------- */
static void bye(void)
{
    int i;
    VP_ASSERT(dueat > 0 && vp_now >= dueat, "the server stops before the announced time");
    for (i = 1; i < NU; i++) if (on(i)) VP_ASSERT(vp_disc[i] == 1, "the server stops without closing a connection");
    VP_WITNESS(1, "stopped");
}
static void stops(void)
{
    int i, k[8], n = vp_pick(0, 2), five, one;
    srv_init();
    any_members("Alpha", "Alphab", 1);
    for (i = 0; i < NU; i++) { S_kill[i] = k[i] = i ? vp_int(0, 2) : 0; if (on(i)) set_idle(i); }
    g_tab[1].idleboot = g_tab[2].idleboot = 0;
    dueat = vp_pick(0, 1) ? T0 + vp_int(-1000, 1000) : -1;
    TimeToDie = dueat;
    ShutdownNotify = vp_pick(0, 2);
    five = dueat > 0 && T0 >= dueat - 300 && ShutdownNotify == 0;
    one = dueat > 0 && T0 >= dueat - 60 && ShutdownNotify + five == 1;
    vp_on_exit = bye;
    snap();
    clear_ev();
    s_didpoll(n);
    for (i = 0; i < NU; i++) {
        VP_ASSERT(vp_disc[i] == (n != 1 && k[i] > 0), k[i] ? "a client marked for dropping is not disconnected" : "a client is disconnected that is not marked");
        if (n == 1) VP_ASSERT(vp_sent[i] == 0, "the frequent poll says something");
        else if (k[i] == 0) VP_ASSERT(vp_sent[i] == (on(i) ? five + one : 0), "the shutdown notices are not those due");
    }
    if (n != 1) VP_ASSERT(dueat <= 0 || T0 < dueat, "the server does not stop at the announced time");
    all_same("the periodic pass changed something");
}
/* what counts as activity: messages and commands of the user, nothing else */
static void active(void)
{
    int w = vp_pick(0, 6), d, late, gone;
    srv_init();
    add_group(1, "Alpha");
    add_user(1, "Alpha"); add_user(ME, "Alpha"); add_user(3, "Alpha");
    u_tab[1].t_recv = u_tab[ME].t_recv = T0;
    u_tab[3].t_recv = T0 + 5000;
    g_tab[1].idleboot = 600;
    vp_now = T0 + 500;
    switch (w) {
    case 0: pkt(ME, 'b', "hi"); break;
    case 1: cmd(ME, "m", "cat hi"); break;
    case 2: cmd(ME, "nosuch", ""); break;
    case 3: cmd(ME, "w", "-g"); break;
    case 4: cmd(3, "m", "bob hi"); u_tab[3].t_recv = T0 + 5000; break;       /* somebody else's */
    case 5: pkt(ME, 'n', ""); break;                   /* keeping the connection open */
    case 6: break;
    }
    d = (vp_pick(0, 1) ? 599 : 99) + vp_int(0, 3); late = (int)vp_conc_(d > 600); gone = (int)vp_conc_(d > 100);
    vp_now = T0 + 500 + d;
    clear_ev();
    s_didpoll(0);
    VP_ASSERT(ieq(u_tab[ME].group, (w < 4 ? late : gone) ? "~IDLE~" : "Alpha"), w < 4 ? "a user is idle from their last message or command on" : "something else counts as a user's activity");
    VP_ASSERT(ieq(u_tab[1].group, gone ? "~IDLE~" : "Alpha"), "somebody's activity keeps another from idling");
    VP_WITNESS(w == 0 && late, "idle after a message");
    VP_WITNESS(w == 3 && gone && !late, "kept by a command");
}
void harness(void)
{
    if (vp_case == 3) active(); else
    if (vp_case == 0) boots(); else if (vp_case == 1) mods(); else stops();
}
