/* open and exclude messages: exactly the members of the sender's group get
 * them, and only when the sender may speak. */
#include "srv.h"
/* how a user has hushed the actor: 0 not, 1 by nick, 2 by site, 3 by nick
 * pattern, 4 by site pattern; 5, 6: personal messages only; 7 someone else */
static int hush(int i)
{
    int w = i == 1 || vp_deep ? vp_pick(0, 7) : vp_pick(0, 1) * 3;
    switch (w) {
    case 1: nlput(u_tab[i].pub_n_hushed, "BOB"); break;
    case 2: nlput(u_tab[i].pub_s_hushed, "UB@HB"); break;
    case 3: nlput(u_tab[i].pub_n_hushed, "B*"); break;
    case 4: nlput(u_tab[i].pub_s_hushed, "*@HB"); break;
    case 5: nlput(u_tab[i].pri_n_hushed, "BOB"); break;
    case 6: nlput(u_tab[i].pri_s_hushed, "UB@HB"); break;
    case 7: nlput(u_tab[i].pub_n_hushed, "BO"); nlput(u_tab[i].pub_s_hushed, "UB@H"); break;
    }
    return w >= 1 && w <= 4;
}
static void deliver(int exclude, const char *gname)
{
    char text[8], arg[16]; const char *victim = "zed"; int i, hushed[NU], may, talk, reg, want[NU], vict = -1, nwant = 0;
    srv_init();
    any_members(gname, "Alphab", 1);
    any_group(1);
    any_mod(1);
    if (g_tab[2].name[0]) { any_group(2); g_tab[2].mod = ME; }
    for (i = 1; i < NU; i++) {
        hushed[i] = 0;
        if (on(i) && i != ME && in(i, 1)) { hushed[i] = hush(i); }
    }
    if (vp_bool()) S_kill[1] = 0;
    u_tab[ME].echoback = vp_int(0, 2);
    reg = vp_pick(0, 1);
    VP_ASSUME(!reg || g_tab[1].control == CONTROLLED);
    if (reg) strcpy(u_tab[ME].realname, "registered");
    talk = vp_pick(0, 3);
    VP_ASSUME(!talk || g_tab[1].control == CONTROLLED);
    if (talk == 1) nlput(g_tab[1].n_talk, "bob");
    if (talk == 2) nlput(g_tab[1].nr_talk, "Bob");
    if (talk == 3) { nlput(g_tab[1].n_talk, "Bo"); nlput(g_tab[1].nr_talk, "Bobb"); }
    text[0] = (char)vp_int(33, 126); text[1] = ' '; text[2] = (char)vp_int(33, 126); text[3] = 0;
    if (exclude) {
        vict = vp_pick(0, 3);
        if (vict > 0) { VP_ASSUME(vict == ME || (on(vict) && in(vict, 1))); victim = UNICKS[vict]; }
    }
    may = g_tab[1].volume != QUIET && (g_tab[1].control != CONTROLLED || g_tab[1].mod == ME || talk == 1 || (talk == 2 && reg));
    if (!exclude && members(gname) < 2) may = 0;
    for (i = 1; i < NU; i++) {
        want[i] = may && on(i) && in(i, 1) && !hushed[i] && (i != ME || u_tab[ME].echoback) && !(exclude && i == vict);
        nwant += want[i];
    }
    snap();
    clear_ev();
    if (exclude) {
        strcpy(arg, victim); strcat(arg, " "); strcat(arg, text);
        cmd(ME, "exclude", arg);
    } else
        pkt(ME, 'b', text);
    for (i = 1; i < NU; i++) {
        VP_ASSERT(count_type(i, 'b') == want[i], want[i] ? "a member of the group did not get the message once" : "the message reached someone it must not reach");
        VP_ASSERT(count_ev(i, 'b', "Bob", text) == want[i], "the message or its sender was altered");
        if (i != ME && !want[i]) VP_ASSERT(vp_sent[i] == 0, "something was sent to a client the message is not for");
        if (i != ME && want[i]) VP_ASSERT(vp_sent[i] == (exclude ? 2 : 1), "more than the message was sent to a member");
    }
    VP_ASSERT((count_type(ME, 'e') > 0) == !may, "the sender is told exactly when the message may not be delivered");
    VP_ASSERT(vp_sent[0] == 0, "something sent to nobody");
    all_same("an open message changed the users or groups");
    if (exclude) VP_WITNESS(nwant == 1 && vict == 1, "delivered to all but the excluded");
    else {
        VP_WITNESS(nwant == 3, "delivered to three clients");
        VP_WITNESS(!may && members(gname) == 3 && g_tab[1].volume != QUIET, "muted in a controlled group");
        VP_WITNESS(nwant == 1 && hushed[1] && want[3], "hushed by one of two");
    }
}
/* histories in the open default group: four messages within a second boot */
static void flood(void)
{
    int k, run = 0, booted = 0; long last = 0;
    srv_init();
    any_members("1", "Alphab", 0);
    g_tab[1].volume = vp_int(QUIET, LOUD);
    VP_ASSUME(on(1) && in(1, 1));
    for (k = 0; k < 6 && !booted; k++) {
        int i, quiet = g_tab[1].volume == QUIET;
        vp_now += vp_pick(0, 1);
        if (vp_pick(0, 1)) cmd(ME, "beep", "nobody");       /* other activity does not count */
        run = vp_now == last ? run + 1 : 1;
        last = vp_now;
        clear_ev();
        snap();
        pkt(ME, 'b', "hi");
        booted = run > 3;
        if (booted) {
            VP_ASSERT(ieq(u_tab[ME].group, "ICB"), "a flooder was not moved out of the default group");
            VP_ASSERT(told(ME, "Boot"), "a booted user was not told");
            for (i = 1; i < NU; i++) VP_ASSERT(count_type(i, 'b') == 0, "the message of a flooder was delivered");
        } else {
            VP_ASSERT(ieq(u_tab[ME].group, "1"), "a user who did not flood was moved");
            VP_ASSERT(count_ev(1, 'b', "Bob", "hi") == !quiet, "a message that is no flood was not delivered");
            VP_ASSERT(!told(1, "spamming"), "a user was wrongly announced as flooding");
        }
        for (i = 1; i < NU; i++) if (i != ME) VP_ASSERT(same_u(i), "flood handling changed another user");
        if (!quiet) VP_ASSERT(count_type(ME, 'e') == booted, "sender told");
    }
    invariants();
    VP_WITNESS(booted, "a flooder is booted");
    VP_WITNESS(!booted && vp_now == T0 + 1, "six messages in two seconds without a boot");
}
/* a client that is not logged in or marked for dropping says nothing */
static void silent(void)
{
    int i, w = vp_pick(0, 2);
    srv_init();
    any_members("Alpha", "Alphab", 0);
    add_conn(3);
    if (w == 0) S_kill[ME] = 1;
    if (w == 1) { clear_user_item(ME); add_conn(ME); }
    if (w == 2) { clear_user_item(ME); add_conn(ME); strcpy(u_tab[ME].group, ""); }
    snap();
    clear_ev();
    pkt(ME, 'b', "hi");
    for (i = 0; i < NU; i++) VP_ASSERT(vp_sent[i] == 0 || i == ME, "a client that may not speak was heard");
    all_same("a client that may not speak changed something");
    VP_WITNESS(w == 0 && on(1) && in(1, 1), "killed client ignored");
}
/* hushing through the command, then messages: only the hushed is not heard */
static void hushcmd(void)
{
    int f = vp_pick(0, 3), second = vp_pick(0, 1), hushed;
    static const char *const arg[] = { "Bob", "-n bob", "-s ub@hb", "-p BOB" };
    srv_init();
    add_group(1, "Alpha");
    add_user(1, "Alpha"); add_user(ME, "Alpha"); add_user(3, "Alpha");
    clear_ev();
    cmd(1, vp_pick(0, 1) ? "hush" : "shush", arg[f]);
    if (second) cmd(1, "hush", arg[f]);         /* toggles */
    hushed = !second && f != 3;
    clear_ev();
    pkt(ME, 'b', "x");
    VP_ASSERT(count_type(1, 'b') == !hushed, "hushing does what it says");
    VP_ASSERT(count_type(3, 'b') == 1, "a hush affected someone else");
    clear_ev();
    pkt(3, 'b', "y");
    VP_ASSERT(count_type(1, 'b') == 1 && count_type(ME, 'b') == 1, "a hush affected another sender");
    VP_WITNESS(hushed, "hushed by command");
    VP_WITNESS(second && f == 0, "hush taken back");
}
void harness(void)
{
    switch (vp_case) {
    case 0: deliver(0, "Alpha"); break;
    case 1: deliver(1, "Alpha"); break;
    case 2: deliver(0, "1"); break;
    case 3: flood(); break;
    case 4: silent(); break;
    case 5: hushcmd(); break;
    }
}
