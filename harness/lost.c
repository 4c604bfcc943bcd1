/* what remains, and who hears, when a connection is lost */
#include "srv.h"
#include "mapdb.h"
#include <sys/socket.h>
#include <netinet/in.h>
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l) { memset(a, 0, *l); a->sa_family = AF_INET; return 0; }
static int notif[4];
static void leave(void)
{
    int i, g, mods, reg, kill, exp[NU], was1, was2, last, held = 0; char t[64], nt[64];
    srv_init();
    any_members("Alpha", "Alphab", 0);
    g_tab[1].volume = vp_int(QUIET, LOUD);
    g_tab[1].visibility = vp_pick(VISIBLE, SUPERSECRET);
    g_tab[1].control = vp_int(PUBLIC, CONTROLLED);
    if (g_tab[2].name[0]) { g_tab[2].volume = vp_int(QUIET, LOUD); g_tab[2].control = vp_int(PUBLIC, CONTROLLED); }
    mods = vp_pick(0, 5);
    VP_ASSUME(mods < 2 || g_tab[2].name[0]);
    VP_ASSUME(mods != 4 || on(1)); VP_ASSUME(mods != 5 || on(3));
    if (mods & 1) g_tab[1].mod = ME;                     /* 1: own, 2: the other, 3: both, 4, 5: someone else */
    if (mods == 2 || mods == 3) g_tab[2].mod = ME;
    if (mods == 4) g_tab[1].mod = 1;
    if (mods == 5) { g_tab[1].mod = 3; g_tab[2].mod = 1; if (!on(1)) g_tab[2].mod = 3; }
    reg = vp_pick(0, 1);
    if (reg) strcpy(u_tab[ME].realname, "registered");
    kill = vp_pick(0, 1);
    S_kill[ME] = kill;
    nlput(g_tab[1].n_invites, "Bob");
    nlput(u_tab[ME].pri_n_hushed, "Ann"); nlput(u_tab[ME].n_notifies, "ANN"); nlput(u_tab[ME].pub_s_hushed, "*@HA");
    for (i = 1; i < NU; i++) if (i != ME && on(i)) {
        int w = i == 1 ? vp_pick(0, 4) : vp_pick(0, 1);
        if (w == 1) nlput(u_tab[i].n_notifies, "BOB");
        if (w == 2) nlput(u_tab[i].s_notifies, "*@HB");
        if (w == 3) { nlput(u_tab[i].n_notifies, "B?B"); nlput(u_tab[i].s_notifies, "UB@HB"); }
        if (w == 4) { nlput(u_tab[i].n_notifies, "BO"); nlput(u_tab[i].s_notifies, "UB@H"); nlput(u_tab[i].n_notifies, "CAT"); }
        notif[i] = w >= 1 && w <= 3 && g_tab[1].visibility != SUPERSECRET;
        u_tab[i].t_recv = T0 - vp_int(0, 200);
        lpriv_id[i] = ME;
    }
    lpriv_id[ME] = 1;
    last = members("Alpha") == 1;
    snap();
    clear_ev();
    was1 = sg[1].mod == ME; was2 = sg[2].mod == ME;
    strcpy(t, kill ? "Bob (ub@hb) has been disconnected." : "Bob (ub@hb) has signed off.");
    strcpy(nt, "Bob (UB@HB) has just signed off");
    s_lost_user(ME);
    VP_ASSERT(!on(ME) && !u_tab[ME].nickname[0] && !u_tab[ME].group[0] && u_tab[ME].login == LOGIN_FALSE, "a departed user is still there");
    VP_ASSERT(!u_tab[ME].realname[0] && !u_tab[ME].awaymsg[0] && !u_tab[ME].loginid[0] && !u_tab[ME].nodeid[0] && !u_tab[ME].password[0] && S_kill[ME] == 0
              && u_tab[ME].echoback == 0 && u_tab[ME].nobeep == 0, "something of the departed user is left");
    VP_ASSERT(nlcount(*u_tab[ME].pri_n_hushed) + nlcount(*u_tab[ME].n_notifies) + nlcount(*u_tab[ME].pub_s_hushed) == 0, "lists of the departed user are left");
    VP_ASSERT(vp_sent[ME] == 0, "something is sent to the departed user");
    for (i = 1; i < NU; i++) if (i != ME) {
        int own = ieq(su[i].group, "Alpha"), oth = ieq(su[i].group, "Alphab"), q = g_tab[own ? 1 : 2].volume == QUIET, m = (own && was1) || (oth && was2);
        exp[i] = (own && !q) + notif[i] + (m ? reg ? 1 : 1 + !q : 0);
        VP_ASSERT(same_u(i), "a departure changed another user");
        VP_ASSERT(count_ev(i, 'd', "Sign-off", t) == (own && !q), "the group does not hear exactly one sign-off");
        VP_ASSERT(count_ev(i, 'd', "Notify-Off", nt) == notif[i], "those who asked for notification, and only those, are told");
        VP_ASSERT(vp_sent[i] == exp[i], "somebody hears more or less of a departure than they should");
        VP_ASSERT(lpriv_id[i] != ME, "replies still go to the departed user");
    }
    if (last) VP_ASSERT(!g_tab[1].name[0], "an empty group remains");
    for (g = 0; g < MAX_GROUPS; g++) {
        int was = sg[g].mod == ME, ok = 0;
        if (g == 1 && last) continue;
        VP_ASSERT(g_tab[g].mod != ME, "a departed user still moderates");
        if (was) {
            if (reg) {
                VP_ASSERT(g_tab[g].mod == -1 && !strcmp(g_tab[g].missingmod, "Bob") && g_tab[g].modtimeout == T0 + MOD_TIMEOUT, "the group is not held for its registered moderator");
                held++;
            } else {
                VP_ASSERT(g_tab[g].mod > 0 && in(g_tab[g].mod, g), "the new moderator is not a member");
                for (i = 1; i < NU; i++) if (in(i, g)) ok |= u_tab[i].t_recv > u_tab[g_tab[g].mod].t_recv;
                VP_ASSERT(!ok, "the new moderator is not the most recently active member");
                strcpy(t, u_tab[g_tab[g].mod].nickname); strcat(t, " is now mod.");
                for (i = 1; i < NU; i++) if (in(i, g)) VP_ASSERT(count_ev(i, 'd', "Pass", t) == 1, "the members are not told the new moderator");
            }
            g_tab[g].mod = sg[g].mod; g_tab[g].modtimeout = sg[g].modtimeout; strcpy(g_tab[g].missingmod, sg[g].missingmod);
            VP_ASSERT(same_g(g), "a departure changed a group");
            g_tab[g].mod = -1;
        } else VP_ASSERT(same_g(g), "a departure changed a group");
    }
    VP_WITNESS(held == 2, "two groups held");
    VP_WITNESS(last && was2, "last in one group, moderator of another");
    VP_WITNESS(notif[1] && notif[3] && exp[1] == 4, "everything at once");
    invariants();
}
/* the next one on that connection starts afresh; what was on its way to the
 * one before does not reach it */
static void next(void)
{
    int i, w = vp_pick(0, 4), how = vp_pick(0, 1);
    const char *G = w == 4 ? "1" : "Alpha";
    srv_init();
    add_group(1, G);
    add_user(1, G); add_user(ME, G); add_user(3, G);
    u_tab[ME].echoback = vp_int(0, 2); u_tab[ME].nobeep = vp_int(0, 2);
    strcpy(u_tab[ME].awaymsg, "%s gone"); strcpy(u_tab[ME].realname, "registered"); strcpy(u_tab[ME].password, "Zp9");
    nlput(u_tab[ME].pub_n_hushed, "Ann"); nlput(u_tab[ME].pri_s_hushed, "UA@HA");
    g_tab[1].mod = vp_pick(0, 1) ? ME : -1;
    if (w == 1) cmd(ME, "ping", "ann");                 /* Ann's answer would go to Bob */
    if (w == 2) cmd(ME, "m", "ann hello");              /* Ann would reply to Bob */
    if (w == 3) { cmd(3, "m", "bob hi"); VP_ASSERT(count_ev(ME, 'c', "Cat", "hi") == 1, "a message is not delivered"); }
    if (w == 3) cmd(1, "m", "bob hello");               /* Bob's away notice to Ann */
    if (w == 4) { vp_now++; pkt(ME, 'b', "1"); pkt(ME, 'b', "2"); pkt(ME, 'b', "3"); }    /* short of a flood */
    s_lost_user(ME);
    if (how) {
        s_new_user(ME, 0);
        clear_ev();
        pkt(ME, 'a', w == 4 ? "ud\1Dan\0011\1login\1" : "ud\1Dan\1Alpha\1login\1");
        VP_ASSERT(on(ME) && !strcmp(u_tab[ME].nickname, "Dan"), "the next user cannot log in");
        VP_ASSERT(!u_tab[ME].realname[0] && !u_tab[ME].awaymsg[0] && !u_tab[ME].password[0] && u_tab[ME].echoback == 0 && u_tab[ME].nobeep == 0
                  && nlcount(*u_tab[ME].pub_n_hushed) + nlcount(*u_tab[ME].pri_s_hushed) == 0, "the next user on the connection inherits something");
    }
    VP_ASSERT(g_tab[1].mod != ME, "the next user on the connection inherits the moderator's role");
    clear_ev();
    if (how && w == 3) { cmd(ME, "whereis", ""); VP_ASSERT(!told(ME, "Ann") && !told(ME, "Cat"), "the next user is shown who wrote to the one before"); clear_ev(); }
    if (w == 1) { pkt(1, 'm', ""); VP_ASSERT(vp_sent[ME] == 0 && vp_sent[3] == 0, "an answer reaches someone who did not ask"); }
    if (w == 2) {
        cmd(1, "whereis", "");
        VP_ASSERT(!told(1, "Bob") && !told(1, "Dan"), "a reply refers to the departed user or the one after");
    }
    if (how) {
        clear_ev();
        pkt(ME, 'b', "hi");
        for (i = 1; i < NU; i++) VP_ASSERT(count_ev(i, 'b', "Dan", "hi") == (i != ME), "the next user's messages");
        clear_ev();
        pkt(1, 'b', "yo");
        VP_ASSERT(count_ev(ME, 'b', "Ann", "yo") == 1, "the next user does not hear the group");
        if (w == 3) { clear_ev(); cmd(1, "m", "dan again"); VP_ASSERT(count_ev(ME, 'c', "Ann", "again") == 1 && count_ev(1, 'd', "Away", 0) == 0, "messages to the next user"); }
    } else {
        cmd(1, "m", "bob again");
        VP_ASSERT(vp_sent[ME] == 0 && count_type(1, 'e') == 1, "a departed user can still be addressed");
    }
}
/* never logged in, or not all the way */
static void early(void)
{
    int i, w = vp_pick(0, 2);
    srv_init();
    add_group(1, "Alpha");
    add_user(1, "Alpha"); add_user(3, "Alpha");
    nlput(u_tab[1].n_notifies, "*"); nlput(u_tab[1].s_notifies, "*");
    add_conn(ME);
    if (w) { pkt(ME, 'a', w == 1 ? "ub\1Ann\1Alpha\1login\1" : "ub\1\1Alpha\1login\1"); }
    snap();
    take_u(&su[ME], 0);
    clear_ev();
    s_lost_user(ME);
    all_same("the loss of a connection without login had an effect");
    for (i = 0; i < NU; i++) VP_ASSERT(vp_sent[i] == 0, "the loss of a connection without login is announced");
    VP_ASSERT(!u_tab[ME].nodeid[0], "something of the connection is left");
}
void harness(void)
{
    if (vp_case == 0) leave(); else if (vp_case == 1) next(); else early();
}
