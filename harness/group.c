/* entering groups: only as their rules allow; the effects of a change */
#include "srv.h"
#include "mapdb.h"
static int groupchar(int c)
{
    return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '.') | (c == '!') | (c == '\'')
        | (c == '$') | (c == '+') | (c == ',') | (c == '/') | (c == '?') | (c == '_') | (c == '~');
}
static int gi(const char *n) { int g; for (g = 0; g < MAX_GROUPS; g++) if (g_tab[g].name[0] && ieq(g_tab[g].name, n)) return g; return -1; }
static void refused(int probe)
{
    int i;
    all_same("a refused change of group had an effect");
    VP_ASSERT(count_type(ME, 'e') == 1 && vp_sent[ME] == 1 + (probe == ME ? count_ev(ME, 'd', "Probe", 0) : 0), "the user is told that the change was refused");
    for (i = 0; i < NU; i++) if (i != ME) VP_ASSERT(vp_sent[i] == 0 || (i == probe && vp_sent[i] == count_ev(i, 'd', "Probe", 0)), "somebody else heard of a refused change");
}
/* ME went from old group og (as in the snapshot) to g */
static void entered(int og, int g, int made)
{
    int i, rest = 0; char a[48], b[48], st[48]; const char *nick = u_tab[ME].nickname;
    VP_ASSERT(!strcmp(u_tab[ME].group, g_tab[g].name), "the user is not in the group requested");
    strcpy(a, nick); strcat(a, " (ub@hb) entered group");
    strcpy(b, nick); strcat(b, " (ub@hb) just left");
    for (i = 1; i < NU; i++) if (i != ME) {
        int old = on(i) && ieq(u_tab[i].group, sg[og].name), neu = in(i, g), e = 0;
        rest += old;
        if (neu) { e = g_tab[g].volume != QUIET; VP_ASSERT(count_ev(i, 'd', "Arrive", a) == e, "the new group hears of the arrival once"); }
        if (old) { e = sg[og].volume != QUIET; VP_ASSERT(count_ev(i, 'd', "Depart", b) == e, "the old group hears of the departure once"); }
        VP_ASSERT(vp_sent[i] == e, "somebody heard more than they should of a change of group");
        VP_ASSERT(same_u(i), "a change of group changed another user");
    }
    strcpy(st, "You are now in group "); strcat(st, g_tab[g].name);
    if (g_tab[g].mod == ME) strcat(st, " as moderator");
    VP_ASSERT(count_ev(ME, 'd', "Status", st) == 1 && count_type(ME, 'e') == 0, "the user is told the group");
    VP_ASSERT(same_u(NICKSERV), "a change of group changed another user");
    strcpy(u_tab[ME].group, su[ME].group);
    VP_ASSERT(same_u(ME), "a change of group changed more than the group");
    strcpy(u_tab[ME].group, g_tab[g].name);
    for (i = 0; i < MAX_GROUPS; i++) {
        if (i == g && made) continue;
        if (i == og && !rest) { if (i != g) VP_ASSERT(!g_tab[i].name[0], "an empty group remains"); continue; }
        VP_ASSERT(same_g(i), "a change of group changed a group");
    }
    invariants();
}
static void enter(void)
{
    static const char *const R[] = { "Alphab", "aLPHAB", ".Alphab", "..alphab" };
    int i, inv, reg, adm = 0, ok, invited, nb, r, m;
    srv_init();
    add_group(1, "Alpha");
    add_group(2, "Alphab");
    add_user(ME, "Alpha");
    add_user(3, "Alphab");
    i = vp_pick(0, 2);
    if (i == 1) add_user(1, "Alpha");
    if (i == 2) add_user(1, "Alphab");
    any_group(2);
    g_tab[1].volume = vp_int(QUIET, LOUD);
    g_tab[2].size = vp_int(0, 3);
    m = vp_pick(0, 3);
    VP_ASSUME(m == 0 || on(m));
    g_tab[2].mod = m ? m : -1;
    if (!m && vp_pick(0, 1)) { g_tab[2].modtimeout = T0 + 5; strcpy(g_tab[2].missingmod, "Bob"); }
    i = vp_pick(0, 2);
    if (i) g_tab[1].mod = i == 1 ? ME : 3;
    reg = vp_pick(0, 1);
    if (reg) strcpy(u_tab[ME].realname, "registered");
    inv = vp_pick(0, 8);
    switch (inv) {
    case 1: nlput(g_tab[2].n_invites, "Bob"); break;
    case 2: nlput(g_tab[2].s_invites, "UB@HB"); break;
    case 3: nlput(g_tab[2].s_invites, "*@HB"); break;
    case 4: nlput(g_tab[2].nr_invites, "Bob"); break;
    case 5: nlput(g_tab[2].sr_invites, "UB@HB"); break;
    case 6: nlput(g_tab[2].n_invites, "Bo"); nlput(g_tab[2].s_invites, "UB@H"); nlput(g_tab[2].nr_invites, "Bobb"); nlput(g_tab[2].sr_invites, "*@HC"); break;
    case 7: nlput(g_tab[1].n_invites, "Bob"); nlput(g_tab[1].s_invites, "UB@HB"); break;
    case 8: nlput(g_tab[2].n_talk, "Bob"); nlput(g_tab[2].n_bars, "Ann"); break;
    }
    invited = (inv >= 1 && inv <= 3) || ((inv == 4 || inv == 5) && reg);
    if (inv == 0 && vp_pick(0, 1)) {
        int w = vp_pick(0, 2);
        strcpy(u_tab[ME].nickname, w < 2 ? "Admin" : "Admins");
        strcpy(u_tab[ME].password, w == 0 || w == 2 ? "Zp9" : "Zp");
        adm = w == 0;
    }
    r = vp_deep || inv == 0 ? vp_pick(0, 3) : 1;
    nb = members("Alphab");
    if (g_tab[2].control == RESTRICTED) ok = m == ME || adm || invited;
    else if (g_tab[2].control == PUBLIC) ok = 1;
    else ok = g_tab[2].size == 0 || nb < g_tab[2].size || m == ME;
    snap();
    clear_ev();
    cmd(ME, "g", R[r]);
    VP_WITNESS(ok && inv == 5 && g_tab[2].control == RESTRICTED, "a registered invitation");
    VP_WITNESS(!ok && g_tab[2].control == MODERATED, "a full group");
    VP_WITNESS(adm && g_tab[2].control == RESTRICTED, "the administrator");
    if (ok) {
        VP_ASSERT(ieq(u_tab[ME].group, "Alphab"), "a permitted change was refused");
        entered(1, 2, 0);
    } else {
        VP_ASSERT(ieq(u_tab[ME].group, "Alpha"), "the group's rules do not allow this user in");
        refused(m && g_tab[2].volume == LOUD ? m : 0);
    }
}
/* following a user */
static void follow(void)
{
    static const char *const R[] = { "@cat", "@Cat", "@Nobody", "@", "@bob", "@server", "@@cat" };
    int r, ok;
    srv_init();
    any_members("Alpha", "Alphab", 0);
    if (g_tab[2].name[0]) any_group(2);
    VP_ASSUME(!g_tab[2].name[0] || g_tab[2].control != RESTRICTED);
    g_tab[1].visibility = vp_int(VISIBLE, SUPERSECRET);
    r = vp_pick(0, 6);
    ok = r < 2 && in(3, 2) && g_tab[2].visibility == VISIBLE;
    snap();
    clear_ev();
    cmd(ME, "g", R[r]);
    VP_WITNESS(ok, "followed");
    VP_WITNESS(!ok && r == 0 && in(3, 2), "not followed into a hidden group");
    if (ok) entered(1, 2, 0);
    else {
        int e;
        refused(0);
        if (g_tab[2].name[0] && g_tab[2].visibility != VISIBLE)
            for (e = 0; e < vp_nev; e++) VP_ASSERT(!contains(vp_ev[e].data + 1, vp_ev[e].len - 1, "Alphab"), "the answer names a hidden group");
    }
}
/* making a group: any name, with dots for secrecy */
static void make(void)
{
    char t[20], want[20]; int i, n, k, o = 0, vis = VISIBLE, len, full, g; int sp = 0;
    srv_init();
    any_members("Alpha", "Alphab", 0);
    full = vp_pick(0, 1);
    if (full) {                        /* no free slot unless the old group goes */
        VP_ASSUME(g_tab[2].name[0]);
        add_group(3, "Gamma");
        VP_ASSUME(members("Alphab") >= 2);
        strcpy(u_tab[1].group, "Gamma");
    }
    k = vp_pick(0, 6);
    n = 0;
    if (k == 0 || k == 6) {
        n = vp_pick(0, k ? N : N);
        if (k) t[0] = '.';
        for (i = 0; i < n; i++) t[i + !!k] = (char)vp_int(2, 255);
        n += !!k;
        t[n] = 0;
        VP_ASSUME(n == 0 || t[0] != '@');
    } else strcpy(t, k == 1 ? "abcdefgh" : k == 2 ? "abcdefghi" : k == 3 ? "..abcdefghij" : k == 4 ? ".abcdefghi" : vp_pick(0, 1) ? "~IDLE~" : vp_pick(0, 1) ? "~reseda~" : "1");
    n = (int)strlen(t);
    if (n && t[0] == '.') { o = 1; vis = SECRET; if (t[1] == '.') { o = 2; vis = SUPERSECRET; } }
    len = n - o > 8 ? 8 : n - o;
    for (i = 0; i < len; i++) {
        int c = (unsigned char)t[o + i];
        want[i] = groupchar(c) ? c : c == ' ' ? '_' : '?';
    }
    want[len > 0 ? len : 0] = 0;
    VP_ASSUME(!ieq(want, "Alpha") && !ieq(want, "Alphab") && !ieq(want, "ICB") && !ieq(want, "Gamma"));
    snap();
    clear_ev();
    cmd(ME, "g", t);
    VP_WITNESS(len == 2 && vis == SECRET, "a secret group");
    VP_WITNESS(full && len >= 2, "too many groups");
    if (len <= 0 || full) { refused(0); return; }
    g = gi(want);
    VP_ASSERT(g > 0 && !strcmp(g_tab[g].name, want), "the group was not made under the name given");
    sp = ieq(want, "1") ? 1 : ieq(want, "~IDLE~") ? 2 : ieq(want, "~RESEDA~") ? 3 : 0;
    if (sp == 0) VP_ASSERT(g_tab[g].mod == ME && g_tab[g].control == MODERATED && g_tab[g].visibility == vis, "a new group is moderated by its maker and as visible as asked");
    else VP_ASSERT(g_tab[g].mod == -1 && g_tab[g].control == PUBLIC, "a special group is public");
    VP_ASSERT(g_tab[g].modtimeout == 0 && g_tab[g].missingmod[0] == 0 && g_tab[g].size == 0, "a new group inherits settings");
    for (i = 0; i < 10; i++) { static struct gsnap s; take_g(&s, g); VP_ASSERT(s.l[i][0] == 0, "a new group inherits a list"); }
    entered(1, g, 1);
}
/* a group's name used again starts afresh */
static void again(void)
{
    int i, own;
    srv_init();
    add_group(1, "Alpha"); add_user(1, "Alpha");
    add_group(2, "Alphab"); add_user(ME, "Alphab");
    g_tab[2].mod = ME;
    any_group(2);
    g_tab[2].size = vp_int(0, 2);
    nlput(g_tab[2].n_invites, "Ann"); nlput(g_tab[2].n_talk, "Ann"); nlput(g_tab[2].s_invites, "X"); nlput(g_tab[2].n_bars, "X");
    nlput(g_tab[2].nr_invites, "Ann"); nlput(g_tab[2].sr_invites, "X"); nlput(g_tab[2].nr_talk, "Ann");
    g_tab[2].idleboot = g_tab[2].idlemod = 60; strcpy(g_tab[2].topic, "old"); strcpy(g_tab[2].idleboot_msg, "m %s");
    if (vp_pick(0, 1)) { g_tab[2].modtimeout = T0 + 5; strcpy(g_tab[2].missingmod, "Ann"); g_tab[2].mod = -1; }
    if (vp_pick(0, 1)) cmd(ME, "g", "Alpha"); else s_lost_user(ME);
    VP_ASSERT(gi("Alphab") < 0, "an empty group remains");
    own = vp_pick(0, 1);
    snap();
    clear_ev();
    cmd(1, "g", own ? "Alphab" : "Other");
    i = gi(own ? "Alphab" : "Other");
    VP_ASSERT(i > 0 && ieq(u_tab[1].group, g_tab[i].name), "the group was not made");
    VP_ASSERT(g_tab[i].mod == 1 && g_tab[i].control == MODERATED && g_tab[i].visibility == VISIBLE && g_tab[i].volume == LOUD && g_tab[i].size == 0
              && g_tab[i].modtimeout == 0 && !g_tab[i].missingmod[0] && g_tab[i].idleboot != 60 && g_tab[i].idlemod != 60 && strcmp(g_tab[i].topic, "old") && !g_tab[i].idleboot_msg[0], "a new group inherits settings");
    { static struct gsnap s; int k; take_g(&s, i); for (k = 0; k < 10; k++) VP_ASSERT(s.l[k][0] == 0, "a new group inherits a list"); }
    invariants();
}
/* asking for the group one is in */
static void same(void)
{
    srv_init();
    any_members("Alpha", "Alphab", 0);
    any_group(1);
    any_mod(1);
    g_tab[1].size = vp_int(0, 3);
    snap();
    clear_ev();
    cmd(ME, "g", vp_pick(0, 1) ? "Alpha" : "aLPHA");
    refused(g_tab[1].mod > 0 ? g_tab[1].mod : 0);
}
void harness(void)
{
    switch (vp_case) {
    case 0: enter(); break;
    case 1: follow(); break;
    case 2: make(); break;
    case 3: again(); break;
    case 4: same(); break;
    }
}
