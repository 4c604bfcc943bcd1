/* what listings and look-ups show of groups to those outside them */
#include "srv.h"
#include "mapdb.h"
static int invited, adm, guest;          /* guest: the requester has not logged in */
static const char *GA, *GB;              /* the groups: that of the requester, the other */
static void world(void)
{
    int inv, reg, i;
    srv_init();
    inv = vp_pick(0, 13);
    GA = inv == 13 ? "Alphabet" : "Alpha"; GB = inv == 12 ? "Alphabet" : inv == 13 ? "Alpha" : "Beta";
    add_group(1, GA); add_group(2, GB);
    strcpy(g_tab[1].topic, "talpha"); strcpy(g_tab[2].topic, "topicb");
    if (guest) add_conn(ME); else add_user(ME, GA);
    add_user(3, GB);
    i = guest ? 1 : vp_pick(0, 2);
    if (i == 1) add_user(1, GA);
    if (i == 2) add_user(1, GB);
    g_tab[1].visibility = vp_pick(VISIBLE, SUPERSECRET);
    g_tab[2].visibility = vp_pick(VISIBLE, SUPERSECRET);
    if (vp_deep) g_tab[2].control = vp_int(PUBLIC, CONTROLLED);
    if (vp_deep) g_tab[2].volume = vp_int(QUIET, LOUD);
    reg = guest ? 0 : vp_pick(0, 1);
    if (reg) strcpy(u_tab[ME].realname, "registered");
    switch (inv) {
    case 1: nlput(g_tab[2].n_invites, "bOB"); break;
    case 2: nlput(g_tab[2].s_invites, "UB@HB"); break;
    case 3: nlput(g_tab[2].s_invites, "*@HB"); break;
    case 4: nlput(g_tab[2].nr_invites, "Bob"); break;
    case 5: nlput(g_tab[2].sr_invites, "U?@HB"); break;
    case 6: nlput(g_tab[2].n_invites, "Bo"); nlput(g_tab[2].s_invites, "UB@H"); nlput(g_tab[2].nr_invites, "Bobb"); nlput(g_tab[2].sr_invites, "*@HC"); break;
    case 7: nlput(g_tab[1].n_invites, "Bob"); nlput(g_tab[1].s_invites, "UB@HB"); break;
    case 8: nlput(g_tab[2].n_talk, "Bob"); nlput(g_tab[2].n_bars, "Bob"); nlput(g_tab[2].s_bars, "UB@HB"); nlput(g_tab[2].n_nr_bars, "Bob"); break;
    case 9: if (!guest) strcpy(u_tab[ME].nickname, "ADMIN"); break;
    case 10: if (!guest) strcpy(u_tab[ME].nickname, "ADMINS"); break;
    case 11: nlput(g_tab[2].n_invites, "Cat"); strcpy(g_tab[2].missingmod, "Bob"); g_tab[2].modtimeout = T0 + 60; break;
    }
    if (guest) { adm = 0; invited = inv == 3; if (vp_pick(0, 1)) g_tab[2].mod = 3; return; }
    adm = inv == 9;
    invited = (inv >= 1 && inv <= 3) || ((inv == 4 || inv == 5) && reg) || adm;
    i = vp_pick(0, 2);
    if (i && inv != 11) g_tab[2].mod = i == 1 ? 3 : ME;
}
static const char *field(int e, int f, int *n)         /* field f of a packet, counted from 0 */
{
    const char *d = vp_ev[e].data + 2; int o = 0, end = vp_ev[e].len - 2, s;
    while (f > 0 && o < end) { if (d[o] == 1) f--; o++; }
    s = o;
    while (o < end && d[o] != 1 && d[o] != 0) o++;
    *n = o - s;
    return d + s;
}
static int field_is(int e, int f, const char *s)
{
    int n, l = (int)strlen(s); const char *d = field(e, f, &n);
    return n == l && bytes_same(d, s, l);
}
/* the line of user u under the header that was sent last before it */
static int lines(int u, const char *head)
{
    int e, n = 0, h = -1, l, hl = (int)strlen(head);
    for (e = 0; e < vp_nev; e++) {
        const char *d = field(e, 1, &l);
        if (vp_ev[e].data[1] != 'i') continue;
        if (field_is(e, 0, "co") && l > 7 && bytes_same(d, "Group: ", 7)) h = l > 7 + hl && bytes_same(d + 7, head, hl) && d[7 + hl] == ' ';
        if (field_is(e, 0, "wl") && field_is(e, 2, u_tab[u].nickname)) {
            n += h == 1 ? 1 : 100;
            VP_ASSERT(field_is(e, 1, g_tab[ieq(u_tab[u].group, GB) ? 2 : 1].mod == u ? "m" : " "), "a listing is wrong about who moderates");
            VP_ASSERT(field_is(e, 6, u_tab[u].loginid) && field_is(e, 7, u_tab[u].nodeid), "a listing shows the wrong login or host");
        }
    }
    return n;
}
static int header(const char *name)
{
    int e, n = 0, l, hl = (int)strlen(name);
    for (e = 0; e < vp_nev; e++) {
        const char *d = field(e, 1, &l);
        if (vp_ev[e].data[1] == 'i' && field_is(e, 0, "co") && l > 7 + hl && bytes_same(d, "Group: ", 7) && bytes_same(d + 7, name, hl) && d[7 + hl] == ' ') n++;
    }
    return n;
}
static const char *sec(const char *n) { static char b[2][12]; static int k; char *r = b[k++ & 1]; strcpy(r, "*"); strcat(r, n); strcat(r, "*"); return r; }
/* does the name of the other group appear?  (where one name is a beginning of
 * the other, the header tells) */
static int shown_name(void)
{
    if (strcmp(GB, "Alpha")) return told(ME, GB) || told(ME, "BETA") || told(ME, "beta");
    return header("Alpha") || header("*Alpha*");
}
static void listing(void)
{
    static const char *const A[] = { "", "-s", "-g", "-S " };
    int a = vp_pick(0, 3), i, vis, hid; const char *h1, *h2;
    world();
    vis = g_tab[2].visibility;
    hid = vis != VISIBLE && !invited;
    h1 = g_tab[1].visibility == VISIBLE ? GA : sec(GA);
    h2 = vis == VISIBLE ? GB : hid ? "-SECRET-" : sec(GB);
    snap();
    clear_ev();
    cmd(ME, "w", A[a]);
    all_same("a listing changed something");
    for (i = 0; i < NU; i++) if (i != ME) VP_ASSERT(vp_sent[i] == 0, "somebody else sees the listing");
    VP_ASSERT(count_type(ME, 'e') == 0, "a listing fails");
    if (hid) VP_ASSERT(!shown_name(), "the name of a secret group is shown to an outsider");
    VP_ASSERT(header(h1) == 1, "the requester's own group is shown");
    if (!adm) VP_ASSERT(!told(ME, "ICB") && !told(ME, "Server"), "the server's own group is shown");
    if (hid && vis == SUPERSECRET) {
        VP_ASSERT(!told(ME, "topicb") && header("-SECRET-") == 0, "a super-secret group is shown to an outsider");
        for (i = 1; i < NU; i++) if (in(i, 2)) VP_ASSERT(!told(ME, NICKS[i]) && !told(ME, IDS[i]), "who is in a super-secret group is shown to an outsider");
    } else {
        VP_ASSERT(header(h2) == 1, "a group that may be seen is not shown");
        for (i = 1; i < NU; i++) if (in(i, 2)) {
            if (a == 0) VP_ASSERT(lines(i, h2) == 1, "a member of a group that may be seen is not shown once, under the group");
            else if (a != 2) VP_ASSERT(told(ME, NICKS[i]), "a member of a group that may be seen is not shown");
            else VP_ASSERT(!told(ME, IDS[i]), "members are shown though only groups were asked for");
        }
    }
    for (i = 1; i < NU; i++) if (in(i, 1)) {
        if (a == 0) VP_ASSERT(lines(i, h1) == 1, "a member of the own group is not shown once, under the group");
        else if (a != 2) VP_ASSERT(told(ME, u_tab[i].nickname), "a member of the own group is not shown");
    }
    VP_WITNESS(hid && vis == SECRET && header("-SECRET-") == 1, "a secret group");
    VP_WITNESS(hid && vis == SUPERSECRET, "a super-secret group");
    VP_WITNESS(!hid && vis == SUPERSECRET && !adm, "invited to a super-secret group");
}
/* the listing a client may have instead of a login */
static void unlogged(void)
{
    static const char *const N[] = { "Bob", "ADMIN", "x" }, *const A[] = { "", "-s", "-g", "@Cat", "@cat", "nowhere", 0, 0 };
    int a = vp_pick(0, 7), wg = vp_pick(0, 1), i, vis[3], hid[3]; const char *h[3]; char b[80];
    guest = 1;
    world();
    strcpy(b, "ub\1"); strcat(b, N[vp_pick(0, 2)]); strcat(b, "\1"); strcat(b, a == 6 ? GA : a == 7 ? GB : A[a]); strcat(b, wg ? "\1wg\1" : "\1w\1");
    for (i = 1; i < 3; i++) {
        const char *g = i == 1 ? GA : GB;
        vis[i] = g_tab[i].visibility; hid[i] = vis[i] != VISIBLE && !(i == 2 && invited);
        h[i] = vis[i] == VISIBLE ? g : hid[i] ? "-SECRET-" : sec(g);
    }
    snap();
    clear_ev();
    pkt(ME, 'a', b);
    VP_ASSERT(count_type(ME, 'g') == 1 && count_type(ME, 'a') == 0 && u_tab[ME].login == LOGIN_FALSE, "a client that asked for a listing only is logged in");
    VP_ASSERT(vp_disc[ME] + S_kill[ME] == 1, "a client that asked for a listing only is kept");
    for (i = 0; i < NU; i++) if (i != ME) VP_ASSERT(vp_sent[i] == 0 && same_u(i), "somebody else is affected by the listing");
    for (i = 0; i < MAX_GROUPS; i++) VP_ASSERT(same_g(i), "the listing changed a group");
    if (!wg) a = 0;                                     /* the group asked for does not count */
    VP_ASSERT(!told(ME, "ICB") && !told(ME, "Server"), "the server's own group is shown");
    if (a > 2) {
        if (a == 3 || a == 4) {
            if (vis[2] == SUPERSECRET) VP_ASSERT(count_ev(ME, 'e', "User not found.", 0) == 1 && count_type(ME, 'i') == 0, "a user in a super-secret group is not found");
            else VP_ASSERT(header(h[2]) == 1 && lines(3, h[2]) == 1, "a user's group is shown");
            VP_ASSERT(!told(ME, "talpha"), "another group is shown");
        }
        if (a == 5) VP_ASSERT(count_type(ME, 'e') == 1 && count_type(ME, 'i') == 0, "an unknown group is reported");
        if (a >= 6 && vis[a - 5] == VISIBLE) VP_ASSERT(header(h[a - 5]) == 1 && !told(ME, a == 6 ? "topicb" : "talpha"), "the group asked for is shown");
        if (a != 7 && hid[2] && vis[2] == SUPERSECRET) VP_ASSERT(!told(ME, "topicb"), "a listing before login reveals a super-secret group");
        return;
    }
    for (i = 1; i < 3; i++) {
        int j, n = 0, k;
        for (k = 1; k < 3; k++) n += !strcmp(h[k], h[i]) && !(hid[k] && vis[k] == SUPERSECRET);
        if (hid[i] && vis[i] == SUPERSECRET) {
            VP_ASSERT(!told(ME, i == 1 ? "talpha" : "topicb"), "a listing before login shows a super-secret group");
            for (j = 1; j < NU; j++) if (in(j, i)) VP_ASSERT(!told(ME, NICKS[j]) && !told(ME, IDS[j]), "a listing before login shows who is in a super-secret group");
        } else {
            VP_ASSERT(header(h[i]) == n && told(ME, i == 1 ? "talpha" : "topicb"), "a group that may be seen is not shown");
            for (j = 1; j < NU; j++) if (in(j, i)) {
                if (a == 0) VP_ASSERT(lines(j, h[i]) == 1, "a member of a group that may be seen is not shown once, under the group");
                else if (a == 1) VP_ASSERT(told(ME, NICKS[j]), "a member of a group that may be seen is not shown");
                else VP_ASSERT(!told(ME, IDS[j]), "members are shown though only groups were asked for");
            }
        }
        if (hid[i] && i == 2) VP_ASSERT(!shown_name(), "a listing before login shows the name of a secret group");
    }
    VP_WITNESS(hid[2] && vis[2] == SUPERSECRET && wg && a == 1, "a super-secret group in a listing before login");
    VP_WITNESS(!hid[2] && vis[2] == SUPERSECRET, "a super-secret group shown to an invited host");
}
/* looking up users and groups by name */
static void lookup(void)
{
    static const char *const A[] = { "@Cat", "@cat", "-s @Cat", "Cat", "@nobody", ".", "@Bob", 0, 0, "?", "nowhere" };
    int w = vp_case - 1, a = vp_pick(0, 10), i, vis, hid;
    world();
    vis = g_tab[2].visibility;
    hid = vis != VISIBLE && !invited;
    snap();
    clear_ev();
    cmd(ME, w ? "whereis" : "w", a == 7 ? GB : a == 8 ? GA : A[a]);
    all_same("a look-up changed something");
    for (i = 0; i < NU; i++) if (i != ME) VP_ASSERT(vp_sent[i] == 0, "somebody else sees the look-up");
    VP_ASSERT(vp_sent[ME] > 0, "a look-up is not answered");
    if (a != 7 && hid) VP_ASSERT(!shown_name(), "a look-up reveals a hidden group");
    if (a != 7 && hid && vis == SUPERSECRET && !w) VP_ASSERT(!told(ME, "topicb") && !told(ME, "hc") && header("-SECRET-") == 0, "a look-up reveals a super-secret group");
    if (a != 7 && hid && vis == SUPERSECRET && w) VP_ASSERT(!told(ME, "topicb") && header("-SECRET-") == 0, "a look-up reveals a super-secret group");
    if (!w && a < 2) {
        if (vis == SUPERSECRET && !adm) VP_ASSERT(vp_sent[ME] == 1 && count_ev(ME, 'e', "User not found.", 0) == 1, "a user in a super-secret group is not found");
        else VP_ASSERT(header(vis == VISIBLE ? GB : hid ? "-SECRET-" : sec(GB)) == 1 && lines(3, vis == VISIBLE ? GB : hid ? "-SECRET-" : sec(GB)) == 1, "a user's group is shown");
    }
    if (!w && (a == 5 || a == 8)) VP_ASSERT(header(g_tab[1].visibility == VISIBLE ? GA : sec(GA)) == 1 && header(GB) == 0, "the group asked for is shown");
    if (!w && a == 7 && vis == VISIBLE) VP_ASSERT(header(GB) == 1 && lines(3, GB) == 1 && header(GA) == 0, "the group asked for is shown");
    if (!w && (a == 3 || a == 10)) VP_ASSERT(vp_sent[ME] == 1 && count_type(ME, 'e') == 1, "an unknown group is reported");
}
/* a group of many, with names of any lengths: everyone appears once */
#if MAX_USERS > 8
static int letters(char c)
{
    int e, i, n = 0;
    for (e = 0; e < vp_nev; e++) for (i = 2; i < vp_ev[e].len; i++) n += vp_ev[e].data[i] == c;
    return n;
}
static void crowd(void)
{
    static const char L[] = "?XYQJKVZ"; int i, j, n[8], a = vp_pick(0, 2);
    srv_init();
    add_group(1, "Alpha");
    for (i = 1; i < 8; i++) {
        char nm[MAX_NICKLEN + 1];
        n[i] = i < 4 ? 12 : i == 4 || i == 5 ? vp_pick(1, 12) : i == 6 ? vp_pick(8, 9) : 3;
        for (j = 0; j < n[i]; j++) nm[j] = L[i];
        nm[j] = 0;
        fill_user_entry(i, "u", "h", nm, "", "Alpha", "", LOGIN_COMPLETE, 0, 0, PERM_NULL);
        u_tab[i].t_on = u_tab[i].t_recv = u_tab[i].t_group = vp_now - 100 + (i & 3);
    }
    clear_ev();
    cmd(ME, "w", a == 0 ? "-s" : a == 1 ? "" : "-s alpha");
    for (i = 1; i < 8; i++) VP_ASSERT(letters(L[i]) == n[i], "a member is not shown exactly once");
    for (i = 0; i < NU; i++) if (i != ME) VP_ASSERT(vp_sent[i] == 0, "somebody else sees the listing");
    VP_WITNESS(n[4] == 12 && n[5] == 1, "two lines");
}
#endif
void harness(void)
{
#if MAX_USERS > 8
    crowd(); return;
#endif
    if (vp_case == 0) listing(); else if (vp_case == 3) unlogged(); else lookup();
}
