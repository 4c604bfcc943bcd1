/* the moderator's powers are the moderator's */
#include "srv.h"
#include "mapdb.h"
static int admin_;
static int mod_;          /* moderator of Alpha: slot or -1 */
static int held;          /* the role is held for an absent moderator */
static void world(const char *g1, int few)
{
    int w;
    srv_init();
    any_members(g1, "Alphab", 0);
    any_group(1);
    any_mod(1);
    mod_ = g_tab[1].mod;
    held = 0;
    if (mod_ < 0 && !few && vp_pick(0, 1)) { held = 1; g_tab[1].modtimeout = T0 + 5; strcpy(g_tab[1].missingmod, "Old"); }
    w = few && !vp_deep ? vp_pick(0, 1) : vp_pick(0, 3);
    if (w == 1) { strcpy(u_tab[ME].nickname, "Admin"); strcpy(u_tab[ME].password, "Zp9"); }
    if (w == 2) { strcpy(u_tab[ME].nickname, "Admin"); strcpy(u_tab[ME].password, "no"); }
    if (w == 3) { strcpy(u_tab[ME].password, "Zp9"); }
    admin_ = w == 1;
    if (g_tab[2].name[0]) { if (few && !vp_deep) g_tab[2].mod = ME; else any_mod(2); }
}
static void refused(void)
{
    int i;
    all_same("a command only the moderator may give had an effect");
    VP_ASSERT(count_type(ME, 'e') >= 1, "the refusal is not reported");
    for (i = 0; i < NU; i++) if (i != ME) VP_ASSERT(vp_sent[i] == 0, "somebody heard of a refused command");
}
static void others_same(int but)
{
    int i;
    for (i = 0; i < MAX_USERS; i++) if (i != but) VP_ASSERT(same_u(i), "a moderator's command changed a user");
}
/* every member of group 1 (and nobody else) got exactly n status packets of that kind */
static void group_told(const char *cat, int n)
{
    int i;
    for (i = 1; i < NU; i++) VP_ASSERT(count_ev(i, 'd', cat, 0) == (in(i, 1) ? n : 0), "exactly the members of the group are told");
}
static void pass(void)
{
    static const char *const A[] = { "", "ann", "Cat", "Bob", "server", "Nobody", "Ann x", "SERVER" };
    int a, d;
    world("Alpha", 0);
    a = vp_pick(0, 7);
    snap();
    clear_ev();
    cmd(ME, "pass", A[a]);
    VP_WITNESS(admin_ && mod_ == 1 && a == 0, "the administrator takes the role away");
    VP_WITNESS(mod_ == ME && a == 2 && in(3, 2), "passed to someone in another group");
    if (!admin_ && mod_ != ME) { refused(); return; }
    d = a == 1 || a == 6 ? (on(1) ? 1 : 0) : a == 2 ? (on(3) ? 3 : 0) : a == 3 ? (ieq(u_tab[ME].nickname, "Bob") ? ME : 0) : 0;
    if (a && !d) { refused(); return; }
    VP_ASSERT(g_tab[1].mod == (a ? d : -1), "the role goes to the user named, or to nobody");
    if (!a && sg[1].control == CONTROLLED) VP_ASSERT(g_tab[1].control != CONTROLLED, "a controlled group without moderator");
    else g_tab[1].control = sg[1].control;
    if (!a) g_tab[1].control = sg[1].control;
    g_tab[1].mod = sg[1].mod;
    all_same("passing the role changed something else");
    g_tab[1].mod = a ? d : -1;
    invariants();
}
static void boot(void)
{
    static const char *const A[] = { "ann", "Cat", "Bob", "Nobody", "server", "aDMIN", "" };
    static const char *const T[] = { "", " away with %s!", " out" };
    int a, t, d, i, ok, g, was; char arg[32];
    world("Alpha", 1);
    t = vp_pick(0, 2);
    a = vp_pick(0, 6);
    if (vp_pick(0, 1) && on(1) && !ieq(u_tab[ME].nickname, "Admin")) { strcpy(u_tab[1].nickname, "Admin"); }
    i = vp_pick(0, 5);
    if (i == 1) { nlput(g_tab[1].n_invites, "Ann"); nlput(g_tab[1].n_invites, "Cat"); }
    if (i == 5) { nlput(g_tab[1].n_invites, "Ann"); nlput(g_tab[1].nr_invites, "ann"); if (on(1)) strcpy(u_tab[1].realname, "registered"); }
    if (i == 2) nlput(g_tab[1].nr_invites, "Ann");
    if (i == 3) { nlput(g_tab[1].n_talk, "Ann"); nlput(g_tab[1].s_invites, "*"); }
    was = vp_pick(0, 1);
    if (was) VP_ASSUME(i == 0 && t == 0);
    if (was && g_tab[2].name[0]) { strcpy(g_tab[2].name, "~RESEDA~"); g_tab[2].control = PUBLIC; g_tab[2].mod = -1; for (i = 0; i < NU; i++) if (ieq(u_tab[i].group, "Alphab")) strcpy(u_tab[i].group, "~RESEDA~"); }
    strcpy(arg, A[a]); strcat(arg, T[t]);
    d = -1;
    for (i = 1; i < NU; i++) if (on(i) && A[a][0] && ieq(A[a], u_tab[i].nickname)) d = i;
    ok = (admin_ || mod_ == ME) && d > 0 && !ieq(A[a], "admin") && in(d, 1);
    VP_ASSUME(A[a][0] || t == 0);
    snap();
    clear_ev();
    cmd(ME, "boot", arg);
    VP_WITNESS(ok && t == 1 && d == 1, "a boot with a message");
    VP_WITNESS(d == 1 && a == 5 && mod_ == ME, "an attempt on the administrator");
    if (!ok) {
        all_same("a boot that is not allowed had an effect");
        if (!admin_ && mod_ != ME) refused();
        for (i = 1; i < NU; i++) if (i != ME && i != d) VP_ASSERT(vp_sent[i] == 0, "somebody heard of a boot that did not take place");
        VP_ASSERT(vp_sent[ME] >= 1, "the refusal is not reported");
        return;
    }
    VP_ASSERT(ieq(u_tab[d].group, "~RESEDA~"), "the booted user is not moved out");
    VP_ASSERT(count_ev(d, 'd', "Boot", 0) >= 1, "the booted user is not told");
    for (i = 1; i < NU; i++) if (i != d) {
        int e = sg[1].volume != QUIET && on(i) && ieq(su[i].group, "Alpha");
        VP_ASSERT(same_u(i), "a boot changed another user");
        VP_ASSERT(count_ev(i, 'd', "Boot", 0) == e, "the group is told of the boot");
        if (e && t == 1) VP_ASSERT(told(i, d == 1 ? "away with Ann!" : d == 3 ? "away with Cat!" : "away with"), "the message is filled in");
        if (e && t == 2) VP_ASSERT(told(i, "out") && told(i, u_tab[d].nickname), "the message is given");
    }
    VP_ASSERT(same_u(NICKSERV), "a boot changed another user");
    for (g = 1; g < MAX_GROUPS; g++) if (g != 1 && sg[g].name[0] && g_tab[g].name[0]) VP_ASSERT(same_g(g), "a boot changed another group");
    if (g_tab[1].name[0] && ieq(g_tab[1].name, "Alpha")) {
        VP_ASSERT(nlpresent(u_tab[d].nickname, *g_tab[1].n_invites) <= 0 && nlpresent(u_tab[d].nickname, *g_tab[1].nr_invites) <= 0, "the booted user is still invited");
        VP_ASSERT(g_tab[1].mod == mod_ && g_tab[1].control == sg[1].control && g_tab[1].visibility == sg[1].visibility && g_tab[1].volume == sg[1].volume
                  && !strcmp(g_tab[1].topic, sg[1].topic) && g_tab[1].size == sg[1].size, "a boot changed the group's settings");
    } else VP_ASSERT(members("Alpha") == 0, "the group is gone");
    invariants();
    /* a boot opens no doors */
    if (g_tab[1].name[0] && ieq(g_tab[1].name, "Alpha") && g_tab[1].control == RESTRICTED && d != mod_ && !nlcount(*g_tab[1].s_invites) && !(d == ME && admin_)) {
        snap();
        cmd(d, "g", "Alpha");
        VP_WITNESS(1, "back again");
        all_same("a booted user gets back into a restricted group without invitation");
    }
}
/* the status command, each option */
enum { O_R, O_M, O_P, O_C, O_I, O_S, O_V, O_Q, O_N, O_L, O_SIZE, O_B, O_IM, O_NAME, O_MSG, O_BAD };
static void status(void)
{
    static const char *const O[] = { "r", "m", "p", "c", "i", "s", "v", "q", "n", "l", "# 2", "b 5", "im 5", "name New", "idlebootmsg bye %s now", "zz" };
    int o, may, needs, i, ok; struct gsnap *b = &sg[1]; GROUP_ITEM *g = &g_tab[1];
    world("Alpha", 0);
    o = vp_pick(0, 15);
    i = vp_pick(0, 2);
    if (i == 1) { nlput(g->n_invites, "Ann"); nlput(g->s_invites, "X"); nlput(g->nr_invites, "Z"); nlput(g->sr_invites, "Y"); }
    if (i == 2) { nlput(g->n_talk, "Ann"); nlput(g->nr_talk, "Z"); }
    if (o == O_R && vp_pick(0, 1)) strcpy(u_tab[in(1, 1) ? 1 : ME].realname, "registered");
    may = mod_ == ME || (mod_ < 0 && !held) || g->control == PUBLIC;
    needs = o == O_R || o == O_M || o == O_C || o == O_Q || o == O_B || o == O_IM;
    ok = may && o != O_BAD && (!needs || mod_ >= 0 || held);
    snap();
    clear_ev();
    cmd(ME, "status", O[o]);
    VP_WITNESS(ok && o == O_R && in(1, 1), "restricted");
    VP_WITNESS(!ok && needs && may, "not without moderator");
    VP_WITNESS(admin_ && !may, "not even the administrator");
    if (!ok) { refused(); return; }
    VP_ASSERT(count_type(ME, 'e') == 0, "an error for a permitted change");
    if (o != O_NAME) others_same(-1);
    for (i = 0; i < MAX_GROUPS; i++) if (i != 1) VP_ASSERT(same_g(i), "another group changed");
    for (i = 1; i < NU; i++) if (!in(i, 1) && i != mod_) VP_ASSERT(vp_sent[i] == 0, "somebody outside the group was told");
    if (o != O_MSG) group_told("Change", 1);
    switch (o) {
    case O_R: VP_ASSERT(g->control == RESTRICTED, "the control asked for"); break;
    case O_M: VP_ASSERT(g->control == MODERATED, "the control asked for"); break;
    case O_P: VP_ASSERT(g->control == PUBLIC, "the control asked for"); break;
    case O_C: VP_ASSERT(g->control == CONTROLLED, "the control asked for"); break;
    case O_I: VP_ASSERT(g->visibility == SUPERSECRET, "the visibility asked for"); break;
    case O_S: VP_ASSERT(g->visibility == SECRET, "the visibility asked for"); break;
    case O_V: VP_ASSERT(g->visibility == VISIBLE, "the visibility asked for"); break;
    case O_Q: VP_ASSERT(g->volume == QUIET, "the volume asked for"); break;
    case O_N: VP_ASSERT(g->volume == NORMAL, "the volume asked for"); break;
    case O_L: VP_ASSERT(g->volume == LOUD, "the volume asked for"); break;
    case O_SIZE: VP_ASSERT(g->size == 2, "the size asked for"); break;
    case O_B: VP_ASSERT(g->idleboot == 300, "the idle limit asked for"); break;
    case O_IM: VP_ASSERT(g->idlemod == 300, "the idle limit asked for"); break;
    case O_MSG: VP_ASSERT(!strcmp(g->idleboot_msg, "bye %s now"), "the message asked for"); break;
    case O_NAME:
        VP_ASSERT(!strcmp(g->name, "New"), "the name asked for");
        for (i = 1; i < NU; i++) {
            if (on(i) && ieq(su[i].group, "Alpha")) VP_ASSERT(ieq(u_tab[i].group, "New"), "a member of the renamed group is not in it");
            else VP_ASSERT(same_u(i), "somebody else was moved by the renaming");
        }
        break;
    }
    if (o == O_R) for (i = 1; i < NU; i++)      /* who is in stays invited */
        if (in(i, 1)) VP_ASSERT(nlpresent(u_tab[i].nickname, u_tab[i].realname[0] ? *g->nr_invites : *g->n_invites) > 0, "a member is not invited when the group becomes restricted");
    if (o <= O_C && o != O_R) VP_ASSERT(!nlcount(*g->n_invites) && !nlcount(*g->nr_invites) && !nlcount(*g->s_invites) && !nlcount(*g->sr_invites), "invitations outlive the restriction");
    /* nothing else */
    if (o > O_C) VP_ASSERT(g->control == b->control, "the control changed");
    if (o < O_I || o > O_V) VP_ASSERT(g->visibility == b->visibility, "the visibility changed");
    if (o < O_Q || o > O_L) VP_ASSERT(g->volume == b->volume, "the volume changed");
    if (o != O_SIZE) VP_ASSERT(g->size == b->size, "the size changed");
    if (o != O_B) VP_ASSERT(g->idleboot == b->idleboot, "the idle limit changed");
    if (o != O_IM) VP_ASSERT(g->idlemod == b->idlemod, "the moderator's idle limit changed");
    if (o != O_NAME) VP_ASSERT(!strcmp(g->name, b->name), "the name changed");
    VP_ASSERT(g->mod == mod_ && !strcmp(g->topic, b->topic), "the moderator or topic changed");
    { static struct gsnap s; take_g(&s, 1);
      for (i = 0; i < 10; i++) if (o > O_C || i >= 8) VP_ASSERT(bytes_same(s.l[i], b->l[i], SNL), "a list changed"); }
    invariants();
}
/* renaming a group to any name */
static void rename_(void)
{
    static const char *const S[] = { "1", "~idle~", "~RESEDA~", "alphab", "aLPHA", "abcdefghij", "ICB", "betagrpsX" };
    char t[16], arg[24]; int k, i, n, bad, sp = 0; char want[16];
    srv_init();
    any_members("Alpha", "Alphab", 0);
    g_tab[1].mod = ME;
    g_tab[1].control = MODERATED;
    k = vp_pick(0, 8);
    if (k == 8) { k = 7; sp = 1; }
    if (sp) { VP_ASSUME(g_tab[2].name[0]); strcpy(g_tab[2].name, "Betagrps"); for (i = 1; i < NU; i++) if (ieq(u_tab[i].group, "Alphab")) strcpy(u_tab[i].group, "Betagrps"); }
    if (k < 7 || sp) strcpy(t, S[k]);
    else {
        n = vp_pick(1, 2);
        for (i = 0; i < n; i++) { t[i] = (char)vp_int(1, 255); VP_ASSUME(t[i] != ' ' && t[i] != 9 && t[i] != 1 && t[i] != '1'); }
        t[n] = 0;
    }
    n = (int)strlen(t);
    for (i = 0; i < n && i < 8; i++) {
        int c = (unsigned char)t[i];
        want[i] = ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '.') | (c == '!') | (c == '\'')
            | (c == '$') | (c == '+') | (c == ',') | (c == '/') | (c == '?') | (c == '_') | (c == '~') ? c : '?';
    }
    want[i] = 0;
    bad = k < 3 || (k == 3 && g_tab[2].name[0]) || k == 6 || sp;
    strcpy(arg, "name "); strcat(arg, t);
    snap();
    clear_ev();
    cmd(ME, "status", arg);
    VP_WITNESS(k == 7 && n == 2, "renamed");
    VP_WITNESS(sp, "a name whose beginning is taken");
    if (bad) { refused(); return; }
    if (k < 7) VP_ASSERT(ieq(g_tab[1].name, want), "the name asked for");
    else VP_ASSERT(!strcmp(g_tab[1].name, want), "the name asked for, with only permitted characters");
    for (i = 1; i < NU; i++) {
        if (on(i) && ieq(su[i].group, "Alpha")) VP_ASSERT(ieq(u_tab[i].group, g_tab[1].name), "a member of the renamed group is not in it");
        else VP_ASSERT(same_u(i), "somebody else was moved by the renaming");
    }
    VP_ASSERT(g_tab[1].mod == ME, "the moderator changed");
    invariants();
}
static void topic(void)
{
    static const char *const G[] = { "Alpha", "1", "~IDLE~", "~RESEDA~" };
    char t[4], text[40], full[64]; int ok, i, s = vp_pick(0, 3), n;
    world(G[s], 0);
    n = vp_pick(0, 1);
    if (n) { t[0] = (char)vp_int(33, 126); t[1] = (char)vp_int(33, 126); t[2] = 0; strcpy(text, t); }
    else { strcpy(text, "0123456789012345678901234567890123456"); }
    ok = (mod_ < 0 || mod_ == ME) && s == 0;
    snap();
    clear_ev();
    cmd(ME, "topic", text);
    VP_WITNESS(ok && n && mod_ == ME, "topic");
    if (!ok) { refused(); return; }
    text[32] = 0;
    VP_ASSERT(!strcmp(g_tab[1].topic, text), "the topic asked for");
    strcpy(g_tab[1].topic, sg[1].topic);
    all_same("changing the topic changed something else");
    group_told("Topic", sg[1].volume != QUIET);
}
/* invitations and the talk list */
static void lists(void)
{
    static const char *const A[] = { "Ann", "-n cat", "-q bob", "-s uA@ha", "-r Ann", "-rs ua@ha", "-q -r Zed", "-x Ann", "" };
    int k = vp_pick(0, 2), a, i, can, r, site, d; static struct gsnap s; const char *who; int L;
    world("Alpha", 1);
    a = vp_pick(0, 8);
    i = vp_pick(0, 1);
    if (i) { nlput(g_tab[1].n_invites, "Ann"); nlput(g_tab[1].nr_invites, "Zed"); nlput(g_tab[1].nr_invites, "Ann"); nlput(g_tab[1].s_invites, "UA@HA"); nlput(g_tab[1].sr_invites, "UA@HA"); nlput(g_tab[1].n_talk, "Ann"); nlput(g_tab[1].nr_talk, "Zed"); }
    if (on(1) && vp_pick(0, 1)) strcpy(u_tab[1].realname, "registered");
    r = a == 4 || a == 5 || a == 6;
    site = a == 3 || a == 5;
    who = a == 0 || a == 4 ? "Ann" : a == 1 ? "cat" : a == 2 ? "bob" : a == 6 ? "Zed" : "UA@HA";
    for (d = NU - 1; d > 0; d--) if (on(d) && ieq(u_tab[d].nickname, who)) break;
    if (site || a >= 7 || (r && !u_tab[d].realname[0])) d = 0;
    can = k < 2 ? mod_ == ME && g_tab[1].control == RESTRICTED : mod_ == ME && g_tab[1].control != PUBLIC;
    snap();
    clear_ev();
    cmd(ME, k == 0 ? "invite" : k == 1 ? "cancel" : "talk", A[a]);
    VP_WITNESS(can && k == 0 && a == 5, "registered sites invited");
    VP_WITNESS(can && k == 2 && a == 0 && i, "the talk list replaced");
    take_g(&s, 1);
    for (i = 0; i < MAX_GROUPS; i++) if (i != 1) VP_ASSERT(same_g(i), "another group changed");
    others_same(-1);
    if (!can || a >= 7) {
        VP_ASSERT(same_g(1), "only the moderator changes the lists");
        /* an invitation to an open group is only a message */
        if (k == 0 && a < 7 && sg[1].control != RESTRICTED) {
            for (i = 1; i < NU; i++) VP_ASSERT(count_ev(i, 'd', "RSVP", 0) == (i == d) && (i == ME || vp_sent[i] == (i == d)), "somebody else is told of an invitation, or the one invited is not");
        } else {
            for (i = 1; i < NU; i++) if (i != ME) VP_ASSERT(vp_sent[i] == 0, "somebody heard of a refused command");
            VP_ASSERT(vp_sent[ME] >= 1, "the refusal is not reported");
        }
        return;
    }
    if (k == 0) for (i = 1; i < NU; i++) VP_ASSERT(count_ev(i, 'd', "RSVP", 0) == (i == d) && (i == ME || vp_sent[i] == (i == d)), "somebody else is told of an invitation, or the one invited is not");
    for (i = 1; i < NU; i++) if (i != ME) VP_ASSERT(vp_sent[i] <= 2, "told too often");
    for (i = 4; i < 8; i++) VP_ASSERT(bytes_same(s.l[i], sg[1].l[i], SNL), "another list changed");
    VP_ASSERT(s.mod == sg[1].mod && s.control == sg[1].control && s.visibility == sg[1].visibility && s.volume == sg[1].volume && s.size == sg[1].size
              && !strcmp(s.topic, sg[1].topic), "a list command changed the settings");
    if (k == 0) {
        NAMLIST *nl[4]; nl[0] = g_tab[1].n_invites; nl[1] = g_tab[1].nr_invites; nl[2] = g_tab[1].s_invites; nl[3] = g_tab[1].sr_invites;
        L = site * 2 + r;
        VP_ASSERT(nlpresent((char *)who, *nl[L]) > 0, "the invitation is not on its list");
        for (i = 0; i < 4; i++) if (i != L) VP_ASSERT(bytes_same(s.l[i], sg[1].l[i], SNL), "another list changed");
    }
    if (k == 1 && !r) {
        if (!site) VP_ASSERT(nlpresent((char *)who, *g_tab[1].n_invites) <= 0 && nlpresent((char *)who, *g_tab[1].nr_invites) <= 0, "a cancelled invitation remains");
        else VP_ASSERT(nlpresent((char *)who, *g_tab[1].s_invites) <= 0 && nlpresent((char *)who, *g_tab[1].sr_invites) <= 0, "a cancelled invitation remains");
        for (i = site ? 0 : 2; i < (site ? 2 : 4); i++) VP_ASSERT(bytes_same(s.l[i], sg[1].l[i], SNL), "another list changed");
    }
    if (k < 2) for (i = 8; i < 10; i++) VP_ASSERT(bytes_same(s.l[i], sg[1].l[i], SNL), "another list changed");
    if (k == 2) {
        for (i = 0; i < 4; i++) VP_ASSERT(bytes_same(s.l[i], sg[1].l[i], SNL), "another list changed");
        if (!site && a != 1) {
            VP_ASSERT(nlpresent((char *)who, r ? *g_tab[1].nr_talk : *g_tab[1].n_talk) > 0, "the user may not talk");
            VP_ASSERT(nlcount(*g_tab[1].nr_talk) + nlcount(*g_tab[1].n_talk) == 1, "the talk list was not replaced");
        }
    }
}
/* adding to and taking from the talk list */
static void talk(void)
{
    static const char *const A[] = { "-a Cat", "-d Ann", "-ar Cat", "-d zed", "-d Nobody", "-aq Ann" };
    int a;
    srv_init();
    any_members("Alpha", "Alphab", 0);
    any_group(1);
    any_mod(1);
    nlput(g_tab[1].n_talk, "Ann"); nlput(g_tab[1].nr_talk, "Zed");
    a = vp_pick(0, 5);
    snap();
    clear_ev();
    cmd(ME, "talk", A[a]);
    if (g_tab[1].mod != ME || sg[1].control == PUBLIC) { refused(); return; }
    VP_ASSERT((nlpresent("Ann", *g_tab[1].n_talk) > 0) == (a != 1), "the talk list");
    VP_ASSERT((nlpresent("Zed", *g_tab[1].nr_talk) > 0) == (a != 3), "the registered talk list");
    VP_ASSERT((nlpresent("Cat", *g_tab[1].n_talk) > 0) == (a == 0), "the talk list");
    VP_ASSERT((nlpresent("Cat", *g_tab[1].nr_talk) > 0) == (a == 2), "the registered talk list");
    VP_ASSERT(nlcount(*g_tab[1].n_talk) == (a == 0 ? 2 : a == 1 ? 0 : 1), "the talk list");
    VP_ASSERT(nlcount(*g_tab[1].nr_talk) == (a == 2 ? 2 : a == 3 ? 0 : 1), "the registered talk list");
    others_same(-1);
}
/* numbers, several options at once, groups nobody may change */
static void options(void)
{
    static const char *const A[] = { "#", "# 0", "# 1", "# 4", "# 5", "# -1", "# x", "b", "b 0", "b 1", "b -1", "b 90", "im", "im 0", "im 240", "im 241", "im -1", "im 1",
        "v q", "# v", "b 7 s", "im 7 s", "q l", "zz i", "name", "i zz", "# 9 l" };
    static const char *const G[] = { "Alpha", "1", "~IDLE~", "~RESEDA~" };
    int a, s, hm, e = 0, c = 0; GROUP_ITEM *g = &g_tab[1]; struct gsnap x;
    s = vp_pick(0, 3);
    srv_init();
    any_members(G[s], "Alphab", 0);
    g->control = vp_pick(0, 1) ? MODERATED : PUBLIC;
    g->size = 2;
    g->volume = NORMAL;
    if (vp_pick(0, 1)) g->mod = ME;
    hm = g->mod == ME;
    a = vp_pick(0, 26);
    snap();
    clear_ev();
    cmd(ME, "status", A[a]);
    if (s) { refused(); return; }
    x = sg[1];
    switch (a) {
    case 0: case 4: case 5: case 24: e = 1; break;
    case 1: case 6: x.size = 0; c = 1; break;
    case 2: x.size = 1; c = 1; break;
    case 3: x.size = 4; c = 1; break;
    case 7: case 10: case 12: case 15: case 16: e = 1; break;
    case 8: x.idleboot = 0; c = 1; break;
    case 9: x.idleboot = 60; c = 1; break;
    case 11: x.idleboot = 5400; c = 1; break;
    case 13: case 14: x.idlemod = 14400; c = 1; break;
    case 17: x.idlemod = 60; c = 1; break;
    case 18: x.volume = QUIET; c = 2; break;
    case 19: x.size = 0; c = 1; break;
    case 20: x.idleboot = 420; x.visibility = SECRET; c = 2; break;
    case 21: x.idlemod = 420; x.visibility = SECRET; c = 2; break;
    case 22: x.volume = LOUD; c = 2; break;
    case 23: case 25: x.visibility = SUPERSECRET; c = 1; e = 1; break;
    case 26: x.volume = LOUD; c = 1; e = 1; break;
    }
    if (!hm && ((a >= 7 && a <= 18) || a == 20 || a == 21 || a == 22)) {     /* not without a moderator */
        x.idleboot = sg[1].idleboot; x.idlemod = sg[1].idlemod; if (a == 18) x.volume = sg[1].volume;
        e = 1; c = a >= 18 ? 1 : 0;
    }
    VP_WITNESS(a == 21 && !hm, "the rest of the line");
    VP_ASSERT(count_type(ME, 'e') == e, "exactly what is not permitted is refused");
    group_told("Change", c);
    sg[1] = x;
    all_same("the settings asked for, and nothing else");
    invariants();
}
/* a group held for its registered moderator goes back to exactly that one */
#include "fs.h"
#include <netinet/in.h>
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
    struct sockaddr_in s;
    memset(&s, 0, sizeof s);
    s.sin_family = AF_INET;
    memcpy(a, &s, sizeof s);
    *l = sizeof s;
    return 0;
}
static void comeback(void)
{
    static const char *const N[] = { "Zed", "Ze", "Zedd", "Zee" };
    static const char *const K[] = { "zed", "ze", "zedd", "zee" };
    char b[64], k[24]; int i, n = vp_pick(0, 3), w = vp_pick(0, 4), home = vp_pick(0, 1), sec = vp_pick(0, 1), g2 = vp_pick(0, 2), in2, auth, reg, back;
    srv_init();
    fs_text("./motd", "hi\n");
    add_group(1, "Alpha"); add_user(1, "Alpha");
    if (g2) { add_group(2, "Alphab"); add_user(3, "Alphab"); }
    strcpy(g_tab[1].missingmod, "Zed"); g_tab[1].modtimeout = T0 + vp_int(-50, 300); g_tab[1].control = MODERATED;
    if (g2 == 1) { strcpy(g_tab[2].missingmod, "Zedd"); g_tab[2].modtimeout = T0 + 7; }
    if (g2 == 2) g_tab[2].mod = 3;
    for (i = 0; i < 4; i++) {
        strcpy(k, K[i]); strcat(k, ".nick"); vp_db_put(k, N[i]);
        strcpy(k, K[i]); strcat(k, ".password"); vp_db_put(k, "pw");
        strcpy(k, K[i]); strcat(k, ".home"); vp_db_put(k, home ? "ub@h" : "ub@x");
        if (sec) { strcpy(k, K[i]); strcat(k, ".secure"); vp_db_put(k, "SECURED"); }
    }
    auth = home && !sec;
    in2 = g2 ? vp_pick(0, 1) : 0;
    snap();
    s_new_user(ME, 0);
    clear_ev();
    strcpy(b, "ub\1"); strcat(b, w == 4 ? "Bob" : N[n]); strcat(b, in2 ? "\1Alphab\1login\1" : "\1Alpha\1login\1"); strcat(b, w == 1 ? "pw" : w == 2 ? "px" : "");
    pkt(ME, 'a', b);
    VP_ASSERT(on(ME), "the login");
    if (w == 3) { int bad = vp_pick(0, 1); cmd(ME, "p", bad ? "px" : "pw"); reg = auth || !bad; }
    else reg = w == 1 ? 1 : auth;
    if (w == 4) cmd(ME, "name", N[n]);
    back = reg && n == 0;
    VP_ASSERT(g_tab[1].mod == (back ? ME : -1), back ? "a moderator does not get a group held for them back" : "someone gets a group that is held for another");
    if (back) {
        VP_ASSERT(g_tab[1].modtimeout == 0 && !g_tab[1].missingmod[0], "the group is still held");
        VP_ASSERT(count_ev(1, 'd', "Mod", "Zed is the active moderator again.") == 1, "the group is not told that the moderator is back");
        VP_ASSERT(told(ME, "You are the moderator of group Alpha"), "the moderator is not told");
        g_tab[1].mod = -1; strcpy(g_tab[1].missingmod, sg[1].missingmod); g_tab[1].modtimeout = sg[1].modtimeout;
    }
    VP_ASSERT(same_g(1), "a moderator's return changed more than the moderator");
    back = reg && n == 2 && g2 == 1;
    VP_ASSERT(g_tab[2].mod == (back ? ME : g2 == 2 ? 3 : -1), "a group held for one moderator goes to another");
    if (!back) VP_ASSERT(same_g(2), "another group changed");
    for (i = 1; i < NU; i++) if (i != ME) VP_ASSERT(same_u(i), "another user changed");
    VP_WITNESS(n == 0 && reg && w == 3 && !auth, "back with a password");
    VP_WITNESS(back && in2, "back in another group");
}
void harness(void)
{
    switch (vp_case) {
    case 8: comeback(); break;
    case 0: pass(); break;
    case 1: boot(); break;
    case 2: status(); break;
    case 3: rename_(); break;
    case 4: topic(); break;
    case 5: lists(); break;
    case 6: talk(); break;
    case 7: options(); break;
    }
}
