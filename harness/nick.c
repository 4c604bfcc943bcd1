/* renames: unique, permitted, announced; registration status recomputed */
#include "srv.h"
#include "mapdb.h"
static int nickchar(int c)
{
    return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '.') | (c == '!') | (c == '\'')
        | (c == '$') | (c == '+') | (c == ',') | (c == '/') | (c == '?') | (c == '_') | (c == '@');
}
/* expected effect of /name on user n; f: the filtered name */
static void renamed(int n, const char *f, int ok, int reg /* 0 unknown 1 automatic 2 password needed */)
{
    int i, g; char old[16], text[64];
    strcpy(old, su[n].nickname);
    for (g = 1; g < MAX_GROUPS; g++) if (g_tab[g].name[0] && ieq(g_tab[g].name, u_tab[n].group)) break;
    if (!ok) {
        all_same("a refused rename had an effect");
        VP_ASSERT(count_type(n, 'e') == 1 && vp_nev == 1, "the user is told that the rename was refused, and nobody else");
        return;
    }
    VP_ASSERT(!strcmp(u_tab[n].nickname, f), "a permitted rename did not take effect as requested");
    strcpy(text, old); strcat(text, " changed nickname to "); strcat(text, f);
    for (i = 1; i < NU; i++) {
        int c = count_ev(i, 'd', "Name", text);
        if (i == n) { VP_ASSERT(c == 1, "the user is not told of the new name"); VP_ASSERT(count_type(n, 'e') == 0, "an error after a granted rename"); }
        else if (in(i, g)) VP_ASSERT(c == 1 && vp_sent[i] == 1, "a member of the group is not told once of the new name");
        else VP_ASSERT(vp_sent[i] == 0, "someone outside the group heard of a rename");
    }
    VP_ASSERT((u_tab[n].realname[0] != 0) == (reg == 1), "the registration status does not belong to the new name");
    for (i = 0; i < MAX_USERS; i++) if (i != n) VP_ASSERT(same_u(i), "a rename changed another user");
    for (i = 0; i < MAX_GROUPS; i++) VP_ASSERT(same_g(i), "a rename changed a group");
    VP_ASSERT(!strcmp(u_tab[n].loginid, su[n].loginid) && !strcmp(u_tab[n].nodeid, su[n].nodeid) && ieq(u_tab[n].group, su[n].group)
              && u_tab[n].perms == su[n].perms && on(n), "a rename changed more than the name");
    invariants();
}
static void any_name(void)
{
    char nick[16], f[16]; int i, n, k, free_ = 1, ok, admin;
    srv_init();
    any_members("Alpha", "Alphab", 1);
    any_group(1);
    n = vp_pick(0, 6);
    if (n == 6) { n = 4; strcpy(nick, "bobO"); if (on(3)) strcpy(u_tab[3].nickname, "Bobo"); }
    else if (n == 5) { n = 14; for (i = 0; i < n; i++) nick[i] = 'a' + i; }
    else if (n == 4) { n = 5; strcpy(nick, vp_pick(0, 1) ? "aDmin" : "ADMIN"); if (vp_pick(0, 1)) { n = 6; strcpy(nick, "sERVER"); } if (vp_pick(0, 1)) strcpy(u_tab[ME].password, vp_pick(0, 1) ? "Zp9" : "Zp99"); }
    else for (i = 0; i < n; i++) { nick[i] = i ? (char)vp_int('A', 'z') : (char)vp_int(2, 255); if (i) VP_ASSUME((nick[i] >= 'a') | (nick[i] <= 'Z')); }
    nick[n] = 0;
    if (n == 2 && on(1) && on(3)) { strcpy(u_tab[1].nickname, "?n"); strcpy(u_tab[3].nickname, "_t"); }     /* names that others are filtered to */
    if (n == 1 && on(1)) strcpy(u_tab[1].nickname, "B");          /* the beginning of one's own name */
    k = n > 12 ? 12 : n;
    for (i = 0; i < k; i++) {
        int c = (unsigned char)nick[i], good = nickchar(c);
        f[i] = good ? c : c == ' ' ? '_' : '?';
    }
    f[k] = 0;
    for (i = 0; i < MAX_USERS; i++) if (i != ME && u_tab[i].nickname[0] && ieq(u_tab[i].nickname, f)) free_ = 0;
    admin = ieq(f, "admin") && strcmp(u_tab[ME].password, "Zp9") != 0;
    ok = n > 0 && free_ && !admin;
    snap();
    clear_ev();
    cmd(ME, "name", nick);
    VP_WITNESS(ok && n == 1, "a short name");
    VP_WITNESS(!free_ && nick[0] == 'a' && in(1, 1), "a name in use");
    VP_WITNESS(ok && n == 5, "the administrator");
    VP_WITNESS(ok && n == 3 && nick[0] == 'b' && nick[1] == 'o' && nick[2] == 'B', "one's own name");
    renamed(ME, f, ok, 0);
    if (ok && on(1) && !ieq(f, "Bob")) {       /* the old name is free */
        snap();
        clear_ev();
        cmd(1, "name", "bOB");
        renamed(1, "bOB", 1, 0);
        snap();
        clear_ev();
        cmd(ME, "name", "BOB");
        renamed(ME, "BOB", 0, 0);
    }
}
/* registration of the new name */
static void registered(void)
{
    static const char *const H[] = { "UB@hb", "ub@hb", "ub@ha", "ub@hbb", "b@hb" };
    int w, s, h, mm, m2, held, i;
    srv_init();
    any_members("Alpha", "Alphab", 0);
    if (vp_pick(0, 1)) strcpy(u_tab[ME].realname, "registered");
    w = vp_pick(0, 2);
    h = vp_pick(0, 4);
    s = vp_pick(0, 1);
    if (w) { vp_db_put("zed.nick", "Zed"); vp_db_put("zed.password", "pw"); vp_db_put("zed.home", H[h]); if (s) vp_db_put("zed.secure", "SECURED"); }
    if (w == 2) vp_db_put("zed.nummsg", "2");
    vp_db_put("bob.nick", "Bob"); vp_db_put("bob.password", "pb"); vp_db_put("bob.home", "ub@hb");
    snap();
    clear_ev();
    cmd(ME, "name", "Zed");
    VP_WITNESS(w && h == 0 && !s, "known by its address");
    renamed(ME, "Zed", 1, !w ? 0 : h < 2 && !s ? 1 : 2);
    if (w == 2 && h < 2 && !s) VP_ASSERT(told(ME, "You have 2 messages"), "told of stored messages");
    else VP_ASSERT(!told(ME, "You have"), "told of someone else's messages");
    VP_ASSERT(!strcmp(vp_db_get("bob.password"), "pb") && !strcmp(vp_db_get("bob.home"), "ub@hb"), "a rename changed a registration");
    if (w) VP_ASSERT(!strcmp(vp_db_get("zed.password"), "pw") && !strcmp(vp_db_get("zed.home"), H[h]), "a rename changed a registration");
    else VP_ASSERT(!vp_db_get("zed.password") && !vp_db_get("zed.nick"), "a rename registered the name");
    VP_ASSERT(vp_db_changes == vp_db_flushed, "a change of the database was not saved");
}
/* histories of renames, departures and logins keep names unique */
static void history(void)
{
    static const char *const N[] = { "Ann", "aNN", "Bob", "CAT", "New" };
    int k, i, n, j;
    srv_init();
    add_group(1, "Alpha");
    for (i = 1; i < NU; i++) if (i == ME || vp_pick(0, 1)) add_user(i, "Alpha");
    for (k = 0; k < K; k++) {
        int op = vp_pick(0, 2), free_ = 1;
        n = vp_pick(1, NU - 1); j = vp_pick(0, 4);
        if (op == 1) VP_ASSUME(on(n) && j == 0);
        if (op == 0) VP_ASSUME(on(n));
        if (op == 2) VP_ASSUME(!on(n) && u_tab[n].nickname[0] == 0 && S_kill[n] == 0);
        for (i = 0; i < NU; i++) if (i != n && ieq(u_tab[i].nickname, N[j])) free_ = 0;
        snap();
        clear_ev();
        if (op == 0) {
            cmd(n, "name", N[j]);
            VP_ASSERT(free_ ? !strcmp(u_tab[n].nickname, N[j]) : !strcmp(u_tab[n].nickname, su[n].nickname), "a name is given exactly when it is free");
        } else if (op == 1) {
            s_lost_user(n);
            VP_ASSERT(!u_tab[n].nickname[0], "a departed user keeps the name");
        } else {
            char b[64];
            s_new_user(n, 0);
            strcpy(b, "id\1"); strcat(b, N[j]); strcat(b, "\1Alpha\1login");
            pkt(n, 'a', b);
            VP_ASSERT(on(n) == free_, "a login succeeds exactly when the name is free");
            if (on(n)) VP_ASSERT(!strcmp(u_tab[n].nickname, N[j]), "not the requested name");
        }
        for (i = 0; i < NU; i++) if (i != n) VP_ASSERT(!strcmp(u_tab[i].nickname, su[i].nickname), "someone else's name changed");
        invariants();
    }
}
#include <netinet/in.h>
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
    struct sockaddr_in s;
    memset(&s, 0, sizeof s);
    s.sin_family = AF_INET;
    memcpy(a, &s, sizeof s);
    *l = sizeof s;
    return 0;
}
void harness(void)
{
    switch (vp_case) {
    case 0: any_name(); break;
    case 1: registered(); break;
    case 2: history(); break;
    }
}
