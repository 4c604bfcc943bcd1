/* what the server reports about groups, users and itself */
#include "srv.h"
#include "mapdb.h"
#include "fs.h"
#include "s_stats.h"
#include <netinet/in.h>
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l) { memset(a, 0, *l); a->sa_family = AF_INET; return 0; }
static int out(const char *s) { return count_ev(ME, 'i', "co", s); }
static void only_me(const char *m)
{
    int i;
    for (i = 0; i < NU; i++) if (i != ME) VP_ASSERT(vp_sent[i] == 0, "a report goes to somebody else");
    all_same(m);
    packets();
}
static char *num(char *o, long v) { char b[24]; int i = 0; if (v == 0) b[i++] = '0'; for (; v; v /= 10) b[i++] = (char)('0' + v % 10); while (i) *o++ = b[--i]; *o = 0; return o; }
static char *add(char *o, const char *s) { while (*s) *o++ = *s++; *o = 0; return o; }
static const char *const CON[] = { "", "Public", "Moderated", "Restricted", "Controlled" }, *const VIS[] = { "", "Visible", "Secret", "Invisible" }, *const VOL[] = { "", "Quiet", "Normal", "Loud" };
static void world(void)
{
    srv_init();
    add_group(1, "Alpha");
    add_user(ME, "Alpha"); add_user(1, "Alpha");
    if (vp_pick(0, 1)) { add_group(2, "Alphab"); add_user(3, "Alphab"); g_tab[2].mod = 3; g_tab[2].size = 7; nlput(g_tab[2].n_invites, "other"); nlput(g_tab[2].n_talk, "other"); }
}
static const char *moderator(void)
{
    int m = vp_pick(0, 4);
    if (m == 3) VP_ASSUME(on(3));
    if (m >= 1 && m <= 3) { g_tab[1].mod = m; return NICKS[m]; }
    if (m == 4) { strcpy(g_tab[1].missingmod, "Zed"); g_tab[1].modtimeout = T0 + 60; return "Zed"; }
    return 0;
}
/* ---- the settings of the own group -------------------------------------------- */
static void span(const char *what, int s)
{
    char b[80], *o = add(b, what); int h = s / 3600, m = s % 3600 / 60;
    if (!s) add(o, "no limit");
    else {
        o = num(o, h); o = add(o, h == 1 ? " hour, " : " hours, ");
        o = num(o, m); add(o, m == 1 ? " minute" : " minutes");
    }
    VP_ASSERT(out(b) == 1, "the idle limits shown are not those in force");
}
static void status(void)
{
    static const int T[] = { 0, 60, 120, 3540, 3600, 3660, 7260, 14400, 360000 }, S[] = { 0, 1, 2, 300 };
    static const char *const MSG[] = { "", "gone", "bye %s now" };
    char b[120], *o; const char *m; int size = 0, ib = 3600, im = 3600, msg = 0;
    world();
    m = moderator();
    any_group(1);
    g_tab[1].control = (int)vp_conc_(g_tab[1].control); g_tab[1].visibility = (int)vp_conc_(g_tab[1].visibility); g_tab[1].volume = (int)vp_conc_(g_tab[1].volume);
    if (!on(3) && g_tab[1].visibility == VISIBLE && (!m || m[0] == 'A')) { ib = T[vp_pick(0, 8)]; im = T[vp_pick(1, 8)]; size = S[vp_pick(0, 3)]; msg = vp_pick(0, 2); VP_ASSUME(g_tab[1].volume == NORMAL || (size < 2 && !msg)); }
    g_tab[1].size = size; g_tab[1].idleboot = ib; g_tab[1].idlemod = im; strcpy(g_tab[1].idleboot_msg, MSG[msg]);
    snap();
    clear_ev();
    cmd(ME, "status", "");
    only_me("asking for the status changed something");
    VP_ASSERT(count_type(ME, 'e') == 0, "asking for the status fails");
    o = add(b, "Name: Alpha Mod: "); o = add(o, m ? m : "None"); o = add(o, " ("); o = add(o, VIS[g_tab[1].visibility]); o = add(o, " / ");
    o = add(o, CON[g_tab[1].control]); o = add(o, " / "); o = add(o, VOL[g_tab[1].volume]); add(o, ")");
    VP_ASSERT(out(b) == 1, "the settings shown are not those in force");
    o = add(b, "Size: "); if (!size) add(o, "no limit"); else { o = num(o, size); add(o, size == 1 ? " user limit" : " users limit"); }
    VP_ASSERT(out(b) == 1, "the size shown is not the one in force");
    span("Idle-Boot: ", ib);
    if (g_tab[1].control != PUBLIC) span("Idle-Mod: ", im);
    o = add(b, "Idle-Boot Message: "); add(o, MSG[msg]);
    VP_ASSERT(msg ? out(b) == 1 : !told(ME, "Message"), "the idle message shown is not the one in force");
    VP_ASSERT(!told(ME, "invited") && !told(ME, "talk"), "an empty list is shown");
    VP_WITNESS(size == 1 && msg == 1 && g_tab[1].control == RESTRICTED, "a limit of one");
}
/* ---- lists --------------------------------------------------------------------- */
/* each name is a run of a letter of its own */
static const char L[] = "XYZKJ%", *const HEAD[] = { "Nicks invited: ", "Nicks invited: ", "Addrs invited: ", "Addrs invited: ", "Nicks who can talk: ", "Nicks who can talk: " };
static int first;             /* the first character of the name on list a, if not the letter */
static void shown(int k, int len, int f)
{
    int e, i, n = 0, run = 0, h = -1, kind = -2;
    for (e = 0; e < vp_nev; e++) {
        const char *d = vp_ev[e].data; int l = vp_ev[e].len - 1;
        if (d[1] != 'i') continue;
        for (i = 0; i < 6; i += 2) if (contains(d, l, HEAD[i])) h = i;
        for (i = 2; i < l; i++) if (d[i] == L[k]) {
            int j = i;
            while (j < l && d[j] == L[k]) j++;
            if (f) VP_ASSERT(d[i - 1] == f, "a name on the list is not shown whole");
            n += j - i; run++; kind = h;
            VP_ASSERT((j + 3 <= l && bytes_same(d + j, "(r)", 3)) == (k & 1), "what holds for registered users only is not shown as such");
            j += (k & 1) * 3;
            VP_ASSERT(j == l || (d[j] == ',' && (j + 1 == l || d[j + 1] == ' ')), "names on a list are not kept apart");
            i = j - 1;
        }
    }
    VP_ASSERT(run == (len > 0) && n == len, "a name on the list is not shown once and whole");
    if (len) VP_ASSERT(kind == (k & ~1), "a name is shown as being on another list");
}
static void lists(void)
{
    static const int LEN[] = { 0, 1, 12, 50, 55, 58, 59, 60, 71, 72, 73, 74, 75, 120, 200 }, LEN2[] = { 1, 12, 58, 60, 74, 200 };
    NAMLIST *nl[6]; int k, i, n[6] = { 0 }, a, b, inv; char nm[256];
    first = 0;
    world();
    g_tab[1].control = RESTRICTED;
    inv = vp_pick(0, 1);
    if (inv || vp_pick(0, 1)) g_tab[1].mod = ME;
    nl[0] = g_tab[1].n_invites; nl[1] = g_tab[1].nr_invites; nl[2] = g_tab[1].s_invites; nl[3] = g_tab[1].sr_invites; nl[4] = g_tab[1].n_talk; nl[5] = g_tab[1].nr_talk;
    /* two neighbouring lists, or one with others nearly empty */
    a = vp_pick(0, inv ? 3 : 5); b = vp_pick(0, 2);
    n[a] = LEN[vp_pick(0, 14)];
    if (b == 1) n[a ^ 1] = vp_deep ? LEN[vp_pick(1, 14)] : LEN2[vp_pick(0, 5)];
    if (b == 2) for (k = 0; k < 6; k++) if (k != a) n[k] = 1 + (k & 1) * 11;
    for (k = 0; k < 6; k++) if (n[k]) {
        for (i = 0; i < n[k]; i++) nm[i] = L[k];
        nm[i] = 0;
        if (k == a && n[k] > 1 && b < 2) { nm[0] = (char)vp_int('!', '~'); { int q; for (q = 0; q < 6; q++) VP_ASSUME(nm[0] != L[q]); } first = nm[0]; n[k]--; }
        nlput(nl[k], nm);
    }
    snap();
    clear_ev();
    cmd(ME, inv ? "invite" : "status", "");
    only_me("showing the lists changed something");
    VP_ASSERT(count_type(ME, 'e') == 0, "showing the lists fails");
    for (k = 0; k < (inv ? 4 : 6); k++) shown(k, n[k], k == a ? first : 0);
    for (i = 0, k = 0; k < 4; k++) i += n[k];
    if (inv) VP_ASSERT(count_ev(ME, 'd', "Invite", "No one on invite list") == (i == 0), "an empty list is reported");
    VP_ASSERT(!told(ME, "other"), "the lists of another group are shown");
    VP_WITNESS(inv && n[3] == 199, "a long address");
    VP_WITNESS(!inv && n[4] == 57 && n[5] == 12, "a list of two lines");
}
/* many names on one list */
static void many(void)
{
    int k = vp_pick(0, 3), c = vp_pick(1, 6) * 8 + 2, len = vp_pick(1, 12), i, j, e; char nm[16]; static int seen[64]; static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&*+-/:;<=>";
    NAMLIST *nl;
    srv_init(); add_group(1, "Alpha"); add_user(ME, "Alpha"); g_tab[1].control = RESTRICTED; g_tab[1].mod = ME;
    nl = k == 0 ? g_tab[1].n_invites : k == 1 ? g_tab[1].sr_invites : k == 2 ? g_tab[1].n_talk : g_tab[1].nr_talk;
    for (i = 0; i < c; i++) { nm[0] = A[i]; for (j = 1; j < len; j++) nm[j] = '.'; nm[j] = 0; nlput(nl, nm); seen[i] = 0; }
    clear_ev();
    cmd(ME, "status", "");
    for (e = 0; e < vp_nev; e++) {
        const char *d = vp_ev[e].data; int l = vp_ev[e].len - 1;
        if (d[1] != 'i' || contains(d, l, "Name: ") || contains(d, l, "Size: ") || contains(d, l, "Idle")) continue;
        for (i = 5; i < l; i++) {
            if (i == 5 && d[i] == 'N' && contains(d, l, "Nicks")) { while (d[i] != ':') i++; continue; }
            if (i == 5 && d[i] == 'A' && contains(d, l, "Addrs")) { while (d[i] != ':') i++; continue; }
            if ((d[i - 1] == ' ' || d[i - 1] == 1) && d[i] != ',' && d[i] != ' ') {
                const char *q = strchr(A, d[i]); int x = q ? (int)(q - A) : -1;
                VP_ASSERT(x >= 0 && x < c, "a name that is not on the list");
                for (j = 1; j < len; j++) VP_ASSERT(d[i + j] == '.', "a name is not shown whole");
                seen[x]++;
            }
        }
    }
    for (i = 0; i < c; i++) VP_ASSERT(seen[i] == 1, "a name on the list is not shown once");
    VP_WITNESS(c == 50 && len == 12, "a full list");
}
/* ---- users ---------------------------------------------------------------------- */
static const char *field(int e, int f, int *n)
{
    const char *d = vp_ev[e].data + 2; int o = 0, end = vp_ev[e].len - 2, s;
    while (f > 0 && o < end) { if (d[o] == 1) f--; o++; }
    s = o;
    while (o < end && d[o] != 1 && d[o] != 0) o++;
    *n = o - s;
    return d + s;
}
static int field_is(int e, int f, const char *s)
{
    int n, l = (int)strlen(s); const char *d = field(e, f, &n);
    return n == l && bytes_same(d, s, l);
}
static void users(void)
{
    static const int IDLE[] = { 0, 59, 60, 119, 3599, 3600, 7200, 86399, 86400, 172800 };
    int away, reg, ssl, idle, e, n = 0, wh, lp; char b[120], st[20], *o; const char *m;
    world();
    wh = vp_pick(0, 1);
    away = vp_pick(0, 1); reg = vp_pick(0, 1); ssl = vp_pick(0, 1); idle = IDLE[vp_pick(0, 9)];
    if (away) strcpy(u_tab[1].awaymsg, "tea");
    if (reg) strcpy(u_tab[1].realname, "registered");
    u_tab[1].secure = ssl;
    u_tab[1].t_recv = T0 - idle; u_tab[1].t_on = T0 - 500000;
    m = moderator();
    if (!wh && idle == 60) { any_group(1); g_tab[1].control = (int)vp_conc_(g_tab[1].control); g_tab[1].visibility = (int)vp_conc_(g_tab[1].visibility); g_tab[1].volume = (int)vp_conc_(g_tab[1].volume); }
    strcpy(g_tab[1].topic, vp_pick(0, 1) ? "tea time" : "");
    lp = wh && vp_pick(0, 1);
    if (lp) lpriv_id[ME] = 1;
    snap();
    clear_ev();
    cmd(ME, wh ? "whereis" : "w", lp ? "" : wh ? "aNN" : "");
    only_me("asking about users changed something");
    VP_ASSERT(count_type(ME, 'e') == 0, "asking about users fails");
    if (wh) {
        VP_ASSERT(vp_sent[ME] == 1 && told(ME, "Ann ") && told(ME, " ua@ha ") && told(ME, " (aw)") == away, "whereis does not tell who and where the user is");
        o = num(b + 2, idle < 60 ? idle : idle < 3600 ? idle / 60 : idle < 86400 ? idle / 3600 : idle / 86400);
        b[0] = ')'; b[1] = ' ';
        add(o, idle < 60 ? "s" : idle < 3600 ? "m" : idle < 86400 ? "h" : "d");
        VP_ASSERT(told(ME, b), "whereis does not tell how long the user is idle");
        VP_WITNESS(idle == 86400 && away && lp, "a day away");
        return;
    }
    o = st;
    if (!reg || away || ssl) { o = add(o, "("); if (!reg) o = add(o, away || ssl ? "nr," : "nr"); if (away) o = add(o, ssl ? "aw," : "aw"); if (ssl) o = add(o, "ssl"); o = add(o, ")"); }
    *o = 0;
    for (e = 0; e < vp_nev; e++) if (field_is(e, 0, "wl") && field_is(e, 2, "Ann")) {
        n++;
        num(b, idle);
        VP_ASSERT(field_is(e, 1, g_tab[1].mod == 1 ? "m" : " ") && field_is(e, 3, b), "a listing is wrong about who moderates or how long a user is idle");
        num(b, T0 - 500000);
        VP_ASSERT(field_is(e, 5, b) && field_is(e, 6, "ua") && field_is(e, 7, "ha") && field_is(e, 8, st), "a listing is wrong about a user");
    }
    VP_ASSERT(n == 1, "a user is not listed once");
    o = add(b, "Group: "); o = add(o, g_tab[1].visibility == VISIBLE ? "Alpha    (" : "*Alpha*  (");
    *o++ = " pmrc"[g_tab[1].control]; *o++ = " vsi"[g_tab[1].visibility]; *o++ = " qnl"[g_tab[1].volume];
    o = add(o, ") Mod: "); e = (int)(o - b);
    o = add(o, m ? m : "(None)"); if (m && m[0] == 'Z') o = add(o, " (60)");
    while (o - b < e + 13) *o++ = ' ';
    o = add(o, " Topic: "); add(o, g_tab[1].topic[0] ? g_tab[1].topic : "(None)");
    VP_ASSERT(out(b) == 1, "a listing is wrong about a group");
    o = add(b, "Total: "); o = num(o, on(3) ? 3 : 2); o = add(o, " users in "); o = num(o, on(3) ? 2 : 1); add(o, on(3) ? " groups" : " group");
    VP_ASSERT(out(b) == 1, "a listing counts the users and groups wrongly");
    VP_WITNESS(away && !reg && ssl, "all remarks");
}
/* ---- the server ------------------------------------------------------------------- */
static void stats(void)
{
    long c[5] = { 0 }; int i, k, us, gs = 0, aw = 0; char b[80], *o;
    srv_init();
    add_group(1, "Alpha"); add_user(ME, "Alpha"); add_user(1, "Alpha");
    g_tab[1].mod = ME; g_tab[1].control = MODERATED; g_tab[1].idlemod = 10000; g_tab[1].idleboot = 20000;
    memset(&server_stats, 0, sizeof server_stats);
    server_stats.start_time = 5;
    for (i = 0; i < K; i++) switch (k = vp_pick(0, 8)) {
    case 0: if (on(3)) break;                                                        /* a sign-on */
        s_new_user(3, 0); pkt(3, 'a', "uc\1Cat\1Beta\1login\1"); if (on(3)) c[0]++; break;
    case 1: if (on(3)) break;                                                        /* a refused one */
        s_new_user(3, 0); pkt(3, 'a', "uc\1Ann\1Beta\1login\1"); if (vp_disc[3] || S_kill[3]) { s_lost_user(3); S_kill[3] = 0; } break;
    case 2: { int was = on(1) && in(1, 1) && g_tab[1].mod == ME; cmd(ME, "boot", "Ann"); c[1] += was; VP_ASSERT(!was || !in(1, 1), "a boot has no effect"); break; }
    case 3: cmd(ME, "boot", "Zed"); break;
    case 4: if (on(3)) cmd(3, "boot", "Ann"); break;
    case 5: if (S_kill[3] || !on(3)) break;                                          /* the administrator drops someone */
        S_kill[3] = vp_pick(1, 2); s_didpoll(0); c[2]++; s_lost_user(3); S_kill[3] = 0; break;
    case 6: if (!on(1)) break;                                                       /* idle */
        { int was = !ieq(u_tab[1].group, "~IDLE~"); c[4] += g_tab[1].mod == 1; u_tab[1].t_recv = T0 - 30000; s_didpoll(0); u_tab[1].t_recv = T0; c[3] += was; break; }
    case 7: { int was = g_tab[1].name[0] && g_tab[1].mod == ME && in(1, 1) && !u_tab[1].awaymsg[0]; u_tab[ME].t_recv = T0 - 15000; s_didpoll(0); u_tab[ME].t_recv = T0; c[4] += was; VP_ASSERT(!was || g_tab[1].mod == 1, "an idle moderator remains"); break; }
    case 8: if (on(1)) cmd(1, "away", u_tab[1].awaymsg[0] ? "" : "tea %s"); break;
    }
    snap();
    clear_ev();
    cmd(ME, "stats", vp_pick(0, 1) ? "" : "reset");           /* only the administrator may reset them */
    if (count_type(ME, 'e')) {
        VP_ASSERT(vp_nev == 1, "a refused reset says more");
        clear_ev();
        cmd(ME, "stats", "");
    }
    only_me("asking for the statistics changed something");
    for (us = 0, i = 1; i < NU; i++) if (on(i)) { us++; aw += u_tab[i].awaymsg[0] != 0; }
    for (i = 1; i < MAX_GROUPS; i++) gs += g_tab[i].name[0] != 0;
    o = num(add(b, "  "), c[0]); o = add(o, c[0] == 1 ? " signon, " : " signons, "); o = num(o, c[1]); o = add(o, c[1] == 1 ? " boot, " : " boots, "); o = num(o, c[2]); add(o, c[2] == 1 ? " drop" : " drops");
    VP_ASSERT(out(b) == 1, "sign-ons, boots or drops are counted wrongly");
    o = num(add(b, "  "), c[3]); o = add(o, c[3] == 1 ? " idleboot, " : " idleboots, "); o = num(o, c[4]); add(o, c[4] == 1 ? " idlemod pass" : " idlemod passes");
    VP_ASSERT(out(b) == 1, "idle users are counted wrongly");
    o = num(add(b, "  "), us); o = add(o, us == 1 ? " user in " : " users in "); o = num(o, gs); o = add(o, gs == 1 ? " group (" : " groups ("); o = num(o, aw); add(o, aw == 1 ? " away user)" : " away users)");
    VP_ASSERT(out(b) == 1, "users, groups or absent users are counted wrongly");
    VP_WITNESS(c[0] == 2 && c[2] == 1, "dropped and back");
    VP_WITNESS(c[1] == 1 && c[3] == 0 && aw == 1, "a boot");
    VP_WITNESS(c[4] >= 1 && c[3] >= 1, "idle moderator, then idle user");
}
void harness(void)
{
    switch (vp_case) {
    case 0: status(); break;
    case 1: lists(); break;
    case 2: many(); break;
    case 3: users(); break;
    case 4: stats(); break;
    }
}
