/* groups and their moderators through any history of joining, restricting,
 * inviting, passing on, booting, leaving and coming back: after every step
 * everybody is where a small model of the rules puts them */
#include "srv.h"
#include "mapdb.h"
#include "fs.h"
#include <sys/socket.h>
#include <netinet/in.h>
#ifndef K
#define K 3
#endif
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l) { memset(a, 0, *l); a->sa_family = AF_INET; return 0; }
enum { ONE, ALPHA, BETA, BOOTS, NG };
static const char *const GN[] = { "1", "Alpha", "Beta", "~RESEDA~" };
static struct mg { int ex, mod, ctl, held; long till; unsigned char ni[NU], nri[NU]; } m[NG];
static int at[NU], reg[NU]; static long last[NU];
static int size(int g) { int i, n = 0; for (i = 1; i < NU; i++) n += at[i] == g; return n; }
static void gone(int g) { memset(&m[g], 0, sizeof m[g]); m[g].mod = -1; }
static int m_enter(int a, int g, int forced)
{
    int o = at[a];
    if (!m[g].ex) {
        gone(g);
        m[g].ex = 1;
        m[g].ctl = g == ONE || g == BOOTS ? PUBLIC : MODERATED;
        if (m[g].ctl == MODERATED) m[g].mod = a;
    } else if (m[g].ctl == RESTRICTED && !forced && m[g].mod != a && !m[g].ni[a] && !(m[g].nri[a] && reg[a])) return 0;
    if (o == g) return 0;
    at[a] = g;
    if (o >= 0 && !size(o)) gone(o);
    return 1;
}
static void m_leave(int a)
{
    int g, i, o = at[a];
    at[a] = -1;
    if (o >= 0 && !size(o)) gone(o);
    for (g = 0; g < NG; g++) if (m[g].ex && m[g].mod == a) {
        m[g].mod = -1;
        if (reg[a]) { m[g].held = a; m[g].till = vp_now + MOD_TIMEOUT; continue; }
        for (i = 1; i < NU; i++) if (at[i] == g && (m[g].mod < 0 || last[i] > last[m[g].mod])) m[g].mod = i;
        VP_WITNESS(size(g) == 2, "the least idle member takes over");
    }
}
static int back[NG], heir[NG];      /* groups whose moderator came back, or was replaced, in this step */
static int m_login(int a, int g)
{
    int i;
    for (i = 0; i < NG; i++) if (m[i].ex && m[i].held == a) { m[i].mod = a; m[i].held = 0; back[i] = 1; VP_WITNESS(g == ALPHA && m[i].ctl == RESTRICTED, "given back"); }
    if (m_enter(a, g, 0)) return 1;
    m_leave(a);
    return 0;
}
static int m_status(int a, int c)
{
    int g = at[a], i, hm = m[g].mod >= 0 || m[g].held;
    if (g == ONE || g == BOOTS) return 0;
    if (m[g].mod != a && hm && m[g].ctl != PUBLIC) return 0;
    if (c != 'p' && !hm) return 0;
    m[g].ctl = c == 'r' ? RESTRICTED : c == 'c' ? CONTROLLED : PUBLIC;
    if (c != 'r') { memset(m[g].ni, 0, NU); memset(m[g].nri, 0, NU); }
    else for (i = 1; i < NU; i++) if (at[i] == g) { if (reg[i]) m[g].nri[i] = 1; else m[g].ni[i] = 1; }
    return 1;
}
static int gslot(int g) { int i; for (i = 1; i < MAX_GROUPS; i++) if (g_tab[i].name[0] && ieq(g_tab[i].name, GN[g])) return i; return -1; }
static void compare(void)
{
    int i, g, s, n = 0, x = 0;
    for (i = 1; i < NU; i++) {
        VP_ASSERT(on(i) == (at[i] >= 0), "somebody is on who should not be, or the other way round");
        if (at[i] >= 0) VP_ASSERT(ieq(u_tab[i].group, GN[at[i]]), "somebody is not in the group they should be in");
        if (at[i] >= 0) VP_ASSERT((u_tab[i].realname[0] != 0) == reg[i], "registered or not");
    }
    for (i = 1; i < MAX_GROUPS; i++) n += g_tab[i].name[0] != 0;
    for (g = 0; g < NG; g++) {
        s = gslot(g);
        x += m[g].ex;
        VP_ASSERT((s >= 0) == m[g].ex, "a group is there that should not be, or the other way round");
        if (!m[g].ex) continue;
        VP_ASSERT(g_tab[s].mod == m[g].mod, "the moderator is not the right one");
        VP_ASSERT(g_tab[s].control == m[g].ctl, "who may enter the group is not what its moderator chose");
        VP_ASSERT(m[g].held ? g_tab[s].modtimeout > 0 && !strcmp(g_tab[s].missingmod, NICKS[m[g].held]) : g_tab[s].modtimeout == 0, "the moderator the group waits for");
        if (!m[g].held) VP_ASSERT(!g_tab[s].missingmod[0], "a moderator still waited for");
        for (i = 1; i < NU; i++) {
            VP_ASSERT((nlpresent((char *)NICKS[i], *g_tab[s].n_invites) != 0) == m[g].ni[i], "who is invited");
            VP_ASSERT((nlpresent((char *)NICKS[i], *g_tab[s].nr_invites) != 0) == m[g].nri[i], "who is invited, if registered");
        }
    }
    VP_ASSERT(n == x, "a group nobody is in");
    invariants();
}
/* the periodic work: who did not come back in time is replaced */
static void poll(void)
{
    int g, i;
    for (g = 0; g < NG; g++) if (m[g].ex && m[g].held && m[g].till < vp_now) {
        m[g].held = 0;
        for (i = 1; i < NU; i++) if (at[i] == g && (m[g].mod < 0 || last[i] > last[m[g].mod])) m[g].mod = i;
        heir[g] = m[g].mod;
        VP_WITNESS(g == ALPHA && m[g].mod == 3, "waited for in vain");
    }
    clear_ev();
    s_didpoll(0);
    for (i = 1; i < NU; i++) {
        int want = at[i] >= 0 && heir[at[i]];
        VP_ASSERT(vp_sent[i] == want && count_ev(i, 'd', "Timeout", 0) == want, "the group, and nobody else, hears who moderates it now");
        if (want) { char t[32]; strcpy(t, NICKS[heir[at[i]]]); strcat(t, " is now mod."); VP_ASSERT(count_ev(i, 'd', "Timeout", t) == 1, "who moderates the group now"); }
    }
    memset(heir, 0, sizeof heir);
}
/* operation o by a; b is another client */
enum { O_ONE, O_ALPHA, O_BETA, O_R, O_P, O_RELINQ, O_OFF, O_INVITE, O_PASS, O_BOOT, O_C, O_WAIT, O_NAP };
static void step(int a, int o, int b)
{
    int ok = -1, g = at[a], d;
    vp_now += o == O_WAIT ? MOD_TIMEOUT + 1 : o == O_NAP ? MOD_TIMEOUT - 20 : 1;
    if (o >= O_WAIT) { poll(); return; }
    clear_ev();
    last[a] = vp_now;
    if (g < 0) {        /* comes back */
        char p[64];
        g = o == O_ONE ? ONE : ALPHA;
        ok = m_login(a, g);
        if (!ok) last[a] = 0;
        s_new_user(a, 0);
        strcpy(u_tab[a].nodeid, HOSTS[a]);
        strcpy(p, IDS[a]); strcat(p, "\1"); strcat(p, NICKS[a]); strcat(p, "\1"); strcat(p, GN[g]); strcat(p, "\1login\1");
        if (reg[a]) strcat(p, "pw");
        pkt(a, 'a', p);
        VP_ASSERT((count_type(a, 'e') == 0) == ok, "a login is refused exactly when the group may not be entered");
        {
            char t[64]; int was = ok ? g : -1;
            strcpy(t, NICKS[a]); strcat(t, " is the active moderator again.");
            for (d = 1, g = 0; d < NU; d++) if (d != a) VP_ASSERT(count_ev(d, 'd', "Mod", t) == (at[d] >= 0 && back[at[d]]), "the group, and nobody else, hears that its moderator is back");
            for (d = 0; d < NG; d++) g += back[d];
            for (d = 0; d < vp_nev; d++) g -= vp_ev[d].to == a && is_ev(d, a, 'd', "Mod", 0);
            VP_ASSERT(g == 0, "the moderator is told of each group given back");
            g = was;
            memset(back, 0, sizeof back);
        }
        if (!ok) { s_lost_user(a); clear_user_item(a); S_kill[a] = 0; }
        return;
    }
    switch (o) {
    case O_ONE: case O_ALPHA: case O_BETA: ok = m_enter(a, o, 0); cmd(a, "g", GN[o]); break;
    case O_R: ok = m_status(a, 'r'); cmd(a, "status", "r"); break;
    case O_P: ok = m_status(a, 'p'); cmd(a, "status", "p"); break;
    case O_C: ok = m_status(a, 'c'); cmd(a, "status", "c"); break;
    case O_RELINQ:
        ok = m[g].mod == a;
        if (ok) { m[g].mod = -1; if (m[g].ctl == CONTROLLED) m[g].ctl = PUBLIC; }
        cmd(a, "pass", ""); break;
    case O_OFF: m_leave(a); s_lost_user(a); break;
    case O_INVITE:
        if (m[g].ctl == RESTRICTED && m[g].mod == a) m[g].ni[b] = 1;
        cmd(a, "invite", NICKS[b]); break;
    case O_PASS:
        ok = m[g].mod == a && at[b] >= 0;
        if (ok) m[g].mod = b;
        cmd(a, "pass", NICKS[b]); break;
    case O_BOOT:
        ok = m[g].mod == a && at[b] == g;
        if (ok) { m[g].ni[b] = m[g].nri[b] = 0; m_enter(b, BOOTS, 1); VP_WITNESS(m[g].ctl == RESTRICTED, "booted from a restricted group"); }
        else if (m[g].mod == a && at[b] < 0) ok = -1;       /* a warning */
        cmd(a, "boot", NICKS[b]); break;
    }
    if (ok >= 0) VP_ASSERT((count_type(a, 'e') == 0) == ok, "refused exactly when the rules say so");
    for (d = 1; d < NU; d++) if (d != a) VP_ASSERT(count_type(d, 'e') == 0, "an error for somebody else");
}
static const signed char PRE[][8][3] = {
    { { 0 } },
    { { 1, O_ALPHA }, { 2, O_ALPHA }, { 1, O_R }, { 1, O_INVITE, 3 }, { 0 } },        /* restricted, by somebody registered */
    { { 2, O_ALPHA }, { 3, O_ALPHA }, { 1, O_ALPHA }, { 2, O_C }, { 0 } },            /* controlled, by somebody who is not */
    { { 1, O_ALPHA }, { 3, O_ALPHA }, { 2, O_ALPHA }, { 1, O_R }, { 1, O_OFF }, { 0 } }, /* held for somebody */
};
void harness(void)
{
    int c = vp_case, i, k;
    srv_init();
    fs_text("./motd", "hi\n");
    for (i = 0; i < NG; i++) gone(i);
    add_group(1, "1");
    m[ONE].ex = 1; m[ONE].ctl = PUBLIC;
    for (i = 1; i < NU; i++) {
        add_user(i, "1");
        at[i] = ONE; reg[i] = i != 2;
        u_tab[i].t_recv = last[i] = vp_now - 10 * i;
        if (reg[i]) {
            char b[24];
            strcpy(u_tab[i].realname, "registered");
            strcpy(b, i == 1 ? "ann" : "cat"); strcat(b, ".nick"); vp_db_put(b, NICKS[i]);
            strcpy(b, i == 1 ? "ann" : "cat"); strcat(b, ".password"); vp_db_put(b, "pw");
            strcpy(b, i == 1 ? "ann" : "cat"); strcat(b, ".home"); vp_db_put(b, i == 1 ? "ua@ha" : "uc@hc");
        }
    }
    compare();
    for (i = 0; PRE[c / 3][i][0]; i++) { step(PRE[c / 3][i][0], PRE[c / 3][i][1], PRE[c / 3][i][2]); compare(); }
    for (k = 0; k < K; k++) {
        int a = k ? vp_pick(0, 3) : c % 3 + 1, o, b;
        if (!a) o = vp_pick(O_WAIT, O_NAP);
        else if (at[a] < 0) o = vp_pick(O_ONE, O_ALPHA);
        else o = vp_pick(O_ONE, O_BOOT);
        b = o >= O_INVITE && o <= O_BOOT ? vp_pick(0, 1) ? a % 3 + 1 : (a + 1) % 3 + 1 : 0;
        step(a, o, b);
        compare();
        poll();
        compare();
    }
    VP_WITNESS(m[ALPHA].held, "waiting for a moderator");
    VP_WITNESS(m[BETA].ex && m[BETA].mod != 0 && at[1] == BETA, "another group");
}
