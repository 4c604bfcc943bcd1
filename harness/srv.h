/* common ground of the server harnesses: arbitrary valid states of the user
 * and group tables, snapshots of them, and what was sent to whom.
 * Slots: 0 unused (a descriptor that is never a client's), 1..3 clients,
 * MAX_USERS-1 the resident "Server"; groups: 0 "ICB", 1 and 2 as set up. */
#pragma once
#include "h.h"
#include "server_env.h"
#include "groups.h"
#include "users.h"
#include "dispatch.h"
#include "s_commands.h"
#define ME 2
#define NU MAX_REAL_USERS
#define T0 1000000
static const char *const NICKS[] = { "", "Ann", "Bob", "Cat" };
static const char *const UNICKS[] = { "", "ANN", "BOB", "CAT" };
static const char *const IDS[] = { "", "ua", "ub", "uc" };
static const char *const HOSTS[] = { "", "ha", "hb", "hc" };
static const char *const SITES[] = { "", "UA@HA", "UB@HB", "UC@HC" };

static inline int lc1(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ieq(const char *a, const char *b)
{
    while (*a && lc1(*a) == lc1(*b)) a++, b++;
    return lc1(*a) == lc1(*b);
}
/* ---- set-up -------------------------------------------------------- */
static void srv_init(void)
{
    vp_now = T0;
    init_groups();
    clear_users();
    fill_user_entry(NICKSERV, "server", "localhost", "Server", "", "ICB", "", LOGIN_COMPLETE, 0, 0, PERM_NULL);
    u_tab[NICKSERV].t_on = u_tab[NICKSERV].t_recv = vp_now;
    strcpy(u_tab[NICKSERV].realname, "registered");
    fill_group_entry(0, "ICB", "Topic", SUPERSECRET, RESTRICTED, NICKSERV, QUIET);
}
static void add_group(int g, const char *name)
{
    fill_group_entry(g, name, "t", VISIBLE, PUBLIC, -1, NORMAL);
    g_tab[g].idleboot = DEF_IDLE_BOOT;
    g_tab[g].idlemod = DEF_IDLE_MOD;
    nlinit(g_tab[g].n_talk, MAX_INVITES);
    nlinit(g_tab[g].nr_talk, MAX_INVITES);
}
/* any visibility, control and volume a group can have */
static void any_group(int g)
{
    g_tab[g].visibility = vp_int(VISIBLE, SUPERSECRET);
    g_tab[g].control = vp_int(PUBLIC, CONTROLLED);
    g_tab[g].volume = vp_int(QUIET, LOUD);
}
static void add_conn(int i)      /* connected, not logged in */
{
    strcpy(u_tab[i].nodeid, HOSTS[i]);
}
static void add_user(int i, const char *group)
{
    fill_user_entry(i, IDS[i], HOSTS[i], NICKS[i], "", group, "", LOGIN_COMPLETE, 0, 0, PERM_NULL);
    u_tab[i].t_on = u_tab[i].t_sent = u_tab[i].t_recv = u_tab[i].t_group = vp_now - 100;
}
static int on(int i) { return u_tab[i].login == LOGIN_COMPLETE; }
static int members(const char *g) { int i, n = 0; for (i = 0; i < NU; i++) if (u_tab[i].nickname[0] && ieq(u_tab[i].group, g)) n++; return n; }
static int in(int i, int g) { return on(i) && ieq(u_tab[i].group, g_tab[g].name); }
/* the actor in group 1, each other client absent, connected, in group 1 or in
 * group 2; at least one group 2 only if it has a member */
static void any_members(const char *g1, const char *g2, int conn)
{
    int i;
    add_group(1, g1);
    add_user(ME, g1);
    for (i = 1; i < NU; i++) {
        int w;
        if (i == ME) continue;
        w = vp_pick(0, conn ? 3 : 2);
        if (w == 1) add_user(i, g1);
        if (w == 2) { if (!g_tab[2].name[0]) add_group(2, g2); add_user(i, g2); }
        if (w == 3) add_conn(i);
    }
}
/* any moderator: nobody or someone logged in */
static void any_mod(int g)
{
    int m = vp_pick(0, NU - 1);
    VP_ASSUME(m == 0 || on(m));
    g_tab[g].mod = m ? m : -1;
}
/* ---- snapshots ----------------------------------------------------- */
#define SNL 48
struct usnap { char loginid[MAX_IDLEN+1], nodeid[MAX_NODELEN+1], nickname[MAX_NICKLEN+1], password[MAX_PASSWDLEN+1], realname[MAX_REALLEN+1], group[MAX_GROUPLEN+1], awaymsg[8];
    int login, echoback, nobeep, secure, kill; long perms; char l[6][SNL]; };
struct gsnap { char name[MAX_GROUPLEN+1], topic[MAX_TOPICLEN+1], missingmod[MAX_NICKLEN+1], msg[IDLEBOOT_MSG_LEN];
    int visibility, control, volume, mod, size, idleboot, idlemod; long modtimeout; char l[10][SNL]; };
static struct usnap su[MAX_USERS]; static struct gsnap sg[MAX_GROUPS];
static void lsnap(char *b, NAMLIST *nl)
{
    STRLIST *p; int o = 0;
    memset(b, 0, SNL);
    for (p = nl->head; p; p = p->next) {
        const char *s = p->str;
        while (*s && o < SNL - 2) b[o++] = *s++;
        if (o < SNL - 1) b[o++] = ',';
    }
}
static void take_u(struct usnap *s, int i)
{
    USER_ITEM *u = &u_tab[i];
    memset(s, 0, sizeof *s);
    strcpy(s->loginid, u->loginid); strcpy(s->nodeid, u->nodeid); strcpy(s->nickname, u->nickname);
    strcpy(s->password, u->password); strcpy(s->realname, u->realname); strcpy(s->group, u->group);
    memcpy(s->awaymsg, u->awaymsg, 8);
    s->login = u->login; s->echoback = u->echoback; s->nobeep = u->nobeep; s->secure = u->secure; s->perms = u->perms; s->kill = S_kill[i];
    lsnap(s->l[0], u->pri_n_hushed); lsnap(s->l[1], u->pub_n_hushed); lsnap(s->l[2], u->pri_s_hushed);
    lsnap(s->l[3], u->pub_s_hushed); lsnap(s->l[4], u->n_notifies); lsnap(s->l[5], u->s_notifies);
}
static void take_g(struct gsnap *s, int i)
{
    GROUP_ITEM *g = &g_tab[i];
    memset(s, 0, sizeof *s);
    strcpy(s->name, g->name); strcpy(s->topic, g->topic); strcpy(s->missingmod, g->missingmod); strcpy(s->msg, g->idleboot_msg);
    s->visibility = g->visibility; s->control = g->control; s->volume = g->volume; s->mod = g->mod;
    s->size = g->size; s->idleboot = g->idleboot; s->idlemod = g->idlemod; s->modtimeout = g->modtimeout;
    lsnap(s->l[0], g->n_invites); lsnap(s->l[1], g->nr_invites); lsnap(s->l[2], g->s_invites); lsnap(s->l[3], g->sr_invites);
    lsnap(s->l[4], g->n_bars); lsnap(s->l[5], g->n_nr_bars); lsnap(s->l[6], g->s_bars); lsnap(s->l[7], g->s_nr_bars);
    lsnap(s->l[8], g->n_talk); lsnap(s->l[9], g->nr_talk);
}
static void snap(void)
{
    int i;
    for (i = 0; i < MAX_USERS; i++) take_u(&su[i], i);
    for (i = 0; i < MAX_GROUPS; i++) take_g(&sg[i], i);
}
static int bytes_same(const void *a, const void *b, int n)
{
    const char *x = a, *y = b; int d = 0, i;
    for (i = 0; i < n; i++) d |= x[i] ^ y[i];
    return d == 0;
}
static int same_u(int i) { static struct usnap t; take_u(&t, i); return bytes_same(&t, &su[i], sizeof t); }
static int same_g(int i) { static struct gsnap t; take_g(&t, i); return bytes_same(&t, &sg[i], sizeof t); }
static void all_same(const char *msg)
{
    int i;
    for (i = 0; i < MAX_USERS; i++) VP_ASSERT(same_u(i), msg);
    for (i = 0; i < MAX_GROUPS; i++) VP_ASSERT(same_g(i), msg);
}
/* ---- packets ------------------------------------------------------- */
void s_packet(int n, char *pkt);
void s_lost_user(int n);
void s_new_user(int n, int secure);
void s_didpoll(int n);
static void clear_ev(void) { int i; vp_nev = 0; for (i = 0; i < MAX_USERS; i++) vp_sent[i] = 0; }
/* the client sends a packet; the buffer is as large as the network layer's */
static void pkt(int n, char type, const char *text)
{
    char *p = malloc(MAX_PKT_LEN); int l = (int)strlen(text);
    memset(p, 'Z', MAX_PKT_LEN);
    p[0] = (char)(l + 2);
    p[1] = type;
    memcpy(p + 2, text, l + 1);
    vp_in_pkt++;
    s_packet(n, p);
    vp_in_pkt--;
    VP_BOUND(!vp_over, "more packets than the event log holds");
    free(p);
}
/* command c with argument a */
static void cmd(int n, const char *c, const char *a)
{
    char b[MAX_PKT_LEN]; int l = (int)strlen(c);
    memcpy(b, c, l); b[l] = 1;
    strcpy(b + l + 1, a);
    pkt(n, 'h', b);
}
/* is event e a packet of that type to that client with these fields?
 * (a null field is not compared) */
static int is_ev(int e, int to, char type, const char *f0, const char *f1)
{
    const char *d = vp_ev[e].data + 2; int i, ok = 1, o = 0, max = vp_ev[e].len - 2;
    if (vp_ev[e].to != to || vp_ev[e].data[1] != type) return 0;
    if (f0) {
        int l = (int)strlen(f0);
        if (l > max) return 0;
        for (i = 0; i < l; i++) ok &= d[i] == f0[i];
        o = l;
        if (f1) { if (o >= max) return 0; ok &= d[o] == 1; o++; }
        else { if (o >= max) return 0; ok &= (d[o] == 1) | (d[o] == 0); }
    }
    if (f1) {
        int l = (int)strlen(f1);
        if (!f0) { while (o < max && d[o] != 1) o++; o++; }
        if (o + l >= max) return 0;
        for (i = 0; i < l; i++) ok &= d[o + i] == f1[i];
        ok &= d[o + l] == 0;
    }
    return ok;
}
static int count_ev(int to, char type, const char *f0, const char *f1)
{
    int e, n = 0;
    for (e = 0; e < vp_nev; e++) n += is_ev(e, to, type, f0, f1);
    return n;
}
static int count_type(int to, char type) { return count_ev(to, type, 0, 0); }
/* does some packet to the client contain the text? */
static int contains(const char *d, int n, const char *s)
{
    int i, j, l = (int)strlen(s), any = 0;
    for (i = 0; i + l <= n; i++) {
        int eq = 1;
        for (j = 0; j < l; j++) eq &= d[i + j] == s[j];
        any |= eq;
    }
    return any;
}
static int told(int to, const char *s)
{
    int e, any = 0;
    for (e = 0; e < vp_nev; e++) if (vp_ev[e].to == to) any |= contains(vp_ev[e].data + 1, vp_ev[e].len - 1, s);
    return any;
}
/* every packet: length byte, type, text without NUL, NUL */
static void __attribute__((unused)) packets(void)
{
    int e, i, z;
    for (e = 0; e < vp_nev; e++) {
        VP_ASSERT(vp_ev[e].len >= 3 && vp_ev[e].len <= MAX_PKT_LEN, "a packet of impossible length");
        VP_ASSERT((unsigned char)vp_ev[e].data[0] == vp_ev[e].len - 1, "the length byte does not count the packet");
        VP_ASSERT(vp_ev[e].data[1] >= 'a' && vp_ev[e].data[1] <= 'm', "a packet of no known type");
        VP_ASSERT(vp_ev[e].data[vp_ev[e].len - 1] == 0, "a packet that does not end with NUL");
        for (i = 1, z = 0; i < vp_ev[e].len - 1; i++) z |= vp_ev[e].data[i] == 0;
        VP_ASSERT(!z, "a NUL within a packet");
    }
}
/* the consistency of the tables that every operation must keep */
static void invariants(void)
{
    int i, j;
    for (i = 0; i < NU; i++) {
        if (!on(i)) {
            VP_ASSERT(u_tab[i].login == LOGIN_FALSE, "a login left half done");
            VP_ASSERT(u_tab[i].nickname[0] == 0 && u_tab[i].group[0] == 0, "a client that is not logged in has a nickname or group");
            continue;
        }
        VP_ASSERT(u_tab[i].nickname[0], "a logged-in user without nickname");
        VP_ASSERT(memchr(u_tab[i].nickname, 0, MAX_NICKLEN + 1) && memchr(u_tab[i].group, 0, MAX_GROUPLEN + 1), "name not terminated");
        for (j = 0; j < MAX_USERS; j++)
            if (j != i) VP_ASSERT(!u_tab[j].nickname[0] || !ieq(u_tab[i].nickname, u_tab[j].nickname), "two users with the same nickname");
        for (j = 0; j < MAX_GROUPS; j++) if (g_tab[j].name[0] && ieq(g_tab[j].name, u_tab[i].group)) break;
        VP_ASSERT(j < MAX_GROUPS, "a user in a group that does not exist");
    }
    for (i = 1; i < MAX_GROUPS; i++) {
        if (!g_tab[i].name[0]) continue;
        VP_ASSERT(memchr(g_tab[i].name, 0, MAX_GROUPLEN + 1) != 0, "group name not terminated");
        VP_ASSERT(members(g_tab[i].name) > 0, "a group without members");
        for (j = 0; j < i; j++) VP_ASSERT(!g_tab[j].name[0] || !ieq(g_tab[i].name, g_tab[j].name), "two groups with the same name");
        VP_ASSERT(g_tab[i].mod == -1 || (g_tab[i].mod > 0 && g_tab[i].mod < NU && on(g_tab[i].mod)), "the moderator is not a logged-in user");
        VP_ASSERT(g_tab[i].visibility >= VISIBLE && g_tab[i].visibility <= SUPERSECRET && g_tab[i].control >= PUBLIC
                  && g_tab[i].control <= CONTROLLED && g_tab[i].volume >= QUIET && g_tab[i].volume <= LOUD, "group settings out of range");
    }
}
