/* what users set for themselves: hushes, notifications, echo, beeps, away */
#include "srv.h"
#include "mapdb.h"
#include "fs.h"
#include <netinet/in.h>
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l) { memset(a, 0, *l); a->sa_family = AF_INET; return 0; }
#ifndef N
#define N 2
#endif
static void world(void)
{
    srv_init();
    add_group(1, "Alpha");
    add_user(1, "Alpha"); add_user(ME, "Alpha"); add_user(3, "Alpha");
}
static void up(char *s) { for (; *s; s++) if (*s >= 'a' && *s <= 'z') *s -= 32; }
static void only_me(void)
{
    int i;
    for (i = 0; i < MAX_USERS; i++) if (i != ME) VP_ASSERT(vp_sent[i] == 0 && same_u(i), "one's own settings concern somebody else");
    for (i = 0; i < MAX_GROUPS; i++) VP_ASSERT(same_g(i), "one's own settings concern a group");
}
static const char *const WHO[] = { "Ann", "aNN", "zz top", "" };
/* flags, then who: the argument */
static int fq, fn, fs, fp, fo, bad; static char arg[32], who[12];
static void any_args(const char *known)
{
    int i, n = vp_pick(-1, N), w = vp_pick(0, 3), two = vp_pick(0, 1); char *o = arg;
    fq = fn = fs = fp = fo = bad = 0;
    if (n >= 0) {
        *o++ = '-';
        for (i = 0; i < n; i++) {
            int c = vp_int(33, 126);
            *o++ = (char)c;
            fq += c == 'q'; fn += c == 'n'; fs += c == 's'; fp += c == 'p'; fo += c == 'o';
            bad |= !strchr(known, c);
        }
        *o++ = ' ';
        if (two) {
            int c = vp_int(33, 126);
            *o++ = '-'; *o++ = (char)c; *o++ = ' ';
            fq += c == 'q'; fn += c == 'n'; fs += c == 's'; fp += c == 'p'; fo += c == 'o';
            bad |= !strchr(known, c);
        }
    }
    strcpy(o, WHO[w]);
    strcpy(who, WHO[w]);
    up(who);
    bad |= fq > 1 || fn + fs > 1 || fp > 1 || fo > 1;
}
static NAMLIST *lists(int i)
{
    return i == 0 ? u_tab[ME].pri_n_hushed : i == 1 ? u_tab[ME].pub_n_hushed : i == 2 ? u_tab[ME].pri_s_hushed : i == 3 ? u_tab[ME].pub_s_hushed
        : i == 4 ? u_tab[ME].n_notifies : u_tab[ME].s_notifies;
}
static void fill(int from, int to, int in)
{
    int i;
    for (i = from; i < to; i++) {
        nlput(lists(i), "Z*");
        if (in >> i & 1) { nlput(lists(i), "ANN"); nlput(lists(i), "ZZ TOP"); }
    }
}
/* the lists from..to-1: who is toggled in those of the set, the rest is unchanged */
static void toggled(int from, int to, int set, int in)
{
    int i;
    for (i = 0; i < 6; i++) {
        int c = nlcount(*lists(i));
        if (i < from || i >= to) { VP_ASSERT(c == 0, "another list changed"); continue; }
        VP_ASSERT(nlpresent("Z*", *lists(i)), "another name was removed");
        VP_ASSERT(c == 1 + (in >> i & 1) * 2 + (set >> i & 1 ? in >> i & 1 ? -1 : 1 : 0), "the number of names on a list");
        if (set >> i & 1) VP_ASSERT(!!nlpresent(who, *lists(i)) == !(in >> i & 1), "the name is not put on, or taken off, the list");
    }
}
static void listed(int from, int to, int in)
{
    static const char *const C[] = { "Personal-Nick-Hushed", "Open-Nick-Hushed", "Personal-Site-Hushed", "Open-Site-Hushed", "Notify-Nickname", "Notify-Site" };
    int i, n = 0;
    for (i = from; i < to; i++) {
        VP_ASSERT(count_ev(ME, 'd', C[i], "Z*") == 1 && count_ev(ME, 'd', C[i], "ANN") == (in >> i & 1), "the list shown is not the list");
        n += 1 + (in >> i & 1) * 2;
    }
    VP_ASSERT(vp_sent[ME] == n, "the list shown is not the list");
    all_same("showing a list changed something");
}
static void hush(void)
{
    int in, set, n;
    world();
    in = N > 2 ? vp_pick(0, 15) : "\0\17\6\11"[vp_pick(0, 3)];
    fill(0, 4, in);
    any_args("qnspo");
    snap();
    clear_ev();
    cmd(ME, vp_pick(0, 1) ? "hush" : "SHUSH", arg);
    VP_WITNESS(fs && fp && who[0] == 'A' && !bad, "a site is hushed in personal messages");
    VP_WITNESS(bad && fn && fs, "contradicting flags");
    only_me();
    if (bad) { VP_ASSERT(count_type(ME, 'e') == 1 && vp_nev == 1, "bad flags are not refused"); all_same("a refused hush had an effect"); return; }
    if (!who[0]) { listed(0, 4, in); return; }
    set = fp && !fo ? 1 : fo && !fp ? 2 : 3;
    n = set == 3 ? 2 : 1;
    if (fs) set <<= 2;
    VP_ASSERT(count_type(ME, 'e') == 0 && vp_sent[ME] == (fq ? 0 : n), "the change is not reported as asked");
    toggled(0, 4, set, in);
}
static void notify(void)
{
    int in, n;
    world();
    in = vp_pick(0, 3) << 4;
    fill(4, 6, in);
    any_args("qns");
    snap();
    clear_ev();
    cmd(ME, "notify", arg);
    VP_WITNESS(fs && who[0] == 'A' && !bad, "a site to be notified of");
    only_me();
    if (bad) { VP_ASSERT(count_type(ME, 'e') == 1 && vp_nev == 1, "bad flags are not refused"); all_same("a refused notify had an effect"); return; }
    if (!who[0]) { listed(4, 6, in); return; }
    n = fq ? 0 : 1 + (!fs && who[0] == 'A' && !(in >> 4 & 1));
    VP_ASSERT(count_type(ME, 'e') == 0 && vp_sent[ME] == n, "the change is not reported as asked");
    toggled(4, 6, fs ? 32 : 16, in);
}
/* full lists refuse another name */
static void full(void)
{
    int l = vp_pick(0, 5), i, max = l < 4 ? MAX_HUSHED : MAX_NOTIFIES, room = vp_pick(0, 1); char b[8];
    /* both: the hush concerns another list, which has room or is full, as well; there: the name is on the list */
    int both = l < 4 ? vp_pick(0, 2) : 0, there = vp_pick(0, 1), other = l ^ 1;
    static const char *const F[] = { "-pn ", "-on ", "-ps ", "-os ", "-n ", "-s " }, *const G[] = { "", "", "-s ", "-s " };
    srv_init();
    fs_text("./motd", "hi\n");
    add_group(1, "Alpha");
    add_user(1, "Alpha"); add_user(3, "Alpha");
    s_new_user(ME, 0);
    pkt(ME, 'a', "ub\1Bob\1Alpha\1login\1");
    for (i = 0; i < max - room; i++) { b[0] = 'A' + i % 26; b[1] = 'A' + i / 26; b[2] = 0; nlput(lists(l), b); if (both == 2) nlput(lists(other), b); }
    snap();
    clear_ev();
    { char c[12]; strcpy(c, both ? G[l] : F[l]); strcat(c, there ? "ca" : "Xx"); cmd(ME, l < 4 ? "hush" : "notify", c); }
    VP_WITNESS(!room && l == 5, "a full list");
    VP_WITNESS(!room && both == 1 && l == 3, "a full list and one with room");
    only_me();
    VP_ASSERT(nlpresent("aa", *lists(l)) && nlpresent("ba", *lists(l)), "a name was dropped from a full list");
    if (both == 2) VP_ASSERT(nlpresent("aa", *lists(other)) && nlpresent("ba", *lists(other)), "a name was dropped from a full list");
    for (i = 0; i < 6; i++) VP_ASSERT(i == l || (both && i == other) || nlcount(*lists(i)) == 0, "another list changed");
    if (there) {
        VP_ASSERT((int)nlcount(*lists(l)) == max - room - 1 && !nlpresent("ca", *lists(l)) && count_type(ME, 'e') == 0, "a name cannot be taken off a full list");
        return;
    }
    VP_ASSERT((int)nlcount(*lists(l)) == max, "the number of names on a full list");
    VP_ASSERT(!!nlpresent("xx", *lists(l)) == room && count_type(ME, 'e') == !room, "a full list takes another name, or one with room does not");
}
/* echo, beeps */
static void modes(void)
{
    static const char *const W[] = { "on", "off", "verbose" };
    char b[16]; int i, k = vp_pick(0, 1), w = vp_pick(0, 3), want, old;
    world();
    old = u_tab[ME].echoback = u_tab[ME].nobeep = vp_int(0, 2);
    if (w < 3) { strcpy(b, W[w]); if (vp_bool()) up(b); }
    else { int n = vp_pick(0, 3); for (i = 0; i < n; i++) b[i] = (char)vp_int(2, 255); b[n] = 0; }
    want = ieq(b, "off") ? 0 : ieq(b, "on") ? 1 : ieq(b, "verbose") ? 2 : -1;
    snap();
    clear_ev();
    cmd(ME, k ? "echoback" : "nobeep", b);
    VP_WITNESS(w == 3 && want == 0, "off");
    VP_WITNESS(want == 2, "verbose");
    VP_ASSERT(k ? u_tab[ME].nobeep == old : u_tab[ME].echoback == old, "another setting changed");
    VP_ASSERT((k ? u_tab[ME].echoback : u_tab[ME].nobeep) == (want < 0 ? old : want), "the setting is not the one asked for");
    VP_ASSERT(vp_sent[ME] == 1 && count_type(ME, 'e') == (want < 0), "the change is not reported");
    u_tab[ME].echoback = u_tab[ME].nobeep = old;
    only_me();
    all_same("a setting changed something else");
}
/* what is set has its effect, at once and until taken back */
static void effect(void)
{
    static const char *const A[] = { "bob", "-p bob", "-o BOB", "-s ub@hb", "-os ?b@h*", "-ps zz@hb", "b*" };
    static const int OPEN[] = { 1, 0, 1, 1, 1, 0, 1 }, PERS[] = { 1, 1, 0, 1, 0, 0, 1 };
    int a, h[2], k;
    world();
    a = vp_pick(0, 6);
    for (k = 0; k < 3; k++) {            /* set, taken back, set again with Bob under another name and address */
        cmd(1, "hush", A[a]);
        h[0] = k == 0 && OPEN[a];
        h[1] = (k == 0 && PERS[a]) || (k == 2 && a == 5);
        if (k == 2) { strcpy(u_tab[ME].nickname, "Zed"); strcpy(u_tab[ME].loginid, "zz"); }
        clear_ev();
        pkt(ME, 'b', "hi");
        VP_ASSERT(count_type(1, 'b') == !h[0] && count_type(3, 'b') == 1, "open messages despite a hush, or none without");
        clear_ev();
        cmd(ME, "m", "ann hi");
        VP_ASSERT(count_type(1, 'c') == !h[1], "personal messages despite a hush, or none without");
        if (h[1]) VP_ASSERT(vp_sent[ME] == 1, "the sender is not told of the hush");
        VP_WITNESS(k == 0 && h[0] && h[1] && a == 3, "everything hushed by site");
        VP_WITNESS(k == 1 && a == 3 && !h[0], "taken back");
    }
}
void harness(void)
{
    switch (vp_case) {
    case 0: hush(); break;
    case 1: notify(); break;
    case 2: full(); break;
    case 3: modes(); break;
    case 4: effect(); break;
    }
}
