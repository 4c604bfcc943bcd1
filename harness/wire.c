/* what the server puts on the wire: well-formed packets, fields in place, texts whole or cut */
#include "srv.h"
#include "fs.h"
#include "send.h"
#include <netinet/in.h>
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
    struct sockaddr_in s;
    memset(&s, 0, sizeof s);
    s.sin_family = AF_INET;
    memcpy(a, &s, sizeof s);
    *l = sizeof s;
    return 0;
}
static void fill(char *t, int n)
{
    int i;
    for (i = 0; i < n; i++) t[i] = "abcdefghijklmnopqrstuvwxyz"[i % 26];
    t[n] = 0;
}
/* lengths: short ones and those around every limit */
static int length(int max)
{
    int l;
    if (vp_deep) return vp_pick(0, max);
    l = vp_pick(0, 40);
    return l < 4 ? l : 222 + l - 4 <= max ? 222 + l - 4 : max;
}
/* packet e is type, then pre, then the first lim bytes of text, filtered */
static void is_packet(int e, int to, char type, const char *pre, const char *text, int lim)
{
    char want[MAX_PKT_LEN + 8]; int i, o = 0, n = (int)strlen(text);
    const char *d = vp_ev[e].data;
    want[o++] = type;
    for (i = 0; pre[i]; i++) want[o++] = pre[i];
    if (n > lim) n = lim;
    for (i = 0; i < n; i++) if ((unsigned char)text[i] >= 0x20) {
        if ((unsigned char)text[i] == 0xc3 && i + 1 == n) break;    /* the rest of the character does not fit */
        want[o++] = text[i];
    }
    want[o++] = 0;
    VP_ASSERT(o <= 255, "the reference packet is too long");
    VP_ASSERT(vp_ev[e].to == to, "the packet went to another client");
    VP_ASSERT(vp_ev[e].len == o + 1, "the packet does not hold the fields and their text");
    for (i = 0; i < o && i + 1 < vp_ev[e].len; i++) VP_ASSERT(d[i + 1] == want[i], "the fields are not where the protocol puts them");
}
static void start(int nicklen)
{
    srv_init();
    add_group(1, "Alpha");
    add_user(1, "Alpha");
    add_user(ME, "Alpha");
    if (nicklen) { fill(u_tab[1].nickname, nicklen); }
    clear_ev();
}
static const char *nickpre(int n) { static char p[16]; fill(p, n); strcat(p, "\1"); return p; }
static const char *nick1(void) { static char p[16]; strcpy(p, u_tab[1].nickname); strcat(p, "\1"); return p; }
/* the constructors, with a text of any length */
static void constructors(void)
{
    int k = vp_pick(0, 8), nl = vp_pick(0, 1) ? 12 : 1, L = length(520), lim, at;
    char t[560];
    static const int LIM[] = { 253, 240, 240, 232, 249, 250, 240, 232, 232 };
    start(nl);
    if (k != 1 && k != 2 && k != 6 && nl == 1) VP_ASSUME(0);
    lim = LIM[k];
    fill(t, L);
    if (L) t[0] = (char)vp_int(1, 127);
    at = L > lim ? lim - 1 : L - 1;                                       /* the last byte that is kept */
    if (at > 0) t[at] = (char)vp_int(1, 127);
    if (L > lim && vp_pick(0, 1)) { t[at] = (char)0xc3; t[at + 1] = (char)0xa9; }   /* a character across the limit */
    switch (k) {
    case 0: senderror(ME, t); is_packet(0, ME, 'e', "", t, lim); break;
    case 1: sendperson(1, ME, t); is_packet(0, ME, 'c', nickpre(nl), t, lim); break;
    case 2: sendopen(1, ME, t); is_packet(0, ME, 'b', nickpre(nl), t, lim); break;
    case 3: sendstatus(ME, "Status", t); is_packet(0, ME, 'd', "Status\1", t, lim); break;
    case 4: send_cmdend(ME, t); is_packet(0, ME, 'i', "ec\1\1", t, lim); break;
    case 5: sends_cmdout(ME, t); is_packet(0, ME, 'i', "co\1", t, lim); break;
    case 6: send_person_stored(ME, u_tab[1].nickname, t); is_packet(0, ME, 'c', nickpre(nl), t, lim); break;
    case 7: sendimport(ME, "Shutdown", t); is_packet(0, ME, 'f', "Shutdown\1", t, lim); break;
    case 8: sendstatus(ME, "a category of twenty-three", t); is_packet(0, ME, 'd', "a category of twenty\1", t, lim); break;
    }
    VP_ASSERT(vp_nev == 1, "one packet");
    VP_WITNESS(k == 2 && nl == 12 && L > lim, "longest open message");
    packets();
}
/* packets without user text, and the lines of a who list */
static void others(void)
{
    int k = vp_pick(0, 5), sl = vp_pick(0, 1) ? 64 : 3;
    char site[80], want[300]; int i;
    start(vp_pick(0, 1) ? 12 : 3);
    fill(site, sl);
    strcpy(u_tab[1].loginid, "qqqqqqqqqqqq");
    switch (k) {
    case 0: sendexit(ME); is_packet(0, ME, 'g', "", "", 0); break;
    case 1: sendping(ME, "x9"); is_packet(0, ME, 'l', "", "x9", 99); break;
    case 2: sendbeep(1, ME); is_packet(0, ME, 'k', "", u_tab[1].nickname, 99); break;
    case 3: send_loginok(ME); is_packet(0, ME, 'a', "", "", 0); break;
    case 4: user_whead(ME); is_packet(0, ME, 'i', "wh", "", 0); break;
    case 5: {
        int v = vp_pick(0, 3), st = vp_pick(0, 2); static const int V[] = { 0, 9, 86400, 2147483647 }; static const char *const S[] = { "", "(nr)", "(away) (registered) (quiet)" };
        char dec[16];
        user_wline(ME, vp_pick(0, 1) ? "*" : " ", u_tab[1].nickname, V[v], 0, V[3 - v], u_tab[1].loginid, site, (char *)S[st]);
        VP_ASSERT(vp_nev == 1, "one packet");
        want[0] = 0;
        strcpy(want, "wl\1"); strcat(want, vp_ev[0].data[5] == '*' ? "*" : " "); strcat(want, "\1"); strcat(want, u_tab[1].nickname); strcat(want, "\1");
        sprintf(dec, "%d", V[v]); strcat(want, dec); strcat(want, "\1" "0\1"); sprintf(dec, "%d", V[3 - v]); strcat(want, dec); strcat(want, "\1");
        strcat(want, u_tab[1].loginid); strcat(want, "\1"); strcat(want, site); strcat(want, "\1"); strcat(want, S[st]);
        for (i = 0; want[i]; i++) VP_ASSERT(i + 2 < vp_ev[0].len && vp_ev[0].data[i + 2] == want[i], "the who line's fields are not where the protocol puts them");
        VP_ASSERT(vp_ev[0].len == i + 3 && vp_ev[0].data[i + 2] == 0, "the who line's length");
        break; }
    }
    VP_ASSERT(vp_nev == 1, "one packet");
    packets();
}
/* the same through the server: messages up to the longest a packet can hold */
static void through(void)
{
    int k = vp_pick(0, 9), L = length(246), e, i, n;
    char t[300], c[300];
    start(vp_pick(0, 1) ? 12 : 0);
    fill(t, L);
    if (L > 1) { t[0] = (char)vp_int('!', 126); t[L - 1] = (char)vp_int('!', 126); }
    if (k == 2) VP_ASSUME(L <= 244);
    switch (k) {
    case 0:
        pkt(1, 'b', t);
        VP_ASSERT(vp_nev == 1, "one packet");
        is_packet(0, ME, 'b', nick1(), t, 240);
        break;
    case 1:                                                            /* personal, echoed */
        u_tab[1].echoback = 2;
        if (L > 246 - 4) VP_ASSUME(0);
        strcpy(c, UNICKS[ME]); strcat(c, " "); strcat(c, t);
        cmd(1, "m", c);
        VP_ASSERT(vp_nev == 2, "the message and its echo");
        for (e = 0; e < 2; e++) {
            if (vp_ev[e].to == ME) is_packet(e, ME, 'c', nick1(), t, 240);
            else { strcpy(c, "co\1<*to: "); strcat(c, u_tab[ME].nickname); strcat(c, "*> "); is_packet(e, 1, 'i', c, t, 250 - 6 - 3 - (int)strlen(u_tab[ME].nickname)); }
        }
        break;
    case 2: cmd(1, "echoback", t); break;
    case 3: cmd(1, "name", t); break;
    case 4: cmd(1, "g", t); break;
    case 5: cmd(1, "topic", t); g_tab[1].mod = 1; cmd(1, "topic", t); break;
    case 6: cmd(1, "away", t); break;
    case 7: cmd(1, "beep", t); break;
    case 8: cmd(1, "w", t); break;
    case 9: cmd(1, "m", t); break;
    }
    VP_WITNESS(k == 0 && L == 246, "longest open message");
    for (i = n = 0; i < vp_nev; i++) n += vp_ev[i].to != 1 && vp_ev[i].to != ME;
    VP_ASSERT(n == 0, "a packet went astray");
    packets();
    invariants();
}
void harness(void)
{
    switch (vp_case) {
    case 0: constructors(); break;
    case 1: others(); break;
    case 2: through(); break;
    }
}
