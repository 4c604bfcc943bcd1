/* any packet, in any state: no memory fault, no hang, consistent tables, and everyone else is served on */
#ifndef N
#define N 2
#endif
#include "srv.h"
#include "mapdb.h"
#include "fs.h"
#include <netinet/in.h>
static int nopeer;
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
    struct sockaddr_in s;
    if (nopeer) return -1;
    memset(&s, 0, sizeof s);
    s.sin_family = AF_INET;
    memcpy(a, &s, sizeof s);
    *l = sizeof s;
    return 0;
}
static int may_exit;
static void died(void) { VP_ASSERT(may_exit, "the server exits"); }
static void world(int other)
{
    srv_init();
    fs_text("./motd", "hi\n");
    fs_text("./fascist", "\n");
    add_group(1, "Alpha");
    add_user(ME, "Alpha");
    add_user(3, "Alpha");
    if (other) { add_group(2, "Alphab"); add_user(1, "Alphab"); }
    g_tab[1].mod = ME;
    vp_on_exit = died;
}
/* a packet with these bytes, which may contain NUL, as the network layer hands it over */
static void raw(int n, const char *b, int l)
{
    char *p = malloc(MAX_PKT_LEN + 1);
    memset(p, 'Z', MAX_PKT_LEN + 1);
    p[0] = (char)l;
    memcpy(p + 1, b, l);
    p[l + 1] = 0;
    vp_in_pkt++;
    s_packet(n, p);
    vp_in_pkt--;
    VP_BOUND(!vp_over, "the event log holds what one packet brings");
    free(p);
}
/* afterwards: everything is consistent, the others are served */
static void after(void)
{
    int was = on(3);
    packets();
    invariants();
    s_didpoll(0);
    invariants();
    clear_ev();
    may_exit = 0;
    if (was && on(3)) {
        pkt(3, 'm', "");
        cmd(3, "v", "");
        VP_ASSERT(vp_sent[3] >= 1, "the others are not served any more");
        packets();
        s_lost_user(3);
    }
    if (on(ME)) s_lost_user(ME);
    invariants();
}
static void login_state(int st)
{
    if (st == 0) return;                                    /* logged in */
    s_lost_user(ME);                                        /* connected only */
    s_new_user(ME, 0);
}
/* any bytes */
static void bytes(void)
{
    char b[8]; int i, l = vp_pick(1, N + 1), st = vp_pick(0, 1);
    world(0);
    login_state(st);
    clear_ev();
    for (i = 0; i < l; i++) b[i] = (char)vp_byte();
    nopeer = vp_pick(0, 1);
    VP_WITNESS(l == 3 && b[0] == 'b' && b[1] == 'x' && !st, "an open message");
    VP_WITNESS(l == 2 && b[0] == 'a' && st, "an incomplete login");
    raw(ME, b, l);
    after();
}
static const char *const CMDS[] = { "drop", "shutdown", "wall", "beep", "cancel", "g", "invite", "pass", "boot", "status", "topic", "motd", "m",
    "echoback", "name", "v", "w", "whereis", "restart", "news", "hush", "shush", "s_help", "exclude", "shuttime", "notify", "talk", "ping", "nobeep",
    "away", "noaway", "log", "stats", "brick", "zzz", "" };
#define NC ((int)(sizeof CMDS / sizeof CMDS[0]))
/* what may come before the arbitrary part */
static const char *const PRE[] = { "", "-q ", "-r -n ", "-s ", "server ", "r ", "# ", "b ", "im ", "name ", "idlebootmsg ", "ann " };
static void set_admin(void) { strcpy(u_tab[ME].nickname, "Admin"); strcpy(u_tab[ME].password, "Zp9"); may_exit = 1; }
/* any command, any short argument */
static void commands(void)
{
    int c = vp_pick(0, NC - 1), p = vp_pick(0, 11), i, l = vp_pick(0, N), o; char b[MAX_PKT_LEN];
    if (p >= 1 && p <= 3) VP_ASSUME(c == 6 || c == 20 || c == 23 || c == 25 || c == 26 || c == 16 || c == 5);
    if (p == 4) VP_ASSUME(c == 12);
    if (p >= 5 && p <= 10) VP_ASSUME(c == 9);
    if (p == 11) VP_ASSUME(c == 0 || c == 7 || c == 8 || c == 12 || c == 3);
    world(1);
    if (c <= 2 || c == 31) if (vp_pick(0, 1)) set_admin();
    clear_ev();
    b[0] = 'h';
    strcpy(b + 1, CMDS[c]);
    o = 1 + (int)strlen(b + 1);
    b[o++] = 1;
    strcpy(b + o, PRE[p]);
    o += (int)strlen(PRE[p]);
    for (i = 0; i < l; i++) b[o++] = (char)vp_byte();
    raw(ME, b, o);
    VP_WITNESS(c == 14 && told(3, "changed nickname"), "renaming");
    after();
}
static const char *const AUTO[] = { "read", "whois", "p", "rname", "write", "text", "addr", "phone", "delete", "info", "help", "?", "cp", "email", "secure", "nosecure", "www", "zz" };
#define NA ((int)(sizeof AUTO / sizeof AUTO[0]))
/* any request to the resident user, any short argument */
static void autos(void)
{
    int c = vp_case == 2 ? vp_pick(0, 8) : vp_pick(9, NA - 1), i, l = vp_pick(0, N), reg, pre, o; char b[MAX_PKT_LEN], t[220];
    world(1);
    reg = vp_pick(0, 2);
    if (reg) {
        vp_db_put("bob.nick", "Bob"); vp_db_put("bob.password", "pw"); vp_db_put("bob.home", "ub@hb");
        if (reg == 2) {
            strcpy(u_tab[ME].realname, "registered");
            vp_db_put("bob.nummsg", "1"); vp_db_put("bob.header1", "Message left at 1"); vp_db_put("bob.message1", "hello"); vp_db_put("bob.from1", "Cat");
            for (i = 0; i < 212; i++) t[i] = i % 7 ? 'w' : ' ';
            t[i] = 0;
            vp_db_put("bob.text", t); vp_db_put("bob.addr", "1 Road|2 Town"); vp_db_put("bob.www", "x"); vp_db_put("bob.email", "y");
        }
    }
    vp_db_down = vp_pick(0, 1);
    clear_ev();
    strcpy(b, "hm\1server ");
    strcat(b, AUTO[c]);
    o = (int)strlen(b);
    b[o++] = ' ';
    pre = vp_pick(0, 2);
    if (pre == 1) { strcpy(b + o, "bob "); o += 4; }
    if (pre == 2) { strcpy(b + o, "pw "); o += 3; }
    for (i = 0; i < l; i++) b[o++] = (char)vp_byte();
    raw(ME, b, o);
    VP_WITNESS(c == 0 && told(ME, "hello"), "reading");
    after();
}
/* lengths up to the longest packet */
#define SP 14
static void lengths(void)
{
    static const int L[] = { 3, 7, 8, 9, 11, 12, 13, 14, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 201, 202, 203, 204, 219, 220, 221, 222, 233, 240, 241, 244, 249 };
    static const char FILL[] = "ax *,|\\%.\"-\1/@";
    int c = vp_pick((vp_case - 4) * SP, vp_case == 7 ? NC + NA + 1 : (vp_case - 3) * SP - 1), f = vp_pick(0, (int)sizeof FILL - 2), k = vp_pick(0, (int)(sizeof L / sizeof L[0]) - 1), two = vp_pick(0, 2), o, n; char b[300], x = FILL[f];
    if (!vp_deep) VP_ASSUME(f < 2 || (k & 3) == (f & 3));
    world(1);
    vp_db_put("bob.nick", "Bob"); vp_db_put("bob.password", "pw"); vp_db_put("bob.home", "ub@hb");
    strcpy(u_tab[ME].realname, "registered");
    clear_ev();
    if (c < NC) { strcpy(b, "h"); strcat(b, CMDS[c]); strcat(b, "\1"); }
    else if (c < NC + NA) { strcpy(b, "hm\1server "); strcat(b, AUTO[c - NC]); strcat(b, " "); }
    else if (c == NC + NA) strcpy(b, "b");
    else { strcpy(b, "a"); login_state(1); }
    if (two == 1) strcat(b, c == NC + NA + 1 ? "id\1" : c == 9 ? "name " : "bob ");
    if (two == 2) strcat(b, c == NC + NA + 1 ? "id\1Nn\1" : c == 9 ? "idlebootmsg " : "-q ");
    o = (int)strlen(b);
    n = L[k];
    if (o + n > MAX_PKT_DATA) n = MAX_PKT_DATA - o;
    memset(b + o, x, n);
    o += n;
    if (n > 2) { b[o - 1] = (char)vp_int(1, 255); if (two && n > 20) b[o - n / 2] = 'y'; }
    raw(ME, b, o);
    VP_WITNESS(c == NC + NA && n > 240 && told(3, "aaaaaaaa"), "a long open message");
    after();
}
/* long values stored first, shown afterwards; lists filled up */
static void rep(char *b, const char *pre, int n, char x)
{
    int o = (int)strlen(pre);
    strcpy(b, pre);
    if (o + n > 244) n = 244 - o;
    memset(b + o, x, n);
    b[o + n] = 0;
    if (n > 1) b[o + n - 1] = (char)vp_int('!', 126);
}
static void stored(void)
{
    static const int L[] = { 1, 8, 9, 12, 13, 31, 32, 33, 63, 64, 65, 100, 202, 203, 204, 220, 230 };
    static const char *const LISTS[] = { "hush", "hush", "notify", "invite", "invite", "exclude", "talk" }, *const LPRE[] = { "", "-s ", "", "", "-s -n ", "", "" };
    int k = vp_pick(0, 14), l = vp_pick(0, 16), i, n; char b[300], x = vp_pick(0, 1) ? 'm' : k < 8 ? ' ' : '*', it[20];
    world(1);
    vp_db_put("bob.nick", "Bob"); vp_db_put("bob.password", "pw"); vp_db_put("bob.home", "ub@hb");
    strcpy(u_tab[ME].realname, "registered");
    n = L[l];
    clear_ev();
    switch (k) {
    case 0: rep(b, "", n, x); cmd(ME, "topic", b); break;
    case 1: rep(b, "", n, x); cmd(ME, "name", b); break;
    case 2: rep(b, "", n, x); cmd(ME, "g", b); break;
    case 3: rep(b, "%s ", n, x); cmd(ME, "away", b); clear_ev(); cmd(3, "m", "bob hi"); break;
    case 4: rep(b, "server write bob ", n, x); cmd(3, "m", b); clear_ev(); cmd(ME, "m", "server read"); break;
    case 5: case 6: case 7: {
        static const char *const W[] = { "server rname ", "server addr ", "server text " };
        rep(b, W[k - 5], n, x); cmd(ME, "m", b); packets(); clear_ev();
        cmd(3, "m", "server whois bob");
        break; }
    case 8: case 9: case 10: case 11: case 12: case 13: case 14:
        if (n > 13 && n < 200) return;
        for (i = 0; i < 52; i++) {
            clear_ev();
            it[0] = (char)('a' + i % 26); it[1] = (char)('a' + i / 26); it[2] = 0;
            rep(b, LPRE[k - 8], 0, x); strcat(b, it);
            memset(b + strlen(b) + 0, 0, 1);
            { int o = (int)strlen(b), m = n > 12 ? 10 : n; memset(b + o, x, m); b[o + m] = 0; }
            cmd(ME, LISTS[k - 8], b);
            packets();
        }
        clear_ev();
        cmd(ME, LISTS[k - 8], "");
        break;
    }
    packets();
    clear_ev();
    cmd(3, "w", "");
    packets();
    clear_ev();
    cmd(ME, "status", "");
    cmd(ME, "whereis", "bob");
    cmd(ME, "echoback", "on");
    VP_WITNESS(k == 0 && l == 6 && x == 'm', "a long topic");
    after();
}
void harness(void)
{
    switch (vp_case) {
    case 0: bytes(); break;
    case 1: commands(); break;
    case 2: case 3: autos(); break;
    case 8: stored(); break;
    default: lengths(); break;
    }
}
