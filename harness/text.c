/* whatever text comes in, what goes out is printable, well-formed UTF-8, and
 * the text given is passed on filtered and otherwise unaltered */
#include "srv.h"
#include "mapdb.h"
#include "ref.h"
static void world(void)
{
    srv_init();
    add_group(1, "Alpha");
    add_user(ME, "Alpha");
    add_user(3, "Alpha");
    add_group(2, "Alphab");
    add_user(1, "Alphab");
    g_tab[1].mod = ME;
}
/* every packet: printable characters in well-formed UTF-8, and separators */
static void clean(void)
{
    int e, i, l, b, m;
    for (e = 0; e < vp_nev; e++)
        for (i = 2; i < vp_ev[e].len - 1; i += m) {
            unsigned char *d = (unsigned char *)vp_ev[e].data + i;
            l = seq(d, vp_ev[e].len - 1 - i, &b);
            VP_ASSERT(l > 0, "an ill-formed character is passed on");
            VP_ASSERT(l > 1 || d[0] >= 32 || d[0] == 1, "a control character is passed on");
            m = l;
        }
    packets();
}
static char raw[16], ref[24]; static int rn;
static void any_bytes(int max, int nospace)
{
    int i, multi = 0, ill = 0;
    rn = vp_pick(1, max);
    for (i = 0; i < rn; i++) {
        raw[i] = (char)vp_int(2, 255);
        if (nospace) VP_ASSUME(raw[i] != ' ' && raw[i] != 9);
    }
    VP_ASSUME(raw[0] != ' ' && raw[0] != 9);
    strcpy(raw + rn, "z");
    ref_filter((unsigned char *)raw, rn + 1, (unsigned char *)ref, &multi, &ill);
}
static void msgs(void)
{
    int k = vp_pick(0, 7); char arg[32];
    world();
    u_tab[ME].echoback = 2;
    any_bytes(vp_deep ? 3 : 2, 0);
    VP_WITNESS(k == 0 && rn == 2 && (unsigned char)raw[0] == 0xc3 && (unsigned char)raw[1] == 0xa4, "an umlaut");
    VP_WITNESS(k == 1 && (unsigned char)raw[0] == 0xff, "an impossible byte");
    clear_ev();
    switch (k) {
    case 0:
        pkt(ME, 'b', raw);
        VP_ASSERT(count_ev(3, 'b', "Bob", ref) == 1 && vp_sent[1] == 0, "the message filtered"); break;
    case 1:
        strcpy(arg, "ann "); strcat(arg, raw);
        cmd(ME, "m", arg);
        VP_ASSERT(count_ev(1, 'c', "Bob", ref) == 1, "the message filtered");
        VP_ASSERT(count_type(ME, 'i') == 1 && told(ME, ref), "the echo filtered"); break;
    case 2:
        strcpy(arg, "cat "); strcat(arg, raw);
        cmd(ME, "exclude", arg);
        VP_ASSERT(vp_sent[3] == 0, "the excluded one hears it");
        VP_ASSERT(told(ME, ref), "the message filtered"); break;
    case 3:
        cmd(ME, "topic", raw);
        VP_ASSERT(count_ev(3, 'd', "Topic", 0) == 1 && told(3, ref), "the topic filtered");
        clean(); clear_ev();
        cmd(3, "topic", "");
        VP_ASSERT(told(3, ref), "the topic filtered");
        clean(); clear_ev();
        pkt(1, 'h', "w\1");
        VP_ASSERT(told(1, ref), "the topic filtered"); break;
    case 4:
        strcpy(arg, "%s "); strcat(arg, raw);
        VP_ASSUME(raw[0] != '%' && (rn < 2 || raw[1] != '%') && (rn < 3 || raw[2] != '%'));
        cmd(3, "away", arg);
        VP_ASSERT(told(3, ref), "the away message filtered");
        clean(); clear_ev();
        cmd(ME, "m", "cat hi");
        VP_ASSERT(told(ME, ref), "the away message filtered"); break;
    case 5:
        strcpy(arg, "cat "); strcat(arg, raw);
        VP_ASSUME(raw[0] != '%' && (rn < 2 || raw[1] != '%') && (rn < 3 || raw[2] != '%'));
        cmd(ME, "boot", arg);
        VP_ASSERT(told(3, ref), "the boot message filtered"); break;
    case 6:
        strcpy(u_tab[ME].nickname, "Admin"); strcpy(u_tab[ME].password, "Zp9");
        cmd(ME, "wall", raw);
        VP_ASSERT(told(1, ref) && told(3, ref), "the broadcast filtered"); break;
    case 7:
        vp_db_put("ann.nick", "Ann"); vp_db_put("ann.password", "pw"); vp_db_put("ann.home", "UA@HA");
        strcpy(u_tab[ME].realname, "registered");
        if (vp_pick(0, 1)) { strcpy(arg, "ann "); strcat(arg, raw); cmd(ME, "write", arg); }
        else {                              /* a message to the resident user: its words are found after filtering */
            VP_ASSUME(ref[0] != ' ');
            strcpy(arg, "server write ann "); strcat(arg, raw); cmd(ME, "m", arg);
        }
        clean(); clear_ev();
        strcpy(u_tab[1].realname, "registered");
        cmd(1, "m", "server read");
        VP_ASSERT(told(1, ref), "the stored message filtered"); break;
    }
    clean();
}
/* arguments that are names, options, patterns: whatever is said about them is clean */
static void args(void)
{
    static const char *const C[] = { "beep", "cancel", "g", "invite", "pass", "boot", "status", "name", "w", "hush", "notify", "talk", "ping", "echoback", "log", "drop", "news", "brick", "zzz", "m" };
    static const char *const P[] = { "", "-s ", "-n ", "name ", "server ", "server whois " };
    int c = vp_pick(0, 19), p = vp_pick(0, 5), i; char arg[40];
    VP_ASSUME(p == 0 || (p <= 2 && (c == 1 || c == 3 || c == 9 || c == 10 || c == 11 || c == 8)) || (p == 3 && c == 6) || (p >= 4 && c == 19));
    world();
    g_tab[1].control = vp_pick(0, 1) ? RESTRICTED : CONTROLLED;
    any_bytes(2, 0);
    strcpy(arg, P[p]); strcat(arg, raw);
    clear_ev();
    VP_WITNESS(c == 1 && p == 0 && (unsigned char)raw[0] == 0x80, "an ill-formed byte in an argument");
    cmd(ME, C[c], arg);
    clean();
    clear_ev();
    if (c == 3 || c == 11 || c == 9 || c == 10) { cmd(ME, C[c], ""); clean(); clear_ev(); }
    if (c == 2 || c == 7 || c == 6 || c == 3) for (i = 0; i < 2; i++) { pkt(i ? 1 : ME, 'h', "w\1"); clean(); clear_ev(); }
}
void harness(void)
{
    if (vp_case == 0) msgs(); else args();
}
