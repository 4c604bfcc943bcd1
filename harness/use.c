/* the texts users supply, from the packet they come in to the packets they
 * go out in: templates keep to their one slot, everything else is filtered */
#include "srv.h"
#include "mapdb.h"
#ifndef N
#define N 2
#endif
static void world(void)
{
    srv_init();
    add_group(1, "Alpha");
    add_user(ME, "Alpha");
    add_user(3, "Alpha");
    add_group(2, "Alphab");
    add_user(1, "Alphab");
    g_tab[1].mod = ME;
}
/* a text of up to N arbitrary printable characters, one of three middles, up to N more */
static int slots, bad, plain;     /* %s in it, other conversions, length */
static void any_text(char *t)
{
    static const char *const M[] = { "", "%s", "s%s%" };
    int i, a = vp_pick(0, N), m = vp_pick(0, 2), b = vp_pick(m ? 0 : 1, N), n = 0;
    if (a + b == 0) VP_ASSUME(m);
    for (i = 0; i < a; i++) t[n++] = (char)vp_int(32, 126);
    strcpy(t + n, M[m]); n += (int)strlen(M[m]);
    for (i = 0; i < b; i++) t[n++] = (char)vp_int(32, 126);
    t[n] = 0;
    plain = n;
    VP_ASSUME(t[0] != ' ');
    slots = bad = 0;
    for (i = 0; t[i]; i++)
        if (t[i] == '%') {
            i++;
            if (t[i] == 's') slots++;
            else if (t[i] != '%') { bad++; i--; }
        }
}
/* the text with its slot filled and its doubled percent signs single */
static void fill(char *o, const char *t, const char *with)
{
    int i;
    for (i = 0; t[i]; i++) {
        if (t[i] == '%' && t[i + 1] == 's') { const char *w = with; while (*w) *o++ = *w++; i++; continue; }
        if (t[i] == '%' && t[i + 1] == '%') i++;
        *o++ = t[i];
    }
    *o = 0;
}
static void away(void)
{
    char t[16], want[32]; int i, ok;
    world();
    u_tab[3].echoback = vp_pick(0, 1) * 2;
    any_text(t);
    ok = slots == 1 && !bad;
    snap();
    clear_ev();
    cmd(3, "away", t);
    VP_WITNESS(ok && t[0] == '%' && t[1] == '%', "a doubled percent sign in an away message");
    VP_WITNESS(!ok && slots == 1, "another conversion in an away message");
    if (!ok) {
        VP_ASSERT(count_type(3, 'e') == 1 && vp_nev == 1, "a text that cannot be used is not refused");
        all_same("a refused away message had an effect");
    } else {
        VP_ASSERT(u_tab[3].awaymsg[0] && count_ev(3, 'd', "Away", 0) == 1, "a usable away message is refused");
        strcpy(want, ") "); strcat(want, t);
        for (i = 0; i < 2; i++) {
            if (i) { clear_ev(); cmd(ME, "m", "cat hi"); }
            VP_ASSERT(told(i ? ME : 3, want), "the away message is not shown as it was given");
            VP_ASSERT(count_ev(i ? ME : 3, 'd', "Away", 0) == 1, "the away message is not shown once");
        }
        if (u_tab[3].echoback) VP_ASSERT(count_type(3, 'i') == 1 && told(3, want), "the echoed away message is not the one given");
        clear_ev();
        cmd(3, "away", "");
        VP_ASSERT(told(3, want), "the away message is not shown as it was given");
    }
    packets();
}
static void boot(void)
{
    char t[16], arg[24], want[40]; int ok; static const char *const W[] = { "cat", "CAT" };
    world();
    any_text(t);
    ok = slots <= 1 && !bad;
    strcpy(arg, W[vp_pick(0, 1)]); strcat(arg, " "); strcat(arg, t);
    snap();
    clear_ev();
    cmd(ME, "boot", arg);
    VP_WITNESS(ok && slots == 1 && t[0] == '%' && t[1] == '%', "a doubled percent sign in a boot message");
    VP_WITNESS(ok && slots == 0 && plain == 2, "a boot message without slot");
    VP_WITNESS(!ok && slots <= 1, "another conversion in a boot message");
    if (!ok) {
        VP_ASSERT(count_type(ME, 'e') == 1 && vp_nev == 1, "a text that cannot be used is not refused");
        all_same("a refused boot had an effect");
    } else {
        if (slots) fill(want, t, "Cat");
        else { strcpy(want, "Cat "); strcat(want, t); }
        VP_ASSERT(count_ev(ME, 'd', "Boot", want) == 1, "the boot message is not the text with its slot filled");
        VP_ASSERT(count_ev(3, 'd', "Boot", want) == 1 && ieq(u_tab[3].group, BOOT_GROUP), "the booted user is not told");
        VP_ASSERT(vp_sent[1] == 0, "another group is told");
    }
    packets();
}
static void idlemsg(void)
{
    char t[16], arg[32], want[40]; int ok;
    world();
    any_text(t);
    ok = slots == 1 && !bad;
    strcpy(arg, "idlebootmsg "); strcat(arg, t);
    snap();
    clear_ev();
    cmd(ME, "status", arg);
    VP_WITNESS(ok && t[0] == '%' && t[1] == '%', "a doubled percent sign in an idle message");
    VP_WITNESS(!ok && slots == 1, "another conversion in an idle message");
    if (!ok) {
        VP_ASSERT(count_type(ME, 'e') == 1 && vp_nev == 1, "a text that cannot be used is not refused");
        all_same("a refused idle message had an effect");
    } else {
        VP_ASSERT(!strcmp(g_tab[1].idleboot_msg, t), "the idle message is not the text given");
        VP_ASSERT(count_type(ME, 'e') == 0 && vp_sent[3] == 0, "the idle message is refused, or shown to others");
        clear_ev();
        u_tab[ME].t_recv = u_tab[1].t_recv = vp_now;
        u_tab[3].t_recv = vp_now - DEF_IDLE_BOOT - 1;
        s_didpoll(0);
        fill(want, t, "you");
        VP_ASSERT(count_ev(3, 'd', "Idle-Boot", want) == 1, "the idle user is not told the text with its slot filled");
        fill(want, t, "Cat");
        VP_ASSERT(count_ev(ME, 'd', "Idle-Boot", want) == 1, "the group is not told the text with its slot filled");
        VP_ASSERT(vp_sent[1] == 0, "another group is told");
    }
    packets();
}
/* long texts with the slot anywhere: cut, not overrun */
static void longt(void)
{
    static const int L[] = { 1, 40, 49, 50, 51, 52, 53, 54, 100, 180, 190, 191, 192, 193, 194, 195, 200, 210, 219, 228, 229, 230, 231, 232, 233, 236, 240, 241 };
    char t[MAX_PKT_LEN], want[MAX_PKT_LEN + 16]; int k = vp_pick(0, 2), l = L[vp_pick(0, (int)(sizeof L / sizeof L[0]) - 1)], p = vp_pick(0, 2), i, n, g, q = vp_pick(0, 1);
    world();
    n = l + 2;
    if (k == 2) VP_ASSUME(n + 12 <= 245);
    p = p == 0 ? 0 : p == 1 ? l / 2 : l;
    for (i = 0; i < n; i++) t[i] = i == p ? '%' : i == p + 1 ? 's' : q ? 'x' : (i & 1) ^ (i > p) ? '%' : '%';
    t[n] = 0;
    if (!q) {                               /* doubled percent signs all around, or an x where they do not fit */
        if (p & 1) t[p - 1] = 'x';
        if ((n - p) & 1) t[n - 1] = 'x';
    }
    clear_ev();
    g = k == 0 ? 3 : ME;
    if (k == 0) { cmd(3, "away", t); }
    if (k == 1) { strcpy(want, "cat "); strcat(want, t); cmd(ME, "boot", want); }
    if (k == 2) { strcpy(want, "idlebootmsg "); strcat(want, t); cmd(ME, "status", want); }
    packets();
    VP_WITNESS(k == 1 && l == 240, "longest boot message");
    if (k == 2 && n >= IDLEBOOT_MSG_LEN) { VP_ASSERT(count_type(ME, 'e') == 1 && !g_tab[1].idleboot_msg[0], "an idle message that is too long"); return; }
    VP_ASSERT(count_type(g, 'e') == 0, "a usable text is refused");
    if (k == 0) { clear_ev(); cmd(ME, "m", "cat hi"); }
    if (k == 2) { clear_ev(); u_tab[ME].t_recv = u_tab[1].t_recv = vp_now; u_tab[3].t_recv = vp_now - DEF_IDLE_BOOT - 1; s_didpoll(0); }
    packets();
    if (k) {
        fill(want, t, "Cat");
        want[231] = 0;
        if (strlen(want) < 228) VP_ASSERT(count_ev(ME, 'd', k == 1 ? "Boot" : "Idle-Boot", want) == 1, "the text with its slot filled");
        else VP_ASSERT(count_ev(ME, 'd', k == 1 ? "Boot" : "Idle-Boot", 0) == 1 && (want[200] = 0, told(ME, want)), "the beginning of the text with its slot filled");
    } else {
        t[180] = 0;
        VP_ASSERT(count_ev(ME, 'd', "Away", 0) == 1 && told(ME, t), "the away message is not shown as it was given");
    }
    invariants();
}
void harness(void)
{
    switch (vp_case) {
    case 0: away(); break;
    case 1: boot(); break;
    case 2: idlemsg(); break;
    case 3: longt(); break;
    }
}
