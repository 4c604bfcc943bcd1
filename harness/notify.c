/* who is told that somebody signs on or off */
#include "srv.h"
#include "mapdb.h"
#include "fs.h"
#include "wildmat.h"
#include <netinet/in.h>
#ifndef K
#define K 3
#endif
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l) { memset(a, 0, *l); a->sa_family = AF_INET; return 0; }
char *getremotename(int fd) { return "hb"; }
static void up(char *s) { for (; *s; s++) if (*s >= 'a' && *s <= 'z') *s -= 32; }
static char np[4][8], sp[4][8];
/* clients 1 and 3 ask for any pattern of up to 3 characters as nickname or address */
static void ask(int i, int kind)
{
    char b[16]; int n = 3, k;
    np[i][0] = sp[i][0] = 0;
    if (!kind) return;
    strcpy(b, kind == 2 ? "-s " : kind == 3 ? "-q -n " : "");
    for (k = 0; k < n; k++) { int c = vp_int(33, 126); VP_ASSUME(c != '-'); (kind == 2 ? sp : np)[i][k] = (char)c; b[(kind == 2 ? 3 : kind == 3 ? 6 : 0) + k] = (char)c; }
    (kind == 2 ? sp : np)[i][n] = 0;
    b[(kind == 2 ? 3 : kind == 3 ? 6 : 0) + n] = 0;
    if (kind == 2) strcpy(sp[i] + 3, "H?"), strcpy(b + 6, "h?");
    up(np[i]); up(sp[i]);
    cmd(i, "notify", b);
}
static int asked(int i, int vis)
{
    return on(i) && vis != SUPERSECRET && ((np[i][0] && wildmat("BOB", np[i])) || (sp[i][0] && wildmat("UB@HB", sp[i])));
}
static void told_of(const char *cat, const char *what, int yes, int vis)
{
    int i;
    for (i = 1; i < NU; i++) if (i != ME) VP_ASSERT(count_ev(i, 'd', cat, what) == (yes && asked(i, vis)), "those who asked, and only those, are told once");
    VP_ASSERT(count_ev(ME, 'd', "Notify-On", 0) + count_ev(ME, 'd', "Notify-Off", 0) == 0, "one is told of oneself");
}
static void onoff(void)
{
    int g, vis, ok, same;
    srv_init();
    fs_text("./motd", "hi\n");
    add_group(1, "Alpha");
    add_user(1, "Alpha");
    g = vp_pick(0, 3);
    if (vp_pick(0, 1)) { add_group(2, "Alphab"); add_user(3, "Alphab"); }
    ask(1, vp_pick(0, 3));
    if (on(3)) { int w = vp_pick(0, 1); np[3][0] = sp[3][0] = 0; if (w) { strcpy(np[3], "BOB"); strcpy(sp[3], "*@HB"); cmd(3, "notify", "bob"); cmd(3, "notify", "-s *@hb"); } }
    vis = g == 0 ? vp_pick(VISIBLE, SUPERSECRET) : g == 1 ? SECRET : g == 2 ? SUPERSECRET : VISIBLE;
    if (g == 0) { g_tab[1].visibility = vis; if (vp_pick(0, 1)) g_tab[1].control = RESTRICTED; }
    same = vp_pick(0, 1);
    ok = !same && !(g == 0 && g_tab[1].control == RESTRICTED);
    s_new_user(ME, 0);
    clear_ev();
    pkt(ME, 'a', g == 0 ? same ? "ub\1aNN\1Alpha\1login\1" : "ub\1Bob\1Alpha\1login\1" : g == 1 ? same ? "ub\1aNN\1.Sec\1login\1" : "ub\1Bob\1.Sec\1login\1"
        : g == 2 ? same ? "ub\1aNN\1..Inv\1login\1" : "ub\1Bob\1..Inv\1login\1" : same ? "ub\1aNN\1New\1login\1" : "ub\1Bob\1New\1login\1");
    VP_ASSERT(on(ME) == ok, "the login");
    told_of("Notify-On", "Bob (UB@HB) has just signed on", ok, vis);
    VP_ASSERT(count_ev(1, 'd', "Notify-Off", 0) == 0 && count_ev(3, 'd', "Notify-Off", 0) == 0, "signing on is reported as signing off");
    VP_WITNESS(ok && asked(1, vis) && sp[1][0] == '*', "asked for an address with a star");
    VP_WITNESS(ok && asked(3, vis) && np[1][0] == '?' && asked(1, vis), "two asked");
    if (!ok) return;
    clear_ev();
    s_lost_user(ME);
    told_of("Notify-Off", "Bob (UB@HB) has just signed off", 1, vis);
    VP_ASSERT(count_ev(1, 'd', "Notify-On", 0) == 0 && count_ev(3, 'd', "Notify-On", 0) == 0, "signing off is reported as signing on");
}
/* histories: asking and taking back, signing on and off, renaming, moving */
static void history(void)
{
    int k, up_ = 0, ask_ = 0, site = vp_pick(0, 1), bob = 1, vis = VISIBLE;
    srv_init();
    fs_text("./motd", "hi\n");
    add_group(1, "Alpha");
    add_user(1, "Alpha"); add_user(3, "Alpha");
    for (k = 0; k < K + 1; k++) {
        int op = vp_pick(0, 3), told_ = 0;
        clear_ev();
        if (op == 0) { cmd(1, "notify", site ? "-s ub@hb" : "bob"); ask_ = !ask_; continue; }
        if (op == 1 && !up_) {
            s_new_user(ME, 0);
            pkt(ME, 'a', "ub\1Bob\1Alpha\1login\1");
            VP_ASSERT(on(ME), "the login");
            up_ = bob = 1; vis = VISIBLE; told_ = ask_;
            VP_ASSERT(count_ev(1, 'd', "Notify-On", 0) == told_ && count_ev(1, 'd', "Notify-Off", 0) == 0, "signing on is not reported as asked");
        } else if (op == 1) {
            s_lost_user(ME);
            up_ = 0; told_ = ask_ && (site || bob) && vis == VISIBLE;
            VP_ASSERT(count_ev(1, 'd', "Notify-Off", 0) == told_ && count_ev(1, 'd', "Notify-On", 0) == 0, "signing off is not reported as asked");
            VP_WITNESS(told_ && !bob, "signed off under another name");
        } else if (op == 2 && up_) { cmd(ME, "name", bob ? "Dan" : "Bob"); bob = !bob; }
        else if (op == 3 && up_) { cmd(ME, "g", vis == VISIBLE ? "..Inv" : "Alpha"); vis = vis == VISIBLE ? SUPERSECRET : VISIBLE; }
        VP_ASSERT(count_ev(3, 'd', "Notify-On", 0) + count_ev(3, 'd', "Notify-Off", 0) == 0, "somebody is told who did not ask");
        if (op >= 2) VP_ASSERT(count_ev(1, 'd', "Notify-On", 0) + count_ev(1, 'd', "Notify-Off", 0) == 0, "a change of name or group is reported as signing on or off");
    }
    VP_WITNESS(ask_ && up_ && !bob && vis != VISIBLE, "renamed in a hidden group");
}
void harness(void)
{
    if (vp_case == 0) onoff(); else history();
}
