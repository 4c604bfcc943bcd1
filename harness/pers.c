/* personal messages, beeps and pings: only the addressee gets them. */
#include "srv.h"
static int addressee(const char *w)
{
    int i;
    for (i = 1; i < NU; i++) if (on(i) && ieq(w, u_tab[i].nickname)) return i;
    return -1;
}
static void word3(char *w)
{
    int i;
    for (i = 0; i < 3; i++) { w[i] = (char)vp_int('A', 'z'); VP_ASSUME(w[i] <= 'Z' || w[i] >= 'a'); }
    w[3] = 0;
}
static void others_silent(int d)
{
    int i;
    for (i = 0; i < NU; i++) if (i != ME && i != d) VP_ASSERT(vp_sent[i] == 0, "a third client got something");
}
/* 1, 2: hushed by nick or site (personal); 3: pattern; 4, 5: open messages
 * only; 6: somebody else */
static int prihush(int i, int w)
{
    switch (w) {
    case 1: nlput(u_tab[i].pri_n_hushed, "BOB"); break;
    case 2: nlput(u_tab[i].pri_s_hushed, "UB@HB"); break;
    case 3: nlput(u_tab[i].pri_s_hushed, "UB@*"); break;
    case 4: nlput(u_tab[i].pub_n_hushed, "BOB"); break;
    case 5: nlput(u_tab[i].pub_s_hushed, "UB@HB"); break;
    case 6: nlput(u_tab[i].pri_n_hushed, "BO"); nlput(u_tab[i].pri_s_hushed, "UB@H"); break;
    }
    return w >= 1 && w <= 3;
}
/* some output for that client holds both texts */
static int echoed(int to, const char *who, const char *text)
{
    int e;
    for (e = 0; e < vp_nev; e++)
        if (vp_ev[e].to == to && vp_ev[e].data[1] == 'i' && contains(vp_ev[e].data + 1, vp_ev[e].len - 1, who) && contains(vp_ev[e].data + 1, vp_ev[e].len - 1, text)) return 1;
    return 0;
}
static void personal(void)
{
    char w[4], arg[16], text[4]; int d, h, hw, away, gap = vp_pick(0, 1);
    srv_init();
    any_members("Alpha", "Alphab", 1);
    hw = vp_pick(0, 6);
    word3(w);
    d = addressee(w);
    if (d == ME && vp_pick(0, 1)) { strcpy(u_tab[ME].awaymsg, "gone"); }
    h = d > 0 ? prihush(d, hw) : 0;
    if (d < 0) VP_ASSUME(hw == 0);
    if (d > 0 && d != ME) prihush(ME, hw == 1 ? 1 : 0);       /* the other way round changes nothing */
    u_tab[ME].echoback = vp_int(0, 2);
    if (d > 0 && d != ME) u_tab[d].echoback = vp_int(0, 2);
    away = d > 0 ? (d == ME ? u_tab[ME].awaymsg[0] != 0 : vp_pick(0, 1)) : 0;
    if (away && d != ME) strcpy(u_tab[d].awaymsg, "gone");
    text[0] = (char)vp_int(33, 126); text[1] = (char)vp_int(32, 126); text[2] = (char)vp_int(33, 126); text[3] = 0;
    strcpy(arg, w); strcat(arg, gap ? "  " : " "); strcat(arg, text);
    snap();
    clear_ev();
    cmd(ME, "m", arg);
    others_silent(d);
    if (d < 0) {
        VP_ASSERT(count_type(ME, 'e') == 1 && vp_sent[ME] == 1, "the sender is told that the addressee is unknown");
    } else {
        VP_ASSERT(count_type(d, 'c') == !h, "the addressee gets the message once unless they hushed the sender");
        VP_ASSERT(count_ev(d, 'c', "Bob", text) == !h, "the message or its sender was altered");
        VP_ASSERT((count_ev(ME, 'd', "Bounce", 0) > 0) == h, "the sender is told exactly when the message bounced");
        if (d != ME) {
            VP_ASSERT(count_type(ME, 'c') == 0, "the sender got a copy");
            VP_ASSERT(count_ev(ME, 'd', "Away", "gone") == away, "the away message is shown to the sender");
            VP_ASSERT(vp_sent[d] == !h + (away && u_tab[d].echoback == 2), "the addressee got something else");
        }
        VP_ASSERT((count_ev(ME, 'i', "co", 0) > 0) == ((u_tab[ME].echoback == 2)), "the echo follows the setting");
        if (d != ME && u_tab[ME].echoback == 2) {
            VP_ASSERT(echoed(ME, u_tab[d].nickname, text), "the echo is not the message and its addressee");
            if (away) VP_WITNESS(1, "echo of a message to someone away");
        }
        if (d != ME && away && u_tab[d].echoback == 2) VP_ASSERT(echoed(d, "Bob", "gone"), "the echo of the away message is not that message and its addressee");
        VP_ASSERT(count_type(ME, 'e') == 0, "an error for a message that was sent");
    }
    all_same("a personal message changed the users or groups");
    if (d > 0 && d != ME) {                     /* whom a look-up without a name shows */
        int heard = !h;
        clear_ev();
        cmd(d, "whereis", "");
        VP_ASSERT(told(d, "Bob") == heard, "a look-up without a name shows the sender of the last message received");
        clear_ev();
        cmd(ME, "whereis", "");
        VP_ASSERT(!told(ME, u_tab[d].nickname), "a look-up without a name shows someone who sent nothing");
    }
    VP_WITNESS(d == 3 && !h && away, "delivered to an away user");
    VP_WITNESS(d == 1 && h, "bounced");
    VP_WITNESS(d == ME && !h, "message to oneself");
    VP_WITNESS(d == -1, "unknown addressee");
}
/* away replies: none if the last one went to the same sender within 10 s */
static void awayrep(void)
{
    int k, last = 0; long when = 0; char t[2] = "x";
    srv_init();
    add_group(1, "Alpha");
    add_user(1, "Alpha"); add_user(ME, "Alpha"); add_user(3, "Alpha");
    cmd(3, "away", "%s: lunch");
    VP_ASSERT(told(3, "lunch") && vp_sent[1] == 0 && vp_sent[2] == 0, "setting an away message");
    for (k = 0; k < 4; k++) {
        int s = vp_pick(1, 2), beep = vp_pick(0, 1), shown, dt = vp_pick(0, 2);
        vp_now += dt == 0 ? 0 : dt == 1 ? 10 : 11;
        shown = last != s || vp_now - when > 10;
        clear_ev();
        if (beep) cmd(s, "beep", "cat"); else cmd(s, "m", "Cat x");
        VP_ASSERT(count_ev(s, 'd', "Away", 0) == shown, "the away message is shown, but not again within ten seconds");
        if (shown) VP_ASSERT(told(s, "lunch"), "the away message is the one set");
        VP_ASSERT(count_type(3, beep ? 'k' : 'c') == 1 && vp_sent[3 - s] == 0, "delivered to an away user");
        if (shown) { last = s; when = vp_now; }
    }
    (void)t;
    clear_ev();
    cmd(3, "noaway", "");
    cmd(1, "m", "Cat x");
    VP_ASSERT(count_ev(1, 'd', "Away", 0) == 0, "away taken back");
    cmd(3, "away", "%s: dinner");
    clear_ev();
    cmd(1, "m", "Cat x");
    VP_ASSERT(count_ev(1, 'd', "Away", 0) == 1 && told(1, "dinner"), "a new away message is shown");
    VP_WITNESS(last == 1, "away reply");
}
static void beep(void)
{
    char w[4]; int d, nb;
    srv_init();
    any_members("Alpha", "Alphab", 1);
    word3(w);
    d = addressee(w);
    u_tab[ME].echoback = vp_int(0, 2);
    if (d > 0) {
        nb = vp_pick(0, 2);
        if (vp_pick(0, 1)) u_tab[d].nobeep = nb;
        else cmd(d, "nobeep", nb == 0 ? "off" : nb == 1 ? "on" : "verbose");
        prihush(d, vp_pick(0, 2));
    } else nb = 0;
    snap();
    clear_ev();
    cmd(ME, "beep", w);
    others_silent(d);
    if (d < 0) VP_ASSERT(count_type(ME, 'e') == 1 && vp_sent[ME] == 1, "the sender is told that the addressee is unknown");
    else {
        VP_ASSERT(count_ev(d, 'k', "Bob", 0) == (nb == 0) && count_type(d, 'k') == (nb == 0), "the beep reaches its addressee unless refused");
        VP_ASSERT(count_type(ME, 'e') == (nb != 0), "the sender is told exactly when the beep was refused");
        if (d != ME) VP_ASSERT(count_type(d, 'd') == (nb == 2) && vp_sent[d] == (nb != 1), "a refused beep is reported only if asked for");
        VP_ASSERT((count_ev(ME, 'i', "co", 0) > 0) == (u_tab[ME].echoback == 2), "the echo follows the setting");
    }
    all_same("a beep changed the users or groups");
    VP_WITNESS(d == 1 && nb == 0, "beeped");
    VP_WITNESS(d == 3 && nb == 2, "beep refused and reported");
}
/* pings and their answers, any order of two of them and a departure */
static void ping(void)
{
    char w[4]; int d, k, req[NU], left = 0;
    srv_init();
    any_members("Alpha", "Alphab", 0);
    for (k = 0; k < NU; k++) req[k] = -1;
    for (k = 0; k < (vp_deep ? 4 : 3); k++) {
        int op = vp_pick(0, 2), s = vp_pick(1, 3), i;
        VP_ASSUME(on(s));
        clear_ev();
        if (op == 0) {
            i = vp_pick(0, 4);
            strcpy(w, i == 4 ? "zed" : UNICKS[i]);  /* none: oneself */
            d = w[0] ? addressee(w) : s;
            cmd(s, "ping", w);
            for (i = 1; i < NU; i++) VP_ASSERT(count_type(i, 'l') == (i == d), "a ping reaches exactly its addressee");
            if (d > 0) { VP_ASSERT(count_ev(d, 'l', u_tab[s].nickname, 0) == 1, "the ping names the one who asked"); req[d] = s; }
            else VP_ASSERT(count_type(s, 'e') == 1, "unknown addressee of a ping");
            for (i = 1; i < NU; i++) if (i != d && i != s) VP_ASSERT(vp_sent[i] == 0, "a third client got something");
        } else if (op == 1) {
            pkt(s, 'm', "");
            d = req[s] > 0 ? req[s] : s;
            for (i = 1; i < NU; i++) VP_ASSERT(vp_sent[i] == (i == d), "an answer is reported exactly to the one who asked");
            VP_ASSERT(count_ev(d, 'd', "PONG", 0) == 1, "the answer is reported");
            if (req[s] > 0) VP_ASSERT(told(d, u_tab[s].nickname), "the report names the one who answered");
            req[s] = -1;
        } else {
            VP_ASSUME(!left);
            s_lost_user(s);
            left = 1;
            req[s] = -1;
            for (i = 1; i < NU; i++) if (req[i] == s) req[i] = -1;
        }
    }
    VP_WITNESS(left && vp_sent[ME] == 1 && count_ev(ME, 'd', "PONG", 0), "answer after a departure");
}
void harness(void)
{
    switch (vp_case) {
    case 0: personal(); break;
    case 1: awayrep(); break;
    case 2: beep(); break;
    case 3: ping(); break;
    }
}
