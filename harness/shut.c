/* P34: a scheduled shutdown is announced to everyone in time, reported rightly and happens when it was announced. */
#include "srv.h"
#include "server.h"
extern int log_level; extern long TimeToDie; extern int ShutdownNotify;
static long due; static int gone;
static void bye(void)
{
    int i;
    VP_ASSERT(due > 0 && vp_now >= due, "the server stops before the announced time");
    for (i = 1; i < NU; i++) if (on(i)) VP_ASSERT(vp_disc[i] == 1, "the server stops without closing a connection");
    VP_WITNESS(1, "stopped at the announced time");
}
static void boss(int i)
{
    strcpy(u_tab[i].nickname, "Admin");
    strcpy(u_tab[i].password, "Zp9");
}
/* the minutes until an end as they are written, with what they come to */
static const struct { const char *s; int m; } M[] = { { "0", 0 }, { "1", 1 }, { "2", 2 }, { "4", 4 }, { "5", 5 }, { "6", 6 }, { "10 for repairs", 10 }, { "60", 60 }, { "300", 300 }, { "1440", 1440 } };
/* scheduling, perhaps again later, and polls at any times */
static void schedule(void)
{
    int k, i, five = 0, one = 0, want5 = 0; long at = -1;
    srv_init();
    any_members("Alpha", "Beta", 1);
    boss(ME);
    vp_on_exit = bye;
    due = -1;
    for (k = 0; k < K; k++) {
        int op = k == 0 ? vp_pick(0, 1) : k == 1 ? vp_pick(0, 1) : k == 2 && at >= 0 ? vp_pick(0, 1) : 1, m, e5 = 0, e1 = 0;
        clear_ev();
        if (op == 0) {
            char t[60], d[8]; int v, p = 0;
            m = k < 2 ? vp_pick(0, 9) : vp_pick(0, 1) ? 2 : 6;
            VP_WITNESS(k == 2 && one, "announced anew at the last minute");
            cmd(ME, "shutdown", M[m].s);
            at = vp_now; due = at + 60 * M[m].m;
            want5 = M[m].m >= 5; five = one = 0;
            strcpy(t, "Server going down in ");
            for (v = M[m].m; p == 0 || v; v /= 10) d[p++] = (char)('0' + v % 10);
            for (v = (int)strlen(t); p; ) t[v++] = d[--p];
            t[v] = 0;
            strcat(t, " minute(s)!");
            for (i = 1; i < NU; i++) VP_ASSERT(count_ev(i, 'f', "Shutdown", t) == on(i) && vp_sent[i] == on(i), "not everyone is told once when the server will go down");
            continue;
        }
        /* time passes */
        if (k < 2) { static const int D[] = { 0, 7, 59, 60, 61, 299, 300, 301, 3000 }; vp_now += D[vp_pick(0, 8)]; }
        else vp_now += vp_int(0, 100000);
        for (i = 1; i < NU; i++) u_tab[i].t_recv = vp_now;
        snap();
        if (due > 0 && vp_now < due) {
            if (!five && want5 && vp_now >= due - 300) { e5 = 1; five = 1; }
            if (!one && vp_now >= due - 60) { e1 = 1; one = 1; }
        }
        s_didpoll(0);
        VP_ASSERT(due <= 0 || vp_now < due, "the server does not stop at the announced time");
        for (i = 1; i < NU; i++) {
            VP_ASSERT(count_ev(i, 'f', "Shutdown", "Server shutting down in 5 minutes!") == (e5 && on(i)), "the notice of five minutes before is not given once, in time, to everyone");
            VP_ASSERT(count_ev(i, 'f', "Shutdown", "Server shutting down in 1 minute!") == (e1 && on(i)), "the notice of one minute before is not given once, in time, to everyone");
            VP_ASSERT(vp_sent[i] == (on(i) ? e5 + e1 : 0), "something else is said");
            VP_ASSERT(vp_disc[i] == 0, "somebody is disconnected before the announced time");
        }
        all_same("waiting for the end changes something");
        VP_WITNESS(e5, "five minutes before");
        VP_WITNESS(e1 && k > 1, "one minute before");
    }
    (void)at; (void)gone;
}
/* how long is left */
static int num(const char **p) { int v = 0, any = 0; while (**p >= '0' && **p <= '9') { v = v * 10 + (*(*p)++ - '0'); any = 1; } VP_ASSERT(any, "a number is missing"); return v; }
static int eat(const char **p, const char *s) { const char *q = *p; while (*s) if (*q++ != *s++) return 0; *p = q; return 1; }
static void left(void)
{
    static const int L[] = { 1, 2, 59, 60, 61, 119, 120, 299, 3540, 3599, 3600, 3601, 3659, 3660, 7199, 7200, 7260, 86399, 86400, 90061 };
    int l = L[vp_pick(0, 19)], none = vp_pick(0, 1), e, ok = 0, who = vp_pick(0, 1) ? 3 : ME; char buf[128];
    srv_init();
    add_group(1, "Alpha"); add_group(2, "Beta");
    add_user(1, "Alpha"); add_user(ME, "Alpha"); add_user(3, "Beta");
    boss(1);
    if (!none) {
        cmd(1, "shutdown", "1600");
        vp_now += 1600 * 60 - l;
    }
    snap();
    clear_ev();
    cmd(who, "shuttime", "");
    VP_ASSERT(vp_sent[who] == 1 && vp_nev == 1, "an answer is not given once, to whoever asked");
    e = 0;
    VP_ASSERT(vp_ev[e].data[1] == 'd', "the answer is no status message");
    { unsigned n = (unsigned char)vp_ev[e].data[0], j; for (j = 0; j < sizeof buf - 1 && j + 2 < n; j++) buf[j] = vp_ev[e].data[j + 2]; buf[j] = 0; }
    { const char *p = buf; long a, z;
      ok = eat(&p, "Shutdown\1");
      VP_ASSERT(ok, "the answer is not about the shutdown");
      if (none) {
          VP_ASSERT(*p < '0' || *p > '9', "an end is reported though none is announced");
          VP_ASSERT(eat(&p, "No shutdown"), "it is not said that no end is announced");
      } else {
          int h = 0, m = 0, s = 0, u = 0, v = num(&p);
          if (eat(&p, " hour(s), ")) { h = v; v = num(&p); VP_ASSERT(eat(&p, " minute(s) left"), "no minutes"); m = v; u = 60; VP_ASSERT(m < 60, "more than an hour of minutes"); }
          else if (eat(&p, " minute(s) left")) { m = v; u = 60; }
          else { VP_ASSERT(eat(&p, " second(s) left"), "no unit"); s = v; u = 1; }
          a = h * 3600L + m * 60L + s; z = a + u;
          VP_ASSERT(l >= a && l < z, "the time reported is not what is left");
          VP_WITNESS(h > 23, "more than a day left");
      }
    }
    all_same("asking for the time left changes something");
}
void harness(void) { if (vp_case == 0) schedule(); else left(); }
