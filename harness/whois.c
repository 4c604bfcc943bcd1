/* what the resident user tells about a registered nickname */
#include "srv.h"
#include "mapdb.h"
#include "fs.h"
#include <netinet/in.h>
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l) { memset(a, 0, *l); a->sa_family = AF_INET; return 0; }
static char *add(char *o, const char *s) { while (*s) *o++ = *s++; *o = 0; return o; }
static void put(const char *n, const char *f, const char *v) { char k[40]; add(add(k, n), f); vp_db_put(k, v); }
static struct vp_rec old[VP_RECS];
static int len_of(int e) { return vp_ev[e].len - 6; }               /* of the text of a line "co\1text\0" */
static const char *text_of(int e) { return vp_ev[e].data + 5; }
static int line(int e) { return vp_ev[e].to == ME && is_ev(e, ME, 'i', "co", 0); }
static int is_text(int e, const char *lead, const char *s, int n)
{
    int k = (int)strlen(lead);
    return len_of(e) == k + n && bytes_same(text_of(e), lead, k) && bytes_same(text_of(e) + k, s, n);
}
static void world(void)
{
    srv_init();
    add_group(1, "Alpha"); add_user(ME, "Alpha"); add_user(1, "Alpha");
    put("ann", ".nick", "Ann"); put("ann", ".password", "pw!one"); put("ann", ".home", "ua@ha");
    put("cat", ".nick", "Cat"); put("cat", ".password", "pw!two"); put("cat", ".home", "uc@hc"); put("cat", ".text", "zqz_q_text"); put("cat", ".email", "zqz_q_mail");
    put("cat", ".addr", "zqz_q_addr"); put("cat", ".www", "zqz_q_www"); put("cat", ".phone", "zqz_q_phone"); put("cat", ".realname", "zqz_q_real"); put("cat", ".signon", "zqz_q_sign");
    strcpy(u_tab[1].realname, "registered");
}
/* the details are set by Ann and asked for by Bob, in any way */
static void set(int n, const char *f, const char *v)
{
    char b[MAX_PKT_LEN];
    if (n == 0) { add(add(add(add(b, "server "), f), " "), v); cmd(1, "m", b); }
    else cmd(1, f, v);
}
static void ask(int all)
{
    static const char *const A[] = { "server whois ann", "Server whois ANN", "Ann" };
    int a = all ? vp_pick(0, 2) : 0, i;
    snap();
    memcpy(old, vp_db, sizeof old);
    clear_ev();
    cmd(ME, a == 2 ? "whois" : "m", A[a]);
    all_same("asking about a nickname changed something");
    VP_ASSERT(bytes_same(old, vp_db, sizeof old), "asking about a nickname changed the database");
    for (i = 0; i < NU; i++) if (i != ME) VP_ASSERT(vp_sent[i] == 0, "the answer goes to somebody else");
    VP_ASSERT(!told(ME, "pw!one") && !told(ME, "pw!two") && !told(ME, "zqz_q_"), "a password or somebody else's detail is shown");
    VP_ASSERT(count_type(ME, 'e') == 0, "a registered nickname is not found");
    packets();
}
/* ---- each detail -------------------------------------------------------------- */
static void details(void)
{
    static const char *const F[] = { "rname", "phone", "email", "www" }, *const K1[] = { ".realname", ".phone", ".email", ".www" },
        *const H[] = { "Real Name: ", "Phone Number: ", "E-mail addr:  ", "WWW:  " };
    static const int MAX[] = { 25, 14, 60, 80 };
    int f = vp_pick(0, 3), which = vp_pick(0, 1), l = vp_pick(0, 6), n, i, e, hits = 0, rest = vp_pick(0, 1); char v[240], h[160], *o;
    n = l == 0 ? 1 : l == 1 ? 2 : l == 2 ? MAX[f] - 1 : l == 3 ? MAX[f] : l == 4 ? MAX[f] + 1 : l == 5 ? 140 : 220;
    if (f > 1) which = 0;
    world();
    for (i = 0; i < 4; i++) if (i != f && rest) put("ann", K1[i], "other");
    for (i = 0; i < n; i++) v[i] = '~';
    v[0] = (char)vp_int('!', '~'); v[n - 1] = (char)vp_int('!', '~');
    if (n > MAX[f]) v[MAX[f] - 1] = (char)vp_int('!', '~');
    v[n] = 0;
    VP_ASSUME(v[0] != '-');
    clear_ev();
    set(which, F[f], v);
    VP_ASSERT(count_type(1, 'e') == (n > MAX[f]), "a detail that is cut is not reported, or one that is not");
    if (n > MAX[f]) n = MAX[f];
    if (vp_pick(0, 1)) { put("ann", ".signon", "on<"); put("ann", ".signoff", "off<"); }
    i = vp_db_get("ann.signon") != 0;
    ask(1);
    for (e = 0; e < vp_nev; e++) {
        int k = (int)strlen(H[f]), p;
        if (!line(e)) continue;
        for (p = 0; p + k + n <= len_of(e); p++) {
            int stop = p + k + n == len_of(e) || text_of(e)[p + k + n] == ' ';
            if (stop && bytes_same(text_of(e) + p, H[f], k) && bytes_same(text_of(e) + p + k, v, n)) hits++;
        }
    }
    VP_ASSERT(hits == 1, "a detail is not shown once, as it was set");
    VP_ASSERT(told(ME, "Nickname:     Ann ") && told(ME, "Address:   ua@ha"), "nickname or address are not shown");
    for (i = 0; i < 4; i++) if (i != f) {
        int any;
        add(add(h, H[i]), rest ? "other" : "(None)");
        any = told(ME, h);
        if (!rest && i > 1) VP_ASSERT(!told(ME, H[i]), "a detail that was not given is shown");
        else VP_ASSERT(any, "another detail is not shown as it is");
    }
    o = add(h, "Last signon:  "); add(o, vp_db_get("ann.signon") ? "on< " : "(unknown)");
    VP_ASSERT(told(ME, h), "the last sign-on is not shown");
    o = add(h, "Last signoff:  "); add(o, vp_db_get("ann.signon") ? "off<" : "(unknown)");
    VP_ASSERT(told(ME, h), "the last sign-off is not shown");
    VP_ASSERT(!told(ME, "Text: ") && !told(ME, "Street"), "a detail that was not given is shown");
    VP_WITNESS(f == 3 && n == 80 && rest, "a long URL");
    VP_WITNESS(f == 1 && which == 1, "a short form");
}
/* ---- the text, which is broken into lines -------------------------------------- */
static char txt[240]; static int tn;
static void follow(int lead)
{
    int e, p = 0, w = (int)strlen("Text: "), lines = 0, rest;
    for (e = 0; e < vp_nev; e++) {
        const char *s = text_of(e) + w; int n;
        if (!line(e) || len_of(e) < w || !bytes_same(text_of(e), "Text: ", w)) continue;
        n = len_of(e) - w;
        lines++;
        rest = tn - p;
        VP_ASSERT(rest > 0, "part of the text is shown again");
        VP_ASSERT(len_of(e) < 80, "a line of the text is too long");
        if (n <= rest && (int)vp_conc_(bytes_same(s, txt + p, n)) && (n == rest || txt[p + n] == ' ')) p += n + (n < rest);
        else {
            VP_ASSERT(n > 1 && s[n - 1] == '-' && n - 1 < rest && bytes_same(s, txt + p, n - 1), "the text is not shown as it was set");
            p += n - 1;
        }
    }
    VP_ASSERT(p == tn, "the end of the text is not shown");
    VP_ASSERT(vp_sent[ME] == 3 + lead + lines, "the answer contains something else");
    VP_WITNESS(lines == 4, "four lines");
}
static void text(void)
{
    static const int LEN[] = { 1, 2, 40, 61, 62, 63, 64, 65, 66, 124, 125, 126, 127, 128, 199, 200, 201, 215 };
    int l = vp_pick(0, 17), n = LEN[l], i, a, b, addr, k = vp_deep ? 2 : 1;
    world();
    for (i = 0; i < n; i++) txt[i] = (char)('a' + i % 13);
    txt[n] = 0;
    /* blanks: one anywhere and one or two next to where lines end */
    a = vp_deep || n < 100 ? vp_pick(-1, n - 1) : vp_pick(0, n / 8 - 1) * 8 + l % 8;
    if (n >= 100 && a < 8) a = -1;
    if (a > 0) txt[a] = ' ';
    addr = a <= 0 && vp_pick(0, 1);
    for (i = 0; i < k; i++) {
        b = vp_pick(0, a <= 0 || n > 120 ? 5 : 1) + (i ? 121 : a <= 0 || n > 120 ? 59 : 61);
        if (b > 0 && b < n) txt[b] = ' ';
    }
    if (n > 50 && vp_pick(0, 1)) txt[20] = ' ';
    if (addr) put("ann", ".addr", "xaddr");
    clear_ev();
    set(1, "text", txt);
    VP_ASSERT(count_type(1, 'e') == (n > 200), "a text that is cut is not reported, or one that is not");
    tn = n > 200 ? 200 : n; txt[tn] = 0;
    ask(0);
    follow(addr ? 2 : 0);
}
/* any characters near the end of a line */
static void near(void)
{
    int n = vp_pick(61, 66), i;
    world();
    for (i = 0; i < n; i++) txt[i] = (char)('a' + i % 13);
    for (i = n - N; i < n; i++) txt[i] = (char)vp_int(' ', '~');
    if (vp_pick(0, 1)) txt[30] = ' ';
    txt[n] = 0; tn = n;
    set(1, "text", txt);
    ask(0);
    follow(0);
}
/* ---- the address, of several lines --------------------------------------------- */
static void address(void)
{
    int l = vp_pick(0, 4), n = l == 0 ? N + 2 : l == 1 ? 78 : l == 2 ? 79 : l == 3 ? 80 : 200, i, j, e, at; char v[240];
    world();
    for (i = 0; i < n; i++) v[i] = 'a';
    if (l == 0) for (i = 1; i < n; i++) v[i] = (char)vp_int(' ', '~');
    else { v[vp_pick(1, 3) * 10] = '|'; v[vp_pick(76, 78) - (l == 1)] = '|'; }
    v[n] = 0;
    clear_ev();
    set(vp_pick(0, 1), "addr", v);
    VP_ASSERT(count_type(1, 'e') == (n > 79), "an address that is cut is not reported, or one that is not");
    if (n > 79) n = 79;
    ask(0);
    for (e = 0; e < vp_nev; e++) if (line(e) && is_text(e, "Street Address:", "", 0)) break;
    VP_ASSERT(e < vp_nev, "the address is not shown");
    for (i = 0; i <= n; i = j + 1) {
        for (j = i; j < n && v[j] != '|'; j++) ;
        at = ++e;
        VP_ASSERT(at < vp_nev && line(at) && is_text(at, "  ", v + i, j - i), "a line of the address is not shown as it was set");
    }
    VP_ASSERT(e == vp_nev - 1, "the answer contains something else");
    VP_WITNESS(l == 0 && v[1] == '|' && v[2] == '|', "an empty line");
}
/* ---- nicknames that are not registered ------------------------------------------ */
static void unknown(void)
{
    int w = vp_pick(0, 4), n = 1 + (w == 0 ? N : 0), i; char v[40], b[80], t[80];
    static const char *const V[] = { 0, "an", "annn", "ann.nick", "123456789012" };
    world();
    if (w == 0) { for (i = 0; i < n; i++) v[i] = (char)vp_int('!', '~'); v[n] = 0; } else strcpy(v, V[w]);
    VP_ASSUME(!ieq(v, "ann") && !ieq(v, "cat"));
    snap();
    memcpy(old, vp_db, sizeof old);
    clear_ev();
    add(add(b, "server whois "), v);
    cmd(ME, "m", b);
    all_same("asking about a nickname changed something");
    VP_ASSERT(bytes_same(old, vp_db, sizeof old), "asking about a nickname changed the database");
    add(add(t, v), " is not in the database.");
    VP_ASSERT(vp_nev == 1 && count_ev(ME, 'e', t, 0) == 1, "an unknown nickname is not reported as such");
    VP_WITNESS(w == 4, "a long one");
}
void harness(void)
{
    switch (vp_case) {
    case 0: details(); break;
    case 1: text(); break;
    case 2: near(); break;
    case 3: address(); break;
    case 4: unknown(); break;
    }
}
