/* the files shown to users: message of the day, news, help */
#include "srv.h"
#include "mapdb.h"
#include "ref.h"
#define FS_SIZE 600
#define FS_FILES 6
#define vp_open fs_open
#include "fs.h"
#undef vp_open
#ifndef N
#define N 3
#endif
static char opened[12][48]; static int nopened;
int vp_open(const char *p, int fl, ...)
{
    VP_ASSERT((fl & O_ACCMODE) == O_RDONLY && !(fl & (O_CREAT | O_TRUNC)), "a file to be shown is opened for writing");
    VP_BOUND(nopened < 12, "files opened"); VP_BOUND(strlen(p) < 48, "length of a path");
    strcpy(opened[nopened++], p);
    return fs_open(p, fl);
}
static unsigned char text[600]; static int len;
static void world(void)
{
    srv_init();
    add_group(1, "Alpha");
    add_user(1, "Alpha"); add_user(ME, "Alpha");
}
/* a text: a beginning, N arbitrary bytes, and an end */
static void any_text(int kind, int n)
{
    static const int L[] = { 248, 249, 250, 251, 252, 253, 254, 255, 256, 257 };
    int i, l = 0;
    len = 0;
    if (kind == 1) { text[len++] = 'a'; text[len++] = '\n'; }
    if (kind == 2) { l = L[vp_pick(0, 9)] - n; for (i = 0; i < l; i++) text[len++] = 'y'; }
    for (i = 0; i < n; i++) { text[len] = (unsigned char)vp_int(1, 255); len++; }
    if (vp_pick(0, 1)) { memcpy(text + len, "b\n\nc\n", 5); len += 5; }
}
/* the text, line by line, in the events from e on; returns the next event */
static int shown(int e, int to, const unsigned char *t, int n)
{
    static unsigned char line[700], f[700]; int i, o = 0, m, ill;
    for (i = 0; i < n; i++) {
        if (t[i] != '\n') { line[o++] = t[i]; continue; }
        ref_filter(line, o > 250 ? 250 : o, f, &m, &ill);
        VP_ASSERT(e < vp_nev && is_ev(e, to, 'i', "co", (char *)f), "a line is not shown, or not as it is in the file");
        e++; o = 0;
    }
    return e;
}
static void quiet(int n)
{
    VP_ASSERT(vp_nev == n && vp_sent[ME] == n, "something else is shown, or to somebody else");
    VP_ASSERT(fs_open_files() == 0, "a file is left open");
    all_same("showing a file changed something");
}
/* % : %U is the number of sign-ons, %c the character c */
static int subst(unsigned char *out)
{
    int i, o = 0;
    for (i = 0; i < len; i++) {
        if (text[i] != '%') { out[o++] = text[i]; continue; }
        if (++i >= len) break;
        if (text[i] == 'U') { memcpy(out + o, "4711", 4); o += 4; }
        else out[o++] = text[i] == '\n' ? 2 : text[i];         /* a character that is not shown */
    }
    return o;
}
static void motd(void)
{
    static unsigned char out[1200]; int n, there = vp_pick(0, 3);
    world();
    any_text(vp_pick(0, 2), N);
    if (there) fs_put("./motd", text, len);
    if (there == 2) { len = 9; memcpy(text, "at: %U %%\n", 10); len = 10; fs_put("./motd", text, len); }
    vp_db_put("server.signon", "4711");
    snap();
    clear_ev();
    cmd(ME, "motd", "");
    VP_ASSERT(nopened == 1 && !strcmp(opened[0], "./motd"), "another file is opened");
    if (!there) { VP_ASSERT(count_type(ME, 'e') == 1, "a missing file is not reported"); quiet(1); return; }
    VP_WITNESS(there == 1 && text[0] == '%' && text[1] == 'U' && text[2] == '\n', "the number of sign-ons");
    VP_WITNESS(there == 1 && len > 250, "a long line");
    n = subst(out);
    quiet(shown(0, ME, out, n));
}
static void help(void)
{
    int there = vp_pick(0, 2);
    world();
    any_text(vp_pick(0, 2), N);
    if (there) fs_put("./icbd_help", text, len);
    snap();
    clear_ev();
    cmd(ME, "s_help", "");
    VP_ASSERT(nopened == 1 && !strcmp(opened[0], "./icbd_help"), "another file is opened");
    if (!there) { VP_ASSERT(count_type(ME, 'e') == 1, "a missing file is not reported"); quiet(1); return; }
    VP_WITNESS(len > 250, "a long line");
    VP_WITNESS(text[0] == '\n' && text[1] == '\n', "empty lines");
    quiet(shown(0, ME, text, len));
}
#define RULE "--------------------------------------"
static void news(void)
{
    int e = 0, i, a = vp_pick(0, 1), there = vp_pick(0, 7), any = 0; char b[8];
    static const char *const F[] = { "news.1", "news.4", "news.9" };
    world();
    any_text(vp_pick(0, 2), N - 1);
    for (i = 0; i < 3; i++) if (there >> i & 1) { if (i == 1) fs_put(F[i], text, len); else fs_text(F[i], i ? "nine\n" : "one\ntwo\npart"); }
    fs_text("news.x", "not this\n");
    snap();
    clear_ev();
    cmd(ME, "news", a ? "(null)" : "");
    VP_ASSERT(nopened == 9, "another file is opened");
    for (i = 0; i < 9; i++) { strcpy(b, "news.1"); b[5] = (char)('1' + i); VP_ASSERT(!strcmp(opened[i], b), "another file is opened"); }
    if (!there) { VP_ASSERT(count_ev(ME, 'd', "News", "No news.") == 1, "no news are not reported"); quiet(1); return; }
    VP_WITNESS(there == 7, "all news");
    VP_ASSERT(is_ev(e, ME, 'i', "co", RULE), "the news do not begin with a rule"); e++;
    for (i = 0; i < 3; i++) {
        if (!(there >> i & 1)) continue;
        any++;
        if (i == 1) e = shown(e, ME, text, len);
        else { const char *s = i ? "nine\n" : "one\ntwo\n"; e = shown(e, ME, (const unsigned char *)s, (int)strlen(s)); }
        VP_ASSERT(is_ev(e, ME, 'i', "co", RULE), "an item does not end with a rule"); e++;
    }
    quiet(e);
}
/* one item: no argument makes the server show another file than a news item */
static void item(void)
{
    char arg[32], want[40]; int i, k = vp_pick(0, 3), n = 0, e, there, slash = 0;
    world();
    any_text(0, 2);
    fs_put("news.4", text, len);
    fs_text("news.ab", "x\n");
    fs_text("news./k", "secret\n");           /* names that lead elsewhere */
    fs_text("news.d/../k", "secret\n");
    fs_text("news.ab/k", "secret\n");
    if (k == 1) { strcpy(arg, "d/../"); n = 5; }
    if (k == 2) { strcpy(arg, "ab"); n = 2; }
    if (k == 3) { strcpy(arg, "4"); n = 1; }
    if (k != 3) for (i = 0; i < N; i++) { arg[n++] = (char)vp_int(2, 255); if (vp_bool()) break; }
    VP_ASSUME(arg[0] != ' ' && arg[0] != 9);
    arg[n] = 0;
    for (i = 0; i < n; i++) slash |= arg[i] == '/';
    snap();
    clear_ev();
    cmd(ME, "news", arg);
    VP_WITNESS(slash && k == 0, "a path");
    VP_WITNESS(!slash && k == 0 && arg[0] == '4' && n == 1, "an item by number");
    there = 0;
    strcpy(want, "news."); strcat(want, arg);
    for (i = 0; i < nopened; i++) VP_ASSERT(!slash && !strcmp(opened[i], want), "another file is opened");
    VP_ASSERT(!told(ME, "secret"), "a file that is no news item is shown");
    if (!slash) there = !strcmp(arg, "4") ? 1 : !strcmp(arg, "ab") ? 2 : 0;
    if (!there) { VP_ASSERT(count_type(ME, 'e') == 1, "a missing item is not reported"); quiet(1); return; }
    VP_ASSERT(is_ev(0, ME, 'i', "co", RULE), "the item does not begin with a rule");
    e = there == 1 ? shown(1, ME, text, len) : shown(1, ME, (const unsigned char *)"x\n", 2);
    VP_ASSERT(is_ev(e, ME, 'i', "co", RULE), "the item does not end with a rule");
    quiet(e + 1);
}
void harness(void)
{
    switch (vp_case) {
    case 0: motd(); break;
    case 1: help(); break;
    case 2: news(); break;
    case 3: item(); break;
    }
}
