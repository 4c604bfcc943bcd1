/* wildmat(): compared with a reference matcher (set-of-positions). */
#include "h.h"
#include "wildmat.h"
#ifndef NP
#define NP 4
#define NT 3
#endif
#ifndef CLS
#define CLS 3
#endif
/* class at p (after '['): is c in it?  *end = index of the closing ']' or -1 */
static int incls(const char *p, int i, char c, int *end)
{
    int neg = 0, in = 0, first = 1; char last = '[';
    if (p[i] == '^') { neg = 1; i++; last = '^'; }
    for (;; first = 0) {
        char k = p[i];
        if (k == 0) { *end = -1; return 0; }
        if (k == ']' && !first) { *end = i; return in != neg; }
        if (k == '-' && !first && p[i + 1] != ']' && p[i + 1] != 0) {
            i++;
            if (c >= last && c <= p[i]) in = 1;
        } else if (c == k) in = 1;
        last = p[i];
        i++;
    }
}
static int ref(const char *t, int n, const char *p)
{
    char cur[8], nxt[8]; int i = 0, k, e;
    memset(cur, 0, sizeof cur); cur[0] = 1;
    while (p[i]) {
        memset(nxt, 0, sizeof nxt);
        if (p[i] == '*') {
            int on = 0;
            for (k = 0; k <= n; k++) { if (cur[k]) on = 1; nxt[k] = on; }
            i++;
        } else {
            int adv = 1, lit = 0;
            char c = p[i];
            if (c == '\\') { c = p[i + 1]; adv = c ? 2 : 1; lit = 1; }
            for (k = 0; k < n; k++) {
                if (!cur[k]) continue;
                if (!lit && c == '?') nxt[k + 1] = 1;
                else if (!lit && c == '[') { if (incls(p, i + 1, t[k], &e)) nxt[k + 1] = 1; }
                else nxt[k + 1] = t[k] == c;
            }
            if (!lit && c == '[') { incls(p, i + 1, 'x', &e); if (e < 0) return 0; adv = e + 1 - i; }
            i += adv;
        }
        memcpy(cur, nxt, sizeof cur);
    }
    return cur[n];
}
static char *p, *t; static int np, nt;
static void strs(int a, int b)
{
    np = a; nt = b;
    p = malloc(np + 1); t = malloc(nt + 1);
    p[np] = t[nt] = 0;
}
static void any(char *s, int from, int to) { while (from < to) s[from++] = (char)vp_int(1, 127); }
void harness(void)
{
    int i, r, w, k = 0;
    switch (vp_case) {
    case 0:                                 /* any short pattern and string */
        strs(vp_pick(0, NP), vp_pick(0, NT));
        any(p, 0, np);
        break;
    case 1:                                 /* classes of any contents, negated or not, before or behind something */
        k = vp_pick(0, 3);
        i = vp_pick(2, CLS + 1);
        strs(1 + i + 1 + (k > 0), vp_pick(0, 2));
        if (k == 1) p[0] = '*';
        if (k == 2) p[0] = (char)vp_int(1, 127);
        p[k == 1 || k == 2] = '[';
        any(p, 1 + (k == 1 || k == 2), 1 + i + (k == 1 || k == 2));
        p[1 + i + (k == 1 || k == 2)] = ']';
        if (k == 3) p[np - 1] = vp_bool() ? '*' : 'a';
        break;
    case 2:                                 /* stars among other characters */
        k = vp_pick(2, 3);
        strs(2 * k + 1, vp_pick(0, 4));
        for (i = 0; i < np; i++) p[i] = i & 1 ? (char)vp_int('a', 'b') : vp_bool() ? '*' : vp_bool() ? '?' : 'a';
        break;
    }
    if (vp_case == 2) for (i = 0; i < nt; i++) t[i] = (char)vp_int('a', 'b');
    else any(t, 0, nt);
    w = wildmat(t, p);
    r = ref(t, nt, p);
    VP_ASSERT(w == r, "wildmat differs from the reference matcher");
    VP_WITNESS(w && nt == 2 && p[0] == '*' && np == 3, "star and suffix match");
    VP_WITNESS(w && nt == 1 && p[0] == '[' && p[1] == '^' && np == 4, "negated class matches");
    VP_WITNESS(w && nt == 1 && p[0] == '[' && np == 5 && p[2] == '-' && p[3] > p[1] && t[0] == p[3], "the end of a range matches");
    VP_WITNESS(!w && nt == 1 && p[0] == '[' && np == 2, "unclosed class does not match");
}
