/* name lists: any sequence of operations behaves as a most-recent-first list
 * of distinct names (case ignored) that never exceeds its capacity. */
#include "h.h"
#include "namelist.h"
#include "wildmat.h"
#ifndef K
#define K 4
#endif
#define CAP 3
static char m[CAP][3]; static int mn, mp;
static int low(int c) { return (unsigned)c - 'A' < 26 ? c + 32 : c; }
static int same(const char *a, const char *b) { return low(a[0]) == low(b[0]) && low(a[1]) == low(b[1]); }
static void pushfront(const char *s)
{
    int i;
    if (mn == CAP) mn--;
    for (i = mn; i > 0; i--) memcpy(m[i], m[i - 1], 3);
    memcpy(m[0], s, 3);
    mn++;
}
/* the list, seen through nlcount and nlget, is the model from position mp on */
static void same_list(NAMLIST *nl)
{
    int i;
    VP_ASSERT((int)nlcount(*nl) == mn, "number of names");
    for (i = 0; i < mn; i++) {
        char *s = nlget(nl);
        VP_ASSERT(same(s, m[(mp + i) % mn]), "the names are not the ones put, most recent first");
        VP_ASSERT(s[2] == 0 || s[1] == 0, "a name was altered");
    }
}
/* one list, any operations */
static void ops(void)
{
    NAMLIST nl, other; int k, i, full = 0, evict = 0;
    nlinit(&nl, CAP);
    nlinit(&other, CAP);
    nlput(&other, "Other");
    for (k = 0; k < K; k++) {
        char name[3]; int op = vp_pick(0, 4), found = -1;
        name[0] = (char)vp_int('A', 'z'); name[1] = vp_bool() ? 'q' : 0; name[2] = 0;
        if (k == 0) op = 0;
        for (i = 0; i < mn; i++) if (same(m[i], name)) { found = i; break; }
        switch (op) {
        case 0:
            nlput(&nl, name);
            if (found >= 0) { char t[3]; memcpy(t, m[found], 3); for (i = found; i > 0; i--) memcpy(m[i], m[i - 1], 3); memcpy(m[0], t, 3); }
            else { if (mn == CAP) evict = 1; pushfront(name); }
            mp = 0;
            break;
        case 1:
            i = nldelete(&nl, name);
            VP_ASSERT((i == 0) == (found >= 0), "the result of removing a name");
            if (found >= 0) { for (i = found; i + 1 < mn; i++) memcpy(m[i], m[i + 1], 3); mn--; mp = 0; }
            break;
        case 2:
            VP_ASSERT(!!nlpresent(name, nl) == (found >= 0), "whether a name is present");
            break;
        case 3:
            if (mn > 0) {
                char *s = nlget(&nl);
                VP_ASSERT(same(s, m[mp]), "cycling through the names");
                mp = (mp + 1) % mn;
            }
            break;
        case 4:
            nlclear(&nl);
            mn = mp = 0;
            break;
        }
        same_list(&nl);
        if (mn == CAP) full = 1;
    }
    VP_ASSERT(nlcount(other) == 1 && nlpresent("other", other), "another list was changed");
    for (k = mn; k > 0; k--) VP_ASSERT(nldelete(&nl, m[k - 1]) == 0, "a listed name cannot be removed");
    VP_ASSERT(nlcount(nl) == 0 && !nlpresent(m[0], nl), "list not empty after removing every name");
    nlput(&nl, "Z");
    VP_ASSERT(nlcount(nl) == 1 && nlpresent("z", nl), "a list emptied cannot be used again");
    VP_WITNESS(full, "list filled");
    VP_WITNESS(evict, "oldest name dropped from a full list");
}
/* matching against a list of patterns: exactly those that match any entry
 * (what one pattern matches is P07's) */
static void match(void)
{
    NAMLIST nl; char p[2][4], t[3]; int i, j, w[2];
    nlinit(&nl, CAP);
    for (i = 0; i < 2; i++) {
        int l = i ? 2 : vp_pick(2, 3);
        for (j = 0; j < l; j++) p[i][j] = (char)vp_int('!', 'Z' + 3);
        p[i][l] = 0;
    }
    VP_ASSUME(p[0][0] != p[1][0]);
    for (j = 0; j < 2; j++) t[j] = (char)vp_int('!', 'Z' + 3);
    t[2] = 0;
    VP_ASSERT(!nlmatch(t, nl), "an empty list matches");
    for (i = 0; i < 2; i++) { nlput(&nl, p[i]); w[i] = wildmat(t, p[i]); }
    VP_ASSERT(!!nlmatch(t, nl) == (w[0] || w[1]), "whether a name matches a list of patterns");
    nldelete(&nl, p[1]);
    VP_ASSERT(!!nlmatch(t, nl) == w[0], "whether a name matches after a removal");
    VP_WITNESS(w[0] && p[0][1] == '*', "matched by a pattern");
    VP_WITNESS(!w[0] && !w[1] && p[0][0] == t[0] && p[0][1] == t[1] && p[0][2] == 0, "a name that is the pattern but not matched by it");
}
void harness(void) { if (vp_case == 0) ops(); else match(); }
