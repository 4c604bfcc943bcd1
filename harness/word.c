/* getword()/get_tail(): first word and the rest of a line. */
#include "h.h"
#include "strutil.h"
#ifndef N
#define N 5
#endif
#define SEP(c) ((c) == ' ' || (c) == '\t')
void harness(void)
{
    int len, i, w = 0, t, pre = vp_case ? 61 : 0;
    char *p, *r, *tail;
    len = pre + vp_pick(0, N);
    p = malloc(len + 1);
    for (i = 0; i < len; i++) p[i] = i < pre ? 'x' : (char)vp_int(1, 255);
    p[len] = 0;
    r = getword(p);
    while (p[w] && !SEP(p[w])) w++;
    t = w;
    while (SEP(p[t])) t++;
    tail = get_tail(p);
    for (i = t; i <= len; i++) VP_ASSERT(tail[i - t] == p[i], "the remainder differs");
    for (i = 0; i < w && i < 63; i++) VP_ASSERT(r[i] == p[i], "word differs");
    VP_ASSERT(r[w < 63 ? w : 63] == 0, "word not terminated");
    VP_WITNESS(w == pre + 2 && t == pre + 4, "word and tail");
}
