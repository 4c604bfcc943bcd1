/* split(): fields of a packet, every packet up to N bytes, after another. */
#include "h.h"
#include "strutil.h"
#ifndef N
#define N 5
#endif
void harness(void)
{
    int len, i, f, n, start[MAX_FIELDS], cnt = 1;
    char *p, *q, orig[MAX_PKT_LEN + 1];
    int fill = 0;
    if (vp_case == 0) len = vp_pick(0, N);
    else { fill = vp_pick(MAX_FIELDS - 3, MAX_FIELDS + 3); len = fill + 2; }   /* around the field limit */
    /* an earlier packet with many fields, freed since */
    q = malloc(8);
    memcpy(q, "a\1b\1c\1d", 8);
    VP_ASSERT(split(q) == 4, "fields of the earlier packet");
    free(q);
    p = malloc(len + 1);
    for (i = 0; i < len; i++) p[i] = i < fill ? 1 : (char)vp_int(1, 255);
    p[len] = 0;
    memcpy(orig, p, len + 1);
    n = split(p);
    start[0] = 0;
    for (i = 0; i < len && cnt < MAX_FIELDS; i++)
        if (orig[i] == 1) start[cnt++] = i + 1;
    VP_ASSERT(n == cnt, "number of fields");
    VP_WITNESS(n == (vp_case ? MAX_FIELDS : 3), "several fields");
    for (f = 0; f < cnt; f++) {
        int e = f + 1 < cnt ? start[f + 1] - 1 : len;
        for (i = start[f]; i < e; i++) VP_ASSERT(fields[f][i - start[f]] == orig[i] || (f == MAX_FIELDS - 1 && orig[i] == 1), "field content changed");
        VP_ASSERT(fields[f][e - start[f]] == 0 || f == MAX_FIELDS - 1, "field not terminated");
    }
    for (f = cnt; f < MAX_FIELDS; f++)
        VP_ASSERT(fields[f] != 0 && fields[f][0] == 0, "absent field is not empty");
}
