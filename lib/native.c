/* native side of the harness primitives: replay of recorded inputs. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
static FILE *in;
int vp_case, vp_deep;
int vp_int(int lo, int hi)
{
    int v;
    if (!in || fscanf(in, "%d", &v) != 1) {
        /* beyond the recorded inputs: went on after the point of failure */
        v = lo > 0 ? lo : hi < 0 ? hi : 0;
        printf("VP-EXTRA-INPUT\n");
    }
    if (v < lo || v > hi) { printf("VP-DIVERGED input %d not in [%d,%d]\n", v, lo, hi); fflush(stdout); _Exit(77); }
    return v;
}
long vp_conc_(long v) { return v; }
void vp_assume_(int c)
{
    if (!c) { printf("VP-DIVERGED assumption\n"); fflush(stdout); _Exit(77); }
}
void vp_assert_(int c, const char *m)
{
    if (!c) { printf("VP-FAILED %s\n", m); fflush(stdout); _Exit(42); }
}
void vp_bound_(int c, const char *m)
{
    if (!c) { printf("VP-BOUND %s\n", m); fflush(stdout); _Exit(78); }
}
void vp_witness_(int c, const char *m)
{
    if (c) { printf("VP-WITNESSED %s\n", m); fflush(stdout); }
}
int main(void)
{
    const char *f = getenv("VP_INPUT"), *c = getenv("VP_CASE"), *d = getenv("VP_DEEP");
    setvbuf(stdout, NULL, _IOLBF, 0);
    if (c) vp_case = atoi(c);
    if (d) vp_deep = atoi(d);
    in = f ? fopen(f, "r") : NULL;
    harness();
    printf("VP-DONE\n");
    return 0;
}
