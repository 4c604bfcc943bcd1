/* filterfmt(): a text it accepts for n substitutions is safe to print with n
 * string arguments; what it rejects is not. */
#include "h.h"
#include "strutil.h"
#ifndef N
#define N 5
#endif
void harness(void)
{
    char buf[N + 1]; int i, want = vp_pick(0, 2), n = want, s = 0, bad = 0; char *err;
    vp_str(buf, N);
    for (i = 0; buf[i]; i++)
        if (buf[i] == '%') {
            i++;
            if (buf[i] == 's') s++;
            else if (buf[i] != '%') { bad++; i--; }
        }
    err = filterfmt(buf, &n);
    if (!err) {
        VP_ASSERT(!bad, "accepted a conversion other than %s");
        VP_ASSERT(s == want, "accepted the wrong number of %s");
        VP_ASSERT(n == want, "count changed although accepted");
    } else
        VP_ASSERT(bad || s != want, "rejected a good message");
    VP_WITNESS(!err && want == 2, "two substitutions accepted");
    VP_WITNESS(err && bad, "bad conversion rejected");
}
