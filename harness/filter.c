/* filtertext(): compared with a reference filter built on RFC 3629. */
#include "h.h"
#include "strutil.h"
#include "ref.h"
#ifndef N
#define N 4
#endif
void harness(void)
{
    unsigned char ref[N + 3]; int n = vp_pick(0, N), len = vp_pick(1, N + 2), lim, o, k, multi = 0, ill = 0;
    char *src = malloc(n + 1), *dest = malloc(len);
    for (k = 0; k < n; k++) src[k] = (char)vp_int(1, 255);
    src[n] = 0;
    filtertext(src, dest, len);
    lim = n < len ? n : len;
    memset(ref, 0, sizeof ref);
    o = ref_filter((unsigned char *)src, lim, ref, &multi, &ill);
    for (k = 0; k < len && k <= o; k++)      /* up to and including the NUL, if there is room for one */
        VP_ASSERT((unsigned char)dest[k] == ref[k], "filtered text differs from the reference");
    VP_WITNESS(multi && ill, "multi-byte character and ill-formed bytes in one text");
    VP_WITNESS(n > len && o == len, "text cut at the length limit");
}
