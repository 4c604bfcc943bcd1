/* the text filter as RFC 3629 has it, written independently of the code */
#pragma once
/* length of the well-formed sequence at s (n bytes there), 0 if ill-formed,
 * -1 if the bytes end inside it; *bad: length of the ill-formed prefix */
static int seq(const unsigned char *s, int n, int *bad)
{
    int need, i; unsigned lo = 0x80, hi = 0xbf;
    *bad = 1;
    if (s[0] < 0x80) return 1;
    if (s[0] < 0xc2) return 0;
    if (s[0] < 0xe0) need = 2;
    else if (s[0] < 0xf0) { need = 3; if (s[0] == 0xe0) lo = 0xa0; if (s[0] == 0xed) hi = 0x9f; }
    else if (s[0] < 0xf5) { need = 4; if (s[0] == 0xf0) lo = 0x90; if (s[0] == 0xf4) hi = 0x8f; }
    else return 0;
    for (i = 1; i < need; i++) {
        if (i >= n) return -1;
        if (s[i] < lo || s[i] > hi) { *bad = i; return 0; }
        lo = 0x80; hi = 0xbf;
    }
    return need;
}
/* the first lim bytes of src, filtered; returns the length */
static int ref_filter(const unsigned char *src, int lim, unsigned char *out, int *multi, int *ill)
{
    int i = 0, o = 0, k;
    while (i < lim) {
        int bad, l = seq(src + i, lim - i, &bad);
        if (l < 0) break;                       /* incomplete at the end: dropped */
        if (l == 0) { out[o++] = '?'; i += bad; *ill = 1; continue; }
        if (l > 1) *multi = 1;
        if (l > 1 || src[i] >= 0x20)
            for (k = 0; k < l; k++) out[o++] = src[i + k];
        i += l;
    }
    out[o] = 0;
    return o;
}
