/* nickname and group name filters: only allowed characters, same length. */
#include "h.h"
#include "strutil.h"
#ifndef N
#define N 3
#endif
void harness(void)
{
    char buf[N + 1], in[N + 1]; int i, which = vp_pick(0, 1), ok;
    vp_str(buf, N);
    memcpy(in, buf, N + 1);
    if (which) filternickname(buf); else filtergroupname(buf);
    for (i = 0; i <= N; i++) {
        char c = in[i], d = buf[i];
        int alnum = ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9'));
        int punct = (c == '-') | (c == '.') | (c == '!') | (c == '\'') | (c == '$') | (c == '+') | (c == ',') | (c == '/') | (c == '?') | (c == '_');
        ok = alnum | punct | (c == (which ? '@' : '~')) | (c == 0);
        VP_ASSERT((ok & (d == c)) | (!ok & (d == (c == ' ' ? '_' : '?'))), "name character not filtered as specified");
    }
    VP_WITNESS(in[0] == ' ' && in[1] == '@' && buf[1] == '?', "nick-only character in a group name");
}
