PROP="P19"
NEEDS="a value replaced by another one of the same length as the only change before the file is closed and opened again"
BREAKS="the replacement is not marked as a change, so the old value is back after reopening"
EDITS=[("server/icb_dbm.c","        /* Replace value in place */\n        char *nv","        /* Replace value in place */\n        if (content.dsize > 0 && content.dsize == e->vlen) {\n            memcpy(e->val, content.dptr, (size_t)content.dsize);\n            return 0;\n        }\n        char *nv")]
FILES={"d.c":'''
#include <stdio.h>
#include <string.h>
#include "dbm.h"
static datum D(char *s) { datum d; d.dptr = s; d.dsize = strlen(s); return d; }
int main(int c, char **v)
{
    char f[300]; DBM *d; datum r;
    snprintf(f, sizeof f, "%s/db", v[1]);
    if (!(d = dbm_open(f, 0, 0600))) return 2;
    dbm_store(d, D("a.password"), D("old!"), DBM_REPLACE);
    dbm_close(d);
    if (!(d = dbm_open(f, 0, 0600))) return 2;
    dbm_store(d, D("a.password"), D("new!"), DBM_REPLACE);
    r = dbm_fetch(d, D("a.password"));
    if (!r.dptr || memcmp(r.dptr, "new!", 4)) { printf("FAILED: not replaced\\n"); return 1; }
    dbm_close(d);
    if (!(d = dbm_open(f, 0, 0600))) return 2;
    r = dbm_fetch(d, D("a.password"));
    if (!r.dptr || memcmp(r.dptr, "new!", 4)) { printf("FAILED: the old value is back\\n"); return 1; }
    return 0;
}
'''}
SH='''
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cfg=$(dirname "$(find . -name config.h -path '*_build*' | head -1)"); [ -n "$cfg" ] || cfg=.
gcc -w -I. -I"$cfg" -Iserver -DHAVE_CONFIG_H -o "$t/w" "$d/d.c" server/icb_dbm.c || exit 3
timeout 60 "$t/w" "$t"
'''
