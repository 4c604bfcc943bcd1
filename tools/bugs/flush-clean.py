PROP="P20"
NEEDS="a save whose rename fails, and a later one that would succeed"
BREAKS="the database counts as saved although it is not, so the next save writes nothing and the change is lost"
EDITS=[("server/icb_dbm.c","    close(fd);\n\n    if (rename(tmp, db->path) < 0) { free(tmp); return -1; }\n    free(tmp);\n    db->dirty = 0;\n    return 0;","    close(fd);\n    db->dirty = 0;\n\n    if (rename(tmp, db->path) < 0) { free(tmp); return -1; }\n    free(tmp);\n    return 0;")]
FILES={"d.c":'''
#include <stdio.h>
#include <string.h>
#include <errno.h>
static int broken;
static int my_rename(const char *a, const char *b) { if (broken) { errno = EIO; return -1; } return (rename)(a, b); }
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include "config.h"
#include "dbm.h"
#define rename my_rename
#include "icb_dbm.c"
static datum D(char *s) { datum d; d.dptr = s; d.dsize = strlen(s); return d; }
int main(int c, char **v)
{
    char f[300]; DBM *d; datum r;
    snprintf(f, sizeof f, "%s/db", v[1]);
    if (!(d = dbm_open(f, 0, 0600))) return 2;
    dbm_store(d, D("a.nick"), D("A"), DBM_REPLACE);
    broken = 1;
    if (dbm_flush(d) == 0) { printf("FAILED: a failed save reports success\\n"); return 1; }
    broken = 0;
    if (dbm_flush(d) != 0) return 2;
    dbm_close(d);
    if (!(d = dbm_open(f, 0, 0600))) return 2;
    r = dbm_fetch(d, D("a.nick"));
    if (!r.dptr || r.dsize != 1) { printf("FAILED: the change is lost\\n"); return 1; }
    return 0;
}
'''}
SH='''
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cfg=$(dirname "$(find . -name config.h -path '*_build*' | head -1)"); [ -n "$cfg" ] || cfg=.
gcc -w -I. -I"$cfg" -Iserver -DHAVE_CONFIG_H -o "$t/w" "$d/d.c" || exit 3
timeout 60 "$t/w" "$t"
'''
