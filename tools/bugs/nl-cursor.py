PROP="P08"
NEEDS="removing the entry a list's cursor stands on (the most recent one) while others remain, then going through the list"
BREAKS="the cursor keeps pointing at the freed entry: the next listing reads freed memory"
EDITS=[("server/namelist.c","    free(namep);\n    nl->p= nl->head;\n","    free(namep);\n")]
FILES={"t.c":r'''
#include <stdio.h>
#include <string.h>
#include "server.h"
#include "namelist.h"
void mdb(int l, const char *m) { (void)l; (void)m; }
void vmdb(int l, const char *f, ...) { (void)l; (void)f; }
int main(void)
{
    NAMLIST nl; nlinit(&nl, 5);
    nlput(&nl, "Ann"); nlput(&nl, "Bob");
    nldelete(&nl, "Bob");
    if (strcmp(nlget(&nl), "Ann")) { puts("FAILED: not the remaining name"); return 1; }
    return 0;
}
'''}
SH=r'''
#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
gcc -w -g -fsanitize=address -Iserver -I. -I_build -I_build/generated -o "$D/t" "$(dirname "$0")/t.c" server/namelist.c server/strlist.c server/wildmat.c server/strutil.c server/utf8.c || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 20 "$D/t"
'''
