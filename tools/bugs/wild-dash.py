PROP="P07"
NEEDS="a character class that starts with a literal dash, e.g. [-a], in a ban or invitation pattern"
BREAKS="the leading dash is taken as a range from '[' on: the class accepts characters that are not in it and rejects the dash"
EDITS=[("server/wildmat.c","                if (p[1] == ']' || p[1] == '-')\n                    if (*++p == *text)","                if (p[1] == ']')\n                    if (*++p == *text)")]
FILES={"t.c":r'''
#include <stdio.h>
int wildmat(char *text, char *p);
int main(void)
{
    if (!wildmat("x-y", "x[-a]y")) { puts("FAILED: [-a] rejects '-'"); return 1; }
    if (wildmat("x_y", "x[-a]y")) { puts("FAILED: [-a] accepts '_'"); return 1; }
    return 0;
}
'''}
SH=r'''
#!/bin/bash
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
gcc -w -o "$D/t" "$(dirname "$0")/t.c" server/wildmat.c && timeout 20 "$D/t"
'''
