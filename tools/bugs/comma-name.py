PROP="P32"
NEEDS="an invitation list that takes two lines, and a name beginning with a comma as the first of the second line"
BREAKS="the name is not shown on the list"
EDITS=[("server/s_who.c",'        if (strcmp(item, ", ") != 0) {\n            strcpy(buf, item);','        if (item[0] != \',\') {\n            strcpy(buf, item);')]
DEMO='''
S = Server()
a = S.client("Anna", group="Room")
a.cmd("status", "r"); a.get()
for w in (",last", "b" * 20, "c" * 20, "d" * 12): a.cmd("invite", "-q " + w)
a.get()
a.cmd("invite", ""); p = a.get(); print(p)
check(has(p, "b" * 20) and has(p, "c" * 20), "the list is not shown")
check(has(p, ",last"), "a name is left out")
'''
