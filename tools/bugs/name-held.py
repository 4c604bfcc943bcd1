PROP="P14"
NEEDS="a group held for its absent registered moderator, and a registered user whose nickname is the beginning of the moderator's changing to that nickname"
BREAKS="the group goes to the wrong user"
EDITS=[("server/s_user.c","                    (strcmp(g_tab[i].missingmod, u_tab[n].nickname)==0)){","                    (strncmp(g_tab[i].missingmod, u_tab[n].nickname,\n                             strlen(u_tab[n].nickname))==0)){")]
DEMO='''
S = Server()
a = S.client("Annab"); b = S.client("Bert", group="Room")
for c, n in ((a, "Annab"),):
    c.cmd("p", "pw"); c.get()
a.cmd("g", "Den"); a.get(); a.cmd("status", "m"); a.get()
b.cmd("g", "Den"); b.get()
c = S.client("Anna", loginid="cc"); c.cmd("p", "pw"); c.get(); c.cmd("name", "Carl"); c.get()
a.s.close(); import time; time.sleep(0.5)
b.cmd("status", ""); p = b.get(); print(p)
check(has(p, "Mod: Annab"), "the group is not held")
c.cmd("name", "Anna"); print(c.get())
b.cmd("status", ""); p = b.get(); print(p)
check(has(p, "Mod: Annab"), "the group went to someone else")
'''
