PROP="P35"
NEEDS="a registered user present when the group was restricted, the group made public, the user leaving, and the group restricted again"
BREAKS="an invitation outlives the restriction it was for"
EDITS=[("server/s_group.c","                            g_tab[gi].control = PUBLIC;\n                            nlinit(g_tab[gi].n_invites, MAX_INVITES);\n                            nlinit(g_tab[gi].nr_invites, MAX_INVITES);\n","                            g_tab[gi].control = PUBLIC;\n                            nlinit(g_tab[gi].n_invites, MAX_INVITES);\n")]
DEMO='''
S = Server()
a = S.client("Ann"); b = S.client("Bob")
b.cmd("p", "pw"); b.get()
a.cmd("g", "Den"); a.get(); b.cmd("g", "Den"); b.get()
a.cmd("status", "r"); a.get(); a.cmd("status", "p"); a.get()
b.cmd("g", "1"); b.get()
a.cmd("status", "r"); a.get(); b.get()
b.cmd("g", "Den"); p = b.get(); print(p)
check(has(p, "Den is restricted"), "not refused")
'''
