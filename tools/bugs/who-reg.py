PROP="P17"
NEEDS="a secret group with an invitation by address for registered users only, and an unregistered user from that address"
BREAKS="the group's name is shown to someone who is not invited"
EDITS=[("server/s_who.c","                  ((nlmatch(one, *g_tab[grp].sr_invites)) &&\n                   (strlen(u_tab[n].realname) > 0)) ||","                  ((nlmatch(one, *g_tab[grp].sr_invites)) &&\n                   (strlen(one) > 0)) ||")]
DEMO='''
S = Server()
a = S.client("Anna", group=".Hidden"); b = S.client("Berta", loginid="ub")
b.cmd("w", ""); p = b.get()
check(has(p, "-SECRET-") and not has(p, "Hidden"), "the group is shown anyway")
a.cmd("status", "r"); print(a.get())
a.cmd("invite", "-r -s ub@*"); print(a.get())
b.cmd("w", ""); p = b.get()
check(has(p, "-SECRET-") and not has(p, "Hidden"), "the group's name is shown to one not invited")
'''
