PROP="P21"
NEEDS="an unregistered moderator of a group leaves the server while in another group"
BREAKS="the new moderator is looked for in the group the departed user was in, so an outsider (or nobody) gets the group"
EDITS=[("server/ipcf.c","                        (strcasecmp(u_tab[i].group,g_tab[was_mod].name) == 0)) {\n                        if (newmod == -1)","                        (strcasecmp(u_tab[i].group,t_grp) == 0)) {\n                        if (newmod == -1)")]
DEMO='''
S = Server()
a = S.client("Anna", group="Alpha"); b = S.client("Berta", group="Alpha"); c = S.client("Carla", group="Gamma")
a.cmd("g", "Gamma"); a.get(); b.get(); c.get()
b.cmd("w", "Alpha"); p = b.get()
check(has(p, "Group: Alpha", "Mod: Anna"), "Anna is not Alpha's moderator any more")
a.s.close(); b.get()
b.cmd("w", "Alpha"); p = b.get()
check(has(p, "Group: Alpha", "Mod: Berta"), "Alpha's moderator is not its member")
'''
