M = [
 ("h1", "P35", "server/msgs.c", "if ((strcasecmp(u_tab[j].group, g_tab[i].name) == 0)\n                                && (j != n))", "if ((strcasecmp(u_tab[j].group, g_tab[i].name) != 0)\n                                && (j != n))"),
 ("h2", "P35", "server/ipcf.c", "                    g_tab[i].modtimeout = 0.0;\n                    memset(g_tab[i].missingmod, 0, MAX_NICKLEN);", "                    g_tab[i].modtimeout = 0.0;"),
 ("h3", "P35", "server/groups.c", "    g_tab[n].mod = -1; /* no one */\n", ""),
 ("h4", "P35", "server/groups.c", "    g_tab[n].modtimeout = 0.0;\n", ""),
 ("h5", "P35", "server/groups.c", "    nlclear(g_tab[n].nr_invites);\n", ""),
 ("h6", "P35", "server/s_group.c", "            nlinit(g_tab[ngi].nr_invites, MAX_INVITES);\n            nlinit(g_tab[ngi].s_invites", "            nlinit(g_tab[ngi].s_invites"),
 ("h7", "P35", "server/ipcf.c", "(g_tab[i].modtimeout < TheTime))", "(g_tab[i].modtimeout - 200 < TheTime))"),
 ("h8", "P35", "server/s_group.c", "has_mod = (g_tab[gi].mod != -1 || g_tab[gi].modtimeout > 0.0);", "has_mod = (g_tab[gi].mod != -1);"),
 ("h9", "P35", "server/ipcf.c", "else if ((u_tab[i].t_recv - u_tab[newmod].t_recv) > 0)", "else if ((u_tab[i].t_on - u_tab[newmod].t_on) > 0)"),
 ("h10", "P35", "server/ipcf.c", "while ( (was_mod = check_mods(n)) != -1 )", "if ( (was_mod = check_mods(n)) != -1 )"),
]
