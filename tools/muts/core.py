U="server/users.c"; G="server/groups.c"; D="server/send.c"; I="server/ipcf.c"
M=[
("u1","P21 P10",U,"    memset(u_tab[n].awaymsg, 0, MAX_AWAY_LEN+1);\n",""),
("u2","P21 P16",U,"        if ( lpriv_id[i] == n )\n            lpriv_id[i] = -1;\n",""),
("u3","P21 P16",U,"            pong_req[i] = -1;\n            timerclear (&ping_time[n]);","            timerclear (&ping_time[n]);"),
("u4","P21 P30",U,"    u_tab[n].nobeep = 0;\n",""),
("u5","P21 P18",U,"    memset(u_tab[n].realname, 0, MAX_REALLEN+1);\n",""),
("u6","P21",U,"    lpriv_id[n] = -1;\n",""),
("u7","P21 P04",U,"    S_kill[n] = 0;\n",""),
("u8","P21 P16",U,"    u_tab[n].lastaway = 0;\n",""),
("u9","P10 P24",U,"n = strnlen(src, dstsz - 1);","n = strnlen(src, dstsz - 2);"),
("u10","P11",U,"    for (i=0; i<MAX_USERS; i++) {\n        if ( strcasecmp(u_tab[i].nickname, name) == 0) {","    for (i=1; i<MAX_REAL_USERS; i++) {\n        if ( strcasecmp(u_tab[i].nickname, name) == 0) {"),
("u11","P21 P13",U,"if (strcasecmp(u_tab[i].group,group) == 0) {","if (strcmp(u_tab[i].group,group) == 0) {"),
("u12","P21 P30",U,"    nlclear(u_tab[n].pub_s_hushed);\n",""),
("u13","P26 P21",U,"    u_tab[n].perms = PERM_NULL;\n",""),
("u14","P12 P21",U,"    u_tab[n].login = LOGIN_FALSE;\n    u_tab[n].echoback","    u_tab[n].echoback"),
("u15","P18 P21",U,"    memset(u_tab[n].password, 0, MAX_PASSWDLEN+1);\n",""),
("u16","P31 P21",U,"    memset(u_tab[n].nodeid, 0, MAX_NODELEN+1);\n",""),
("gr1","P13 P21",G,"    nlclear(g_tab[n].sr_invites);\n",""),
("gr2","P13 P14",G,"    nlclear(g_tab[n].nr_talk);\n",""),
("gr3","P13",G,"    g_tab[n].size = 0;\n",""),
("gr4","P23 P13 P22",G,"    memset(g_tab[n].idleboot_msg, 0, sizeof(g_tab[n].idleboot_msg));\n",""),
("gr5","P21 P13 P14",G,"    memset(g_tab[n].missingmod, 0, MAX_NICKLEN+1);\n","",),
("gr6","P21 P13 P14",G,"    g_tab[n].modtimeout = 0.0;\n",""),
("gr7","P21",G,"        if (g_tab[i].mod == u_index) {","        if (g_tab[i].mod == u_index && g_tab[i].control != PUBLIC) {"),
("gr8","P13 P22",G,"    g_tab[n].idleboot = DEF_IDLE_BOOT;\n",""),
("gr9","P13",G,"        if ( strcasecmp(g_tab[i].name, name) == 0) {","        if ( strcmp(g_tab[i].name, name) == 0) {"),
("gr10","P13 P17",G,"    g_tab[n].visibility = VISIBLE;\n",""),
("s1","P05 P06",D,"    filtertext(src, dest, destsz - 1);","    filtertext(src, dest, destsz);"),
("s2","P16 P30",D,"    if ((!nlmatch(one, *u_tab[to].pri_s_hushed)) &&\n        (!nlmatch(two, *u_tab[to].pri_n_hushed)))","    if ((!nlmatch(one, *u_tab[to].pri_s_hushed)) ||\n        (!nlmatch(two, *u_tab[to].pri_n_hushed)))"),
("s3","P16 P30",D,"    ucaseit(two);\n\n    if ((!nlmatch",  "    if ((!nlmatch"),
("s4","P16",D,"        lpriv_id[to] = from;\n        doSend(from, to);","        doSend(from, to);\n        lpriv_id[from] = to;"),
("s5","P16",D,"        sendstatus(from, \"Bounce\"","        sendstatus(to, \"Bounce\""),
("s6","P16 P30",D,"if ( u_tab[to].nobeep != 0 )","if ( u_tab[to].nobeep == 1 )"),
("s7","P05",D,"    if (len > (MAX_PKT_LEN - 1)) {","    if (len > MAX_PKT_LEN) {"),
("s8","P12 P05 P10",D,"    if (S_kill[to] > 0) \n        return -1;","    if (S_kill[to] > 5) \n        return -1;"),
("s9","P22 P03 P05",D,"if (ret == -2) {","if (ret == -3) {"),
("s10","P05 P23",D,"char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];\n\n    filterbuf(status, statusbuf, sizeof(statusbuf));\n    filterbuf(message, msgbuf, sizeof(msgbuf));\n\n    snprintf(&packetbuffer[1], MAX_PKT_LEN-1, \"%c%s\\001%s\", \n             ICB_M_STATUS","char msgbuf[MAX_PKT_DATA];\n\n    filterbuf(status, statusbuf, sizeof(statusbuf));\n    filterbuf(message, msgbuf, sizeof(msgbuf));\n\n    snprintf(&packetbuffer[1], MAX_PKT_LEN-1, \"%c%s\\001%s\", \n             ICB_M_STATUS"),
("s11","P31",D,"snprintf(u_tab[n].nodeid, MAX_NODELEN+1, \"%s\", cp);","snprintf(u_tab[n].nodeid, MAX_NODELEN+2, \"%s\", cp);"),
("s12","P24 P31 P04",D,"if (n < 0 || n >= MAX_REAL_USERS) {","if (n < 0 || n > MAX_REAL_USERS) {"),
("s13","P16",D,"    snprintf(&packetbuffer[1], MAX_PKT_LEN-1, \"%c%s\",\n        ICB_M_BEEP, u_tab[from].nickname);","    snprintf(&packetbuffer[1], MAX_PKT_LEN-1, \"%c%s\",\n        ICB_M_BEEP, u_tab[to].nickname);"),
("s14","P18",D,"snprintf(line, MAX_PKT_DATA-2, \"%s\\001%s\", getword(fields[1]), ","snprintf(line, 64, \"%s\\001%s\", getword(fields[1]), "),
("s15","P22",D,"            nlclear(u_tab[to].n_notifies);\n",""),
("i1","P22",I,"if ((TheTime >= TimeToDie) && (TimeToDie > 0.0))","if ((TheTime > TimeToDie) && (TimeToDie > 0.0))"),
("i2","P22",I,"            if (S_kill[i] > 0) {","            if (S_kill[i] > 0 && u_tab[i].login > LOGIN_FALSE) {"),
("i3","P22",I,"if ( mod_idle > g_tab[i].idlemod )","if ( mod_idle >= g_tab[i].idlemod )"),
("i4","P22",I,"                             && (u_tab[ui].awaymsg[0] == '\\0')\n",""),
("i5","P22",I,"&& ((TheTime - u_tab[ui].t_recv) < mod_idle) )","&& ((TheTime - u_tab[ui].t_recv) <= mod_idle) )"),
("i6","P22",I,"(g_tab[i].modtimeout < TheTime))","(g_tab[i].modtimeout <= TheTime))"),
("i7","P22",I,"                        && (u_tab[j].awaymsg[0] == '\\0')\n                        && (strcasecmp","                        && (strcasecmp"),
("i8","P22",I,"                    memset(g_tab[i].missingmod, 0, MAX_NICKLEN);\n",""),
("i9","P22",I,"if((TheTime - u_tab[i].t_recv) > g_tab[gi].idleboot) {","if((TheTime - u_tab[i].t_recv) > g_tab[gi].idleboot && g_tab[gi].mod != i) {"),
("i10","P22",I,"            if ( strcasecmp (u_tab[i].group, IDLE_GROUP) != 0\n","            if ( strcmp (u_tab[i].group, IDLE_GROUP) != 0\n"),
("i11","P22",I,"                                    else if ((u_tab[k].t_recv - u_tab[newmod].t_recv) > 0)","                                    else if ((u_tab[k].t_recv - u_tab[newmod].t_recv) < 0)"),
("i12","P22",I,"                    is_booting = 1;\n                    s_change(i, 2);\n                    is_booting = 0;","                    s_change(i, 2);"),
("i13","P21 P28",I,"if ((ogi >= 0) && (n != j) && (u_tab[j].login > LOGIN_FALSE)) {","if ((ogi >= 0) && (n != j) && (u_tab[j].login > LOGIN_FALSE) && u_tab[j].group[0] != t_grp[0]) {"),
("i14","P21 P28",I,"                 nlmatch(one, *u_tab[j].s_notifies)) &&\n                (g_tab[ogi]","                 nlmatch(three, *u_tab[j].s_notifies)) &&\n                (g_tab[ogi]"),
("i15","P21",I,"    while ( (was_mod = check_mods(n)) != -1 )","    if ( (was_mod = check_mods(n)) != -1 )"),
("i16","P21",I,"                strcpy(g_tab[was_mod].missingmod, t_name);","                strcpy(g_tab[was_mod].missingmod, u_tab[n].nickname);"),
("i17","P21",I,"g_tab[was_mod].modtimeout = TheTime + MOD_TIMEOUT;","g_tab[was_mod].modtimeout = MOD_TIMEOUT;"),
("i18","P21",I,"if(g_tab[ogi].volume != QUIET)\n            s_status_group(2,0,ogi","if(g_tab[ogi].volume == LOUD)\n            s_status_group(2,0,ogi"),
("i19","P21",I,"    num_left = count_users_in_group(t_grp);","    num_left = count_users_in_group(t_grp) - 1;"),
("i20","P21",I,"                        else if ((u_tab[i].t_recv - u_tab[newmod].t_recv) > 0)\n                            newmod = i;\n                    }\n                g_tab[was_mod].mod","                        else if (i > newmod)\n                            newmod = i;\n                    }\n                g_tab[was_mod].mod"),
("i21","P22",I,"(ShutdownNotify == 0)) {","(ShutdownNotify <= 1)) {"),
("i22","P21 P24",I,"    else if ( num_left > 0) {","    else if ( num_left >= 0) {",),
]
