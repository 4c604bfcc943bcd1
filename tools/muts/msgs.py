S="server/msgs.c"
M=[
("m1","P26",S,'''            if ( !strcasecmp (arg1, login) &&
                 !strcasecmp (arg2, u_tab[n].nodeid) )''','''            if ( !strcasecmp (arg1, login) ||
                 !strcasecmp (arg2, u_tab[n].nodeid) )'''),
("m2","P26",S,"if ( (client_v4.s_addr & mask) == addr )","if ( (client_v4.s_addr & mask) == (addr & mask) && addr )"),
("m3","P26",S,'strchr("\\n\\t#", pfilebuf[0])','strchr("\\n#", pfilebuf[0])'),
("m4","P26",S,'''                perm = perm2val (perms);
                break;
            }
        }
        else if ( !strcasecmp (type, "mask") )''','''                perm = perm2val (perms);
            }
        }
        else if ( !strcasecmp (type, "mask") )'''),
("m5","P26",S,"memcpy(out, &sa6->sin6_addr.s6_addr[12], 4);","memcpy(out, &sa6->sin6_addr.s6_addr[10], 4);"),
("m6","P26",S,"        ucaseit(one);\n\n        /* Check the deny file */","\n        /* Check the deny file */"),
("m7","P26",S,"if (wildmat(one, three))\n                    {\n                        sprintf (mbuf, \"Login refused","if (wildmat(one, three) && i > 0)\n                    {\n                        sprintf (mbuf, \"Login refused"),
("m8","P26",S,"                    memset(three, 0, 255);\n                }\n                else","                    three[0] = three[0] ? 0 : three[0];\n                }\n                else"),
("m9","P26 P10",S,"if ( perms < 0L )\n        {\n            return perms;","if ( perms < -1L )\n        {\n            return perms;"),
("m10","P26",S,"if ( perms & PERM_DENY )","if ( perms == PERM_DENY )"),
("m11","P10 P13",S,"        u_tab[n].login = LOGIN_PENDING;\n","        u_tab[n].login = LOGIN_COMPLETE;\n"),
("m12","P10",S,"        u_tab[n].login = LOGIN_COMPLETE;\n\n        server_stats.signons++;","        server_stats.signons++;"),
("m13","P10 P11",S,"        filternickname(fields[1]);\n\n        /* make sure the nickname","        /* make sure the nickname",[(S,"        /* make sure it isn't a null nickname */","        filternickname(fields[1]);\n        /* make sure it isn't a null nickname */")]),
("m14","P10",S,"(strlen(fields[0]) > MAX_IDLEN)","(strlen(fields[0]) > MAX_NICKLEN + 1)"),
("m15","P10",S,"for (i = 0; i < strlen(fields[0]); i++) {\n            if (isalnum","for (i = 1; i < strlen(fields[0]); i++) {\n            if (isalnum"),
("m16","P10 P11 P12",S,'''if (strcasecmp(fields[1],"admin") == 0)''','''if (strcmp(fields[1],"admin") == 0)'''),
("m17","P10 P13 P17",S,'''                if ( ((g_tab[g].visibility == SUPERSECRET)
                      || (g_tab[g].visibility == SECRET))''','''                if ( ((g_tab[g].visibility == SUPERSECRET))'''),
("m18","P10 P26",S,"if (u_tab[n].login > LOGIN_FALSE)\n    {\n        senderror(n, \"Already","if (u_tab[n].login > LOGIN_FALSE && u_tab[n].group[0] == 0)\n    {\n        senderror(n, \"Already"),
("m19","P15",S,"if ( u_recv_count[n] > 2 )","if ( u_recv_count[n] > 3 )"),
("m20","P15",S,"                u_recv_count[n] = 0;\n            }\n            u_recv_time","            }\n            u_recv_time"),
("m21","P15 P10",S,"        u_recv_count[n] = 0;\n        u_recv_time[n] = 0;\n",""),
("m22","P15",S,"(nlpresent (u_tab[n].nickname,\n                                       *g_tab[gi].n_talk) == 0)","(nlpresent (u_tab[n].nickname,\n                                       *g_tab[gi].n_invites) == 0)"),
("m23","P15",S,'''                           && (strlen (u_tab[n].realname) == 0
                               || nlpresent (u_tab[n].nickname,
                                             *g_tab[gi].nr_talk) == 0) ) )''','''                           && (nlpresent (u_tab[n].nickname,
                                             *g_tab[gi].nr_talk) == 0) ) )'''),
("m24","P15",S,"&& g_tab[gi].mod != n)","&& g_tab[gi].mod >= 0 && g_tab[gi].mod != n)"),
("m25","P15",S,"if (split(pkt) != 1) {","if (split(pkt) < 1) {"),
("m26","P18 P10",S,"if ( nickwrite (n, u_tab[n].password, 1, NULL) == 0 )","if ( nickwrite (n, u_tab[n].password, 1, NULL) <= 0 )"),
("m27","P18 P10",S,"        ret = nicklookup(-n, u_tab[n].nickname, NULL);","        ret = nicklookup(n, u_tab[n].nickname, NULL);"),
("m28","P14 P13 P18",S,"(strcmp(g_tab[i].missingmod, u_tab[n].nickname)==0))\n                    {\n                        g_tab[i].modtimeout = 0;","(strncmp(g_tab[i].missingmod, u_tab[n].nickname, strlen(u_tab[n].nickname))==0))\n                    {\n                        g_tab[i].modtimeout = 0;"),
("m29","P14 P10",S,'''if ((g_tab[i].modtimeout > 0.0) &&
                        (strcmp(''','''if ((g_tab[i].modtimeout >= 0.0) &&
                        (strcmp('''),
("m30","P28 P10",S,'''            if ((n != j) && (u_tab[j].login >= LOGIN_COMPLETE))
            {
                if ((nlmatch(three''','''            if ((n != j) && (u_tab[j].login >= LOGIN_FALSE))
            {
                if ((nlmatch(three'''),
("m31","P28",S,"                     nlmatch(one, *u_tab[j].s_notifies)) && \n                    (g_tab[find_group(u_tab[n].group)].visibility !=\n                     SUPERSECRET))","                     nlmatch(one, *u_tab[j].s_notifies)) && \n                    (g_tab[find_group(u_tab[n].group)].visibility ==\n                     VISIBLE))"),
("m32","P28",S,"        strcpy(three, u_tab[n].nickname);\n        ucaseit(three);\n        for (j","        strcpy(three, u_tab[n].nickname);\n        for (j"),
("m33","P16 P12",S,"if ( pong_req[n] != -1 )","if ( pong_req[n] > 0 )"),
("m34","P16",S,"            pong_req[n] = -1;\n            timerclear","            timerclear"),
("m35","P16 P12",S,"void pong(int n, char *pkt)\n{\n    char tbuf[255];\n\n    if (u_tab[n].login >= LOGIN_COMPLETE) {","void pong(int n, char *pkt)\n{\n    char tbuf[255];\n\n    if (u_tab[n].login >= LOGIN_FALSE) {"),
("m36","P01",S,"if ( (TheTime - u_tab[n].t_recv) < 1 )","if ( (TheTime - u_tab[n].t_recv) > 1 )"),
("m37","P12",S,"    if (u_tab[n].login >= LOGIN_COMPLETE) \n    {\n        /* record the time */\n        TheTime = time(NULL);\n        u_tab[n].t_recv= TheTime;\n\n        argc","    if (u_tab[n].login >= LOGIN_PENDING || u_tab[n].nickname[0]) \n    {\n        /* record the time */\n        TheTime = time(NULL);\n        u_tab[n].t_recv= TheTime;\n\n        argc"),
("m38","P22",S,"        u_tab[n].t_recv= TheTime;\n\n        argc","        argc"),
("m39","P22 P15",S,"        /* record the time */\n        u_tab[n].t_recv= TheTime;\n\n        if (split","        if (split"),
("m40","P13 P10",S,"        if (s_change(n,3) < 0)","        if (s_change(n,3) < -1)"),
("m41","P10 P24",S,"        if ((strlen(fields[1]) == 0) || (strlen(fields[1]) > MAX_NICKLEN))","        if ((strlen(fields[1]) > MAX_NICKLEN))"),
("m42","P10 P24",S,"        if ((strlen(fields[1]) == 0) || (strlen(fields[1]) > MAX_NICKLEN))","        if ((strlen(fields[1]) == 0) || (strlen(fields[1]) > MAX_NICKLEN + 1))"),
("m43","P28 P30",S,"        nlclear(u_tab[n].s_notifies);\n        nlinit(u_tab[n].s_notifies, MAX_NOTIFIES);","        nlclear(u_tab[n].s_notifies);\n        nlinit(u_tab[n].s_notifies, MAX_HUSHED);"),
("m44","P10",S,"how_many = (len > (MAX_NICKLEN+3))? (MAX_NICKLEN+3): len;","how_many = (len > MAX_GROUPLEN)? MAX_GROUPLEN: len;"),
("m45","P12 P10 P21","server/dispatch.c","            s_lost_user(n);\n",""),
("m46","P12","server/dispatch.c","    if (S_kill[n] > 0)\n        return;","    if (S_kill[n] > 1)\n        return;"),
("m47","P12 P10","server/dispatch.c","            S_kill[n]++;  \n",""),
("m48","P12 P24","server/dispatch.c","if(n >= MAX_REAL_USERS) {","if(n > MAX_REAL_USERS) {"),
("m49","P10","server/dispatch.c","            sendexit(n);\n            /*",  "            /*"),
]
