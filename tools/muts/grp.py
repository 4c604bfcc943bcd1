G="server/s_group.c"; R="server/groups.c"
M=[
("g1","P14",G,"        can_do = (is_restricted && is_moderator) ;","        can_do = (is_restricted && (is_moderator || g_tab[gi].mod < 0)) ;"),
("g2","P14",G,"                ((nldelete(g_tab[gi].n_invites,who) == 0) ||\n                 (nldelete(g_tab[gi].nr_invites,who) == 0)))","                ((nldelete(g_tab[gi].n_invites,who) == 0) |\n                 (nldelete(g_tab[gi].nr_invites,who) == 0)))"),
("g3","P13",G,"            else if (g_tab[find_group(u_tab[target_user].group)].visibility != VISIBLE)\n            {\n                senderror(n, \"User not found.\");","            else if (g_tab[find_group(u_tab[target_user].group)].visibility == SUPERSECRET)\n            {\n                senderror(n, \"User not found.\");"),
("g4","P13",G,"                how_many = (MAX_GROUPLEN + 1> len) ? len:MAX_GROUPLEN + 1;","                how_many = (MAX_GROUPLEN > len) ? len:MAX_GROUPLEN;"),
("g5","P13",G,"                how_many = (MAX_GROUPLEN + 2> len) ? len:MAX_GROUPLEN + 2;","                how_many = (MAX_GROUPLEN + 3> len) ? len:MAX_GROUPLEN + 3;"),
("g6","P13",G,"                is_invited = ((nlpresent(u_tab[n].nickname, \n                                         *g_tab[ngi].n_invites) > 0) ||\n                              (nlmatch(useraddr, *g_tab[ngi].s_invites)) ||\n                              (nlpresent(u_tab[n].nickname, *g_tab[ngi].nr_invites) &&\n                               (strlen(u_tab[n].realname) > 0)) ||","                is_invited = ((nlpresent(u_tab[n].nickname, \n                                         *g_tab[ngi].n_invites) > 0) ||\n                              (nlmatch(useraddr, *g_tab[ngi].s_invites)) ||\n                              (nlpresent(u_tab[n].nickname, *g_tab[ngi].nr_invites)) ||"),
("g7","P13",G,"            is_moderator = (check_auth(n) || (g_tab[ngi].mod == n));\n            if (!is_moderator)\n            {\n                /* are we","            is_moderator = (check_auth(n) || (g_tab[ngi].mod == n)\n                || !strcasecmp(g_tab[ngi].missingmod, u_tab[n].nickname));\n            if (!is_moderator)\n            {\n                /* are we"),
("g8","P13",G,"                if ( num >= g_tab[ngi].size && g_tab[ngi].mod != n )","                if ( num > g_tab[ngi].size && g_tab[ngi].mod != n )"),
("g9","P13",G,"            if ( g_tab[ngi].size > 0 )\n            {\n                int num = 0;","            if ( g_tab[ngi].size > 1 )\n            {\n                int num = 0;"),
("g10","P13",G,"                    if ( !strcasecmp (u_tab[i].group, g_tab[ngi].name) )\n                        ++num;","                    if ( !strcmp (u_tab[i].group, fields[1]) )\n                        ++num;"),
("g11","P13",G,"            strcpy(u_tab[n].group, g_tab[ngi].name);\n\n            /* tell the new","            strcpy(u_tab[n].group, n_g_n);\n\n            /* tell the new"),
("g12","P13",G,"            if(g_tab[ngi].volume != QUIET) {\n                if ( (u_tab[n].login","            if(g_tab[ngi].volume == LOUD) {\n                if ( (u_tab[n].login"),
("g13","P13",G,"                    if(g_tab[ogi].volume != QUIET){\n                        s_status_group(2,0,ogi,","                    if(g_tab[ngi].volume != QUIET){\n                        s_status_group(2,0,ogi,"),
("g14","P13",G,"                    /* zap the old group */\n                    clear_group_item(ogi);","                    /* zap the old group */\n                    if (g_tab[ogi].mod == n || g_tab[ogi].mod < 0) clear_group_item(ogi);"),
("g15","P13",G,"            nlinit(g_tab[ngi].sr_invites, MAX_INVITES);\n            nlinit(g_tab[ngi].n_bars","            nlinit(g_tab[ngi].n_bars"),
("g16","P13",G,"                g_tab[ngi].control = MODERATED;\n                g_tab[ngi].mod = n;","                g_tab[ngi].control = MODERATED;\n                if (g_tab[ngi].mod < 0) g_tab[ngi].mod = n;"),
("g17","P13",G,"                if (!is_invited && is_booting == 0)","                if (!is_invited && (is_booting == 0 || g_tab[ngi].mod == -1))"),
("g18","P14",G,"        if (is_restricted && is_moderator) {\n            if ((mode == 0)","        if (is_restricted && (is_moderator || check_auth(n))) {\n            if ((mode == 0)"),
("g19","P14",G,"            else if ((mode == 1) && (r == 1)) {\n                nlput(g_tab[gi].sr_invites, who);","            else if ((mode == 1) && (r == 1)) {\n                nlput(g_tab[gi].s_invites, who);"),
("g20","P14",G,"        if ((mode == 0) && (!is_restricted || is_moderator)) {","        if ((mode == 0) && (!is_restricted || is_moderator || r)) {"),
("g21","P14",G,"                if ((strlen(u_tab[dest].realname) > 0) || (r == 0)) {","                if ((strlen(u_tab[dest].realname) > 0) || (quiet == 0)) {"),
("g22","P14",G,"            /* relinquish mod */\n            g_tab[gi].mod = -1;","            /* relinquish mod */\n            if (g_tab[gi].mod == n) g_tab[gi].mod = -1;"),
("g23","P14",G,"            if ( g_tab[gi].control != PUBLIC &&\n                 g_tab[gi].control != MODERATED &&\n                 g_tab[gi].control != RESTRICTED )","            if ( g_tab[gi].control != PUBLIC &&\n                 g_tab[gi].control != MODERATED &&\n                 g_tab[gi].control != CONTROLLED )"),
("g24","P14",G,"            if (strcasecmp(cp, \"server\") == 0) {","            if (strcmp(cp, \"server\") == 0) {"),
("g25","P14",G,"                /* fix the mod-ship */\n                g_tab[gi].mod = dest;","                /* fix the mod-ship */\n                g_tab[find_group(u_tab[dest].group)].mod = dest;"),
("g26","P14",G,"                    if ((nldelete(g_tab[destgi].n_invites,\n                                  u_tab[dest].nickname) == 0) ||\n                        (nldelete(g_tab[destgi].nr_invites,\n                                  u_tab[dest].nickname) == 0)) {","                    if ((nldelete(g_tab[destgi].n_invites,\n                                  user) == 0)) {"),
("g27","P14",G,"            else if (strcasecmp(user, \"ADMIN\") == 0)","            else if (strcmp(user, \"ADMIN\") == 0)"),
("g28","P14",G,"                    is_booting = 1;\n                    s_change(dest,2);\n                    is_booting = 0;","                    is_booting = 1;\n                    s_change(dest,2);"),
("g29","P14",G,"                destgi = find_group(u_tab[dest].group);\n                if (gi == destgi) {","                destgi = find_group(u_tab[dest].group);\n                if (gi == destgi || check_auth(n)) {"),
("g30","P14",G,"    if ((find_group(n_g_n) >= 0) && (find_group(n_g_n) != group)) {","    if ((find_group(name) >= 0) && (find_group(name) != group)) {"),
("g31","P14",G,"            strcpy(u_tab[i].group, n_g_n);\n        }","            strcpy(u_tab[i].group, n_g_n);\n            if (i == g_tab[group].mod) break;\n        }"),
("g32","P14",G,"            if ( !is_moderator && has_mod && !is_public )","            if ( !is_moderator && g_tab[gi].mod != -1 && !is_public )"),
("g33","P14",G,"                     lu == SET_IDLEMOD ||\n                     lu == SET_QUIET )","                     lu == SET_IDLEMOD )"),
("g34","P14",G,"                                    if (strlen(u_tab[i].realname) == 0)\n                                        nlput(g_tab[gi].n_invites,","                                    if (strlen(u_tab[i].realname) != 0)\n                                        nlput(g_tab[gi].n_invites,"),
("g35","P14",G,"                            g_tab[gi].control = MODERATED;\n                            nlinit(g_tab[gi].n_invites, MAX_INVITES);","                            g_tab[gi].control = MODERATED;"),
("g36","P14",G,"                                    if ( new_size < 0 || new_size > MAX_REAL_USERS )","                                    if ( new_size < 0 )"),
("g37","P14",G,"                                    if ( new_ib < 0 )","                                    if ( new_ib < -60 )"),
("g38","P14",G,"                                    if ( new_im < 1 || new_im > MAX_IDLE_MOD )","                                    if ( new_im < 1 )"),
("g39","P14",G,"        has_moderator = (g_tab[t_group].mod >= 0);","        has_moderator = (g_tab[t_group].mod >= 0 && g_tab[t_group].control != PUBLIC);"),
("g40","P14",G,"        strncpy(g_tab[t_group].topic, fields[1], MAX_TOPICLEN);","        strncpy(g_tab[t_group].topic, fields[1], MAX_TOPICLEN + 1);"),
("g41","P15",G,"                (u_tab[i].login == LOGIN_COMPLETE))\n                sendopen(n, i, fields[0]);","                (u_tab[i].login >= LOGIN_PENDING))\n                sendopen(n, i, fields[0]);"),
("g42","P15",G,"                        (strcasecmp(u_tab[i].nickname, getword(fields[1]))))","                        (strcmp(u_tab[i].nickname, getword(fields[1]))))"),
("g43","P15",G,"                        (!nlmatch(one, *u_tab[i].pub_s_hushed)) &&\n                        (!nlmatch(two, *u_tab[i].pub_n_hushed)) &&","                        (!nlmatch(two, *u_tab[i].pub_n_hushed)) &&"),
("g44","P15",G,"            if (gi != -1 && g_tab[gi].volume == QUIET) {\n                senderror (n, \"Open messages not permitted in quiet groups.\");\n                return 0;\n            }","            "),
("g45","P13 P14",G,"        if (strcasecmp(my_group, u_tab[i].group) == 0) {\n            /* n means","        if (strcasecmp(my_group, u_tab[i].group) == 0 && !S_kill[i]) {\n            /* n means"),
("g46","P14",G,"        nldelete (g_tab[gi].nr_talk, who);\n    }\n\n    if ( deleted > 0 )","    }\n\n    if ( deleted > 0 )"),
("g47","P14",G,"    /* users get put into these without being asked, so they have to stay\n     * what s_change() makes of them */\n    if (!strcasecmp(n_g_n, IDLE_GROUP) || !strcasecmp(n_g_n, BOOT_GROUP)) {","    if (!strcasecmp(n_g_n, IDLE_GROUP)) {"),
("g48","P14",G,"                            while(strlen(p2=getword(p1)) > 0)\n                                p1 = get_tail(p2);","                            p1 = get_tail(p1);"),
("g49","P14",G,"                        if ( lu == SET_IDLEBOOT || lu == SET_IDLEMOD )\n                        {\n                            p1 = get_tail(p1);","                        if ( lu == SET_IDLEBOOT )\n                        {\n                            p1 = get_tail(p1);"),
("g50","P14",G,"            if ( strcasecmp(g_tab[gi].name, BOOT_GROUP) == 0 ) \n            {\n                sprintf (mbuf, \"Can't change","            if ( strcasecmp(g_tab[gi].name, BOOT_GROUP) == 0 && has_mod ) \n            {\n                sprintf (mbuf, \"Can't change"),
]
