U="server/s_user.c";W="server/s_who.c";P="server/s_person.c";B="server/s_beep.c";I="server/s_info.c";A="server/s_admin.c";AU="server/s_auto.c";MO="server/s_motd.c";NE="server/s_news.c"
M=[
# s_user
("x1","P30 P16",U,"            who = get_tail(who);\n        }\n\n        if (quiet == -1) quiet = 0;","            who = get_tail(who);\n            if (personal == 1 && public == 1) mode = 0;\n        }\n\n        if (quiet == -1) quiet = 0;"),
("x2","P30",U,"        if ((personal == -1) && (public == -1))\n        {\n            personal = 1;","        if ((personal == -1) || (public == -1))\n        {\n            personal = 1;"),
("x3","P30",U,"                if (nlcount(*u_tab[n].pub_s_hushed) == MAX_HUSHED) {","                if (nlcount(*u_tab[n].pub_s_hushed) == MAX_HUSHED && personal != 1) {"),
("x4","P30",U,"                nldelete(u_tab[n].pub_n_hushed, who);\n                if (quiet == 0) {","                if (quiet == 0) {\n                    nldelete(u_tab[n].pub_n_hushed, who);"),
("x5","P30",U,"                if (nlcount(*u_tab[n].pri_n_hushed) == MAX_HUSHED) {","                if (nlcount(*u_tab[n].pub_n_hushed) == MAX_HUSHED) {"),
("x6","P30",U,"                sendstatus(n, \"Open-Site-Hushed\", nlget(u_tab[n].pub_s_hushed));" if 0 else "for (i = 0; i < nlcount(*u_tab[n].pub_s_hushed); i++) \n                    sendstatus(n, \"Open-Site-Hushed\", nlget(u_tab[n].pub_s_hushed));","for (i = 0; i < nlcount(*u_tab[n].pri_s_hushed); i++) \n                    sendstatus(n, \"Open-Site-Hushed\", nlget(u_tab[n].pub_s_hushed));"),
("x7","P11",U,"        if ((find_user(new_name) >= 0) &&\n            (strcasecmp","        if ((find_user(fields[1]) >= 0) &&\n            (strcasecmp"),
("x8","P11",U,"            (strcasecmp(new_name, u_tab[n].nickname) != 0)) {","            (strncasecmp(new_name, u_tab[n].nickname, strlen(new_name)) != 0)) {"),
("x9","P11 P12",U,"        if (strcasecmp(new_name,\"admin\") == 0) {\n            if (strcmp(u_tab[n].password, ADMIN_PWD) != 0) {","        if (strcmp(new_name,\"ADMIN\") == 0) {\n            if (strcmp(u_tab[n].password, ADMIN_PWD) != 0) {"),
("x10","P11 P18",U,"        memset(u_tab[n].realname, 0, MAX_REALLEN+1);\n        ret = nicklookup(-n","        ret = nicklookup(-n"),
("x11","P11 P18",U,"            /* we don't know this person */\n            memset(u_tab[n].realname, 0, MAX_REALLEN + 1);\n","            /* we don't know this person */\n",[(U,"        memset(u_tab[n].realname, 0, MAX_REALLEN+1);\n        ret = nicklookup(-n","        ret = nicklookup(-n")]),
("x12","P11 P14",U,"                if ((g_tab[i].modtimeout > 0.0) &&\n                    (strcmp(g_tab[i].missingmod, u_tab[n].nickname)==0)){\n                    g_tab[i].modtimeout = 0;","                if (\n                    (strcmp(g_tab[i].missingmod, u_tab[n].nickname)==0)){\n                    g_tab[i].modtimeout = 0;"),
("x13","P11",U,"        s_status_group(1,0,n,\"Name\",mbuf);\n        nickwritetime","        if (strcmp(u_tab[n].nickname, new_name)) s_status_group(1,0,n,\"Name\",mbuf);\n        nickwritetime"),
("x14","P11",U,"        nickwritetime(n, 1, NULL);\n        strcpy(u_tab[n].nickname, new_name);","        strcpy(u_tab[n].nickname, new_name);\n        nickwritetime(n, 1, NULL);"),
("x15","P30 P28",U,"            if (nlcount(*u_tab[n].s_notifies) == MAX_NOTIFIES)","            if (nlcount(*u_tab[n].n_notifies) == MAX_NOTIFIES)"),
("x16","P30 P28",U,"            nldelete(u_tab[n].n_notifies, who);\n            if","            nldelete(u_tab[n].s_notifies, who);\n            if"),
("x17","P30 P28",U,"        if (nlpresent(who, *u_tab[n].s_notifies) == 0)","        if (nlmatch(who, *u_tab[n].s_notifies) == 0)"),
("x18","P30",U,"            u_tab[n].nobeep = 2; /* verbose */","            u_tab[n].nobeep = 1; /* verbose */"),
("x19","P30 P16",U,"            u_tab[n].echoback = 1; /* on */\n            sendstatus(n,\"Echo\"","            u_tab[n].echoback |= 1; /* on */\n            sendstatus(n,\"Echo\""),
("x20","P16",U,"    pong_req[sendto] = n;\n","    if (pong_req[sendto] < 0) pong_req[sendto] = n;\n"),
("x21","P16",U,"    sendping (sendto, u_tab[n].nickname);","    sendping (sendto, u_tab[sendto].nickname);"),
("x22","P16",U,"            sprintf (mbuf, \"Can't locate user (%s)\", p);\n            senderror (n, mbuf);\n            return (-1);","            sprintf (mbuf, \"Can't locate user (%s)\", p);\n            senderror (n, mbuf);"),
("x23","P16",U,"    *(u_tab[n].awaymsg) = '\\0';\n    u_tab[n].lastaway = 0;\n    u_tab[n].lastawaytime = (time_t)0;","    *(u_tab[n].awaymsg) = '\\0';"),
("x24","P16",U,"             u_tab[n].awaymsg);\n    u_tab[n].lastaway = 0;\n    u_tab[n].lastawaytime = (time_t)0;","             u_tab[n].awaymsg);"),
("x25","P23 P16",U,"    snprintf(u_tab[n].awaymsg, MAX_AWAY_LEN, \"(%%s@","    snprintf(u_tab[n].awaymsg, MAX_PKT_DATA, \"(%%s@"),
("x26","P29",U,"                if (len < sizeof(tbuf) - 1) {","                if (len < 79) {"),
("x27","P24 P29",U,"                if (len < sizeof(tbuf) - 1) {","                if (len < sizeof(tbuf)) {"),
# who
("w1","P17",W,"    if ((g_tab[grp].visibility == SECRET) ||\n        (g_tab[grp].visibility == SUPERSECRET))","    if (g_tab[grp].visibility == SECRET)"),
("w2","P17",W,"                  ((nlmatch(one, *g_tab[grp].sr_invites)) &&\n                   (strlen(u_tab[n].realname) > 0)) ||","                  (nlmatch(one, *g_tab[grp].sr_invites)) ||"),
("w3","P17",W,"                      ((nlpresent(u_tab[n].nickname, \n                                  *g_tab[group].nr_invites)) && \n                       (strlen(u_tab[n].realname) > 0)) ||","                      (nlpresent(u_tab[n].nickname, \n                                  *g_tab[group].nr_invites)) ||"),
("w4","P17",W,"            ((g_tab[group].visibility != SUPERSECRET) || is_invited ||","            ((g_tab[group].visibility < SECRET) || is_invited ||"),
("w5","P17",W,"visibility == SUPERSECRET) && (strncmp(\"ADMIN\", u_tab[n].nickname, MAX_NICKLEN))) {","visibility == SUPERSECRET) && strcmp(u_tab[n].group, u_tab[target_user].group) && (strncmp(\"ADMIN\", u_tab[n].nickname, MAX_NICKLEN))) {"),
("w6","P17",W,"                for (j = groups; j > i; j--)\n                    group_list[j] = group_list[j - 1];","                for (j = groups; j > i + 1; j--)\n                    group_list[j] = group_list[j - 1];"),
("w7","P17",W,"                for (j = users; j > i; j--)\n                    user_list[j] = user_list[j - 1];","                for (j = users - 1; j > i; j--)\n                    user_list[j] = user_list[j - 1];"),
("w8","P17",W,"        sends_cmdout(n, buf);\n        memset(buf, 0, MAX_LINE);\n        /* do NOT","        sends_cmdout(n, buf);\n        memset(buf, 0, MAX_LINE);\n        if (strlen(item) > 11) return 0;\n        /* do NOT"),
("w9","P17 P24",W,"    if ((strlen(item) + strlen(buf) + 1) >= MAX_LINE) {","    if ((strlen(item) + strlen(buf)) > MAX_LINE) {"),
("w10","P17",W,"(! strncmp(\"ADMIN\", u_tab[n].nickname, MAX_NICKLEN)));\n    if ((g_tab","(! strncmp(\"ADMIN\", u_tab[n].nickname, 5)));\n    if ((g_tab"),
("w11","P17",W,"    isMyGroup = (find_group(u_tab[n].group) == grp);","    isMyGroup = (strncasecmp(u_tab[n].group, g_tab[grp].name, strlen(u_tab[n].group)) == 0);"),
("w12","P17",W,"    ucaseit(one);\n    memset(TheMod","    memset(TheMod"),
("w13","P17",W,"        doOne(n, flags, g_tab[group_list[i]].name, 0);","        doOne(n, flags & DOGROUPONLY ? flags : 0, g_tab[group_list[i]].name, 0);"),
("w14","P17",W,"    num_users = count_users_in_group(g_tab[which].name);\n    memset(line","    num_users = 2;\n    memset(line"),
("w15","P17",W,"        gpmod = (g_tab[which].mod == user);","        gpmod = (g_tab[find_group(u_tab[n].group)].mod == user);"),
# person
("p1","P16",P,"    if( (dest = find_user(getword(fields[1]))) < 0) ","    if( (dest = find_user(getword(fields[1]))) < 0 || dest == n) "),
("p2","P16",P,"        args = strdup (tail);","        args = strdup (fields[1]);"),
("p3","P16",P,"            (time(NULL) - u_tab[dest].lastawaytime > AWAY_NOSEND_TIME))","            (u_tab[dest].lastawaytime == 0))"),
("p4","P16",P,"        if ((u_tab[dest].lastaway != src) || ","        if ((u_tab[dest].lastaway != src) && "),
("p5","P16",P,"            sendstatus(src, \"Away\", mbuf);\n            if (u_tab[dest].echoback == 2) ","            sendstatus(src, \"Away\", mbuf);\n            if (u_tab[src].echoback == 2) "),
("p6","P16",P,"        if (u_tab[n].echoback == 2) \n        {\n            snprintf(tbuf","        if (u_tab[n].echoback) \n        {\n            snprintf(tbuf"),
("p7","P16",P,"        sendperson(n, dest, tail);","        if (dest != n || u_tab[n].echoback != 2) sendperson(n, dest, tail);"),
("p8","P16",P,"            u_tab[dest].lastawaytime = time(NULL);\n","            if (u_tab[dest].lastawaytime == 0) u_tab[dest].lastawaytime = time(NULL);\n"),
("b1","P16",B,"                sendbeep(n, dest);","                if (strlen(u_tab[dest].awaymsg) == 0) sendbeep(n, dest);"),
("b2","P16",B,"                away_handle (n, dest);","                if (u_tab[dest].nobeep == 0) away_handle (n, dest);"),
# info
("f1","P16 P17",I,"            TheirIndex = lpriv_id[n];","            TheirIndex = lpriv_id[n] ? lpriv_id[n] : -1;"),
("f2","P16 P24",I,"        strncpy(TheirName, getword(fields[1]), 19);","        strncpy(TheirName, getword(fields[1]), 12);"),
# admin
("a1","P12",A,"            if (new_level < 0)\n                new_level = 0;\n\n            if (new_level > 0 && log_level == 0) {","            if (new_level < 0)\n                new_level = 0;\n            log_level = new_level;\n            if (new_level > 0 && log_level == 0) {"),
("a2","P12",A,"        } else if (check_auth(n))\n            pktserv_disconnect","        } else if (check_auth(n) || TheVictim == n)\n            pktserv_disconnect"),
("a3","P12",A,"        else if (valuser(u_tab[TheVictim].nickname,","        else if (valuser(getword(fields[1]),"),
("a4","P12",A,"        else if (valuser(u_tab[TheVictim].nickname,","        else if (valuser(u_tab[n].nickname,"),
("a5","P12",A,"            S_kill[TheVictim]++;","            S_kill[TheVictim] = 1; S_kill[n] = 0;"),
("a6","P12 P22",A,"        TimeToDie = time(NULL) + 60.0 * atol(fields[1]);","        TimeToDie = time(NULL) + 60.0 * atoi(getword(get_tail(fields[1])));"),
("a7","P12 P22",A,"        TimeToDie = time(NULL) + 60.0 * atol(fields[1]);\n        ShutdownNotify = 0;","        TimeToDie = time(NULL) + 60.0 * atol(fields[1]);"),
("a8","P12",A,"            if (u_tab[user].login > LOGIN_FALSE) {\n                sendimport(user,\"WALL\"","            if (u_tab[user].login > LOGIN_FALSE && user != n) {\n                sendimport(user,\"WALL\""),
("a9","P12",A,"    if (!check_auth(n)) {\n        senderror(n,\"You are not authorized to do this.\");\n        return (-1);\n    }\n    if (argc == 2) {\n        /*\t\tmdb(fields[1]);","    if (!check_auth(n)) {\n        senderror(n,\"You are not authorized to do this.\");\n        if (strcasecmp(u_tab[n].nickname, \"admin\")) return (-1);\n    }\n    if (argc == 2) {\n        /*\t\tmdb(fields[1]);"),
("a10","P12",A,"        for (user=0; user < MAX_REAL_USERS; user++) {\n            if (u_tab","        for (user=0; user < MAX_REAL_USERS; user++) {\n            if (user && u_tab"),
# auto
("au1","P18",AU,"                nickchinfo(n, \"email\", cp, 60,","                nickchinfo(n, \"www\", cp, 60,"),
("au2","P18",AU,"            if (f)\n                nickwritemsg(n, \n                             getword(get_tail(fields[f])),\n                             get_tail(get_tail(fields[f])),","            if (f)\n                nickwritemsg(n, \n                             getword(get_tail(fields[f])),\n                             get_tail(fields[f]),"),
("au3","P18",AU,"                strncpy(p1, getword(fields[f+1]), 255);\n                nickchpass(n, p1, \n                           getword(get_tail(fields[f+1])),","                strncpy(p1, getword(fields[f+1]), 255);\n                nickchpass(n, p1, \n                           get_tail(fields[f+1]),"),
("au4","P18",AU,"            setsecure(n, 0, NULL);","            setsecure(n, u_tab[n].realname[0] == 0, NULL);"),
("au5","P18",AU,"            if ( strlen(cp) == 0 )\n                sends_cmdout(n, \"Usage: delete password\");","            if ( f && strlen(cp) == 0 )\n                sends_cmdout(n, \"Usage: delete password\");"),
("au6","P18",AU,"            else\n                cp = getword(fields[f+1]);\n            ret = nickwrite(n, cp, 0, NULL);","            else\n                cp = fields[f+1];\n            ret = nickwrite(n, cp, 0, NULL);"),
# motd/news
("o1","P29",MO,"                        size_t add = strnlen(value, remain);","                        size_t add = strnlen(value, 3);"),
("o2","P29",MO,"                i = read(motd_fd, &c, 1);\n                if (i <= 0)\n                    break;\n                else if (c == 'U') {","                i = read(motd_fd, &c, 1);\n                if (i <= 0)\n                    break;\n                else if (c == 'U' || c == 'u') {"),
("o3","P29",MO,"                if (i <= 0)\n                    break;","                if (i < 0)\n                    break;"),
("o4","P29",MO,"                memset(temp, 0, sizeof(temp));\n                used = 0;","                used = 0;"),
("o5","P29 P24",MO,"                else if (used < sizeof(temp) - 1) {\n                    temp[used++] = c;\n                    temp[used] = '\\0';\n                }\n            }","                else {\n                    temp[used++] = c;\n                    temp[used] = '\\0';\n                }\n            }"),
("o6","P29",NE,"        for (i = 1; i < MAX_NEWS_FILES; i++) {\n            memset(tbuf, 0, 255);","        memset(tbuf, 0, 255);\n        for (i = 1; i < MAX_NEWS_FILES; i++) {"),
("o7","P29",NE,"                if (close(news_fd) != 0) {\n                    sprintf(mbuf, \"News File Close: %s\", strerror(errno));\n                    mdb(MSG_ERR, mbuf);\n                }\n                sends_cmdout","                if (first > 1 && close(news_fd) != 0) {\n                    sprintf(mbuf, \"News File Close: %s\", strerror(errno));\n                    mdb(MSG_ERR, mbuf);\n                }\n                sends_cmdout"),
("o8","P29",NE,"        if (first == 0)\n            sendstatus(n, \"News\"","        if (i == 0)\n            sendstatus(n, \"News\""),
("o9","P29",NE,"        for (i = 1; i < MAX_NEWS_FILES; i++) {","        for (i = 1; i < MAX_NEWS_FILES - 1; i++) {"),
]
