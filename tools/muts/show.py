G="server/s_group.c"; W="server/s_who.c"; A="server/access.c"; S="server/s_stats.c"; I="server/s_info.c"; P="server/ipcf.c"
M=[
("w1","P32",G,"    ip = g_tab[gi].sr_invites;\n    count = nlcount(*ip);\n    tot_count += count;","    ip = g_tab[gi].sr_invites;\n    count = nlcount(*ip);"),
("w2","P32",G,'''            sprintf(mbuf, "%s(r)", cp);
            add_item(n, mbuf, line);
        }
    }
    if (strlen(line) > 0)
        sends_cmdout(n, line);

    return''','''            add_item(n, cp, line);
        }
    }
    if (strlen(line) > 0)
        sends_cmdout(n, line);

    return'''),
("w3","P32",W,"        if (strcmp(item, \", \") != 0) {\n            strcpy(buf, item);\n        }","        if (strcmp(item, \", \") != 0 && buf[0]) {\n            strcpy(buf, item);\n        }"),
("w4","P32",W,"    if ((strlen(item) + strlen(buf) + 1) >= MAX_LINE) {","    if ((strlen(item) + strlen(buf) + 1) > MAX_LINE + 1) {"),
("w5","P32",G,"            else if (g_tab[gi].modtimeout == 0.0)\n                mod = \"None\";","            else if (g_tab[gi].modtimeout < TheTime_)\n                mod = \"None\";"),
("w6","P32",G,"mins = (g_tab[gi].idlemod % (60 * 60)) / 60;\n\n                    sprintf","mins = (g_tab[gi].idleboot % (60 * 60)) / 60;\n\n                    sprintf"),
("w7","P32",G,"g_tab[gi].size == 1 ? \"\" : \"s\"","g_tab[gi].size <= 2 ? \"\" : \"s\""),
("w8","P32",W,"                if (nr || aw)\n                    strcat(status, \",\");","                if (aw)\n                    strcat(status, \",\");"),
("w9","P32",W,"        sec = u_tab[user].secure;","        sec = u_tab[n].secure;"),
("w10","P32",W,"        nr = (strlen(u_tab[user].realname) == 0);","        nr = (strlen(u_tab[n].realname) == 0);"),
("w11","P32",W,"        Idle = TheTime - u_tab[user].t_recv;","        Idle = TheTime - u_tab[user].t_sent;"),
("w12","P32",I,"(idle < 86400) ? (idle / 3600)","(idle < 8640) ? (idle / 3600)"),
("w13","P32",I,"TheirIndex = lpriv_id[n];","TheirIndex = lpriv_id[0];"),
("w14","P32",P,"                server_stats.drops++;","                server_stats.drops += S_kill[i];"),
("w15","P32",S,"        if (u_tab[i].login > LOGIN_FALSE)\n        {\n            num_users++;","        if (u_tab[i].login >= LOGIN_FALSE)\n        {\n            num_users++;"),
("w16","P32",G,"                    server_stats.boots++;",""),
("w17","P32",G,"            ip = g_tab[gi].nr_talk;","            ip = g_tab[gi].n_talk;"),
("w18","P32",S,"            if ( !check_auth (who) )","            if ( check_auth (who) < 0 )"),
("i1","P33",A,"                    if (count == (MAX_TEXTLEN - 1))\n                    {\n                        if ((p - lastw) > 40)","                    if (count == (MAX_TEXTLEN - 1))\n                    {\n                        if ((p - lastw) > 60)"),
("i2","P33",A,"                            p--;\n                            s = p;","                            s = p;"),
("i3","P33",A,"                            *lastw = tmp1;\n                            p = lastw + 1;","                            *lastw = tmp1;\n                            p = lastw + 2;"),
("i4","P33",A,"                        lastw = p;\n                        count = 0;\n                    }\n                    else","                        count = 0;\n                    }\n                    else"),
("i5","P33",A,"                        sends_cmdout(forWhom, temp);\n                        strcpy(temp, \"  \");","                        if (temp[2]) sends_cmdout(forWhom, temp);\n                        strcpy(temp, \"  \");"),
("i6","P33",A,"            if (icbdb_get (theNick, \"www\", ICBDB_STRING, &value))\n            {\n                strcpy(line, \"WWW:  \");","            if (icbdb_get (theNick, \"www\", ICBDB_STRING, &value) || strlen(line) > 70)\n            {\n                strcpy(line, \"WWW:  \");"),
("i7","P33",A,"    if (strlen(data) > max) {","    if (strlen(data) >= max) {"),
("i8","P33",A,"        strncpy(newstr, data, max);","        strncpy(newstr, data, max - 1);"),
("i9","P33",A,"                        tmp1 = *(p - 1);\n","                        tmp1 = *p;\n"),
("i10","P33",A,"                    if (*p == ' ')\n                        lastw = p;","                    if (*p == ' ' && count)\n                        lastw = p + 1;"),
]
