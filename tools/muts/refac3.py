# third batch of changes that keep the behaviour, near what P32 and P33 look at: every check must stay quiet
A = "server/access.c"; G = "server/s_group.c"; S = "server/s_stats.c"; W = "server/s_who.c"; I = "server/s_info.c"
R = "P18 P32 P33 P31"
M = [
("t1", R, A, """                if (count > 0)
                {
                    strcpy(temp, "Text: ");
                    strcat(temp, s);
                    sends_cmdout(forWhom, temp);
                }
""", """                if (count != 0)
                {
                    snprintf(temp, sizeof(temp), "Text: %s", s);
                    sends_cmdout(forWhom, temp);
                }
"""),
("t2", R, A, """                            tmp1 = *lastw;
                            *lastw = '\\0';
                            strcpy(temp, "Text: ");
                            strcat(temp, s);
                            sends_cmdout(forWhom, temp);
                            *lastw = tmp1;
                            p = lastw + 1;
                            s = p;
""", """                            snprintf(temp, sizeof(temp), "Text: %.*s", (int)(lastw - s), s);
                            sends_cmdout(forWhom, temp);
                            s = p = lastw + 1;
"""),
("t3", R, A, """                s = line;
                strcpy(temp, "  ");
                while (strlen(s) > 0)
                {
                    if (*s == '|')
                    {
                        sends_cmdout(forWhom, temp);
                        strcpy(temp, "  ");
                    }
                    else
                        strncat(temp, s, 1);

                    s++;
                }
                sends_cmdout(forWhom, temp);
""", """                for (s = line; (p = strchr(s, '|')) != NULL; s = p + 1)
                {
                    *p = '\\0';
                    snprintf(temp, sizeof(temp), "  %s", s);
                    sends_cmdout(forWhom, temp);
                }
                snprintf(temp, sizeof(temp), "  %s", s);
                sends_cmdout(forWhom, temp);
"""),
("t4", R, A, """            memset(line, 0, sizeof (line));
            snprintf(line, 255, "Nickname:     %s", nickstr);
            while (strlen(line) < 36)
                strcat(line, " ");
            strcat(line, "Address:   ");
            strncat(line, value, sizeof(line)-1);
""", """            snprintf(line, 255, "%-36sAddress:   %s", (snprintf(temp, sizeof(temp), "Nickname:     %s", nickstr), temp), value);
"""),
("t5", R, A, """            sprintf(key, "header%d", i);
            if (icbdb_get (nick, key, ICBDB_STRING, &value)) {
                sends_cmdout(forWhom, value);
            }
            icbdb_delete (nick, key);

            sprintf(key,"from%d", i);
            if (icbdb_get (nick, key, ICBDB_STRING, &value)) {
                strncpy(from, value, MAX_NICKLEN);
                from[MAX_NICKLEN] = '\\0';
            } else {
                strcpy(from, "Server");
            }
            icbdb_delete (nick, key);
""", """            snprintf(key, sizeof(key), "from%d", i);
            if (!icbdb_get (nick, key, ICBDB_STRING, &value))
                value = (char *)"Server";
            snprintf(from, sizeof(from), "%s", value);
            icbdb_delete (nick, key);

            snprintf(key, sizeof(key), "header%d", i);
            if (icbdb_get (nick, key, ICBDB_STRING, &value))
                sends_cmdout(forWhom, value);
            icbdb_delete (nick, key);
"""),
("t6", R, A, """    sprintf(key, "header%d", count);
    icbdb_set (user, key, ICBDB_STRING, line);

    sprintf(key, "from%d", count);
    icbdb_set (user, key, ICBDB_STRING, u_tab[forWhom].nickname);

    sprintf(key, "message%d", count);
    icbdb_set (user, key, ICBDB_STRING, msgfilterbuf);

    icbdb_set (user, "nummsg", ICBDB_INT, &count);
""", """    icbdb_set (user, "nummsg", ICBDB_INT, &count);

    sprintf(key, "message%d", count);
    icbdb_set (user, key, ICBDB_STRING, msgfilterbuf);

    sprintf(key, "from%d", count);
    icbdb_set (user, key, ICBDB_STRING, u_tab[forWhom].nickname);

    sprintf(key, "header%d", count);
    icbdb_set (user, key, ICBDB_STRING, line);
"""),
("t7", R, S, """    for (i = 0; i < MAX_REAL_USERS; i++)
        if (u_tab[i].login > LOGIN_FALSE)
        {
            num_users++;
            if ( u_tab[i].awaymsg[0] != '\\0' )
                ++num_away;
        }

    /* count groups */
    for (i = 0; i < MAX_GROUPS; i++)
        if (strlen(g_tab[i].name) > 0)
            if ((strcmp(g_tab[i].name, "ICB") != 0) ||
                (count_users_in_group("ICB") > 1))
                num_groups++;
""", """    for (i = MAX_REAL_USERS - 1; i >= 0; i--) {
        if (u_tab[i].login == LOGIN_FALSE)
            continue;
        num_users++;
        num_away += strlen(u_tab[i].awaymsg) != 0;
    }

    /* count groups */
    for (i = MAX_GROUPS - 1; i >= 0; --i) {
        if (!*g_tab[i].name)
            continue;
        if (!strcmp("ICB", g_tab[i].name) && count_users_in_group("ICB") <= 1)
            continue;
        num_groups++;
    }
"""),
("t8", R, W, """    if (num_users == 0)
        sprintf (mbuf, "No users found.");
    else if (num_users > 1)
        if (num_groups > 1)
            sprintf (mbuf, "Total: %d users in %d groups", 
                     num_users, num_groups);
        else
            sprintf (mbuf, "Total: %d users in %d group", 
                     num_users, num_groups);
    else
        if (num_groups > 1)
            sprintf (mbuf, "Total: %d user in %d groups", 
                     num_users, num_groups);
        else
            sprintf (mbuf, "Total: %d user in %d group", 
                     num_users, num_groups);
""", """    if (num_users == 0)
        strcpy (mbuf, "No users found.");
    else
        snprintf (mbuf, MSG_BUF_SIZE, "Total: %d user%s in %d group%s",
                  num_users, num_users > 1 ? "s" : "",
                  num_groups, num_groups > 1 ? "s" : "");
"""),
("t9", R, W, """        if (nr || aw || sec)
        {
            status[0] = '(';
            status[1] = '\\0';
            if (nr)
                strcat(status, "nr");

            if (aw) {
                if (nr)
                    strcat(status, ",");

                strcat(status, "aw");
            }

            if (sec) {
                if (nr || aw)
                    strcat(status, ",");

                strcat(status, "ssl");
            }
                
            strcat(status, ")");
        }
        else
            strcpy(status, "");
""", """        status[0] = '\\0';
        if (nr || aw || sec)
            snprintf(status, sizeof(status), "(%s%s%s%s%s)", nr ? "nr" : "", nr && aw ? "," : "", aw ? "aw" : "",
                     sec && (nr || aw) ? "," : "", sec ? "ssl" : "");
"""),
("t10", R, I, """            idle = time(NULL) - u_tab[TheirIndex].t_recv;

            aw = (strlen(u_tab[TheirIndex].awaymsg) > 0);
""", """            aw = u_tab[TheirIndex].awaymsg[0] != '\\0';
            idle = (int)(time(NULL) - u_tab[TheirIndex].t_recv);
"""),
("t11", R, G, """            for (i=0; i<count; i++)
            {
                if (strlen(line) == 0)
                    add_item(n, "Nicks who can talk: ", line);
                else
                    add_item(n, ", ", line);
                cp = nlget(ip);
                if (cp && *cp) {
                    sprintf(mbuf, "%s(r)", cp);
                    add_item(n, mbuf, line);
                }
            }
""", """            while (count-- > 0)
            {
                add_item(n, line[0] ? ", " : "Nicks who can talk: ", line);
                cp = nlget(ip);
                if (cp == NULL || *cp == '\\0')
                    continue;
                strcpy(mbuf, cp);
                strcat(mbuf, "(r)");
                add_item(n, mbuf, line);
            }
"""),
("t12", R, G, """                hours = (g_tab[gi].idleboot / (60 * 60));
                mins = (g_tab[gi].idleboot % (60 * 60)) / 60;
""", """                mins = g_tab[gi].idleboot / 60;
                hours = mins / 60;
                mins -= 60 * hours;
"""),
("t13", R, W, """int add_item(int n, const char * item, char *buf)
{
""", """static size_t item_room(const char *buf)
{
    size_t used = strlen(buf) + 1;
    return used < MAX_LINE ? MAX_LINE - used : 0;
}

int add_item(int n, const char * item, char *buf)
{
""", [(W, "    if ((strlen(item) + strlen(buf) + 1) >= MAX_LINE) {", "    if (strlen(item) >= item_room(buf)) {")]),
("t14", R, A, """    if (strlen(theNick) == 0)
    {
        if ((forWhom > 0) && (forWhom < MAX_REAL_USERS))
            sends_cmdout(forWhom, "Usage: whois nickname");
        return -1;
    }

    if (strlen(theNick) > MAX_NICKLEN)
    {
        senderror(forWhom, "nickname too long");
        return -1;
    }
""", """    retval = (int)strlen(theNick);
    if (retval > MAX_NICKLEN) {
        senderror(forWhom, "nickname too long");
        return -1;
    }
    if (retval == 0) {
        if (forWhom > 0 && forWhom < MAX_REAL_USERS)
            sends_cmdout(forWhom, "Usage: whois nickname");
        return -1;
    }
"""),
]
