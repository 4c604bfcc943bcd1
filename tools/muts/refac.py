# changes that keep the behaviour: every check must stay quiet ("missed rc=0")
M = [
("r1", "P08 P24 P14", "server/namelist.c", """    } else {
        /* name list full, link user to head, remove tail */
        sp = nl->tail;
        strunlink(sp, &nl->head, &nl->tail);
        free(sp);
        nl->num--;
        if ((sp = (STRLIST *)
             malloc (sizeof(STRLIST) + strlen(name))) == NULL) {
            mdb(MSG_ERR, "nlput out of memory for names");
            return;
        }
        strcpy(sp->str, name);
        strlinkhead(sp, &nl->head, &nl->tail);
        nl->num++;
    }
""", """    } else {
        STRLIST *victim = nl->tail;
        strunlink(victim, &nl->head, &nl->tail);
        free(victim);
        --nl->num;
        sp = (STRLIST *) calloc (1, sizeof(STRLIST) + strlen(name) + 1);
        if (!sp) {
            mdb(MSG_ERR, "nlput out of memory for names");
            return;
        }
        memcpy(sp->str, name, strlen(name) + 1);
        strlinkhead(sp, &nl->head, &nl->tail);
        ++nl->num;
    }
"""),
("r2", "P10 P11 P12 P13 P14 P16 P17", "server/users.c", """    for (i=0; i<MAX_USERS; i++) {
        if ( strcasecmp(u_tab[i].nickname, name) == 0) {
            result = i;
            break;
        }
    }
    return result;
}""", """    i = 0;
    while (i < MAX_USERS && result < 0) {
        if (tolower((unsigned char)u_tab[i].nickname[0]) == tolower((unsigned char)name[0]) &&
            strcasecmp(u_tab[i].nickname, name) == 0)
            result = i;
        i++;
    }
    return result;
}""", [("server/users.c", '#include "config.h"', '#include "config.h"\n#include <ctype.h>')]),
("r3", "P16 P28", "server/s_person.c", """        if ( args != (char *)NULL )
        {
            free (args);
            args = (char *) NULL;
        }
""", """        free (args);
"""),
("r4", "P16", "server/s_person.c", """            snprintf(tbuf, MAX_PKT_DATA, "<*to: %s*> %s", 
                     u_tab[dest].nickname,
                     (args == (char *)NULL) ? "" : args);

            sends_cmdout(n, tbuf);""", """            char *echo = NULL;
            if (asprintf(&echo, "<*to: %s*> %s", u_tab[dest].nickname, args ? args : "") >= 0) {
                snprintf(tbuf, sizeof(tbuf), "%s", echo);
                sends_cmdout(n, tbuf);
                free(echo);
            }"""),
("r5", "P15 P13 P14", "server/msgs.c", """            else if ( (g_tab[gi].control == CONTROLLED
                       && g_tab[gi].mod != n)
                      && ( (nlpresent (u_tab[n].nickname,
                                       *g_tab[gi].n_talk) == 0)
                           && (strlen (u_tab[n].realname) == 0
                               || nlpresent (u_tab[n].nickname,
                                             *g_tab[gi].nr_talk) == 0) ) )
""", """            else if (!may_talk(n, gi))
""", [("server/msgs.c", "void openmsg(int n, char *pkt)", """static int may_talk(int n, int gi)
{
    if (g_tab[gi].control != CONTROLLED || g_tab[gi].mod == n)
        return 1;
    if (nlpresent(u_tab[n].nickname, *g_tab[gi].n_talk))
        return 1;
    return u_tab[n].realname[0] != '\\0' && nlpresent(u_tab[n].nickname, *g_tab[gi].nr_talk);
}

void openmsg(int n, char *pkt)""")]),
("r6", "P06 P07 P09", "server/strutil.c", """    for (; *txt != '\\0'; txt++) {
        if ((*txt >= 'A' && *txt <= 'Z') ||
            (*txt >= 'a' && *txt <= 'z') ||
            (*txt >= '0' && *txt <= '9'))
            continue;
        if (!strchr(OKNICKCHARS, *txt)) {
            if (*txt == ' ')
                *txt = '_';
            else
                *txt = '?';
        }
    }
""", """    static const char ok[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789" OKNICKCHARS;
    size_t i, len = strlen(txt);

    for (i = strspn(txt, ok); i < len; i += 1 + strspn(txt + i + 1, ok))
        txt[i] = txt[i] == ' ' ? '_' : '?';
"""),
("r7", "P09 P06 P16", "server/strutil.c", """    static char word[64];
    char *w = word;
    while (*s != ' ' && *s != '\\t' && *s != '\\0' && ((w - word) < 63))
        *w++ = *s++;
    *w = '\\0';
    return(word);""", """    static char word[64];
    size_t len = strcspn(s, " \\t");
    if (len > sizeof(word) - 1)
        len = sizeof(word) - 1;
    memmove(word, s, len);
    word[len] = '\\0';
    return(word);"""),
("r8", "P09 P24", "server/strutil.c", """        /* find delim or EOS */
        while(*p != '\\001' && *p != '\\0') p++;

        if (*p == '\\001') {
            /* got delim */
            *p = '\\0';
            fields[i] = ++p;
        } else
            return(i);""", """        p = strchr(p, '\\001');
        if (p == NULL)
            return(i);
        *p++ = '\\0';
        fields[i] = p;"""),
("r9", "P01 P02 P03", "pktserv/pktsocket.c", """        if (cbuf->is_ssl) {
            result = sslsocket_read(cbuf, cbuf->rbuf->data, PACKET_HEADER_LEN);
        } else {
            result = read(cbuf->fd, cbuf->rbuf->data, PACKET_HEADER_LEN);
        }
""", """        result = read_some(cbuf, cbuf->rbuf->data, PACKET_HEADER_LEN);
""", [("pktserv/pktsocket.c", """    if (cbuf->is_ssl) {
        result = sslsocket_read(cbuf, cbuf->rbuf->pos, remain);
    } else {
        result = read(cbuf->fd, cbuf->rbuf->pos, remain);
    }
""", """    result = read_some(cbuf, cbuf->rbuf->pos, remain);
"""), ("pktserv/pktsocket.c", """int pktsocket_read(cbuf_t *cbuf)
{""", """static ssize_t read_some(cbuf_t *cbuf, void *buf, size_t len)
{
    return cbuf->is_ssl ? sslsocket_read(cbuf, buf, len) : recv(cbuf->fd, buf, len, 0);
}

int pktsocket_read(cbuf_t *cbuf)
{""")]),
("r10", "P03 P04 P02", "pktserv/pktsocket.c", """            result = write(cbuf->fd, msgbuf->pos, remain);""", """            do {
                result = send(cbuf->fd, msgbuf->pos, remain, MSG_NOSIGNAL);
            } while (result < 0 && errno == EINTR);"""),
("r11", "P01 P04 P25", "pktserv/pktserv.c", """    while (!TAILQ_EMPTY(&(cbuf->wlist))) {
        msgbuf = (msgbuf_t*)(TAILQ_FIRST(&(cbuf->wlist)));
        TAILQ_REMOVE(&(cbuf->wlist), msgbuf, entries);
        if (msgbuf->data)
            free(msgbuf->data);
        free(msgbuf);
    }
""", """    while ((msgbuf = TAILQ_FIRST(&(cbuf->wlist))) != NULL) {
        TAILQ_REMOVE(&(cbuf->wlist), msgbuf, entries);
        _msgbuf_free(msgbuf);
    }
"""),
("r12", "P01 P04 P25", "pktserv/pktserv.c", """            int move_count = g_pollsetsize - (i + 1);
            if (move_count > 0) {
                memmove(&g_pollset[i],
                        &g_pollset[i+1],
                        (size_t)move_count * sizeof(struct pollfd));
            }
            g_pollsetsize--;
            return;""", """            for (g_pollsetsize--; i < g_pollsetsize; i++)
                g_pollset[i] = g_pollset[i + 1];
            break;"""),
("r13", "P26", "server/msgs.c", """    for ( cp = strtok (str, "|"); cp != (char *)NULL; cp = strtok ((char *) NULL, "|") )
    {
        if ( !strcasecmp (cp, "perm_null") ) { perm |= PERM_NULL; }
        else if ( !strcasecmp (cp, "perm_deny") ) { perm |= PERM_DENY; }
        else if ( !strcasecmp (cp, "perm_slowmsgs") ) { perm |= PERM_SLOWMSGS; }
    }
""", """    static const struct { const char *name; long val; } words[] = {
        { "perm_null", PERM_NULL }, { "perm_deny", PERM_DENY }, { "perm_slowmsgs", PERM_SLOWMSGS } };
    char *save = NULL;
    size_t i;

    for ( cp = strtok_r (str, "|", &save); cp; cp = strtok_r (NULL, "|", &save) )
        for (i = 0; i < sizeof(words) / sizeof(words[0]); i++)
            if ( strcasecmp (cp, words[i].name) == 0 )
                perm |= words[i].val;
"""),
("r14", "P17", "server/s_who.c", """    for(user=0; user<MAX_USERS; user++) {
        /* are they in this group? */
        if(which == find_group(u_tab[user].group)) {
            add_item(n, u_tab[user].nickname, line);
            num_users--;
            if (num_users != 0) {
                add_item(n, ", ", line);
            }
        }
    }
    /* flush last line if any */
    if (strlen(line) != 0) {
        sends_cmdout(n, line);
    }
""", """    for (user = 0; user < MAX_USERS && num_users > 0; user++) {
        if (strcasecmp(u_tab[user].group, g_tab[which].name) != 0)
            continue;
        add_item(n, u_tab[user].nickname, line);
        if (--num_users)
            add_item(n, ", ", line);
    }
    if (line[0])
        sends_cmdout(n, line);
"""),
("r15", "P29 P24", "server/s_motd.c", """        while ((i = read(motd_fd, &c, 1)) > 0) 
        {""", """        for (;;)
        {
            i = read(motd_fd, &c, 1);
            if (i < 1)
                break;"""),
("r16", "P18 P24", "server/s_auto.c", """            if (f)
                cp = getword(get_tail(fields[f]));
            else
                cp = getword(fields[f+1]);
            ret = nickwrite(n, cp, 0, NULL);""", """            cp = getword(f ? get_tail(fields[f]) : fields[f+1]);
            ret = nickwrite(n, cp, 0, NULL);"""),
("r17", "P21 P22 P13 P14", "server/groups.c", """    for (i=0; i<MAX_GROUPS; i++) {
        if (g_tab[i].mod == u_index) {
            result = i;
            break;
        }
    }
    return result;
}""", """    for (i = MAX_GROUPS - 1; i >= 0; i--)
        if (g_tab[i].mod == u_index)
            result = i;
    return result;
}"""),
("r18", "P07", "server/wildmat.c", """                while (*++p == '*')
                    /* Consecutive stars act just like one. */
                    continue;
                if (*p == '\\0')
                    /* Trailing star matches everything. */
                    return TRUE;
                while (*text)
                    if ((matched = DoMatch(text++, p)) != FALSE)
                        return matched;
                return ABORT;""", """                do
                    p++;
                while (*p == '*');
                if (*p == '\\0')
                    return TRUE;
                for (; *text; text++) {
                    matched = DoMatch(text, p);
                    if (matched)
                        return matched;
                }
                return ABORT;"""),
]
