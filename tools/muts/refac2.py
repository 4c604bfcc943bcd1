# second batch of changes that keep the behaviour: every check must stay quiet
INV_OLD = """            is_invited = ((nlpresent(u_tab[n].nickname, 
                                     *g_tab[ngi].n_invites) > 0) ||
                          (nlmatch(useraddr, *g_tab[ngi].s_invites)) ||
                          (nlpresent(u_tab[n].nickname, *g_tab[ngi].nr_invites) &&
                           (strlen(u_tab[n].realname) > 0)) ||
                          (nlmatch(useraddr, *g_tab[ngi].sr_invites) &&
                           (strlen(u_tab[n].realname) > 0)));
        else
            is_invited = 0;
"""
INV_OLD2 = """                is_invited = ((nlpresent(u_tab[n].nickname, 
                                         *g_tab[ngi].n_invites) > 0) ||
                              (nlmatch(useraddr, *g_tab[ngi].s_invites)) ||
                              (nlpresent(u_tab[n].nickname, *g_tab[ngi].nr_invites) &&
                               (strlen(u_tab[n].realname) > 0)) ||
                              (nlmatch(useraddr, *g_tab[ngi].sr_invites) &&
                               (strlen(u_tab[n].realname) > 0)));
"""
SC_HEAD = """/* change group (if possible) */
/* group 1 is always:"""
M = [
# ---- the database: whole file in one buffer, one write, close checked
("q1", "P19 P20", "server/icb_dbm.c", """    int fd = open(tmp, O_WRONLY | O_CREAT | O_TRUNC, db->mode);
    if (fd < 0) { free(tmp); return -1; }

    /* Header */
    unsigned char hdr[ICB_DBM_HDR_SIZE];
    memcpy(hdr, ICB_DBM_MAGIC, 4);
    put32(hdr + 4, db->nentries);
    if (xwrite(fd, hdr, sizeof hdr) < 0) goto fail;

    /* Entries */
    for (unsigned i = 0; i < db->nbuckets; i++) {
        for (entry_t *e = db->buckets[i]; e; e = e->next) {
            unsigned char rh[8];
            put32(rh, (unsigned)e->klen);
            put32(rh + 4, (unsigned)e->vlen);
            if (xwrite(fd, rh, 8) < 0)                                 goto fail;
            if (e->klen > 0 && xwrite(fd, e->key, (size_t)e->klen) < 0) goto fail;
            if (e->vlen > 0 && xwrite(fd, e->val, (size_t)e->vlen) < 0) goto fail;
        }
    }

    if (fsync(fd) < 0)   goto fail;
    close(fd);

    if (rename(tmp, db->path) < 0) { free(tmp); return -1; }
""", """    size_t total = ICB_DBM_HDR_SIZE;
    for (unsigned i = 0; i < db->nbuckets; i++)
        for (entry_t *e = db->buckets[i]; e; e = e->next)
            total += 8 + (size_t)e->klen + (size_t)e->vlen;
    unsigned char *image = malloc(total);
    if (!image) { free(tmp); return -1; }
    unsigned char *p = image;
    memcpy(p, ICB_DBM_MAGIC, 4);
    put32(p + 4, db->nentries);
    p += ICB_DBM_HDR_SIZE;
    for (unsigned i = 0; i < db->nbuckets; i++) {
        for (entry_t *e = db->buckets[i]; e; e = e->next) {
            put32(p, (unsigned)e->klen);
            put32(p + 4, (unsigned)e->vlen);
            p += 8;
            memcpy(p, e->key, (size_t)e->klen);
            p += e->klen;
            memcpy(p, e->val, (size_t)e->vlen);
            p += e->vlen;
        }
    }

    int fd = open(tmp, O_WRONLY | O_CREAT | O_TRUNC, db->mode);
    if (fd < 0) { free(image); free(tmp); return -1; }
    if (xwrite(fd, image, total) < 0) { free(image); goto fail; }
    free(image);
    if (fsync(fd) < 0)   goto fail;
    if (close(fd) < 0) { unlink(tmp); free(tmp); return -1; }

    if (rename(tmp, db->path) < 0) { unlink(tmp); free(tmp); return -1; }
"""),
# another hash, pointer to pointer lookup
("q2", "P19 P20", "server/icb_dbm.c", """    unsigned h = 2166136261u;
    for (int i = 0; i < len; i++) {
        h ^= (unsigned char)data[i];
        h *= 16777619u;
    }
    return h;""", """    unsigned h = 5381u;
    const char *end = data + len;
    while (data < end)
        h = (h << 5) + h + (unsigned char)*data++;
    return h;"""),
("q3", "P19 P20", "server/icb_dbm.c", """    entry_t *prev = NULL;
    for (entry_t *e = db->buckets[h]; e; prev = e, e = e->next) {
        if (e->klen == klen && memcmp(e->key, k, (size_t)klen) == 0) {
            if (prev_out) *prev_out = prev;
            return e;
        }
    }
    return NULL;
""", """    entry_t *prev = NULL, *cur = db->buckets[h];
    while (cur != NULL) {
        int same = (cur->klen == klen);
        for (int i = 0; same && i < klen; i++)
            same = (cur->key[i] == k[i]);
        if (same)
            break;
        prev = cur;
        cur = cur->next;
    }
    if (cur && prev_out)
        *prev_out = prev;
    return cur;
"""),
# stdio instead of raw writes
("q4", "P19 P20", "server/icb_dbm.c", """    size_t done = 0;
    while (done < n) {
        ssize_t r = read(fd, (char *)buf + done, n - done);
        if (r <= 0) return -1;   /* EOF or error */
        done += (size_t)r;
    }
    return 0;
""", """    char *p = buf;
    for (; n > 0; ) {
        ssize_t r = read(fd, p, n);
        if (r < 0 && errno == EINTR)
            continue;
        if (r <= 0)
            return -1;
        p += r;
        n -= (size_t)r;
    }
    return 0;
"""),
# ---- send.c: one helper that builds the packet
("q5", "P10 P13 P15 P16 P24", "server/send.c", """/* filter text into a buffer of destsz bytes.""", """#include <stdarg.h>
static void build(char type, const char *fmt, ...)
{
    va_list ap;
    packetbuffer[1] = type;
    va_start(ap, fmt);
    vsnprintf(&packetbuffer[2], MAX_PKT_LEN-2, fmt, ap);
    va_end(ap);
}

/* filter text into a buffer of destsz bytes.""", [("server/send.c", """    snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s",
            ICB_M_ERROR, msgbuf);
    doSend(-1, to);""", """    build(ICB_M_ERROR, "%s", msgbuf);
    doSend(-1, to);"""), ("server/send.c", """    snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\\001%s",
            ICB_M_OPEN, nickbuf, msgbuf);
""", """    build(ICB_M_OPEN, "%s%c%s", nickbuf, 1, msgbuf);
"""), ("server/send.c", """    snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\\001%s", 
             ICB_M_STATUS, statusbuf, msgbuf);
""", """    build(ICB_M_STATUS, "%s\\001%s", statusbuf, msgbuf);
"""), ("server/send.c", """        snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\\001%s", 
                 ICB_M_PERSONAL, nickbuf, msgbuf);
""", """        build(ICB_M_PERSONAL, "%s\\001%s", nickbuf, msgbuf);
""")]),
# ---- sendperson: early return
("q6", "P14 P16", "server/send.c", """    if ((!nlmatch(one, *u_tab[to].pri_s_hushed)) &&
        (!nlmatch(two, *u_tab[to].pri_n_hushed))) 
    {
        /* see note below in sendopen() as it applies here too */
        snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\\001%s", 
                 ICB_M_PERSONAL, nickbuf, msgbuf);
        lpriv_id[to] = from;
        doSend(from, to);
    }
    else
        sendstatus(from, "Bounce", "Message did not go through");
""", """    if (nlmatch(two, *u_tab[to].pri_n_hushed) ||
        nlmatch(one, *u_tab[to].pri_s_hushed)) {
        sendstatus(from, "Bounce", "Message did not go through");
        return;
    }
    lpriv_id[to] = from;
    snprintf(&packetbuffer[1], sizeof(packetbuffer)-1, "%c%s\\001%s",
             ICB_M_PERSONAL, nickbuf, msgbuf);
    doSend(from, to);
"""),
# ---- dispatch: table of names
("q7", "P10 P24 P01", "server/dispatch.c", """    case ICB_M_PERSONAL:
        senderror(n, "Server doesn't handle ICB_M_PERSONAL packets");
        break;

    case ICB_M_STATUS:
        senderror(n, "Server doesn't handle ICB_M_STATUS packets");
        break;

    case ICB_M_ERROR:
        senderror(n, "Server doesn't handle ICB_M_ERROR packets");
        break;

    case ICB_M_IMPORTANT:
        senderror(n, "Server doesn't handle ICB_M_IMPORTANT packets");
        break;

    case ICB_M_EXIT:
        senderror(n, "Server doesn't handle ICB_M_EXIT packets");
        break;
""", """    case ICB_M_PERSONAL:
    case ICB_M_STATUS:
    case ICB_M_ERROR:
    case ICB_M_IMPORTANT:
    case ICB_M_EXIT:
        {
            static const struct { char t; const char *name; } names[] = {
                { ICB_M_PERSONAL, "PERSONAL" }, { ICB_M_STATUS, "STATUS" },
                { ICB_M_ERROR, "ERROR" }, { ICB_M_IMPORTANT, "IMPORTANT" },
                { ICB_M_EXIT, "EXIT" } };
            size_t k;
            for (k = 0; k < sizeof(names)/sizeof(names[0]); k++)
                if (names[k].t == *pkt) {
                    snprintf(mbuf, MSG_BUF_SIZE, "Server doesn't handle ICB_M_%s packets", names[k].name);
                    senderror(n, mbuf);
                    break;
                }
        }
        break;
"""),
# ---- TLS: one place that classifies the error
("q8", "P02", "pktserv/sslsocket.c", """        case SSL_ERROR_SSL:
            cbuf->state = WANT_DISCONNECT;
            ssl_error = ERR_get_error();
            if (ssl_error == 0) {
                if (result == 0) {
                    vmdb(MSG_ERR, 
                         "sslsocket_read: fd%d, SSL_write got EOF", cbuf->fd);
                } else {
                    vmdb(MSG_ERR, 
                         "sslsocket_read: fd%d, SSL_write got I/O error", cbuf->fd);
                }
            } else {
                char err_buf[256];
                ERR_error_string(ssl_error, &err_buf[0]);
                vmdb(MSG_ERR, 
                     "sslsocket_read: fd%d, SSL conn error: %s", cbuf->fd, err_buf);
            }
    }

    return -1;
""", """        default:
            ssl_failed(cbuf, "sslsocket_read", result);
            break;
    }

    return -1;
""", [("pktserv/sslsocket.c", """/* 
 * Use a cbuf's ssl info to read data from a socket.""", """static void ssl_failed(cbuf_t *cbuf, const char *where, int result)
{
    unsigned long err;

    cbuf->state = WANT_DISCONNECT;
    err = ERR_get_error();
    if (err == 0)
        vmdb(MSG_ERR, "%s: fd%d, %s", where, cbuf->fd,
             result == 0 ? "got EOF" : "got I/O error");
    else {
        char err_buf[256];
        ERR_error_string_n(err, err_buf, sizeof(err_buf));
        vmdb(MSG_ERR, "%s: fd%d, SSL conn error: %s", where, cbuf->fd, err_buf);
    }
}

/* 
 * Use a cbuf's ssl info to read data from a socket.""")]),
("q9", "P02", "pktserv/sslsocket.c", """        if (cbuf->wlist_size) {
            cbuf->state = WANT_SSL_WRITE;
        } else if (SSL_pending(cbuf->ssl_con)>0) {
            cbuf->state = WANT_SSL_READ;
        } else {
            cbuf->state = IDLE;
        }
        return result;
    }

    ssl_error = SSL_get_error(cbuf->ssl_con, result);
    switch (ssl_error) {
        case SSL_ERROR_WANT_READ:
            vmdb(MSG_INFO, "sslsocket_write: fd%d: SSL_ERROR_WANT_READ", cbuf->fd);""",
"""        cbuf->state = cbuf->wlist_size ? WANT_SSL_WRITE
                    : SSL_pending(cbuf->ssl_con) > 0 ? WANT_SSL_READ : IDLE;
        return result;
    }

    ssl_error = SSL_get_error(cbuf->ssl_con, result);
    switch (ssl_error) {
        case SSL_ERROR_WANT_READ:
            vmdb(MSG_INFO, "sslsocket_write: fd%d: SSL_ERROR_WANT_READ", cbuf->fd);"""),
# ---- s_change: helpers
("q10", "P13 P11 P21", "server/s_group.c", INV_OLD, """            is_invited = invited(n, ngi);
        else
            is_invited = 0;
""", [("server/s_group.c", INV_OLD2, """                is_invited = invited(n, ngi);
"""), ("server/s_group.c", SC_HEAD, """static int invited(int n, int gi)
{
    char addr[MAX_IDLEN + MAX_NODELEN + 2];
    int registered = (u_tab[n].realname[0] != '\\0');

    snprintf(addr, sizeof(addr), "%s@%s", u_tab[n].loginid, u_tab[n].nodeid);
    ucaseit(addr);
    if (nlmatch(addr, *g_tab[gi].s_invites))
        return 1;
    if (nlpresent(u_tab[n].nickname, *g_tab[gi].n_invites))
        return 1;
    if (!registered)
        return 0;
    if (nlmatch(addr, *g_tab[gi].sr_invites))
        return 1;
    return nlpresent(u_tab[n].nickname, *g_tab[gi].nr_invites) != 0;
}

""" + SC_HEAD)]),
("q11", "P11 P13 P21 P22", "server/s_group.c", """        if (fields[1][0] == '.')
        {
            if (fields[1][1] == '.')
            {
                how_many = (MAX_GROUPLEN + 2> len) ? len:MAX_GROUPLEN + 2;
                strncpy(n_g_n, &fields[1][2], how_many - 2);
                visibility = SUPERSECRET;
            }
            else
            {
                how_many = (MAX_GROUPLEN + 1> len) ? len:MAX_GROUPLEN + 1;
                strncpy(n_g_n, &fields[1][1], how_many - 1);
                visibility = SECRET;
            }
        }
        else
        {
            how_many = (MAX_GROUPLEN > len) ? len:MAX_GROUPLEN;
            strncpy(n_g_n, fields[1], how_many);
            visibility = VISIBLE;
        }
""", """        {
            const char *want = fields[1];
            int dots = 0;
            while (dots < 2 && want[dots] == '.')
                dots++;
            visibility = dots == 0 ? VISIBLE : dots == 1 ? SECRET : SUPERSECRET;
            snprintf(n_g_n, MAX_GROUPLEN + 1, "%s", want + dots);
            how_many = strlen(n_g_n);
        }
"""),
("q12", "P11 P13 P21", "server/s_group.c", """            if ( strcasecmp (BOOT_GROUP, n_g_n) == 0 )
            {
                g_tab[ngi].control = PUBLIC;
                g_tab[ngi].visibility = SECRET;
                g_tab[ngi].volume = LOUD;
                g_tab[ngi].idleboot = 3600;
                memset(g_tab[ngi].topic, 0, MAX_TOPICLEN+1);
                strncpy(g_tab[ngi].topic, "Boot-ees", MAX_TOPICLEN);
            }
            else if""", """            if ( strcasecmp (BOOT_GROUP, n_g_n) == 0 )
            {
                GROUP_ITEM *bg = &g_tab[ngi];
                snprintf(bg->topic, sizeof(bg->topic), "%s", "Boot-ees");
                bg->idleboot = 60 * 60;
                bg->volume = LOUD;
                bg->visibility = SECRET;
                bg->control = PUBLIC;
            }
            else if"""),
# ---- s_cancel: case order and helper-free usage text
("q13", "P13 P24", "server/s_group.c", """            if ((mode == 0) &&
                ((nldelete(g_tab[gi].n_invites,who) == 0) ||
                 (nldelete(g_tab[gi].nr_invites,who) == 0)))
            {
                if (quiet == 0)
                {
                    sprintf(mbuf, "%s cancelled", who);
                    sendstatus(n,"FYI",mbuf);
                }
                if (find_user(who) < 0)""", """            NAMLIST *first = mode ? g_tab[gi].s_invites : g_tab[gi].n_invites;
            NAMLIST *second = mode ? g_tab[gi].sr_invites : g_tab[gi].nr_invites;
            int gone = 0;

            if (mode == 0) {
                gone = (nldelete(first, who) == 0);
                if (!gone)
                    gone = (nldelete(second, who) == 0);
            }
            if (gone)
            {
                if (!quiet)
                {
                    snprintf(mbuf, MSG_BUF_SIZE, "%s cancelled", who);
                    sendstatus(n,"FYI",mbuf);
                }
                if (find_user(who) == -1)"""),
# ---- open messages
("q14", "P15 P10 P16 P22", "server/msgs.c", """            u_recv_count[n]++;
            if ( u_recv_time[n] == TheTime )
            {
                if ( u_recv_count[n] > 2 )
                {""", """            int same_second = (u_recv_time[n] == TheTime);
            u_recv_count[n] += 1;
            if (same_second)
            {
                if ( u_recv_count[n] >= 3 )
                {"""),
# ---- perms: only one exit, file closed in one place, table of names
("q15", "P26", "server/msgs.c", """        if ( !strcasecmp (cp, "perm_null") ) { perm |= PERM_NULL; }
        else if ( !strcasecmp (cp, "perm_deny") ) { perm |= PERM_DENY; }
        else if ( !strcasecmp (cp, "perm_slowmsgs") ) { perm |= PERM_SLOWMSGS; }
""", """        static const struct { const char *word; long bit; } words[] = {
            { "perm_null", PERM_NULL }, { "perm_deny", PERM_DENY },
            { "perm_slowmsgs", PERM_SLOWMSGS } };
        unsigned w;
        for (w = 0; w < sizeof words / sizeof *words; w++)
            if (strcasecmp(words[w].word, cp) == 0) {
                perm |= words[w].bit;
                break;
            }
"""),
# ---- check_idle loops in s_didpoll
("q16", "P21 P22", "server/ipcf.c", """                    if ((u_tab[j].login >= LOGIN_COMPLETE)
                        && (u_tab[j].awaymsg[0] == '\\0')
                        && (strcasecmp(u_tab[j].group,g_tab[i].name) == 0))
                    {
                        if (newmod == -1)
                            newmod = j;
                        else if ((u_tab[j].t_recv - u_tab[newmod].t_recv) > 0)
                            newmod = j;
                    }""", """                    if (u_tab[j].login < LOGIN_COMPLETE || *u_tab[j].awaymsg)
                        continue;
                    if (strcasecmp(g_tab[i].name, u_tab[j].group) != 0)
                        continue;
                    if (newmod < 0 || u_tab[j].t_recv > u_tab[newmod].t_recv)
                        newmod = j;"""),
("q17", "P21 P22", "server/ipcf.c", """        for(i=0;i<MAX_REAL_USERS;i++) {
            /* this includes the ones whose login was refused */
            if (S_kill[i] > 0) {""", """        for(i=MAX_REAL_USERS-1;i>=0;i--) {
            /* this includes the ones whose login was refused */
            if (S_kill[i] > 0) {"""),
# ---- users.c
("q18", "P10 P12 P14 P30 P24", "server/users.c", """    memset(u_tab[n].loginid, 0, MAX_IDLEN+1);
    memset(u_tab[n].nodeid, 0, MAX_NODELEN+1);
    memset(u_tab[n].nickname, 0, MAX_NICKLEN+1);
    memset(u_tab[n].password, 0, MAX_PASSWDLEN+1);
    memset(u_tab[n].realname, 0, MAX_REALLEN+1);
    memset(u_tab[n].group, 0, MAX_GROUPLEN+1);
    memset(u_tab[n].awaymsg, 0, MAX_AWAY_LEN+1);
""", """    {
        char *texts[] = { u_tab[n].awaymsg, u_tab[n].group, u_tab[n].realname,
            u_tab[n].password, u_tab[n].nickname, u_tab[n].nodeid,
            u_tab[n].loginid };
        size_t k;
        for (k = 0; k < sizeof(texts)/sizeof(texts[0]); k++)
            texts[k][0] = '\\0';
    }
"""),
("q19", "P10 P12 P30", "server/users.c", """    n = strnlen(src, dstsz - 1);
    memmove(dst, src, n);
    dst[n] = '\\0';
""", """    for (n = 0; n + 1 < dstsz && src[n] != '\\0'; n++)
        dst[n] = src[n];
    dst[n] = '\\0';
"""),
# ---- access.c: a table of keys
("q20", "P18", "server/access.c", """    icbdb_delete (nick, "secure");
    icbdb_delete (nick, "realname");
    icbdb_delete (nick, "email");
    icbdb_delete (nick, "signon");
    icbdb_delete (nick, "signoff");
    icbdb_delete (nick, "nick");
    icbdb_delete (nick, "password");
    icbdb_delete (nick, "phone");
    icbdb_delete (nick, "text");
    icbdb_delete (nick, "home");
    icbdb_delete (nick, "addr");
    icbdb_delete (nick, "nummsg");
    icbdb_delete (nick, "www");
""", """    {
        static const char *const keys[] = { "www", "nummsg", "addr", "home",
            "text", "phone", "nick", "signoff", "signon", "email", "realname",
            "secure", "password", NULL };
        const char *const *k;
        for (k = keys; *k != NULL; k++)
            icbdb_delete (nick, (char *)*k);
    }
"""),
("q21", "P18 P13 P30", "server/access.c", """    int auth;

    auth = 0;
    if (strcasecmp(u_tab[n].nickname, "ADMIN") == 0)
        auth++;
    if (strcasecmp(u_tab[n].password, ADMIN_PWD) == 0)
        auth++;
    sprintf(mbuf, "Checking authorization of %s: %s",
            u_tab[n].nickname, auth == 2 ? "yes" : "no");
    mdb(MSG_INFO, mbuf);
    return (auth == 2);""", """    int ok = strcasecmp("ADMIN", u_tab[n].nickname) == 0
          && strcasecmp(ADMIN_PWD, u_tab[n].password) == 0;

    vmdb(MSG_INFO, "Checking authorization of %s: %s",
         u_tab[n].nickname, ok ? "yes" : "no");
    return ok;"""),
]
