B="server/icb_dbm.c"; A="server/access.c"; I="server/icbdb.c"
M=[
("d1","P19",B,"            entry_t *next = e->next;\n            unsigned h = fnv1a(e->key, e->klen) % new_n;","            entry_t *next = e->next;\n            unsigned h = fnv1a(e->key, e->klen) & (new_n - 2);"),
("d2","P19",B,"if (e->klen == klen && memcmp(e->key, k, (size_t)klen) == 0) {","if (e->klen >= klen && memcmp(e->key, k, (size_t)klen) == 0) {"),
("d3","P19",B,"if (e->klen == klen && memcmp(e->key, k, (size_t)klen) == 0) {","if (e->klen == klen && strncmp(e->key, k, (size_t)klen) == 0) {"),
("d4","P19",B,"    for (entry_t *e = db->buckets[h]; e; prev = e, e = e->next) {","    for (entry_t *e = db->buckets[h]; e; e = e->next) {"),
("d5","P20 P19",B,"        if (r <= 0) return -1;   /* EOF or error */","        if (r < 0) return -1;   /* EOF or error */\n        if (r == 0) break;"),
("d6","P20",B,"        if (w <= 0) return -1;\n        done","        if (w < 0) return -1;\n        if (w == 0) break;\n        done"),
("d7","P20",B,"    if (fsync(fd) < 0)   goto fail;\n    close(fd);","    close(fd);"),
("d8","P20",B,"    if (rename(tmp, db->path) < 0) { free(tmp); return -1; }\n    free(tmp);\n    db->dirty = 0;","    db->dirty = 0;\n    if (rename(tmp, db->path) < 0) { free(tmp); return -1; }\n    free(tmp);"),
("d9","P20",B,"    if (fsync(fd) < 0)   goto fail;","    fsync(fd);"),
("d10","P20",B,"O_WRONLY | O_CREAT | O_TRUNC","O_WRONLY | O_CREAT"),
("d11","P20",B,"    if (rename(tmp, db->path) < 0)","    unlink(db->path);\n    if (rename(tmp, db->path) < 0)"),
("d12","P20",B,"return (errno == ENOENT) ? 0 : -1;","return 0;"),
("d13","P19",B,"if (klen > ICB_DBM_MAX_RECSIZE || vlen > ICB_DBM_MAX_RECSIZE) {","if (klen > ICB_DBM_MAX_RECSIZE && vlen > ICB_DBM_MAX_RECSIZE) {"),
("d14","P19",B,"        if (db->nentries * 4 >= db->nbuckets * 3) {\n            if (ht_resize(db, db->nbuckets * 2) < 0) {","        if (db->nentries * 4 == db->nbuckets * 3) {\n            if (ht_resize(db, db->nbuckets + 1) < 0) {"),
("d15","P19",B,"        free(e->val);\n        e->val  = nv;\n        e->vlen = content.dsize;\n        db->dirty = 1;","        free(e->val);\n        e->val  = nv;\n        if (e->vlen < content.dsize) e->vlen = content.dsize;\n        db->dirty = 1;"),
("d16","P20 P19",B,"        e->vlen = content.dsize;\n        db->dirty = 1;\n","        e->vlen = content.dsize;\n"),
("d17","P20 P19",B,"    db->nentries--;\n    db->dirty = 1;","    db->nentries--;"),
("d18","P19",B,"    db->nentries--;\n    db->dirty = 1;","    db->dirty = 1;"),
("d19","P19",B,"    db->fetch_buf[e->vlen] = '\\0';",""),
("d20","P19",B,"size_t need = (size_t)e->vlen + 1;","size_t need = (size_t)e->vlen;"),
("d21","P20",B,"fail:\n    close(fd);\n    unlink(tmp);","fail:\n    close(fd);\n    unlink(db->path);"),
("d22","P19",B,"    b[2] = (unsigned char)(v >> 16);","    b[2] = 0;"),
("d23","P19",B,"    if (content.dptr ? 0 : 0) ;",""),
("d24","P20",B,"    if (!db->dirty) return 0;","    if (!db->dirty || db->nentries == 0) return 0;"),
("a1","P18",A,"    if (secure == 0) \n","    if (secure != 1) \n"),
("a2","P18",A,"    if (strlen(u_tab[forWhom].realname) == 0) {\n        senderror(forWhom, \n                  \"You must be registered to change your security.\");\n        return -1;","    if (strlen(u_tab[forWhom].realname) == 0) {\n        senderror(forWhom, \n                  \"You must be registered to change your security.\");\n        if (secure) return -1;"),
("a3","P18 P12",A,"    if (strcmp(value, password) != 0)\n        return -1;","    if (strncmp(value, password, strlen(password)) != 0)\n        return -1;"),
("a4","P12 P11",A,"    return (auth == 2);","    return (auth >= 1);"),
("a5","P18",A,"    if ( strcmp (value, password) != 0 ) {","    if ( strcasecmp (value, password) != 0 ) {"),
("a6","P18",A,'    icbdb_delete (nick, "secure");\n    icbdb_delete (nick, "realname");','    icbdb_delete (nick, "realname");'),
("a7","P18",A,"    for (i = 1; i <= MAX_WRITES; i++) {\n        char    key[80];","    for (i = 1; i < MAX_WRITES; i++) {\n        char    key[80];"),
("a8","P18",A,"    if (count > MAX_WRITES) {","    if (count > MAX_WRITES + 1) {"),
("a9","P18",A,"    count++;\n    if (count > MAX_WRITES)","    if (count++ > MAX_WRITES)"),
("a10","P18",A,"        else for (i = 1; i <= count; i++) \n","        else for (i = count; i >= 1; i--) \n"),
("a11","P18",A,'            sprintf(key,"message%d", i);\n            if (icbdb_get (nick, key, ICBDB_STRING, &value)) {\n                send_person_stored(forWhom, from, value);\n            }\n            icbdb_delete (nick, key);','            sprintf(key,"message%d", i);\n            if (icbdb_get (nick, key, ICBDB_STRING, &value)) {\n                send_person_stored(forWhom, from, value);\n            }'),
("a12","P18",A,"    count = 0;\n    icbdb_set (nick, \"nummsg\", ICBDB_INT, &count);\n\n    icbdb_close ();\n    return 0;","    icbdb_close ();\n    return 0;"),
("a13","P18",A,"        if (strcmp(value, oldpw)) {","        if (strncmp(value, oldpw, strlen(value))) {"),
("a14","P18",A,'                icbdb_set (nick, "home", ICBDB_STRING, addr);\n            }\n        }\n    }\n\n    icbdb_close ();','            }\n        }\n    }\n\n    icbdb_close ();'),
("a15","P18",A,"            memset(u_tab[forWhom].realname, 0, MAX_REALLEN + 1);",""),
("a16","P18",A,"        if ( verifyOnly == 1 )","        if ( verifyOnly == 2 )"),
("a17","P18",A,"            if (strcasecmp(value, temp))\n                retval = -2;","            if (strncasecmp(value, temp, strlen(temp)))\n                retval = -2;"),
("a18","P18",A,'                if (icbdb_get (theNick, "secure", ICBDB_STRING, &value))\n                    retval = -2;','                if (icbdb_get (u_tab[-forWhom].loginid, "secure", ICBDB_STRING, &value))\n                    retval = -2;'),
("a19","P18",A,"    filtertext(message, msgfilterbuf, 4096 - 1 );","    filtertext(message, msgfilterbuf, 160 - 1 );"),
("a20","P18",A,"    icbdb_set (user, key, ICBDB_STRING, u_tab[forWhom].nickname);","    icbdb_set (user, key, ICBDB_STRING, user);"),
("a21","P18",A,"        strncpy(newstr, data, max);","        strncpy(newstr, data, max - 1);"),
("a22","P18",A,"    icbdb_set (u_tab[forWhom].nickname, tag, ICBDB_STRING, data);","    icbdb_set (u_tab[forWhom].loginid, tag, ICBDB_STRING, data);"),
("a23","P14 P18",A,"                    g_tab[i].mod = forWhom;\n                    memset(g_tab[i].missingmod, 0, MAX_NICKLEN);","                    g_tab[i].mod = forWhom;"),
("a24","P18",A,"        if (!icbdb_get (nick, \"nick\", ICBDB_STRING, &value))\n        {\n            icbdb_close ();\n            return -1;\n        }","        if (!icbdb_get (nick, \"nick\", ICBDB_STRING, &value))\n        {\n            icbdb_close ();\n        }"),
("a25","P18",A,"    nick = u_tab[forWhom].nickname;\n\n    if (!icbdb_get (nick, \"nummsg\"","    nick = u_tab[forWhom].loginid;\n\n    if (!icbdb_get (nick, \"nummsg\""),
("a26","P18",A,'    if (!icbdb_get (user, "nick", ICBDB_STRING, &value)) {\n        sprintf(line, "%s is not registered", user);','    if (!icbdb_get (user, "nummsg", ICBDB_STRING, &value)) {\n        sprintf(line, "%s is not registered", user);'),
("a27","P18",A,"            icbdb_delete (nick, key);\n\n            sprintf(key,\"from%d\", i);","            sprintf(key,\"from%d\", i);"),
("a28","P18",A,"    if (strlen(theNick) > MAX_NICKLEN)\n","    if (strlen(theNick) > MAX_NICKLEN + 20)\n"),
("b1","P20 P18",I,"    if (--open_count > 0)","    if (--open_count > 1)"),
("b2","P18 P19",I,"    lcaseit (keybuf);\n",""),
("b3","P18 P19",I,"            databuf[data.dsize] = '\\0';\n",""),
("b4","P18 P19",I,"    data.dsize = strlen (data.dptr);","    data.dsize = strlen (data.dptr) + 1;"),
("b5","P18 P20",I,"#define ICBDB_OPEN()    if (icbdb_open() == 0) { icbdb_close (); return (0); }","#define ICBDB_OPEN()    if (icbdb_open() == 0) { return (0); }"),
("b6","P18 P19",I,"DBM_REPLACE","DBM_INSERT"),
]
M=[m for m in M if m[0]!="d23"]
