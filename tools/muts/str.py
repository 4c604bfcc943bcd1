S="server/strutil.c"; N="server/namelist.c"; L="server/strlist.c"; W="server/wildmat.c"; U="server/utf8.c"
M=[
("s1","P06",S,"(s - src) >= len","offset >= len"),
("s2","P06",S,"                if (prevState != UTF8_ACCEPT) {\n                    s--;\n                }","                if (prevState != UTF8_ACCEPT && codepoint < 0x80) {\n                    s--;\n                }"),
("s3","P06",S,"codepoint >= 0x20 && codepoint <= 0x7F","codepoint >= 0x20 && codepoint < 0x7F"),
("s4","P06",S,"codepoint >= 0x80 && codepoint <= 0x7FF","codepoint >= 0xA0 && codepoint <= 0x7FF"),
("s5","P06",U,"0xa,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x4,0x3,0x3","0xa,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x3,0x3"),
("s6","P06",U,"0xb,0x6,0x6,0x6,0x5,","0xb,0x6,0x6,0x6,0x6,"),
("s7","P06","server/send.c","    filterbuf(message, msgbuf, sizeof(msgbuf));\n    snprintf","    snprintf(msgbuf, sizeof(msgbuf), \"%s\", message);\n    snprintf"),
("s8","P25",S,'#define OKGROUPCHARS    "-.!\'$+,/?_~"','#define OKGROUPCHARS    "-.!\'$+,/?_~|"'),
("s9","P25",S,"void filternickname(char *txt)\n{\n    for (; *txt != '\\0'; txt++) {","void filternickname(char *txt)\n{\n    for (; *txt != '\\0' && *txt != '\\t'; txt++) {"),
("s10","P25","server/s_user.c","        filternickname(new_name);","        if (strchr(new_name, ' ')) filternickname(new_name);"),
("s11","P25","server/msgs.c","        filternickname(fields[1]);","        if ((unsigned char)fields[1][0] < 0x80) filternickname(fields[1]);"),
("s12","P23",S,"        else if ( *cp == '%' )\n            ++cp;","        else if ( *cp == '%' || *cp == 'm' )\n            ++cp;"),
("s13","P23",S,"        else if ( *cp == '%' )\n            ++cp;","        else if ( *cp == '%' )\n            ;"),
("s14","P23","server/s_group.c","                        if ( num_s == 0 )\n                            sprintf(mbuf, \"%s %s\",","                        if ( num_s == 0 && 0 )\n                            sprintf(mbuf, \"%s %s\","),
("s15","P23","server/s_group.c","if ( r != (char *)NULL && num_s != 0 )","if ( r != (char *)NULL && num_s > 0 )"),
("s16","P23","server/s_person.c","snprintf(mbuf, MAX_PKT_DATA, \"%s\", u_tab[dest].awaymsg);","snprintf(mbuf, MAX_PKT_DATA, u_tab[dest].awaymsg, u_tab[dest].nickname);"),
("s17","P09",S,"((w - word) < 63)","((w - word) < 62)"),
("s18","P09",S,"    while ((*s == ' ' || *s == '\\t') && *s != '\\0' )","    while (*s == ' ' && *s != '\\0' )"),
("s19","P09",S,"        if ( i >= MAX_FIELDS )","        if ( i >= MAX_FIELDS - 1 )"),
("n1","P08",N,"            strlinkhead(sp, &nl->head, &nl->tail);\n            nl->p = nl->head;\n            return;","            strlinkhead(sp, &nl->head, &nl->tail);\n            return;"),
("n2","P08",N,"        sp = nl->tail;\n        strunlink","        sp = nl->tail->prev ? nl->tail : nl->head;\n        if (nl->p == nl->tail) nl->p = nl->head;\n        strunlink"),
("n3","P08",N,"    nl->p= nl->head;\n","    if (nl->p == namep) nl->p = nl->head;\n"),
("n4","P08",L,"                *tail = s->prev;\n                s->prev->next = 0;","                *tail = s->prev;"),
("n5","P08",N,"    if (nl->num < nl->max) {","    if (nl->num <= nl->max) {"),
("n6","P08",N,"if (!strcasecmp(name, sp->str)) {","if (!strcmp(name, sp->str)) {"),
("n7","P08",L,"        (*head)->prev = s;\n        s->prev = 0;","        s->prev = 0;"),
("n8","P08",L,"            if (wildmat(str, p->str))","            if (wildmat(str, p->str) || !strcasecmp(str, p->str))"),
("n9","P08",N,"    if (nl.num > 0) return (strgetnode(name, nl.head, 1, 1)","    if (nl.num > 1) return (strgetnode(name, nl.head, 1, 1)"),
("w1","P07",W,"if ((matched = DoMatch(text++, p)) != FALSE)","if ((matched = DoMatch(text++, p)) == TRUE)"),
("w2","P07",W,"*text <= *++p && *text >= last","*text < *++p && *text >= last"),
("w3","P07",W,"if (p[1] == ']' || p[1] == '-')","if (p[1] == ']')"),
("w4","P07",W,"                p++;\n                /* FALLTHROUGH */","                if (p[1]) p++;\n                /* FALLTHROUGH */"),
("w5","P07",W,"                if (matched == reverse)","                if (matched && reverse || !matched && !reverse && *text != '-')"),
("w6","P07",W,"if (*p == '-' && p[1] != ']' && p[1] != '\\0'","if (*p == '-' && p[1] != '\\0'"),
("w7","P07",W,"                    if (*++p == *text)\n                        matched = TRUE;","                    ++p;"),
("w8","P07",W,"    return *text == '\\0';","    return *text == '\\0' || *text == '\\n';"),
]
