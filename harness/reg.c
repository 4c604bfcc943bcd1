/* registrations: only the password (or the registered address) makes a user
 * registered, only registered users change their own record, and stored
 * messages come back once, in order. */
#include "srv.h"
#include "mapdb.h"
#ifndef K
#define K 3
#endif
#include <sys/socket.h>
#include <netinet/in.h>
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l) { memset(a, 0, *l); a->sa_family = AF_INET; return 0; }
static struct vp_rec old[VP_RECS];
static void db_snap(void) { memcpy(old, vp_db, sizeof old); }
static int find_in(const struct vp_rec *t, const char *k, int n)
{
    int i;
    for (i = 0; i < VP_RECS; i++) if (t[i].used && t[i].klen == n && bytes_same(t[i].key, k, n)) return i;
    return -1;
}
static int starts(const struct vp_rec *r, const char *p) { int l = (int)strlen(p); return r->klen >= l && bytes_same(r->key, p, l); }
/* the records of that nickname (or of all others) are as before */
static int unchanged(const char *nick, int others)
{
    int i, j;
    for (i = 0; i < VP_RECS; i++) {
        if (old[i].used && starts(&old[i], nick) != others) {
            j = find_in(vp_db, old[i].key, old[i].klen);
            if (j < 0 || vp_db[j].vlen != old[i].vlen || !bytes_same(vp_db[j].val, old[i].val, old[i].vlen)) return 0;
        }
        if (vp_db[i].used && starts(&vp_db[i], nick) != others && find_in(old, vp_db[i].key, vp_db[i].klen) < 0) return 0;
    }
    return 1;
}
static int has(const char *k, const char *v)
{
    const char *x = vp_db_get(k); int l;
    if (!v) return x == 0;
    if (!x) return 0;
    l = (int)strlen(v);
    return (int)strlen(x) == l && bytes_same(x, v, l);
}
static void put_user(const char *l, const char *n, const char *pw, const char *home)
{
    char k[32];
    strcpy(k, l); strcat(k, ".nick"); vp_db_put(k, n);
    strcpy(k, l); strcat(k, ".password"); vp_db_put(k, pw);
    strcpy(k, l); strcat(k, ".home"); vp_db_put(k, home);
}
static void any_pw(char *b, int n) { int i; for (i = 0; i < n; i++) b[i] = (char)vp_int('!', '~'); b[n] = 0; }
static int is_reg(int i) { return u_tab[i].realname[0] != 0; }
/* ---- one command by someone with the nickname Bob ------------------------ */
static void command(void)
{
    static const char *const C[] = { "p", "cp", "delete", "rname", "text", "addr", "phone", "email", "www", "secure", "nosecure", "read", "write", "whois", "info", "cp2", "w" };
    int c = vp_pick(0, 15), there = vp_pick(0, 1), reg, right, i, direct = vp_pick(0, 1), sec, moved = 0; char t[80], a[8], b[8];
    srv_init();
    any_members("Alpha", "Alphab", 0);
    put_user("ann", "Ann", "pwa", "ua@ha");
    vp_db_put("ann.email", "ann@x");
    reg = there && vp_pick(0, 1);
    sec = 0;
    if (there) {
        moved = c == 1 && vp_pick(0, 1);
        put_user("bob", "Bob", "xyz", moved ? "ux@hx" : "ub@hb");
        vp_db_put("bob.realname", "Robert");
        sec = vp_pick(0, 1);
        if (sec) vp_db_put("bob.secure", "SECURED");
        if (vp_pick(0, 1)) { vp_db_put("bob.nummsg", "1"); vp_db_put("bob.header1", "Message left at T:"); vp_db_put("bob.from1", "Ann"); vp_db_put("bob.message1", "hello"); }
    }
    if (reg) strcpy(u_tab[ME].realname, "registered");
    i = vp_pick(0, 3);
    any_pw(a, i == 1 ? 2 : i == 2 ? 4 : i ? 0 : 3);
    any_pw(b, c <= 2 && a[0] && vp_pick(0, 1) ? 3 : 0);
    right = there && ieq(a, "xyz") && !strcmp(a, "xyz");
    right = (int)vp_conc_(right);
    t[0] = 0;
    if (c <= 2) { strcpy(t, a); if (b[0]) { strcat(t, " "); strcat(t, b); if (vp_pick(0, 1)) strcat(t, " more"); } }
    else if (c < 9) { strcpy(t, "new"); }
    else if (c == 12) strcpy(t, "ann hi");
    else if (c == 13) strcpy(t, "ann");
    else if (c == 15) { strcpy(t, "xyz"); }
    db_snap();
    snap();
    clear_ev();
    if (direct) cmd(ME, c == 15 ? "cp" : C[c], t);
    else {
        char u[100];
        strcpy(u, "server "); strcat(u, c == 15 ? "cp" : C[c]);
        if (t[0]) { strcat(u, " "); strcat(u, t); }
        cmd(ME, "m", u);
    }
    for (i = 1; i < NU; i++) if (i != ME) VP_ASSERT(same_u(i), "a database command changed another user");
    VP_ASSERT(vp_db_changes == vp_db_flushed, "a change is not saved");
    if (c != 12) VP_ASSERT(unchanged("bob.", 1), "a command changed somebody else's record");
    /* who counts as registered afterwards */
    if (c == 0 && a[0] && (right || !there)) VP_ASSERT(is_reg(ME) && count_ev(ME, 'd', "Register", "Nick registered") == 1, "the right password does not register");
    else if (c == 0 && a[0]) VP_ASSERT(!is_reg(ME) && told(ME, "Authorization failure"), "a wrong password yields registered status");
    else VP_ASSERT(is_reg(ME) == reg, "a command changed the registered status");
    if (c == 0 && a[0] && !there) {
        VP_ASSERT(has("bob.password", a) && has("bob.nick", "Bob") && has("bob.home", "ub@hb"), "a first registration does not store the password, name and address");
        VP_WITNESS(1, "a first registration");
    } else if (c == 1 && right && b[0]) {
        VP_ASSERT(has("bob.password", b) && has("bob.nick", "Bob") && has("bob.realname", "Robert"), "the password is not changed");
        VP_ASSERT(has("bob.home", "ub@hb"), "a change of password does not register the address it came from");
        VP_WITNESS(1, "a changed password");
    } else if (c == 2 && right && reg) {
        VP_ASSERT(has("bob.password", 0) && has("bob.nick", 0) && has("bob.home", 0) && has("bob.realname", 0) && has("bob.secure", 0)
                  && has("bob.message1", 0) && has("bob.nummsg", 0), "a deleted record is still there");
        VP_WITNESS(1, "a deleted record");
    } else if (c >= 3 && c <= 8 && reg) {
        static const char *const T[] = { "bob.realname", "bob.text", "bob.addr", "bob.phone", "bob.email", "bob.www" };
        VP_ASSERT(has(T[c - 3], "new"), "a detail is not stored");
        VP_ASSERT(has("bob.password", "xyz") && has("bob.nick", "Bob") && has("bob.home", "ub@hb"), "a detail replaced another");
    } else if ((c == 9 || c == 10) && reg) {
        VP_ASSERT(has("bob.secure", c == 9 ? "SECURED" : 0), "the security setting is not stored");
        VP_ASSERT(has("bob.password", "xyz") && has("bob.nick", "Bob") && has("bob.realname", "Robert"), "a setting replaced a detail");
    } else if (c == 11 && reg) {
        VP_ASSERT(has("bob.message1", 0) && has("bob.nummsg", "0") && has("bob.password", "xyz"), "messages read are still there");
    } else if (c == 0 && right) {
        VP_ASSERT(has("bob.password", "xyz") && has("bob.nick", "Bob") && has("bob.home", "ub@hb") && has("bob.realname", "Robert"), "authenticating changed the record");
    } else if (c != 12 || !reg)
        VP_ASSERT(unchanged("bob.", 0), "a record changed without its password");
    if (c == 12) {
        VP_ASSERT(unchanged("bob.", 0), "writing a message changed the sender's record");
        if (reg) VP_ASSERT(has("ann.message1", "hi") && has("ann.from1", "Bob") && has("ann.nummsg", "1") && has("ann.password", "pwa") && has("ann.email", "ann@x"), "a message is not stored");
        else VP_ASSERT(unchanged("ann.", 0), "an unregistered user stored a message");
    }
    if (c == 13) VP_ASSERT(!told(ME, "pwa"), "a password is shown");
    if (c == 11 && !reg) VP_ASSERT(!told(ME, "hello"), "an unregistered user reads stored messages");
}
/* ---- logging in or renaming to a registered nickname ---------------------- */
static void enter(void)
{
    static const char *const H[] = { "ub@hb", "UB@HB", "ub@hc", "ub@h", "ub@hbb", "" };
    int h = vp_pick(0, 5), sec = vp_pick(0, 1), how = vp_pick(0, 1), pl, want, right = 0, held, down = 0, i; char pw[8], p[64];
    srv_init();
    add_group(1, "Alpha");
    add_user(1, "Alpha");
    if (h < 5) { put_user("bob", "Bob", "xyz", H[h]); if (sec) vp_db_put("bob.secure", "SECURED"); }
    put_user("ann", "Ann", "pwa", "ub@hb");
    held = vp_pick(0, 2);
    if (held) { strcpy(g_tab[1].missingmod, held == 1 ? "Bob" : "Cat"); g_tab[1].modtimeout = T0 + 50; g_tab[1].control = MODERATED; }
    if (h == 0 && vp_pick(0, 1)) down = vp_db_down = 1;
    pl = vp_pick(0, 1) ? 3 : 0;
    any_pw(pw, pl);
    if (how == 0) {
        strcpy(u_tab[ME].nodeid, "hb");
        strcpy(p, "ub\1Bob\1Alpha\1login\1"); strcat(p, pw);
        right = h < 5 && pl && !strcmp(pw, "xyz");
    } else {
        add_user(ME, "Alpha");
        strcpy(u_tab[ME].nickname, "Bobby");
        strcpy(u_tab[ME].password, pw);
        if (vp_pick(0, 1)) strcpy(u_tab[ME].realname, "registered");
    }
    right = (int)vp_conc_(right);
    want = !down && (right || (h < 2 && !sec));
    db_snap();
    clear_ev();
    if (how == 0) pkt(ME, 'a', p); else cmd(ME, "name", "Bob");
    VP_ASSERT(on(ME) && !strcmp(u_tab[ME].nickname, "Bob"), "the name is not taken");
    VP_ASSERT(is_reg(ME) == want, want ? "the owner does not count as registered" : "someone counts as registered without password or address");
    VP_ASSERT(count_ev(ME, 'd', "Register", "Nick registered") == want, "the registered status is told wrongly");
    VP_WITNESS(want && how == 0 && right && h == 2, "by password");
    VP_WITNESS(want && how == 1, "by address");
    if (held == 1 && want) {
        VP_ASSERT(g_tab[1].mod == ME && g_tab[1].modtimeout == 0 && !g_tab[1].missingmod[0], "the registered moderator does not get the group back");
        VP_WITNESS(1, "the moderator is back");
    } else VP_ASSERT(g_tab[1].mod == -1 && (g_tab[1].modtimeout != 0) == (held != 0), "a held group is given to someone else");
    VP_ASSERT(unchanged("bob.", 1), "someone else's record changed");
    if (h < 5) VP_ASSERT(has("bob.password", "xyz") && has("bob.home", H[h]) && has("bob.secure", sec ? "SECURED" : 0), "the record changed");
    else VP_ASSERT(has("bob.password", 0) && has("bob.nick", 0), "a record appeared");
    if (!want) VP_ASSERT(unchanged("bob.", 0), "a record changed by someone who did not count as its owner");
    if (down) {                                  /* and nobody can register meanwhile */
        clear_ev();
        cmd(ME, "p", pl ? pw : "abc");
        VP_ASSERT(!is_reg(ME) && count_ev(ME, 'd', "Register", 0) == 0 && count_type(ME, 'e') == 1, "a nickname is registered although the database cannot be read");
    }
    /* the password given later */
    if (h < 5 && !want && !down) {
        char q[4];
        any_pw(q, 3);
        clear_ev();
        cmd(ME, "p", q);
        i = !strcmp(q, "xyz");
        VP_ASSERT(is_reg(ME) == i, "the password decides who is registered");
        if (i && held == 1) VP_ASSERT(g_tab[1].mod == ME, "the registered moderator does not get the group back");
        if (!i || held != 1) VP_ASSERT(g_tab[1].mod == -1, "a held group is given to someone else");
    }
}
/* ---- stored messages -------------------------------------------------------- */
static void messages(void)
{
    struct { int from; char t[3]; } m[24]; int nm = 0, k, i, e;
    srv_init();
    add_group(1, "Alpha");
    for (i = 1; i < NU; i++) { add_user(i, "Alpha"); strcpy(u_tab[i].realname, "registered"); }
    put_user("ann", "Ann", "pwa", "ua@ha"); put_user("bob", "Bob", "xyz", "ub@hb"); put_user("cat", "Cat", "pwc", "uc@hc");
    if (vp_case == 3) {                          /* nearly full */
        char b[40];
        nm = vp_pick(18, 20);
        for (i = 0; i < nm; i++) {
            m[i].from = 1; m[i].t[0] = (char)('a' + i); m[i].t[1] = 'z'; m[i].t[2] = 0;
            strcpy(b, "bob "); strcat(b, m[i].t);
            cmd(1, "write", b);
            clear_ev();
        }
    }
    for (k = 0; k < (vp_case == 3 ? 2 : K); k++) {
        int op = vp_pick(0, 3); char b[16]; const char *u;
        clear_ev();
        if (op == 0 || op == 1) {               /* Ann or Cat writes to Bob */
            int w = op ? 3 : 1;
            u = vp_pick(0, 1) ? "bob " : "BOB ";
            strcpy(b, u);
            b[4] = (char)vp_int('!', '~'); b[5] = (char)vp_int('!', '~'); b[6] = 0;
            cmd(w, "write", b);
            if (nm < 20) {
                m[nm].from = w; m[nm].t[0] = b[4]; m[nm].t[1] = b[5]; m[nm].t[2] = 0; nm++;
                VP_ASSERT(told(w, "Text saved to file") && count_type(w, 'e') == 0, "a stored message is not confirmed");
                VP_ASSERT(vp_sent[ME] == 1 && count_ev(ME, 'd', "Message", 0) == 1, "the owner is not told of a new message");
                VP_WITNESS(nm == 20, "the last message that fits");
            } else {
                VP_ASSERT(count_type(w, 'e') == 1 && vp_sent[ME] == 0 && !told(w, "Text saved"), "a message beyond the limit is accepted");
                VP_WITNESS(vp_case == 3, "a full mailbox");
            }
        } else if (op == 2) {                   /* Bob reads */
            int at = 0;
            cmd(ME, "read", "");
            for (i = 0; i < nm; i++) {
                for (e = at; e < vp_nev; e++) if (vp_ev[e].data[1] == 'c') break;
                VP_ASSERT(e < vp_nev, "a stored message is not delivered");
                VP_ASSERT(is_ev(e, ME, 'c', NICKS[m[i].from], m[i].t), "a stored message comes back altered, out of order or from someone else");
                at = e + 1;
            }
            VP_ASSERT(count_type(ME, 'c') == nm, "a stored message is delivered twice");
            if (!nm) VP_ASSERT(count_type(ME, 'e') == 1, "an empty mailbox is reported");
            VP_ASSERT(vp_sent[1] == 0 && vp_sent[3] == 0, "somebody else gets the messages");
            VP_WITNESS(nm >= 2, "two messages read");
            nm = 0;
        } else {                                /* Ann reads: nothing is there for her */
            cmd(1, "read", "");
            VP_ASSERT(count_type(1, 'c') == 0 && vp_sent[ME] == 0, "somebody else reads the messages");
        }
    }
    clear_ev();
    cmd(ME, "read", "");
    VP_ASSERT(count_type(ME, 'c') == nm, "not all stored messages are delivered");
    if (vp_case == 3) {                          /* and a deleted record leaves none of them */
        clear_ev();
        cmd(1, "write", "bob zz"); cmd(1, "write", "bob yy");
        cmd(ME, "delete", "xyz");
        for (i = 0; i < VP_RECS; i++) VP_ASSERT(!(vp_db[i].used && starts(&vp_db[i], "bob.")), "something of a deleted record is left");
    }
}
/* ---- long messages, directly and through Server ------------------------------ */
static void long_message(void)
{
    static const char *const FROM[] = { "Ann", "A", "Annabel.Lee", "Annabel.Lees" }, *const TO[] = { "bob", "bobadil-the1" };
    int n = vp_pick(1, 19), via = vp_pick(0, 1), i; char b[256], t[256];
    const char *from = FROM[vp_pick(0, 3)], *to = TO[vp_pick(0, 1)];
    n = n <= 15 ? n * 13 : n * 13 - 6 * (n - 15);
    if (via && n + 7 + (int)strlen(to) > 240) n = 233 - (int)strlen(to);   /* no personal message is longer than 240 */
    srv_init();
    add_group(1, "Alpha");
    for (i = 1; i < NU; i++) { add_user(i, "Alpha"); strcpy(u_tab[i].realname, "registered"); }
    strcpy(u_tab[1].nickname, from);
    strcpy(u_tab[ME].nickname, to);
    put_user(to, to, "xyz", "ub@hb");
    for (i = 0; i < n; i++) t[i] = (char)('a' + i % 26);
    t[n] = 0;
    t[n - 1] = (char)vp_int('!', '~');
    clear_ev();
    if (via) { strcpy(b, "server write "); strcat(b, to); strcat(b, " "); strcat(b, t); cmd(1, "m", b); }
    else { strcpy(b, to); strcat(b, " "); strcat(b, t); cmd(1, "write", b); }
    VP_ASSERT(told(1, "Text saved to file") && count_type(1, 'e') == 0, "a stored message is not confirmed");
    clear_ev();
    cmd(ME, "read", "");
    VP_ASSERT(count_type(ME, 'c') == 1, "a stored message is not delivered once");
    VP_ASSERT(count_ev(ME, 'c', from, t) == 1, "a long stored message comes back altered");
    VP_WITNESS(n > 190 && via, "a long message through Server");
    VP_WITNESS(!strcmp(to, TO[1]) && strlen(from) == 12, "names of the longest length");
}
/* ---- histories of two clients, two names, two passwords --------------------- */
static void history(void)
{
    static const char *const N[] = { "Xa", "Yb", "Zc" }, *const L[] = { "xa", "yb", "zc" }, *const PW[] = { "one", "two" };
    int reg[NU] = { 0 }, at[NU], pw[3] = { -1, -1, -1 }, home[3] = { 0, 0, 0 }, k, i;
    srv_init();
    add_group(1, "Alpha");
    for (i = 1; i < 3; i++) { add_user(i, "Alpha"); strcpy(u_tab[i].nickname, i == 1 ? "Xa" : "Yb"); at[i] = i - 1; }
    for (k = 0; k < K + 1; k++) {
        int who = vp_pick(1, 2), op = vp_pick(0, 5), p = op < 3 ? vp_pick(0, 1) : 0, n = at[who];
        clear_ev();
        switch (op) {
        case 0:
            cmd(who, "p", PW[p]);
            if (n >= 0) {
                if (pw[n] < 0) { pw[n] = p; home[n] = who; reg[who] = 1; }
                else reg[who] = pw[n] == p;
            } else reg[who] = is_reg(who);
            break;
        case 1: {
            char b[16];
            strcpy(b, PW[p]); strcat(b, " "); strcat(b, PW[!p]);
            cmd(who, "cp", b);
            if (n >= 0 && pw[n] == p) { pw[n] = !p; home[n] = who; }
            break; }
        case 2:
            cmd(who, "delete", PW[p]);
            if (n >= 0 && pw[n] == p && reg[who]) pw[n] = -1;
            break;
        default: {
            int to = op - 3;                    /* takes the name if it is free */
            int busy = at[3 - who] == to;
            cmd(who, "name", N[to]);
            if (!busy) { at[who] = to; reg[who] = pw[to] >= 0 && home[to] == who; }
            break; }
        }
        for (i = 1; i < 3; i++) {
            VP_ASSERT(!strcmp(u_tab[i].nickname, N[at[i]]), "names go wrong");
            /* whoever deleted the record keeps the status until the next login or rename */
            if (pw[at[i]] >= 0) VP_ASSERT(is_reg(i) == reg[i], "registered status does not follow from password and address");
        }
    }
    for (i = 0; i < 3; i++) {
        char key[20];
        strcpy(key, L[i]); strcat(key, ".password");
        VP_ASSERT(has(key, pw[i] < 0 ? 0 : PW[pw[i]]), "the stored password is not the last one set with the right password");
    }
    VP_WITNESS(pw[0] >= 0 && home[0] == 2, "registered by the other client");
}
void harness(void)
{
    switch (vp_case) {
    case 0: command(); break;
    case 1: enter(); break;
    case 2: case 3: messages(); break;
    case 4: history(); break;
    case 5: long_message(); break;
    }
}
