/* a crash before any system call, or one failing call: on disk are the
 * complete old or the complete new contents. */
#define FS_SIZE 1024
#include "srv.h"
#include "fs.h"
#include "dbm.h"
void vp_exit(int);
static datum D(const void *p, int n) { datum d; d.dptr = (char *)p; d.dsize = n; return d; }
static const char *const KEYS[] = { "ann.password", "bob.password", "bob.nick" };
#define NK 3
struct map { int there[NK]; char v[NK]; };
static struct map o, n;
/* the machine stops: whatever was not synced may be lost, in part */
static void lose(void)
{
    int i;
    for (i = 0; i < FS_FILES; i++)
        if (vf[i].exists && vf[i].synced < vf[i].len) {
            int w = vp_pick(0, 2);
            vf[i].len = w == 0 ? vf[i].synced : w == 1 ? (vf[i].synced + vf[i].len) / 2 : vf[i].len;
        }
    for (i = 0; i < 8; i++) vfd[i].used = 0;
    fs_crash_at = fs_fault_at = -1;
    fs_any_crash = fs_any_fault = 0;
    fs_reads = vp_pick(0, 1);
}
/* what a new start finds */
static int holds(DBM *d, const struct map *m)
{
    int i, ok = 1;
    for (i = 0; i < NK; i++) {
        datum r = dbm_fetch(d, D(KEYS[i], (int)strlen(KEYS[i])));
        if ((r.dptr != 0) != m->there[i]) { ok = 0; continue; }
        if (r.dptr) ok &= r.dsize == 1 && r.dptr[0] == m->v[i];
    }
    return ok;
}
static const char *name = "d";
static void found(int old, int new)
{
    DBM *d;
    lose();
    d = dbm_open(name, O_RDWR, 0600);
    VP_ASSERT(d != 0, "the database cannot be read after a crash");
    VP_ASSERT((old && holds(d, &o)) || (new && holds(d, &n)), new ? "after a crash the database has neither the old nor the new contents" : "after a crash the old contents are gone");
    dbm_close(d);
}
static void crash(void) { found(1, 1); VP_WITNESS(1, "crashed"); vp_exit(0); }
static void store(DBM *d, struct map *m, int k)
{
    char v = (char)vp_byte();
    VP_ASSERT(dbm_store(d, D(KEYS[k], (int)strlen(KEYS[k])), D(&v, 1), DBM_REPLACE) == 0, "a store fails");
    m->there[k] = 1; m->v[k] = v;
}
static void db(void)
{
    DBM *d; int i, old = vp_pick(0, 3), how, r;
    if (old) {                                  /* no file, an empty one, one or two records */
        d = dbm_open(name, O_RDWR, 0600);
        store(d, &o, 1);
        if (old == 2) store(d, &o, 0);
        else if (old == 1) { dbm_delete(d, D(KEYS[1], (int)strlen(KEYS[1]))); o.there[1] = 0; }
        dbm_close(d);
    }
    if (vp_pick(0, 1)) fs_text("d.db.tmp", "IDB\1\1rest of an earlier crash, longer than what follows, so that it must be truncated");
    n = o;
    d = dbm_open(name, O_RDWR, 0600);
    VP_ASSERT(d != 0, "the database cannot be opened");
    for (i = 0; i < 2; i++) {
        int op = vp_pick(0, 4);
        if (op < 3) store(d, &n, op);
        if (op == 3) { dbm_delete(d, D(KEYS[1], (int)strlen(KEYS[1]))); n.there[1] = 0; }
    }
    fs_ops = 0;
    fs_any_crash = 1; fs_any_fault = vp_deep ? 2 : 1;   /* any one call fails, and the machine stops anywhere */
    fs_fault_kind = -1;
    fs_crash = crash;
    how = vp_pick(0, 1);
    if (how) {
        dbm_close(d);
        VP_ASSERT(fs_open_files() == 0, "the file stays open");
        found(fs_faulted, 1);
        return;
    }
    r = dbm_flush(d);
    VP_ASSERT(fs_open_files() == 0, "the file stays open");
    VP_WITNESS(r == 0 && fs_faulted, "recovered from a short write");
    VP_WITNESS(r != 0, "a failed save");
    if (r == 0) { found(0, 1); return; }
    VP_ASSERT(fs_faulted, "a save fails without a reason");
    VP_ASSERT(holds(d, &n), "a failed save loses what is in memory");
    if (vp_pick(0, 1)) { found(1, 1); return; }
    fs_fault_at = fs_crash_at = -1;
    fs_any_crash = fs_any_fault = 0;
    VP_ASSERT(dbm_flush(d) == 0, "a later save fails too");
    found(0, 1);
}
/* ---- commands ------------------------------------------------------- */
static DBM *after;
static int is(const char *key, const char *v)
{
    datum r = dbm_fetch(after, D(key, (int)strlen(key))); int i, l;
    if (!v) return r.dptr == 0;
    l = (int)strlen(v);
    if (!r.dptr || r.dsize != l) return 0;
    for (i = 0; i < l; i++) if (r.dptr[i] != v[i]) return 0;
    return 1;
}
static void cmds(void)
{
    static const char *const C[] = { "p old", "cp old pw", "delete old", "write ann hello", "rname Robert", "secure", "nosecure", "email b@x", "read" };
    int c = vp_pick(0, 8), ok = 0, i, f; char t[40];
    srv_init();
    add_group(1, "Alpha");
    add_user(ME, "Alpha"); add_user(1, "Alpha");
    name = "./icbdb";
    if (vp_pick(0, 1)) strcpy(u_tab[ME].nickname, "bob");
    cmd(1, "m", "server p anns");
    if (c) cmd(ME, "m", "server p old");
    if (c == 6) cmd(ME, "m", "server secure");
    if (c == 8) cmd(1, "m", "server write bob hello");
    VP_ASSERT(fs_open_files() == 0, "the file stays open");
    clear_ev();
    f = vp_pick(-1, 12);
    fs_ops = 0;
    fs_fault_at = f;
    strcpy(t, "server "); strcat(t, C[c]);
    cmd(ME, "m", t);
    fs_fault_at = -1;
    switch (c) {
    case 0: ok = told(ME, "Nick registered"); break;
    case 1: ok = told(ME, "assword"); break;
    default: ok = !count_type(ME, 'e');
    }
    VP_ASSERT(ok || fs_faulted, "the command is refused");
    if (fs_faulted && vp_pick(0, 1)) {          /* a later change by anyone saves it all */
        fs_faulted = 0;
        cmd(1, "m", "server rname Annie");
    }
    lose();
    after = dbm_open(name, O_RDWR, 0600);
    VP_ASSERT(after != 0, "the database cannot be read after a crash");
    VP_ASSERT(is("ann.password", "anns"), "another user's registration is lost");
    if (c) VP_ASSERT(is("bob.password", "old") || (c == 1 && is("bob.password", "pw")) || (c == 2 && is("bob.password", 0)), "the registration is lost");
    if (ok && !fs_faulted) {
        static const char *const A[] = { "bob.password", "bob.password", "bob.password", "ann.message1", "bob.realname", "bob.secure", "bob.secure", "bob.email", "bob.message1" };
        static const char *const W[] = { "old", "pw", 0, "hello", "Robert", "SECURED", 0, "b@x", 0 };
        VP_ASSERT(is(A[c], W[c]), "a change the user was told of is not on disk");
        for (i = 0; i < 9; i++) VP_WITNESS(c == i, C[i]);
    }
}
/* ---- a file that cannot be read is not taken for an empty one ---------- */
static void unreadable(void)
{
    DBM *d; int c, i; char t[40];
    static const char *const C[] = { "p old", "cp old pw", "delete old", "write ann hello", "rname Robert", "read" };
    name = "./icbdb";
    srv_init();
    add_group(1, "Alpha");
    add_user(ME, "Alpha"); add_user(1, "Alpha");
    d = dbm_open(name, O_RDWR, 0600);
    store(d, &o, 0); store(d, &o, 1); store(d, &o, 2);
    dbm_close(d);
    c = vp_pick(-1, 5);
    fs_rops = 0;
    fs_rfault_at = vp_pick(0, 8);
    if (c < 0) {
        d = dbm_open(name, O_RDWR, 0600);
        VP_ASSERT(d != 0 || fs_faulted, "a readable database is refused");
        if (d) { VP_ASSERT(holds(d, &o), "a database that cannot be read is taken for another"); store(d, &o, 0); dbm_close(d); }
        VP_WITNESS(d == 0, "refused");
        VP_ASSERT(fs_open_files() == 0, "the file stays open");
        fs_rfault_at = -1;
        found(1, 0);
        return;
    }
    strcpy(t, "server "); strcat(t, C[c]);
    if (fs_rfault_at > 5) strcpy(u_tab[1].realname, "registered");
    cmd(ME, "m", t);
    fs_rfault_at = -1;
    for (i = 0; i < 2; i++) cmd(1, "m", "server rname Annie");
    lose();
    d = dbm_open(name, O_RDWR, 0600);
    VP_ASSERT(d != 0 && holds(d, &o), "after a failed read the records are gone");
    VP_WITNESS(fs_faulted, "a command while the database cannot be read");
}
void harness(void)
{
    if (vp_case == 0) db(); else if (vp_case == 1) cmds(); else unreadable();
}
