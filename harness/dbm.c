/* the database against a plain map: any sequence of operations on keys that
 * all land in the same place of a fresh table, with reopening in between;
 * growth; one arbitrary key; and files with anything in them. */
#include "h.h"
#ifndef FS_SIZE
#define FS_SIZE 4096
#endif
#include "fs.h"
#include "dbm.h"
#ifndef K
#define K 4
#endif
struct key { const char *p; int n; };
static const struct key KEYS[] = { { "", 0 }, { "a\0\x03", 3 }, { "a\0\x83", 3 }, { "\x02", 1 }, { "\x02" "ak", 3 }, { "abc", 3 }, { "AbC", 3 }, { "a", 1 } };
#define NK 8
#define VL 4
static struct { int there, n; char v[VL]; } m[NK];
static DBM *db;
static datum D(const void *p, int n) { datum d; d.dptr = (char *)p; d.dsize = n; return d; }
static void any_value(char *b, int n) { int i; for (i = 0; i < n; i++) b[i] = (char)vp_byte(); }
static void reopen(void)
{
    dbm_close(db);
    VP_ASSERT(fs_open_files() == 0, "the file stays open");
    db = dbm_open("d", O_RDWR, 0600);
    VP_ASSERT(db != 0, "a database just saved is refused");
}
static void compare(int k)
{
    datum r = dbm_fetch(db, D(KEYS[k].p, KEYS[k].n)); int i;
    VP_ASSERT((r.dptr != 0) == m[k].there, m[k].there ? "a stored record is not found" : "a record that was never stored, or was deleted, is found");
    if (!r.dptr) return;
    VP_ASSERT(r.dsize == m[k].n, "a record of another length is returned");
    for (i = 0; i < m[k].n; i++) VP_ASSERT(r.dptr[i] == m[k].v[i], "another value is returned than was stored");
}
static void op(int lo, int hi, int n)
{
    int o = vp_pick(0, 3), k, r, had; char v[VL];
    if (o == 3) { reopen(); return; }
    k = vp_pick(lo, hi);
    had = m[k].there;
    if (o == 2) {
        r = dbm_delete(db, D(KEYS[k].p, KEYS[k].n));
        VP_ASSERT((r == 0) == had, "the result of a deletion");
        m[k].there = 0;
        return;
    }
    any_value(v, n);
    r = dbm_store(db, D(KEYS[k].p, KEYS[k].n), D(v, n), o ? DBM_REPLACE : DBM_INSERT);
    VP_ASSERT(r == (o == 0 && had ? 1 : 0), "the result of a store");
    if (o == 0 && had) return;
    m[k].there = 1; m[k].n = n;
    memcpy(m[k].v, v, n);
    memset(v, 'X', VL);                         /* the caller's buffer is its own */
}
static void start(void) { db = dbm_open("d", O_RDWR, 0600); VP_ASSERT(db != 0, "a new database cannot be opened"); }
static void ops(int lo, int hi, int n)
{
    int i, l = vp_pick(0, 2), s = l ? vp_pick(0, 1) : 1;          /* lengths that change, or all the same */
    start();
    for (i = 0; i < n; i++) op(lo, hi, (l + s * i) % 3);
    for (i = lo; i <= hi; i++) compare(i);
    reopen();
    for (i = lo; i <= hi; i++) compare(i);
    VP_WITNESS(m[lo].there && m[lo + 1].there, "two records");
    VP_WITNESS(m[lo].there && m[lo].n == 0, "an empty value");
    dbm_close(db);
}
/* many records: the table grows */
static void bulk(void)
{
    int i, n = vp_pick(94, 100), j; char k[2], v[2];
    if (n > 97) n = n == 98 ? 192 : n == 99 ? 193 : 258;
    start();
    for (i = 0; i < n; i++) {
        k[0] = (char)i; k[1] = (char)(i * 7 + i / 256); v[0] = (char)~i;
        VP_ASSERT(dbm_store(db, D(k, 2), D(v, 1), DBM_INSERT) == 0, "the result of a store");
    }
    for (i = 0; i < 2; i++) op(0, 2, 2);
    j = vp_pick(0, 2);
    if (j == 1) {                                     /* delete every other one */
        for (i = 0; i < n; i += 2) { k[0] = (char)i; k[1] = (char)(i * 7 + i / 256); VP_ASSERT(dbm_delete(db, D(k, 2)) == 0, "the result of a deletion"); }
        reopen();
    }
    if (j == 2) reopen();
    for (i = 0; i < 3; i++) compare(i);
    for (i = 0; i < n; i++) {
        datum r;
        k[0] = (char)i; k[1] = (char)(i * 7 + i / 256);
        r = dbm_fetch(db, D(k, 2));
        if (j == 1 && i % 2 == 0) { VP_ASSERT(!r.dptr, "a record that was deleted is found"); continue; }
        VP_ASSERT(r.dptr && r.dsize == 1 && r.dptr[0] == (char)~i, "one of many records is lost or altered");
    }
    dbm_close(db);
}
/* one arbitrary key among others, looked up by an arbitrary key */
static void anykey(void)
{
    char k[2], q[2]; int nk = vp_pick(0, 2), nq = vp_pick(0, 2), i, eq = nk == nq, l; datum r; char v = (char)vp_byte();
    static const char X[] = { 0, 1, 0x20, (char)0x80 };
    any_value(k, nk > 1 ? 1 : nk);
    k[1] = q[1] = 'x';
    q[0] = nk ? k[0] ^ X[vp_pick(0, 3)] : 'y';
    start();
    dbm_store(db, D("o", 1), D("old", 3), DBM_INSERT);
    dbm_store(db, D(k, nk), D(&v, 1), DBM_REPLACE);
    if (vp_pick(0, 1)) reopen();
    r = dbm_fetch(db, D(q, nq));
    for (i = 0; i < nk && eq; i++) eq = vp_conc_(k[i] == q[i]);
    l = nq == 1 && q[0] == 'o';
    if (eq) VP_ASSERT(r.dptr && r.dsize == 1 && r.dptr[0] == v, "the value stored under a key is not returned");
    else if (l) VP_ASSERT(r.dptr && r.dsize == 3 && r.dptr[0] == 'o', "another record was disturbed");
    else VP_ASSERT(!r.dptr, "a lookup finds another key's record");
    dbm_close(db);
}
/* long keys and values */
static void big(void)
{
    static const int L[] = { 255, 256, 257, 65535, 65536, 70000 };
    static char k[70000], v[70000];
    int kl = vp_pick(0, 5), vl = L[vp_pick(0, 5)]; datum r;
    kl = kl < 3 ? L[kl] : kl - 2;
    k[kl - 1] = (char)vp_byte(); v[0] = (char)vp_byte(); v[vl - 1] = (char)vp_byte();
    v[vl / 2] = 'm';
    VP_ASSUME(kl > 1 || k[0] != 'o');
    start();
    dbm_store(db, D("o", 1), D("old", 3), DBM_INSERT);
    VP_ASSERT(dbm_store(db, D(k, kl), D(v, vl), DBM_REPLACE) == 0, "the result of a store");
    reopen();
    r = dbm_fetch(db, D("o", 1));
    VP_ASSERT(r.dptr && r.dsize == 3 && r.dptr[0] == 'o', "another record was disturbed");
    r = dbm_fetch(db, D(k, kl));
    VP_ASSERT(r.dptr && r.dsize == vl, "a record of another length is returned");
    VP_ASSERT(r.dptr[0] == v[0] && r.dptr[vl - 1] == v[vl - 1] && r.dptr[vl / 2] == 'm', "another value is returned than was stored");
    VP_ASSERT(dbm_delete(db, D(k, kl)) == 0, "the result of a deletion");
    VP_ASSERT(!dbm_fetch(db, D(k, kl)).dptr && dbm_fetch(db, D("o", 1)).dptr, "a record that was deleted is found");
    VP_WITNESS(vl == 70000, "a long value");
    dbm_close(db);
}
/* files */
static int bytes_eq(const unsigned char *a, const unsigned char *b, int n) { int d = 0, i; for (i = 0; i < n; i++) d |= a[i] ^ b[i]; return d == 0; }
static unsigned rd32(const unsigned char *p) { return p[0] | p[1] << 8 | p[2] << 16 | (unsigned)p[3] << 24; }
static const unsigned LENS[] = { 0, 1, 2, 3, 9, 255, 256, 0x100000, 0x100001, 0x10000000, 0x7fffffff, 0x80000000u, 0xfffffff8u, 0xffffffffu };
static unsigned any_len(int n) { return LENS[vp_pick(0, n)]; }
static void p32(unsigned char *p, unsigned v) { p[0] = (unsigned char)v; p[1] = v >> 8 & 255; p[2] = v >> 16 & 255; p[3] = v >> 24; }
static void damaged(void)
{
    unsigned char f[40]; int len, i, o, ok = 1, kind = vp_pick(0, 2); unsigned count, c; datum r;
    struct { int o, kl, vl; } e[3]; int ne = 0, dup = 0, j;
    memset(f, 0, sizeof f);
    for (i = 0; i < 40; i++) f[i] = kind ? i : vp_byte();
    if (kind == 0) {                           /* any header of any length */
        len = vp_pick(0, 9);
        if (len > 7) p32(f + 4, vp_pick(0, 1));
    } else {                                   /* records with these lengths, cut off anywhere */
        memcpy(f, "IDB\1", 4);
        count = kind == 1 ? LENS[vp_pick(0, 13)] : 2;
        p32(f + 4, count);
        p32(f + 8, any_len(kind == 1 ? 13 : 3)); p32(f + 12, any_len(kind == 1 ? 13 : 2));
        len = kind == 1 ? vp_pick(14, 18) : vp_pick(18, 30);
        if (kind == 2) {
            c = 16 + rd32(f + 8) + rd32(f + 12);
            if ((int)c + 8 <= 36) { p32(f + c, any_len(2)); p32(f + c + 4, any_len(2)); }
        } else if (count > 1) for (i = 16; i < 40; i++) f[i] = 0xff;     /* no second record */
    }
    ok = len >= 8 && f[0] == 'I' && f[1] == 'D' && f[2] == 'B' && f[3] == 1;
    ok = (int)vp_conc_(ok);
    if (ok) for (o = 8, c = 0, count = rd32(f + 4); c < count; c++) {
        unsigned kl, vl;
        if (o + 8 > len) { ok = 0; break; }
        kl = rd32(f + o); vl = rd32(f + o + 4); o += 8;
        if (kl > (unsigned)(len - o) || vl > (unsigned)(len - o) - kl) { ok = 0; break; }
        VP_BOUND(ne < 3, "records");
        for (i = o + (int)kl; i < o + (int)(kl + vl); i++) f[i] = vp_byte();
        e[ne].o = o; e[ne].kl = (int)kl; e[ne].vl = (int)vl; ne++;
        o += (int)(kl + vl);
    }
    fs_put("d.db", f, len);
    db = dbm_open("d", O_RDWR, 0600);
    VP_ASSERT(fs_open_files() == 0, "the file stays open");
    VP_ASSERT((db != 0) == ok, ok ? "a sound file is refused" : "a damaged file is accepted");
    VP_WITNESS(ok && ne == 2, "two records");
    if (!ok) { VP_ASSERT(vf[vf_find("d.db")].len == len, "a refused file was changed"); return; }
    for (i = 0; i < ne; i++) {
        for (j = 0, dup = 0; j < ne; j++) if (j != i && e[j].kl == e[i].kl) dup |= bytes_eq(f + e[j].o, f + e[i].o, e[i].kl);
        if (vp_conc_(dup)) continue;
        r = dbm_fetch(db, D(f + e[i].o, e[i].kl));
        VP_ASSERT(r.dptr && r.dsize == e[i].vl, "a record of the file is not found");
        VP_ASSERT(bytes_eq((unsigned char *)r.dptr, f + e[i].o + e[i].kl, e[i].vl), "a record of the file is misread");
    }
    dbm_close(db);
}
void harness(void)
{
    fs_reads = vp_case == 1 || vp_case == 5 || vp_case == 4;
    switch (vp_case) {
    case 0: ops(0, 2, K); break;
    case 1: ops(1, 4, K - 1); break;
    case 2: ops(4, 7, K - 1); break;
    case 3: bulk(); break;
    case 4: anykey(); break;
    case 5: damaged(); break;
    case 6: big(); break;
    }
}
