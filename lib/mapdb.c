/* the user database as an ideal map (in place of server/icb_dbm.c, which
 * P19 and P20 check against this same specification): exact, case as given
 * by the caller, no files. */
#include "vp.h"
#include "mapdb.h"
#include "dbm.h"
#include <string.h>
struct icb_dbm { int dummy; };
struct vp_rec vp_db[VP_RECS];
int vp_db_changes, vp_db_flushed, vp_db_down;
static struct icb_dbm the;
static int eqn(const char *a, const char *b, int n)
{
    int d = 0, i;
    for (i = 0; i < n; i++) d |= a[i] ^ b[i];
    return d == 0;
}
static int find(const char *k, int n)
{
    int i;
    for (i = 0; i < VP_RECS; i++) if (vp_db[i].used && vp_db[i].klen == n && eqn(vp_db[i].key, k, n)) return i;
    return -1;
}
DBM *dbm_open(const char *file, int flags, int mode) { return vp_db_down ? 0 : &the; }
int dbm_flush(DBM *db) { vp_db_flushed = vp_db_changes; return 0; }
void dbm_close(DBM *db) { vp_db_flushed = vp_db_changes; }
datum dbm_fetch(DBM *db, datum key)
{
    datum r = { 0, 0 }; int i = find(key.dptr, key.dsize);
    if (i >= 0) { r.dptr = vp_db[i].val; r.dsize = vp_db[i].vlen; }
    return r;
}
int dbm_store(DBM *db, datum key, datum v, int flags)
{
    int i = find(key.dptr, key.dsize);
    if (i >= 0 && flags == DBM_INSERT) return 1;
    if (i < 0) for (i = 0; i < VP_RECS && vp_db[i].used; i++) ;
    VP_BOUND(i < VP_RECS && key.dsize < VP_KEY && v.dsize < VP_VAL, "records of the ideal database");
    vp_db[i].used = 1;
    memcpy(vp_db[i].key, key.dptr, key.dsize);
    vp_db[i].klen = key.dsize;
    memmove(vp_db[i].val, v.dptr, v.dsize);
    vp_db[i].val[v.dsize] = 0;
    vp_db[i].vlen = v.dsize;
    vp_db_changes++;
    return 0;
}
int dbm_delete(DBM *db, datum key)
{
    int i = find(key.dptr, key.dsize);
    if (i < 0) return -1;
    vp_db[i].used = 0;
    vp_db_changes++;
    return 0;
}
/* for harnesses */
const char *vp_db_get(const char *k) { int i = find(k, (int)strlen(k)); return i < 0 ? 0 : vp_db[i].val; }
void vp_db_put(const char *k, const char *v)
{
    datum a, b;
    a.dptr = (char *)k; a.dsize = (int)strlen(k); b.dptr = (char *)v; b.dsize = (int)strlen(v);
    dbm_store(&the, a, b, DBM_REPLACE);
    vp_db_flushed = vp_db_changes;
}
