#pragma once
#ifndef VP_RECS
#define VP_RECS 40
#endif
#define VP_KEY 96
#define VP_VAL 256
struct vp_rec { int used, klen, vlen; char key[VP_KEY], val[VP_VAL]; };
extern struct vp_rec vp_db[VP_RECS];
extern int vp_db_down; /* set: the database cannot be opened */
extern int vp_db_changes, vp_db_flushed;   /* changes made, changes saved */
const char *vp_db_get(const char *key);
void vp_db_put(const char *key, const char *val);
