/* a small file system: the strong definitions replace the empty one of
 * lib/server_env.c.  Renaming is atomic; data that was not fsynced may be cut
 * short by a crash.  One operation may fail (fs_fault_at), and the machine may
 * stop before any operation (fs_crash_at). */
#pragma once
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include "vp.h"
#ifndef FS_SIZE
#define FS_SIZE 512
#endif
#ifndef FS_FILES
#define FS_FILES 5
#endif
struct vfile { char name[40]; int exists, len, synced; unsigned char data[FS_SIZE]; };
static struct vfile vf[FS_FILES];
static struct { int used, f, pos, wr, eof; } vfd[8];
static int fs_ops, fs_fault_at = -1, fs_fault_kind, fs_faulted, fs_crash_at = -1, fs_reads;
static void (*fs_crash)(void);
static int fs_any_fault, fs_any_crash;          /* how many more may happen, before any operation */
static int fs_rops, fs_rfault_at = -1;        /* which opening for reading, or reading, fails */
static int fs_rstep(void) { if (fs_rops++ != fs_rfault_at) return 0; fs_faulted = 1; errno = EIO; return 1; }
static int vf_find(const char *n)
{
    int i;
    for (i = 0; i < FS_FILES; i++) if (vf[i].exists && !strcmp(vf[i].name, n)) return i;
    return -1;
}
static int vf_new(const char *n)
{
    int i;
    for (i = 0; i < FS_FILES; i++) if (!vf[i].exists) break;
    VP_BOUND(i < FS_FILES && strlen(n) < sizeof vf[0].name, "files of the model");
    memset(&vf[i], 0, sizeof vf[i]);
    strcpy(vf[i].name, n);
    vf[i].exists = 1;
    return i;
}
static void fs_put(const char *n, const void *d, int len)
{
    int i = vf_find(n);
    if (i < 0) i = vf_new(n);
    VP_BOUND(len <= FS_SIZE, "file size of the model");
    memcpy(vf[i].data, d, len);
    vf[i].len = vf[i].synced = len;
}
static void fs_text(const char *n, const char *s) { fs_put(n, s, (int)strlen(s)); }
/* is this the operation that fails? */
static int fs_step(void)
{
    int k = fs_ops++;
    if (fs_any_crash && fs_crash && vp_pick(0, 1)) { fs_any_crash--; fs_crash_at = k; }
    if (fs_any_fault && vp_pick(0, 1)) { fs_any_fault--; fs_fault_at = k; }
    if (k == fs_crash_at && fs_crash) { void (*f)(void) = fs_crash; fs_crash = 0; f(); }
    if (k == fs_fault_at) { fs_faulted = 1; errno = EIO; return 1; }
    return 0;
}
int vp_open(const char *p, int fl, ...)
{
    int i, f = vf_find(p);
    if ((fl & O_CREAT) && fs_step()) return -1;
    if (!(fl & O_CREAT) && fs_rstep()) return -1;
    if (f < 0 && !(fl & O_CREAT) && (!strcmp(p, ".") || !strcmp(p, "./"))) f = FS_FILES;   /* the directory itself */
    else if (f < 0) {
        if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
        f = vf_new(p);
    } else if (fl & O_EXCL && fl & O_CREAT) { errno = EEXIST; return -1; }
    if (f < FS_FILES && fl & O_TRUNC) vf[f].len = vf[f].synced = 0;
    for (i = 0; i < 8; i++) if (!vfd[i].used) break;
    VP_BOUND(i < 8, "open files of the model");
    vfd[i].used = 1; vfd[i].f = f; vfd[i].eof = 0; vfd[i].pos = f < FS_FILES && fl & O_APPEND ? vf[f].len : 0; vfd[i].wr = (fl & O_ACCMODE) != O_RDONLY;
    return 100 + i;
}
static int fd_ok(int fd)
{
    VP_ASSERT(fd >= 100 && fd < 108 && vfd[fd - 100].used, "file operation on a descriptor that is not open");
    return fd - 100;
}
ssize_t vp_read(int fd, void *b, size_t n)
{
    int i = fd_ok(fd), k, left;
    if (vfd[i].f == FS_FILES) { errno = EISDIR; return -1; }
    left = vf[vfd[i].f].len - vfd[i].pos;
    if (fs_rstep()) return -1;
    if (left <= 0) { vfd[i].eof = 1; return 0; }
    k = n < (size_t)left ? (int)n : left;
    if (fs_reads && k > 1) k = 1;              /* reads may be short */
    memcpy(b, vf[vfd[i].f].data + vfd[i].pos, k);
    vfd[i].pos += k;
    return k;
}
ssize_t vp_write(int fd, const void *b, size_t n)
{
    int i = fd_ok(fd), k = (int)n, j;
    struct vfile *v = &vf[vfd[i].f];
    VP_ASSERT(vfd[i].wr, "write to a file opened for reading");
    if (fs_step()) {
        if (fs_fault_kind < 0) fs_fault_kind = vp_pick(0, 2);
        if (fs_fault_kind == 2) return 0;
        if (!fs_fault_kind || n < 2) return -1;
        k = 1;                                 /* a short write instead of a failure */
    }
    VP_BOUND(vfd[i].pos + k <= FS_SIZE, "file size of the model");
    if (vfd[i].pos < v->synced) v->synced = vfd[i].pos;
    memcpy(v->data + vfd[i].pos, b, k);
    vfd[i].pos += k;
    if (vfd[i].pos > v->len) v->len = vfd[i].pos;
    (void)j;
    return k;
}
int vp_close(int fd) { int i = fd_ok(fd); vfd[i].used = 0; return 0; }
int vp_fsync(int fd)
{
    int i = fd_ok(fd);
    if (fs_step()) return -1;
    if (vfd[i].f < FS_FILES) vf[vfd[i].f].synced = vf[vfd[i].f].len;
    return 0;
}
int vp_rename(const char *a, const char *b)
{
    int f = vf_find(a), t = vf_find(b);
    if (fs_step()) return -1;
    if (f < 0) { errno = ENOENT; return -1; }
    if (t >= 0 && t != f) vf[t].exists = 0;
    strcpy(vf[f].name, b);
    return 0;
}
int vp_unlink(const char *a)
{
    int f = vf_find(a);
    if (f < 0) { errno = ENOENT; return -1; }
    if (fs_step()) return -1;
    vf[f].exists = 0;
    return 0;
}
FILE *vp_fopen(const char *p, const char *m)
{
    int fd = vp_open(p, m[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (m[0] == 'w' ? O_TRUNC : O_APPEND));
    return fd < 0 ? 0 : (FILE *)&vfd[fd - 100];
}
static int file_fd(FILE *f) { return (int)((char *)f - (char *)vfd) / (int)sizeof vfd[0] + 100; }
char *vp_fgets(char *b, int n, FILE *f)
{
    int fd = file_fd(f), i = 0; char c;
    while (i < n - 1 && vp_read(fd, &c, 1) == 1) { b[i++] = c; if (c == '\n') break; }
    if (!i) return 0;
    b[i] = 0;
    return b;
}
int vp_fclose(FILE *f) { return vp_close(file_fd(f)); }
int vp_feof(FILE *f) { return vfd[file_fd(f) - 100].eof; }
int vp_ferror(FILE *f) { return 0; }
int vp_fileno(FILE *f) { return file_fd(f); }
off_t vp_lseek(int fd, off_t o, int w)
{
    int i = fd_ok(fd);
    return vfd[i].pos = (int)(w == SEEK_SET ? o : w == SEEK_CUR ? vfd[i].pos + o : vf[vfd[i].f].len + o);
}
int vp_ftruncate(int fd, off_t o)
{
    struct vfile *v = &vf[vfd[fd_ok(fd)].f];
    if (fs_step()) return -1;
    VP_BOUND(o <= FS_SIZE, "file size of the model");
    if (o > v->len) memset(v->data + v->len, 0, (size_t)o - v->len);
    v->len = (int)o; if (v->synced > v->len) v->synced = v->len;
    return 0;
}
int vp_fstat_(int fd, struct stat *s)
{
    int i = fd_ok(fd);
    memset(s, 0, sizeof *s);
    s->st_mode = vfd[i].f < FS_FILES ? S_IFREG | 0600 : S_IFDIR | 0700;
    s->st_size = vfd[i].f < FS_FILES ? vf[vfd[i].f].len : 0; s->st_nlink = 1;
    return 0;
}
static int fs_open_files(void) { int i, n = 0; for (i = 0; i < 8; i++) n += vfd[i].used; return n; }
