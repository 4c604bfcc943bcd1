/* further calls the code might use, in terms of the modelled ones */
#include "rename.h"
#include <string.h>
#include <sys/uio.h>
#define WEAK __attribute__((weak))
struct tm *vp_localtime_r(const time_t *t, struct tm *r) { *r = *vp_localtime(t); return r; }
char *vp_ctime(const time_t *t) { static char b[32]; strcpy(b, "Thu Jan  1 00:00:00 1970\n"); return b; }
char *vp_ctime_r(const time_t *t, char *b) { return strcpy(b, "Thu Jan  1 00:00:00 1970\n"); }
int vp_clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = vp_time(0); ts->tv_nsec = 0; return 0; }
int vp_fgetc(FILE *f) { char b[2]; return vp_fgets(b, 2, f) ? (unsigned char)b[0] : EOF; }
size_t vp_fread(void *p, size_t n, size_t k, FILE *f)
{
    size_t i; char *b = p; int c;
    for (i = 0; i < n * k; i++) { if ((c = vp_fgetc(f)) == EOF) break; b[i] = (char)c; }
    return n ? i / n : 0;
}
int vp_fdatasync(int fd) { return vp_fsync(fd); }
int vp_access(const char *p, int m) { int fd = vp_open(p, O_RDONLY); if (fd < 0) return -1; vp_close(fd); return 0; }
ssize_t vp_writev(int fd, const struct iovec *v, int n)
{
    char b[1024]; size_t o = 0; int i;
    for (i = 0; i < n; i++) { if (o + v[i].iov_len > sizeof b) break; memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    return vp_write(fd, b, o);
}

#undef stat
#include <errno.h>
/* how much of the file is read, where the harness has no files */
ssize_t vp_getline(char **l, size_t *n, FILE *f)
{
    size_t k = 0; int c;
    if (!*l || *n < 300) { *l = realloc(*l, 300); *n = 300; }
    while (k < 298 && (c = vp_fgetc(f)) != EOF) { (*l)[k++] = (char)c; if (c == '\n') break; }
    (*l)[k] = 0;
    return k ? (ssize_t)k : -1;
}
WEAK int vp_feof(FILE *f) { return 1; }
WEAK int vp_ferror(FILE *f) { return 0; }
WEAK off_t vp_lseek(int fd, off_t o, int w) { errno = EBADF; return -1; }
WEAK int vp_ftruncate(int fd, off_t o) { errno = EBADF; return -1; }
WEAK int vp_fstat_(int fd, struct stat *s) { errno = EBADF; return -1; }
WEAK int vp_fileno(FILE *f) { return -1; }
int vp_stat_(const char *p, struct stat *s)
{
    int fd = vp_open(p, O_RDONLY), r;
    if (fd < 0) return -1;
    r = vp_fstat_(fd, s);
    vp_close(fd);
    return r;
}
int vp_mkstemp(char *t) { size_t l = strlen(t); memcpy(t + l - 6, "a1b2c3", 6); return vp_open(t, O_RDWR | O_CREAT | O_EXCL, 0600); }
ssize_t vp_pread(int fd, void *b, size_t n, off_t o)
{
    off_t was = vp_lseek(fd, 0, SEEK_CUR); ssize_t r;
    vp_lseek(fd, o, SEEK_SET); r = vp_read(fd, b, n); vp_lseek(fd, was, SEEK_SET);
    return r;
}
ssize_t vp_pwrite(int fd, const void *b, size_t n, off_t o)
{
    off_t was = vp_lseek(fd, 0, SEEK_CUR); ssize_t r;
    vp_lseek(fd, o, SEEK_SET); r = vp_write(fd, b, n); vp_lseek(fd, was, SEEK_SET);
    return r;
}
int vp_fchmod(int fd, mode_t m) { return 0; }
struct tm *vp_gmtime(const time_t *t) { return vp_localtime(t); }
