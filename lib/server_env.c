/* environment of the server: the network layer and the clock. */
#include "rename.h"
#include "server_env.h"
#include "pktserv/pktserv.h"
#include "groups.h"
#include "users.h"
#include <string.h>
#define WEAK __attribute__((weak))
struct vp_event vp_ev[VP_MAXEV];
int vp_nev, vp_disc[MAX_USERS], vp_exited, vp_sent[MAX_USERS];
long vp_now = 1000000;
int icbd_log, log_level;
void mdb(int level, const char *message) { }
void vmdb(int level, const char *fmt, ...) { }
int sslmdb(const char *str, size_t len, void *u) { return 0; }
time_t vp_time(time_t *t) { if (t) *t = vp_now; return vp_now; }
int vp_gettimeofday(struct timeval *tv, void *z) { tv->tv_sec = vp_now; tv->tv_usec = 0; return 0; }
struct tm *vp_localtime(const time_t *t) { static struct tm tm; return &tm; }
size_t vp_strftime(char *b, size_t n, const char *f, const struct tm *t) { b[0] = 'T'; b[1] = 0; return 1; }
void (*vp_on_exit)(void);
int vp_in_pkt, vp_over;
int vp_execed, vp_send_result, vp_send_to = -1;
#ifdef VP_SYM
void vp_exit(int c) { vp_exited = 1; if (vp_on_exit) vp_on_exit(); vp_assume_(0); for (;;) ; }
#else
void vp_exit(int c) { vp_exited = 1; if (vp_on_exit) vp_on_exit(); printf("VP-EXIT\n"); fflush(stdout); _Exit(0); }
#endif
WEAK int vp_execve(const char *p, char *const a[], char *const e[]) { vp_execed++; return -1; }
int vp_forked;
WEAK int vp_fork(void) { vp_forked++; return 1; }
int pktserv_send(int to, char *pkt, size_t len)
{
    VP_ASSERT(to >= 0 && to < MAX_REAL_USERS, "packet sent to a descriptor that is no client's");
    VP_ASSERT(len >= 1 && len <= MAX_PKT_LEN, "packet longer than the protocol allows");
    vp_sent[to]++;
    if (vp_nev < VP_MAXEV) {
        vp_ev[vp_nev].to = to;
        vp_ev[vp_nev].len = (int)len;
        memcpy(vp_ev[vp_nev].data, pkt, len);
        vp_nev++;
    } else {
        VP_BOUND(vp_in_pkt, "more packets than the event log holds");
        VP_ASSERT(++vp_over < 5000, "packets without end in answer to one");
    }
    return vp_send_to < 0 || vp_send_to == to ? vp_send_result : 0;
}
int pktserv_disconnect(int n) { if (n >= 0 && n < MAX_USERS) vp_disc[n]++; return 0; }
WEAK char *getremotename(int fd) { return "h"; }
/* ---- files: none exist unless a harness provides its own model --------- */
WEAK int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l) { return -1; }
WEAK int vp_getnameinfo(const struct sockaddr *a, socklen_t n, char *h, socklen_t hl, char *s, socklen_t sl, int fl)
{
    VP_ASSERT(a->sa_family == AF_INET || a->sa_family == AF_INET6 || a->sa_family == AF_UNSPEC, "an address is reported that was never filled in");
    if (a->sa_family == AF_UNSPEC) return EAI_FAMILY;
    strcpy(h, "1.2.3.4");
    return 0;
}
WEAK int vp_open(const char *p, int f, ...) { return -1; }
WEAK ssize_t vp_read(int fd, void *b, size_t n) { return -1; }
WEAK ssize_t vp_write(int fd, const void *b, size_t n) { return -1; }
WEAK int vp_close(int fd) { return 0; }
WEAK int vp_fsync(int fd) { return 0; }
WEAK int vp_rename(const char *a, const char *b) { return -1; }
WEAK int vp_unlink(const char *a) { return -1; }
WEAK FILE *vp_fopen(const char *a, const char *b) { return 0; }
WEAK char *vp_fgets(char *b, int n, FILE *f) { return 0; }
WEAK int vp_fclose(FILE *f) { return 0; }
WEAK void pktserv_dumpsockets(FILE *f) { }
WEAK void pktserv_loadsockets(FILE *f) { }
