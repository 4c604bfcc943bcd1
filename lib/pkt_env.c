#include "rename.h"
#include "pkt_env.h"
#include <fcntl.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netdb.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include "pktserv_internal.h"
#define WEAK __attribute__((weak))
struct vp_conn vc[NCONN];
int vp_nconn, vp_backlog, vp_at[NFD + 2], vp_rounds, vp_stutter, vp_eintr, vp_aerr, vp_werr, vp_tlserr, vp_fatal, vp_fatal_used, vp_round_again;
int icbd_log, log_level;
void mdb(int level, const char *message) { }
void vmdb(int level, const char *fmt, ...) { }
int sslmdb(const char *str, size_t len, void *u) { return 0; }
time_t vp_time(time_t *t) { if (t) *t = 1000000; return 1000000; }
int vp_gettimeofday(struct timeval *tv, void *z) { tv->tv_sec = 1000000; tv->tv_usec = 0; return 0; }
#ifdef VP_SYM
void net_end(void) { vp_assume_(0); for (;;) ; }
void vp_exit(int c) { VP_FAIL("the server stopped"); vp_assume_(0); for (;;) ; }
#else
void net_end(void) { printf("VP-EXIT\n"); fflush(stdout); _Exit(0); }
void vp_exit(int c) { VP_FAIL("the server stopped"); _Exit(1); }
#endif
static int nlisten;
static struct vp_conn *at(int fd, const char *what)
{
    VP_ASSERT(fd >= FIRST && fd < NFD + 2 && vp_at[fd] >= 0, what);
    return &vc[vp_at[fd]];
}
static int readable(struct vp_conn *c) { return c->taken < c->arrived || c->fin; }
static int writable(struct vp_conn *c) { return c->full != 1 || c->fin >= 2; }
/* ---- what a plain connection does ---- */
ssize_t vp_read(int fd, void *b, size_t n)
{
    struct vp_conn *c = at(fd, "read from a descriptor that is closed"); int k;
    VP_ASSERT(!c->tls, "plain read on a TLS connection");
    if (n == 0) return 0;
    VP_ASSERT(n < 65536, "a read into more than any buffer");
    k = c->arrived - c->taken;
    if (k > (int)n) k = (int)n;
    if (k) { memcpy(b, c->in + c->taken, k); c->taken += k; return k; }
    if (c->fin == 1) return 0;
    if (c->fin) { c->failed = 1; errno = ECONNRESET; return -1; }
    errno = EAGAIN;
    return -1;
}
ssize_t vp_recv(int fd, void *b, size_t n, int fl) { return vp_read(fd, b, n); }
static void put(struct vp_conn *c, const void *b, int k)
{
    VP_BOUND(c->outlen + k <= NOUT, "output of the model");
    memcpy(c->out + c->outlen, b, k);
    c->outlen += k;
}
ssize_t vp_write(int fd, const void *b, size_t n)
{
    struct vp_conn *c = at(fd, "write to a descriptor that is closed"); int k = (int)n, w;
    VP_ASSERT(!c->tls, "plain write on a TLS connection");
    if (c->fin >= 2) { c->failed = 1; errno = EPIPE; return -1; }
    if (c->full) { errno = EAGAIN; return -1; }
    if (vp_stutter) {            /* every packet needs a second attempt */
        c->stutter = !c->stutter;
        if (c->stutter && vp_stutter == 1) { errno = EAGAIN; return -1; }
        if (c->stutter && n > 1) k = 1;
    }
    if (vp_werr > 0) {
        w = vp_pick(0, 3);
        if (w) vp_werr--;
        if (w == 1) { errno = EAGAIN; return -1; }
        if (w == 2) { c->failed = 1; errno = EPIPE; return -1; }
        if (w == 3) { VP_ASSUME(n > 1); k = vp_pick(1, (int)n - 1 < 3 ? (int)n - 1 : 3); }
    }
    put(c, b, k);
    return k;
}
ssize_t vp_send_(int fd, const void *b, size_t n, int fl) { return vp_write(fd, b, n); }
int vp_close(int fd)
{
    struct vp_conn *c = at(fd, "close of a descriptor that is closed");
    c->closed++;
    vp_at[fd] = -1;
    return 0;
}
int vp_shutdown(int fd, int how) { at(fd, "shutdown of a descriptor that is closed"); return 0; }
int vp_accept(int fd, struct sockaddr *a, socklen_t *l)
{
    int i; struct vp_conn *c;
    VP_ASSERT(fd == LISTEN || fd == LISTEN_TLS, "accept on a descriptor that does not listen");
    if (!vp_backlog || vc[vp_nconn].tls != (fd == LISTEN_TLS)) { errno = EAGAIN; return -1; }
    if (vp_aerr > 0 && vp_pick(0, 1)) { vp_aerr--; errno = ECONNABORTED; return -1; }
    for (i = FIRST; i < NFD + 2; i++) if (vp_at[i] < 0) break;
    VP_BOUND(i < NFD + 2 && vp_nconn < NCONN, "connections of the model");
    c = &vc[vp_nconn];
    vp_at[i] = vp_nconn++;
    vp_backlog--;
    c->fd = i;
    return i;
}
int vp_poll(struct pollfd *p, nfds_t n, int ms)
{
    int i, j, any;
again:
    any = 0;
    for (i = 0; i < (int)n; i++) {
        int fd = p[i].fd, r = 0; struct vp_conn *c;
        for (j = 0; j < i; j++) VP_ASSERT(p[j].fd != fd, "a descriptor is polled twice");
        if (fd == LISTEN || fd == LISTEN_TLS) { if (vp_backlog && vc[vp_nconn].tls == (fd == LISTEN_TLS)) r = POLLIN; }
        else {
            c = at(fd, "a closed descriptor is polled");
            if (c->tls ? c->pulled < c->arrived || c->fin : readable(c)) r |= POLLIN;
            if (writable(c)) r |= POLLOUT;
            r &= p[i].events;
            if (c->fin == 2) r |= POLLERR | POLLHUP;
            if (c->fin == 3) r |= POLLHUP;
        }
        p[i].revents = (short)r;
        any += r != 0;
    }
    vp_round_again = 0;
    net_round(any);
    if (vp_round_again) goto again;
    vp_rounds++;
    if (vp_eintr > 0 && vp_pick(0, 1)) { vp_eintr--; errno = EINTR; return -1; }
    return any;
}
/* ---- sockets that cannot fail here ---- */
int vp_setsockopt(int s, int l, int o, const void *v, socklen_t n) { return 0; }
int vp_fcntl(int s, int c, ...) { return 0; }
int vp_ioctl(int s, unsigned long c, ...) { return 0; }
int vp_socket(int d, int t, int p) { return ++nlisten; }
int vp_bind(int s, const struct sockaddr *a, socklen_t l) { return 0; }
int vp_listen(int s, int b) { return 0; }
WEAK int vp_getsockname(int s, struct sockaddr *a, socklen_t *l) { return -1; }
WEAK int vp_getpeername(int s, struct sockaddr *a, socklen_t *l) { return -1; }
WEAK int vp_getnameinfo(const struct sockaddr *a, socklen_t n, char *h, socklen_t hl, char *s, socklen_t sl, int fl) { return EAI_FAIL; }
WEAK int vp_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r)
{
    static struct addrinfo a; static struct sockaddr_in6 sa;
    a.ai_family = AF_INET6; a.ai_socktype = SOCK_STREAM; a.ai_addr = (struct sockaddr *)&sa; a.ai_addrlen = sizeof sa;
    *r = &a;
    return 0;
}
WEAK void vp_freeaddrinfo(struct addrinfo *a) { }
const char *vp_gai_strerror(int e) { return "error"; }
int vp_open(const char *p, int f, ...) { return -1; }
int vp_fsync(int fd) { return 0; }
int vp_rename(const char *a, const char *b) { return -1; }
int vp_unlink(const char *a) { return -1; }
FILE *vp_fopen(const char *a, const char *b) { return 0; }
char *vp_fgets(char *b, int n, FILE *f) { return 0; }
int vp_fclose(FILE *f) { return 0; }
struct tm *vp_localtime(const time_t *t) { static struct tm tm; return &tm; }
size_t vp_strftime(char *b, size_t n, const char *f, const struct tm *t) { b[0] = 0; return 0; }
int vp_execve(const char *p, char *const a[], char *const e[]) { return -1; }
int vp_fork(void) { return -1; }
/* ---- the TLS library: one record at a time is taken off the socket ---- */
#ifdef VP_SYM
int fscanf(FILE *f, const char *s, ...) { return 0; }
#endif
static int tls_why, tls_queue;     /* the errors queued, of whatever connection */
static int again(void)           /* must this call be repeated? */
{
    int w;
    if (vp_tlserr <= 0) return 0;
    w = vp_pick(0, 2);
    if (w) vp_tlserr--;
    tls_why = w == 1 ? SSL_ERROR_WANT_READ : SSL_ERROR_WANT_WRITE;
    return w != 0;
}
static int fatal(struct vp_conn *c)
{
    int w;
    if (vp_fatal <= 0) return 0;
    w = vp_pick(0, 2);
    if (!w) return 0;
    vp_fatal--; vp_fatal_used++;
    errno = vp_pick(0, 1) ? EAGAIN : ECONNRESET;       /* errno says nothing here */
    tls_why = w == 1 ? SSL_ERROR_SSL : SSL_ERROR_SYSCALL;
    if (w == 1) tls_queue = vp_pick(0, 2);             /* what the library says of it */
    c->failed = 1;
    return 1;
}
struct vp_ssl { int fd; };
static struct vp_conn *tls(const SSL *s, const char *what)
{
    struct vp_conn *c = at(((const struct vp_ssl *)s)->fd, what);
    VP_ASSERT(c->tls, "TLS on a plain connection");
    VP_ASSERT(!c->failed, "a TLS connection is used after it failed for good");
    return c;
}
SSL *SSL_new(SSL_CTX *x) { struct vp_ssl *s = malloc(sizeof *s); s->fd = -1; return (SSL *)s; }
int SSL_set_fd(SSL *s, int fd) { ((struct vp_ssl *)s)->fd = fd; return 1; }
void SSL_free(SSL *s) { if (s) { ((struct vp_ssl *)s)->fd = -1; free(s); } }
int SSL_get_error(const SSL *s, int r) { return r > 0 ? SSL_ERROR_NONE : tls_queue ? SSL_ERROR_SSL : tls_why; }
int SSL_accept(SSL *s)
{
    struct vp_conn *c = tls(s, "handshake on a closed descriptor");
    VP_ASSERT(!c->shook, "a second handshake");
    tls_queue = 0;
    if (again()) return -1;
    if (fatal(c)) return -1;
    if (c->fin) { c->failed = 1; tls_why = SSL_ERROR_SYSCALL; return c->fin == 1 ? 0 : -1; }
    c->shook = 1;
    return 1;
}
int SSL_pending(const SSL *s)
{
    struct vp_ssl *v = (struct vp_ssl *)s; struct vp_conn *c;
    if (v->fd < 0) return 0;
    c = at(v->fd, "TLS on a closed descriptor");
    return c->failed ? 0 : c->pulled - c->taken;
}
int SSL_has_pending(const SSL *s) { return SSL_pending(s) > 0; }
int SSL_read(SSL *s, void *b, int n)
{
    struct vp_conn *c = tls(s, "read from a descriptor that is closed"); int k;
    VP_ASSERT(c->shook, "read before the handshake");
    if (n == 0) { tls_why = SSL_ERROR_SYSCALL; return 0; }
    if (c->pulled == c->taken) {
        if (again()) return -1;
        if (fatal(c)) return -1;
        if (c->pulled < c->arrived) c->pulled += vp_pick(1, c->arrived - c->pulled);
        else if (c->fin == 1) { c->failed = 1; tls_why = vp_pick(0, 1) ? SSL_ERROR_ZERO_RETURN : SSL_ERROR_SYSCALL; return 0; }
        else if (c->fin) { c->failed = 1; tls_why = SSL_ERROR_SYSCALL; errno = EAGAIN; return -1; }
        else { tls_why = SSL_ERROR_WANT_READ; return -1; }
    }
    k = c->pulled - c->taken;
    if (k > n) k = n;
    memcpy(b, c->in + c->taken, k);
    c->taken += k;
    return k;
}
int SSL_write(SSL *s, const void *b, int n)
{
    struct vp_conn *c = tls(s, "write to a descriptor that is closed"); int w;
    VP_ASSERT(c->shook, "write before the handshake");
    VP_ASSERT(n > 0, "write of nothing");
    if (c->wbuf) {
        VP_ASSERT(b == c->wbuf && n == c->wlen, "a TLS write is not repeated with the same buffer");
        VP_ASSERT(!memcmp(b, c->wcopy, n), "a TLS write is repeated with other bytes");
    }
    w = again();
    if (!w && c->full) { w = 1; tls_why = SSL_ERROR_WANT_WRITE; }
    if (w) {
        VP_BOUND(n <= NOUT, "output of the model");
        c->wbuf = b; c->wlen = n; memcpy(c->wcopy, b, n);
        return -1;
    }
    c->wbuf = 0;
    if (fatal(c)) return -1;
    if (c->fin >= 2) { c->failed = 1; tls_why = SSL_ERROR_SYSCALL; return -1; }
    put(c, b, n);
    return n;
}
unsigned long ERR_get_error(void) { if (!tls_queue) return 0; tls_queue--; return 1; }
unsigned long ERR_peek_error(void) { return tls_queue > 0; }
void ERR_clear_error(void) { tls_queue = 0; }
char *ERR_error_string(unsigned long e, char *b) { b[0] = 'e'; b[1] = 0; return b; }
void ERR_error_string_n(unsigned long e, char *b, size_t n) { b[0] = 0; }
void ERR_print_errors_cb(int (*cb)(const char *, size_t, void *), void *u) { }
int OPENSSL_init_ssl(uint64_t o, const OPENSSL_INIT_SETTINGS *s) { return 1; }
int OPENSSL_init_crypto(uint64_t o, const OPENSSL_INIT_SETTINGS *s) { return 1; }
const SSL_METHOD *TLS_server_method(void) { return (const SSL_METHOD *)1; }
static int a_ctx;
SSL_CTX *SSL_CTX_new(const SSL_METHOD *m) { return (SSL_CTX *)&a_ctx; }
void SSL_CTX_free(SSL_CTX *x) { }
uint64_t SSL_CTX_set_options(SSL_CTX *x, uint64_t o) { return o; }
long SSL_CTX_ctrl(SSL_CTX *x, int c, long l, void *p) { return 1; }
int SSL_CTX_set_cipher_list(SSL_CTX *x, const char *s) { return 1; }
int SSL_CTX_set_ciphersuites(SSL_CTX *x, const char *s) { return 1; }
void SSL_CTX_set_verify(SSL_CTX *x, int m, SSL_verify_cb cb) { }
int SSL_CTX_use_PrivateKey_file(SSL_CTX *x, const char *f, int t) { return 1; }
int SSL_CTX_use_certificate_file(SSL_CTX *x, const char *f, int t) { return 1; }
int SSL_CTX_check_private_key(const SSL_CTX *x) { return 1; }
extern SSL_CTX *ctx;
void net_init(pktserv_cb_t *cb, int with_tls)
{
    int i;
    for (i = 0; i < NFD + 2; i++) vp_at[i] = -1;
    for (i = 0; i < NCONN; i++) vc[i].fd = -1;
    pktserv_init(0, cb);
    VP_ASSERT(pktserv_addport("", 7326, 0) == LISTEN, "listening");
    if (with_tls) { init_ssl("x"); VP_ASSERT(pktserv_addport("", 7327, 1) == LISTEN_TLS, "listening with TLS"); }
}
