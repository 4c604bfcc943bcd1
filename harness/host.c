/* the name of a client's host: any reply of the name service, any failure */
#include "h.h"
#include "rename.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netdb.h>
#include <string.h>
#include <stdlib.h>
#ifndef NA
#define NA 3
#endif
char *getremotename(int fd);
void net_round(int ready) { }
struct name { int fam; unsigned char b[16]; };
static struct name peer, cand[NA];
static int peer_fails, rev_fails, fwd_fails, num_fails, cand_fails[NA], ncand, hostlen, out, freed, got_num_fail;
static struct addrinfo *ai;
static void fill(struct sockaddr_storage *s, socklen_t *l, struct name *n)
{
    memset(s, 0, sizeof *s);
    if (n->fam == AF_INET) { struct sockaddr_in *i = (struct sockaddr_in *)s; i->sin_family = AF_INET; memcpy(&i->sin_addr, n->b, 4); *l = sizeof *i; }
    else { struct sockaddr_in6 *i = (struct sockaddr_in6 *)s; i->sin6_family = AF_INET6; memcpy(&i->sin6_addr, n->b, 16); *l = sizeof *i; }
}
static int sym_len(struct name *n) { return n->fam == AF_INET ? 4 : 16; }
static int same(struct name *a, struct name *b)
{
    int i, d = 0;
    if (a->fam != b->fam) return 0;
    for (i = 0; i < sym_len(a); i++) d |= a->b[i] ^ b->b[i];
    return d == 0;
}
/* the address in digits */
static void digits(const struct name *n, char *o)
{
    int i, l = n->fam == AF_INET ? 4 : 16;
    *o++ = n->fam == AF_INET ? '4' : '6';
    for (i = 0; i < l; i++) { *o++ = (char)('a' + (n->b[i] >> 4)); *o++ = (char)('a' + (n->b[i] & 15)); }
    *o = 0;
}
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
    struct sockaddr_storage s; socklen_t n;
    VP_ASSERT(fd == 7, "another client's address is asked for");
    if (peer_fails) return -1;
    fill(&s, &n, &peer);
    VP_ASSERT(*l >= n, "room for the address");
    memcpy(a, &s, n); *l = n;
    return 0;
}
static char host[400];
int vp_getnameinfo(const struct sockaddr *a, socklen_t n, char *h, socklen_t hl, char *s, socklen_t sl, int fl)
{
    struct name m; char b[40]; int i;
    VP_ASSERT(a->sa_family == AF_INET || a->sa_family == AF_INET6, "an address that was never filled in");
    VP_ASSERT(n == (a->sa_family == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6)), "the size of an address");
    m.fam = a->sa_family;
    if (m.fam == AF_INET) memcpy(m.b, &((struct sockaddr_in *)a)->sin_addr, 4); else memcpy(m.b, &((struct sockaddr_in6 *)a)->sin6_addr, 16);
    VP_ASSERT(!ai || !freed || (const char *)a < (const char *)ai || (const char *)a > (const char *)(ai + NA), "an address list is used after it was given back");
    if (fl & NI_NUMERICHOST) {
        for (i = 0; i < ncand; i++) if (ai && a == ai[i].ai_addr && cand_fails[i]) return EAI_FAIL;
        if (num_fails && !(ai && a != 0 && (const char *)a >= (const char *)ai && (const char *)a < (const char *)(ai + NA))) {
            for (i = 0; i < ncand; i++) if (ai && a == ai[i].ai_addr) break;
            if (!ai || i == ncand) return EAI_FAIL;
        }
        digits(&m, b);
        if (strlen(b) + 1 > hl) return EAI_OVERFLOW;
        strcpy(h, b);
        return 0;
    }
    VP_ASSERT(same(&m, &peer), "the name of another address is asked for");
    if (rev_fails) {
        if (fl & NI_NAMEREQD) return EAI_NONAME;
        digits(&m, b); strcpy(h, b);
        return 0;
    }
    if (strlen(host) + 1 > hl) return EAI_OVERFLOW;
    strcpy(h, host);
    return 0;
}
int vp_getaddrinfo(const char *n, const char *s, const struct addrinfo *hints, struct addrinfo **r)
{
    int i; socklen_t l;
    VP_ASSERT(!strcmp(n, host), "another name is looked up");
    if (fwd_fails) return EAI_AGAIN;
    VP_ASSERT(!ai || freed, "an address list is leaked");
    ai = malloc(NA * sizeof *ai);
    memset(ai, 0, NA * sizeof *ai);
    for (i = 0; i < ncand; i++) {
        struct sockaddr_storage *st = malloc(sizeof *st);
        VP_ASSUME(!hints || hints->ai_family == AF_UNSPEC || hints->ai_family == cand[i].fam);
        fill(st, &l, &cand[i]);
        ai[i].ai_family = cand[i].fam;
        ai[i].ai_addr = (struct sockaddr *)st;
        ai[i].ai_addrlen = l;
        if (i + 1 < ncand) ai[i].ai_next = &ai[i + 1];
    }
    out++; freed = 0;
    *r = ncand ? ai : 0;
    return 0;
}
void vp_freeaddrinfo(struct addrinfo *a)
{
    VP_ASSERT(a == (ncand ? ai : 0) && !freed, "an address list is given back twice");
    freed = 1; out--;
}
static void any_name(struct name *n)
{
    int i;
    n->fam = vp_pick(0, 1) ? AF_INET6 : AF_INET;
    memset(n->b, 0, 16);
    for (i = 0; i < sym_len(n); i++) n->b[i] = (unsigned char)vp_int(0, 255);
}
void harness(void)
{
    static const int L[] = { 1, 9, 63, 64, 65, 200, 251, 252, 253, 254, 255 };
    char *r, b[48], want[64]; int i, match = 0;
    peer_fails = vp_pick(0, 1);
    rev_fails = vp_pick(0, 1);
    fwd_fails = vp_pick(0, 1);
    num_fails = vp_pick(0, 1);
    any_name(&peer);
    hostlen = L[vp_pick(0, 10)];
    for (i = 0; i < hostlen; i++) host[i] = (char)('a' + i % 26);
    ncand = vp_pick(1, NA);
    for (i = 0; i < ncand; i++) { any_name(&cand[i]); cand_fails[i] = vp_pick(0, 1); if (same(&cand[i], &peer) && !cand_fails[i]) match = 1; }
    r = getremotename(7);
    VP_ASSERT(out == 0, "an address list is leaked");
    if (peer_fails) { VP_ASSERT(r == 0, "a client without address gets a name"); return; }
    VP_ASSERT(r != 0, "a client gets no name");
    digits(&peer, b);
    strcpy(want, "["); strcat(want, num_fails ? "(unknown)" : b); strcat(want, "]");
    match = match && !rev_fails && !fwd_fails;
    VP_WITNESS(match && ncand == NA && peer.fam == AF_INET6 && !same(&cand[0], &peer), "confirmed by a later address");
    VP_WITNESS(!match && !rev_fails && !fwd_fails && !num_fails, "not confirmed");
    if (!match) { VP_ASSERT(!strcmp(r, want), "a name is believed that does not lead back to the address"); return; }
    if (!num_fails) VP_ASSERT(!strcmp(r, host), "a confirmed name is not used");
    else VP_ASSERT(!strcmp(r, host) || !strcmp(r, want), "a confirmed name is not used");
}
