/* the kernel's sockets and the TLS library, as the network layer sees them.
 * Descriptors: 1 plain listener, 2 TLS listener, clients the lowest free one
 * from 3 on, as the kernel gives them out. */
#pragma once
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <poll.h>
#include "vp.h"
#include "pktserv/pktserv.h"
#define NFD MAX_USERS
#define LISTEN 1
#define LISTEN_TLS 2
#define FIRST 3
#ifndef NIN
#define NIN 24
#endif
#ifndef NOUT
#define NOUT 64
#endif
/* one connection, from the peer's side; connections are numbered as they are made */
struct vp_conn {
    int fd;                      /* -1 until accepted */
    int tls, shook;              /* TLS, and handshake finished */
    unsigned char in[NIN]; int arrived, taken, pulled;   /* bytes that reached the server, that it read, that the TLS library took off the socket */
    int fin;                     /* after those bytes: 0 nothing yet, 1 end of stream, 2 reset, 3 hung up */
    unsigned char out[NOUT]; int outlen;                 /* bytes the server wrote */
    int full;                    /* 1: the peer takes no more output; 2: the same, and poll does not show it */
    int failed;                  /* a call failed for good */
    int closed;                  /* close() calls */
    int stutter;
    const void *wbuf; int wlen;  /* TLS write that has to be repeated */
    unsigned char wcopy[NOUT];
};
#ifndef NCONN
#define NCONN 4
#endif
extern struct vp_conn vc[NCONN];
extern int vp_nconn;             /* accepted so far */
extern int vp_backlog;           /* connections waiting: the next ones of vc[] */
extern int vp_at[NFD + 2];           /* which connection a descriptor is, -1 if closed */
extern int vp_rounds;
extern int vp_werr;              /* how many writes may do other than take everything */
extern int vp_stutter;           /* every other write 1: would block, 2: takes one byte */
extern int vp_eintr;             /* how many polls may be interrupted */
extern int vp_aerr;              /* how many accepts may fail */
extern int vp_tlserr;            /* how many TLS calls may ask to be repeated */
extern int vp_fatal;             /* how many TLS calls may fail for good */
extern int vp_fatal_used;        /* ... did */
/* called at each poll, before readiness is computed; ends the run by net_end() */
void net_round(int ready);       /* ready: something is ready now */
extern int vp_round_again;       /* set by net_round() when it changed what is ready */
void net_end(void) __attribute__((noreturn));
void net_init(pktserv_cb_t *cb, int tls);
/* callbacks of the server, given by the harness */
