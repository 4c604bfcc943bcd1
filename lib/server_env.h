#pragma once
#include "config.h"
#include "server.h"
#include "externs.h"
#include "vp.h"
#ifndef VP_MAXEV
#define VP_MAXEV 40
#endif
/* packets handed to the network layer, in order */
struct vp_event { int to; int len; char data[MAX_PKT_LEN]; };
extern struct vp_event vp_ev[VP_MAXEV];
extern int vp_nev;
extern int vp_in_pkt, vp_over;   /* a packet is being handled; packets beyond the log */
extern int vp_disc[MAX_USERS];   /* pktserv_disconnect() calls */
extern int vp_exited, vp_execed, vp_forked;
extern long vp_now;              /* current time */
extern int vp_sent[MAX_USERS];   /* packets per destination */
extern int vp_send_result;       /* what the network layer answers */
extern int vp_send_to;           /* ... for that client only */
extern void (*vp_on_exit)(void);
