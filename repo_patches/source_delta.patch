From 7cc92929ca01cc6084810a4575ce93776bffb5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:34 +0000
Subject: [PATCH 01/48] fix: split() wrote past fields[] and left stale
 pointers in it

A packet with more than MAX_FIELDS separators stored a pointer one past the
end of fields[]. Fields that were missing from a packet kept pointing into
the (freed) buffer of an earlier packet and were then read and written by
the command handlers; point them at an empty scratch string instead.
---
 server/strutil.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/strutil.c b/server/strutil.c
index a0083fd..1c31a79 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -251,9 +251,17 @@ char *fields[MAX_FIELDS];
 
 int split(char *s)
 {
+    /* what fields that weren't in the packet point at. big enough that
+     * it can stand in for anything that could be in a packet. */
+    static char nofield[MAX_PKT_LEN];
     char *p = s;
-    int i = 0;
+    int i;
 
+    memset(nofield, 0, sizeof(nofield));
+    for (i = 0; i < MAX_FIELDS; i++)
+        fields[i] = nofield;
+
+    i = 0;
     fields[i] = s;
     for(;;) {
 
@@ -268,7 +276,7 @@ int split(char *s)
          * is all cleaned up, we just stop at the MAX_FIELDS
          * which is only slightly better.
          */
-        if ( i > MAX_FIELDS )
+        if ( i >= MAX_FIELDS )
             return (MAX_FIELDS);
 
         /* find delim or EOS */
-- 
2.43.0


From 5afe168845efad06194aae2e3b875a72f959b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:34 +0000
Subject: [PATCH 02/48] fix: getword() wrote its terminator one past the end of
 the word buffer

---
 server/strutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/strutil.c b/server/strutil.c
index 1c31a79..74aa7a2 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -224,7 +224,7 @@ char *getword(char *s)
 {
     static char word[64];
     char *w = word;
-    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < 64))
+    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < 63))
         *w++ = *s++;
     *w = '\0';
     return(word);
-- 
2.43.0


From 0e1a15e5c46c9787196f358077fea68d66488775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 03/48] fix: wildmat() read past the end of a pattern with an
 unclosed class

Patterns come from users (hush, notify, invite), so "[", "[^" or "[a-" made
the server read beyond the string.
---
 server/wildmat.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server/wildmat.c b/server/wildmat.c
index 99367b0..c85dd5d 100644
--- a/server/wildmat.c
+++ b/server/wildmat.c
@@ -1,8 +1,7 @@
 /*  $Revision: 1.2 $
  **
  **  Do shell-style pattern matching for ?, \, [], and * characters.
- **  Might not be robust in face of malformed patterns; e.g., "foo[a-"
- **  could cause a segmentation violation.  It is 8bit clean.
+ **  A malformed pattern, e.g. "foo[a-", doesn't match.  It is 8bit clean.
  **
  **  Written by Rich $alz, mirror!rs, Wed Nov 26 19:03:17 EST 1986.
  **  Rich $alz is now <rsalz@osf.org>.
@@ -98,9 +97,12 @@ DoMatch(char *text, char *p)
                         matched = TRUE;
                 for (last = *p; *++p && *p != ']'; last = *p)
                     /* This next line requires a good C compiler. */
-                    if (*p == '-' && p[1] != ']'
+                    if (*p == '-' && p[1] != ']' && p[1] != '\0'
                         ? *text <= *++p && *text >= last : *text == *p)
                         matched = TRUE;
+                if (*p == '\0')
+                    /* Malformed: the class is never closed. */
+                    return FALSE;
                 if (matched == reverse)
                     return FALSE;
                 continue;
-- 
2.43.0


From c312ddb5315197df8b5e0f730dd404395b866b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:36 +0000
Subject: [PATCH 04/48] fix: packet text filling its buffer was sent without a
 terminating NUL

filtertext() uses up to len chars, so callers passing the full buffer size
got an unterminated string that was then read past its end and into the
packet.
---
 server/send.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/server/send.c b/server/send.c
index ab12279..08bf60d 100644
--- a/server/send.c
+++ b/server/send.c
@@ -28,12 +28,20 @@ extern char * getremotename(int socketfd);
 
 char packetbuffer[MAX_PKT_LEN]; /* packet buffer */
 
+/* filter text into a buffer of destsz bytes. filtertext() may use all of the
+ * chars it's given, so keep one back for the terminating NULL.
+ */
+static void filterbuf(const char *src, char *dest, size_t destsz)
+{
+    filtertext(src, dest, destsz - 1);
+    dest[destsz - 1] = '\0';
+}
 
 /* send an error message to the client */
 void senderror(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA];
-    filtertext(message, msgbuf, MAX_PKT_DATA);
+    filterbuf(message, msgbuf, sizeof(msgbuf));
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s",
             ICB_M_ERROR, msgbuf);
     doSend(-1, to);
@@ -46,8 +54,8 @@ void sendperson(int from, int to, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterbuf(u_tab[from].nickname, nickbuf, sizeof(nickbuf));
+    filterbuf(message, msgbuf, sizeof(msgbuf));
 
     char one[255], two[MAX_NICKLEN+1];
     snprintf(one, 255, "%s@%s", u_tab[from].loginid, u_tab[from].nodeid);
@@ -74,8 +82,8 @@ void sendopen(int from, int to, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterbuf(u_tab[from].nickname, nickbuf, sizeof(nickbuf));
+    filterbuf(message, msgbuf, sizeof(msgbuf));
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_OPEN, nickbuf, msgbuf);
@@ -107,8 +115,8 @@ void sendstatus(int to, const char *status, const char *message)
     char statusbuf[MAX_STATUS_LEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filterbuf(status, statusbuf, sizeof(statusbuf));
+    filterbuf(message, msgbuf, sizeof(msgbuf));
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_STATUS, statusbuf, msgbuf);
@@ -120,7 +128,7 @@ void send_cmdend(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA-4];
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-4);
+    filterbuf(message, msgbuf, sizeof(msgbuf));
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001\001%s", 
              ICB_M_CMDOUT, "ec", msgbuf);
     doSend(-1, to);
@@ -131,7 +139,7 @@ void sends_cmdout(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA-3];
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-3);
+    filterbuf(message, msgbuf, sizeof(msgbuf));
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_CMDOUT, "co", msgbuf);
     doSend(-1, to);
@@ -146,8 +154,8 @@ void send_person_stored(int to, const char* fromNick, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(fromNick, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterbuf(fromNick, nickbuf, sizeof(nickbuf));
+    filterbuf(message, msgbuf, sizeof(msgbuf));
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_PERSONAL, nickbuf, msgbuf);
@@ -241,8 +249,8 @@ void sendimport(int to, const char *status, const char *message)
     char statusbuf[MAX_STATUS_LEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filterbuf(status, statusbuf, sizeof(statusbuf));
+    filterbuf(message, msgbuf, sizeof(msgbuf));
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_IMPORTANT, statusbuf, msgbuf);
-- 
2.43.0


From 42c222fde79f75f671dac2bddb0ff554f714ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:13 +0000
Subject: [PATCH 05/48] fix: spam and idle boots wrote the new group name into
 a freed packet

fields[1] still pointed into an earlier packet's buffer (or nowhere at all)
when the group name was copied through it.
---
 server/ipcf.c | 4 +++-
 server/msgs.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 5c475c6..814cb6a 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -46,6 +46,7 @@ void s_didpoll(int n)
     int i, j, newmod;
     long TheTime;
     extern int is_booting;
+    static char newgroup[MAX_GROUPLEN+1];
 
     if (n == 1) {
         /* do nothing on the frequent polls */
@@ -300,7 +301,8 @@ void s_didpoll(int n)
                     }
 
                     /* fake an s_change to group IDLE_GROUP */
-                    strcpy (fields[1], IDLE_GROUP);
+                    strcpy (newgroup, IDLE_GROUP);
+                    fields[1] = newgroup;
                     is_booting = 1;
                     s_change(i, 2);
                     is_booting = 0;
diff --git a/server/msgs.c b/server/msgs.c
index 01838e4..20729c7 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -194,6 +194,7 @@ int u_recv_count[MAX_USERS];
 
 void openmsg(int n, char *pkt)
 {
+    static char newgroup[MAX_GROUPLEN+1];
     time_t TheTime;
     int gi;
 
@@ -219,7 +220,8 @@ void openmsg(int n, char *pkt)
                             u_tab[n].nickname);
                     s_status_group(1,1,n, "Boot", mbuf);
                     /* fake an s_change to group ICB */
-                    strcpy (fields[1], "ICB");
+                    strcpy (newgroup, "ICB");
+                    fields[1] = newgroup;
                     is_booting = 1;
                     s_change(n, 2);
                     is_booting = 0;
-- 
2.43.0


From 51a7e554b75afea28c8881a7f041a7feeb65ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:13 +0000
Subject: [PATCH 06/48] fix: open message to a controlled group without a
 moderator read u_tab[-1]

---
 server/msgs.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 20729c7..46c6cc6 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -260,10 +260,13 @@ void openmsg(int n, char *pkt)
             {
                 senderror (n,
                            "You do not have permission to send open messages in this group.");
-                sprintf (mbuf,
-                         "Use \"/m %s may i talk?\" to request permission.",
-                         u_tab[g_tab[gi].mod].nickname);
-                sendstatus (n, "INFO", mbuf);
+                if (g_tab[gi].mod >= 0)
+                {
+                    sprintf (mbuf,
+                             "Use \"/m %s may i talk?\" to request permission.",
+                             u_tab[g_tab[gi].mod].nickname);
+                    sendstatus (n, "INFO", mbuf);
+                }
             }
             else if (count_users_in_group(g_tab[gi].name) < 2)
                 senderror(n,
-- 
2.43.0


From 2dadf28800994d9594d47f26cfbff23362290e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:13 +0000
Subject: [PATCH 07/48] fix: packets refused before login logged a field of an
 earlier, freed packet

---
 server/msgs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 46c6cc6..1d81f02 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -277,7 +277,7 @@ void openmsg(int n, char *pkt)
         }
     } else {
         vmdb(MSG_INFO, "%d: cannot send open messages until logged in (%s)",
-             n, fields[0]);
+             n, pkt);
     }
 }
 
@@ -928,7 +928,7 @@ void cmdmsg(int n, char *pkt)
     {
         sprintf (mbuf,
                  "%d: cannot issue command until logged in (%s)",
-                 n, fields[0]);
+                 n, pkt);
         mdb(MSG_INFO, mbuf);
     }
 }
-- 
2.43.0


From dcad0ec721ff3410c8cad64b8cf1a782a70a207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:13 +0000
Subject: [PATCH 08/48] fix: login could take a nickname that was already in
 use

The nickname was checked against the ones in use before its illegal
characters were replaced, so "foo bar" could log in as a second "foo_bar".
---
 server/msgs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 1d81f02..a317d9b 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -385,6 +385,9 @@ int loginmsg(int n, char *pkt)
     {
         /* regular login */
 
+        /* get rid of nasty characters in the nickname */
+        filternickname(fields[1]);
+
         /* make sure the nickname hasn't already been taken */
         if (find_user(fields[1]) >= 0)
         {
@@ -511,9 +514,6 @@ int loginmsg(int n, char *pkt)
             mdb(MSG_ERR, mbuf);
         }
 
-        /* get rid of nasty characters in the nickname */
-        filternickname(fields[1]);
-
         /* fill in what we can */
         fill_user_entry(n, fields[0], cp, fields[1],
                         fields[4], "", "", LOGIN_FALSE, 0, 0, perms);
-- 
2.43.0


From 7b40b562f6bf43f7d459bac9a535ba11f7bd703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:57 +0000
Subject: [PATCH 09/48] fix: losing a user who isn't in a group left them
 moderator

Someone whose login was refused by their group isn't in one. If they had
just regained a moderatorship, it stayed with their slot and went to
whoever connected there next. Also looked at g_tab[-1] for notifies.
---
 server/ipcf.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 814cb6a..ffc1901 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -382,11 +382,12 @@ int s_lost_user(int n)         /* n = fd of that user */
     ucaseit(one);
     strcpy(three, u_tab[n].nickname);
     ucaseit(three);
+    ogi = find_group(t_grp);
     for (j = 0; j < MAX_USERS; j++) {
-        if ((n != j) && (u_tab[j].login > LOGIN_FALSE)) {
+        if ((ogi >= 0) && (n != j) && (u_tab[j].login > LOGIN_FALSE)) {
             if ((nlmatch(three, *u_tab[j].n_notifies) ||
                  nlmatch(one, *u_tab[j].s_notifies)) &&
-                (g_tab[find_group(u_tab[n].group)].visibility != 
+                (g_tab[ogi].visibility != 
                  SUPERSECRET)) {
                 /* ignore warning about 'one' being possibly truncated
                  * when copying into 'two'.
@@ -406,16 +407,15 @@ int s_lost_user(int n)         /* n = fd of that user */
 
     /* At least they were logged in */
 
-    /* find out what group they are in */
-    /* note: they may be moderator of a group they are NOT in */
-
-    ogi = find_group(t_grp);
-    if (ogi < 0) return -1;
+    /* note: they may be moderator of a group they are NOT in, and they
+     * aren't in any group if they didn't get all the way through a login */
 
     /* check if there are any users left in present group */
     num_left = count_users_in_group(t_grp);
 
-    if ( num_left > 0) {
+    if (ogi < 0) {
+        /* they weren't in a group. nobody to tell. */
+    } else if ( num_left > 0) {
         /* tell remaining group members user left */
         TheTime = time(NULL);
         if (is_killed > 0)
-- 
2.43.0


From 05ae372a19ec1a765300544e969b53f86ac53aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:25 +0000
Subject: [PATCH 10/48] fix: a refused login kept its nickname and was never
 disconnected

The slot kept the nickname (so it could be messaged, followed to its
nonexistent group, or passed moderator to), and the kill was only carried
out for users who are logged in.
---
 server/dispatch.c |  9 +++++++++
 server/ipcf.c     | 13 ++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/server/dispatch.c b/server/dispatch.c
index 346f4de..386fd21 100644
--- a/server/dispatch.c
+++ b/server/dispatch.c
@@ -8,6 +8,7 @@
 #include "server.h"
 #include "pktserv/pktserv.h" /* for pktserv_disconnect() */
 #include "externs.h"
+#include "ipcf.h"
 #include "send.h"
 #include "msgs.h"
 #include "mdb.h"
@@ -23,6 +24,10 @@
  */ 
 void dispatch(int n, char *pkt)
 {
+    /* we're done with the ones that are about to be disconnected */
+    if (S_kill[n] > 0)
+        return;
+
     switch(*pkt) {
 
     case ICB_M_LOGIN:
@@ -35,6 +40,10 @@ void dispatch(int n, char *pkt)
         if(loginmsg(n, ++pkt) < 0) {
             /* login failed.  dump them */
             sendexit(n);
+            /*
+             * they don't get to keep the nickname or anything else
+             */
+            s_lost_user(n);
             /*
              * we set S_kill since we want to make sure
              * error msgs reach them before the disconnect
diff --git a/server/ipcf.c b/server/ipcf.c
index ffc1901..9d70b9c 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -76,13 +76,12 @@ void s_didpoll(int n)
         }
 
         for(i=0;i<MAX_REAL_USERS;i++) {
-            if ( u_tab[i].login > LOGIN_FALSE ) {
-                if (S_kill[i] > 0) {
-                    sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
-                    mdb(MSG_INFO, mbuf);
-                    server_stats.drops++;
-                    pktserv_disconnect(i);
-                }
+            /* this includes the ones whose login was refused */
+            if (S_kill[i] > 0) {
+                sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
+                mdb(MSG_INFO, mbuf);
+                server_stats.drops++;
+                pktserv_disconnect(i);
             }
         }
 
-- 
2.43.0


From 7260825f343380c02ebd21dc9fb90f0414fbd364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:25 +0000
Subject: [PATCH 11/48] fix: a client connected on the Server user's slot acted
 as Server

Only login packets were refused there, so without logging in it could send
commands and open messages as the (logged in) Server user.
---
 server/dispatch.c | 14 ++++++++------
 server/send.c     |  7 ++++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/server/dispatch.c b/server/dispatch.c
index 386fd21..71f04af 100644
--- a/server/dispatch.c
+++ b/server/dispatch.c
@@ -24,6 +24,14 @@
  */ 
 void dispatch(int n, char *pkt)
 {
+    /* nobody gets to act as one of our resident automagical users */
+    if(n >= MAX_REAL_USERS) {
+        senderror(n, "ICB is full.");
+        sendexit(n);
+        pktserv_disconnect(n);
+        return;
+    }
+
     /* we're done with the ones that are about to be disconnected */
     if (S_kill[n] > 0)
         return;
@@ -31,12 +39,6 @@ void dispatch(int n, char *pkt)
     switch(*pkt) {
 
     case ICB_M_LOGIN:
-        if(n >= MAX_REAL_USERS) {
-            senderror(n, "ICB is full.");
-            sendexit(n);
-            pktserv_disconnect(n);
-            break;
-        }
         if(loginmsg(n, ++pkt) < 0) {
             /* login failed.  dump them */
             sendexit(n);
diff --git a/server/send.c b/server/send.c
index 08bf60d..10e7497 100644
--- a/server/send.c
+++ b/server/send.c
@@ -198,9 +198,10 @@ void s_new_user(int n, int secure)
 {
     char *cp;
 
-    /* Check bounds: file descriptor must be < MAX_USERS to use as array index */
-    if (n < 0 || n >= MAX_USERS) {
-        vmdb(MSG_ERR, "s_new_user: invalid file descriptor %d (must be 0-%d), closing connection", n, MAX_USERS - 1);
+    /* Check bounds: file descriptor must be < MAX_REAL_USERS to use as array
+     * index. The slots beyond that belong to the resident automagical users. */
+    if (n < 0 || n >= MAX_REAL_USERS) {
+        vmdb(MSG_ERR, "s_new_user: invalid file descriptor %d (must be 0-%d), closing connection", n, MAX_REAL_USERS - 1);
         pktserv_disconnect(n);
         return;
     }
-- 
2.43.0


From f328b3a69f63590b6c8e3f6cb4112feb66c78c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:49 +0000
Subject: [PATCH 12/48] fix: sending to a client that is partway through a
 packet lost its framing

A completed write always went back to expecting a new header, so the rest
of a partially received packet was taken for the start of another one.
---
 pktserv/pktsocket.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 53be7a1..02f116b 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -264,6 +264,9 @@ int pktsocket_read(cbuf_t *cbuf)
     if ((remain - result) == 0) {
         cbuf->state = COMPLETE_PACKET;
 
+        /* the next read is the start of a new packet */
+        cbuf->newmsg = 1;
+
         /* nail down the end of the read string */
         *(cbuf->rbuf->pos) = '\0';
 
@@ -370,6 +373,7 @@ int pktsocket_write(cbuf_t* cbuf)
              cbuf->fd, cbuf->wlist_size);
     }
 
-    cbuf->state = WANT_HEADER;
+    /* go back to reading. we may have been in the middle of a packet. */
+    cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;
     return 0;
 }
-- 
2.43.0


From 4dcfecc5cb2358ac7c0407ece41b38163a680213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:49 +0000
Subject: [PATCH 13/48] fix: connections that hung up were never closed

The socket stayed in the poll set with its hangup pending, so the server
spun and reported the client as lost over and over.
---
 pktserv/pktserv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index f4c657d..5891e60 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -269,6 +269,7 @@ pollfd_state_machine(struct pollfd* pollfd)
             g_pktserv_cb.lost_client(cbuf->fd);
         }
         handle_disconnect(cbuf);
+        handle_raw_disconnect(cbuf);
         return;
     }
 
-- 
2.43.0


From 4039a80ac68ff6af33963c4c848a68a5fc37eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:49 +0000
Subject: [PATCH 14/48] fix: the server hung on a client that doesn't read what
 it's sent

With unsent packets queued and the socket not writeable (or out of
retries), the state machine never left its loop.
---
 pktserv/pktserv.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 5891e60..b2a2e18 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -308,18 +308,13 @@ pollfd_state_machine(struct pollfd* pollfd)
                 return;
 
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
-                if (readable || writeable)
-                    pktsocket_write(cbuf);
-                return;
-
             case WANT_WRITE:        /* we have pending writes. This can be a new SSL write. */
-                if (writeable) {
-                    pktsocket_write(cbuf);
-                }
-                if (readable && (cbuf->state == WANT_READ || cbuf->state == WANT_HEADER)) {
-                    /* pktsocket_write() may have set this to BLOCKED */
-                    cbuf->disp = OK;
-                }
+                if (!writeable && cbuf->state == WANT_WRITE)
+                    return;
+                if (pktsocket_write(cbuf) < 0)
+                    cbuf->state = WANT_DISCONNECT;
+                else if (cbuf->state == WANT_WRITE || cbuf->state == WANT_SSL_WRITE)
+                    return;         /* would block. try again later. */
                 break;
 
             case IDLE:              /* not doing anything. got some network data */
-- 
2.43.0


From 0f1f7e69d8766b6bc343d763916f613b621c4a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:49 +0000
Subject: [PATCH 15/48] fix: a disconnect requested while handling a client's
 packet was forgotten

Going back to reading afterwards overwrote it, and so did having unsent
packets.
---
 pktserv/pktserv.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index b2a2e18..2048608 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -336,12 +336,14 @@ pollfd_state_machine(struct pollfd* pollfd)
                             g_pktserv_cb.dispatch(cbuf->fd, cbuf->rbuf->data);
                             _msgbuf_free(cbuf->rbuf);
                             cbuf->rbuf = NULL;
-                            /* ready for the next packet */
-                            cbuf->state = WANT_HEADER;
+                            /* ready for the next packet, unless we're
+                             * supposed to get rid of them */
+                            if (cbuf->state != WANT_DISCONNECT)
+                                cbuf->state = WANT_HEADER;
                         }
                     }
                 }
-                if (!TAILQ_EMPTY(&(cbuf->wlist))) {
+                if (cbuf->state != WANT_DISCONNECT && !TAILQ_EMPTY(&(cbuf->wlist))) {
                     /* cycle back to want write if there's stuff left */
                     cbuf->state = WANT_WRITE;
                 }
-- 
2.43.0


From 6fc3b2bfbb308719795d35088662c81d61fe00b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:49 +0000
Subject: [PATCH 16/48] fix: a disconnect made the poll loop skip one client
 and revisit another

---
 pktserv/pktserv.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 2048608..5b3bb67 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -389,8 +389,17 @@ handle_pollfds(void)
             g_pollset[i].fd, g_pollset[i].events, g_pollset[i].revents);
     }
 #endif
-    for (i = 0; i < pollsetsize; i++)
+    for (i = 0; i < pollsetsize; ) {
+        int fd = g_pollset[i].fd;
+
         pollfd_state_machine(&g_pollset[i]);
+
+        /* a disconnect takes the element out and moves the ones after it down */
+        if (i < g_pollsetsize && g_pollset[i].fd == fd)
+            i++;
+        else
+            pollsetsize--;
+    }
 }
 
 
-- 
2.43.0


From c06772260ef3743716da358c1e4baaadbd9c0dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:49 +0000
Subject: [PATCH 17/48] fix: packets could be written to the descriptor of a
 closed connection

By then it may belong to something else.
---
 pktserv/pktserv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 5b3bb67..8c01b0e 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -674,7 +674,8 @@ int pktserv_send(int s, char *pkt, size_t len)
     /* XXX check this to be sure this socket makes sense */
     cbuf = &(cbufs[s]);
 
-    if (cbuf->state == WANT_DISCONNECT || cbuf->state == WANT_RAW_DISCONNECT) {
+    if (cbuf->state == WANT_DISCONNECT || cbuf->state == WANT_RAW_DISCONNECT ||
+        cbuf->state == DISCONNECTED) {
         vmdb(MSG_ERR, "%s() called on socket in DISCONNECT state", __FUNCTION__);
         return -1;
     }
-- 
2.43.0


From 3716cd4d02271d3fdc27a26eea3360322f66389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:40 +0000
Subject: [PATCH 18/48] fix: a retried SSL read lost the packet and hung the
 server

The retry skipped the header if that hadn't been read yet, and a packet
completed by it wasn't dispatched, which left the state machine looping.
Any TLS record that arrives in pieces caused this.
---
 pktserv/pktserv.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 8c01b0e..77498ea 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -303,9 +303,12 @@ pollfd_state_machine(struct pollfd* pollfd)
                 return;
 
             case WANT_SSL_READ:     /* need to retry the SSL read */
-                if (readable || writeable)
-                    pktsocket_read(cbuf);
-                return;
+                if (!readable && !writeable)
+                    return;
+                /* pick up the read where it was left */
+                readable = 1;
+                cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;
+                break;
 
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
             case WANT_WRITE:        /* we have pending writes. This can be a new SSL write. */
-- 
2.43.0


From 17a96936eb371dc1fb7fc3d5215c183eeea07d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:40 +0000
Subject: [PATCH 19/48] fix: packets sharing a TLS record stalled after the
 first one

SSL had already read them, so poll() had nothing more to report.
---
 pktserv/pktserv.c   |  7 ++++++-
 pktserv/sslsocket.c | 15 +++++++++++++++
 pktserv/sslsocket.h |  2 +-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 77498ea..0311a8d 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -274,7 +274,7 @@ pollfd_state_machine(struct pollfd* pollfd)
     }
 
 
-    readable = pollfd->revents & POLLIN;
+    readable = (pollfd->revents & POLLIN) || sslsocket_pending(cbuf);
     writeable = pollfd->revents & POLLOUT;
     if (readable || writeable) {
         cbuf->disp = OK;
@@ -479,6 +479,11 @@ update_pollfd_events(void)
                 break;
         }
 
+        /* SSL has already read what it has pending, so there may never be
+         * another POLLIN for it. */
+        if (sslsocket_pending(cbuf))
+            events |= POLLOUT;
+
         g_pollset[i].events = events;
     }
 }
diff --git a/pktserv/sslsocket.c b/pktserv/sslsocket.c
index 62d2aa2..6f61dca 100644
--- a/pktserv/sslsocket.c
+++ b/pktserv/sslsocket.c
@@ -46,6 +46,11 @@ int sslsocket_write(cbuf_t *cbuf, void* buf, size_t len)
     return -1;
 }
 
+int sslsocket_pending(cbuf_t *cbuf)
+{
+    return 0;
+}
+
 
 #else /* HAVE_SSL */
 
@@ -327,4 +332,14 @@ int sslsocket_write(cbuf_t *cbuf, void *buf, size_t nbytes)
 
 }
 
+
+/*
+ * Returns nonzero if there's data that SSL has read from the socket but
+ * hasn't handed to us yet.
+ */
+int sslsocket_pending(cbuf_t *cbuf)
+{
+    return (cbuf->ssl_con != NULL && SSL_pending(cbuf->ssl_con) > 0);
+}
+
 #endif
diff --git a/pktserv/sslsocket.h b/pktserv/sslsocket.h
index 3d9ce3f..37344ec 100644
--- a/pktserv/sslsocket.h
+++ b/pktserv/sslsocket.h
@@ -20,4 +20,4 @@
 int sslsocket_accept(cbuf_t *cbuf);
 int sslsocket_read(cbuf_t *cbuf, void* buf, size_t len);
 int sslsocket_write(cbuf_t *cbuf, void* buf, size_t len);
-
+int sslsocket_pending(cbuf_t *cbuf);
-- 
2.43.0


From 27097fdc61896e5f45d6d5348d63eb65f2bf817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:40 +0000
Subject: [PATCH 20/48] fix: a failed SSL connection could be mistaken for one
 that would block

errno is whatever an earlier call left there when SSL reports an error.
---
 pktserv/pktsocket.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 02f116b..929a8d2 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -170,7 +170,7 @@ int pktsocket_read(cbuf_t *cbuf)
 
         /* did we get an error or a partial read? */
         if (result < 0) {
-            if (errno == EWOULDBLOCK) {
+            if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
                 /* incomplete read - sslsocket_read() will never return this. */
                 return 0;
             }
@@ -235,7 +235,7 @@ int pktsocket_read(cbuf_t *cbuf)
 
     /* did we get an error? */
     if (result < 0) {
-        if (errno == EWOULDBLOCK) {
+        if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
             /* incomplete read - read_ssl() will never return this. */
             cbuf->state = WANT_READ;
             return 0;
@@ -333,7 +333,7 @@ int pktsocket_write(cbuf_t* cbuf)
 
         /* did we have an error? */
         if ( result < 0 ) {
-            if (errno == EWOULDBLOCK) {
+            if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
                 /* incomplete write - write_ssl() will never return this. */
                 cbuf->state = WANT_WRITE;
                 cbuf->retries++;
-- 
2.43.0


From d49e76d5a8c0f4a3d0ca218dcb0841dae1c3b061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:23 +0000
Subject: [PATCH 21/48] fix: busy loop while a client that doesn't read keeps
 sending

---
 pktserv/pktserv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 0311a8d..0fa1a37 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -465,7 +465,6 @@ update_pollfd_events(void)
                 /* Freshly accepted: the state machine must run
                  * immediately so the server can send the protocol
                  * banner before the client sends anything. */
-            case WANT_WRITE:
             case WANT_SSL_WRITE:
             case WANT_SSL_ACCEPT:
                 /* These states need write-readiness notification. */
@@ -475,6 +474,11 @@ update_pollfd_events(void)
                  * the remote side has gone quiet. */
                 events |= POLLOUT;
                 break;
+            case WANT_WRITE:
+                /* We don't read any more until that's written, so what
+                 * they've sent meanwhile mustn't wake us up. */
+                events = POLLOUT;
+                break;
             default:
                 break;
         }
-- 
2.43.0


From 4be45a73394b314ae5633e90d40fa4bbd0530fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:12 +0000
Subject: [PATCH 22/48] fix: who listing wrote past the ends of its buffers

The status of a user who is away, unregistered or on SSL needs up to 13
bytes, the insertion into the sorted lists of users and groups shifted one
entry too many, and the name and timeout of a missing moderator could need
more room than TheMod[] had.
---
 server/s_who.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/server/s_who.c b/server/s_who.c
index 3ae839a..44a8efb 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -77,9 +77,9 @@ void pgm_long(int n, int which)
     int gpmod;
     int num_users;
     char cp[5];
-    char status[8];
+    char status[16];
     int nr = 0, aw = 0, sec=0;
-    int user_list[MAX_REAL_USERS];
+    int user_list[MAX_USERS];
     int i, j;
     int users = 0;
 
@@ -104,7 +104,7 @@ void pgm_long(int n, int which)
                            u_tab[user_list[i]].t_group)
 #endif
                         i++;
-                for (j = (users + 1); j > i; j--)
+                for (j = users; j > i; j--)
                     user_list[j] = user_list[j - 1];
                 user_list[i] = user;
             }
@@ -181,7 +181,7 @@ void print_group_title(int n)
 void print_group_header(int n, int grp)
 {
     char GroupName[MAX_GROUPLEN + 3];
-    char TheMod[MAX_NICKLEN + 7];
+    char TheMod[MAX_NICKLEN + 16];
     int mod;
     char TheTopic[MAX_TOPICLEN + 1];
     char Options[20];
@@ -312,7 +312,7 @@ void doAll(int n, int flags)
                 while ((i < groups) && (strcasecmp(g_tab[group].name,
                                                    g_tab[group_list[i]].name) > 0))
                     i++;
-                for (j = (groups + 1); j > i; j--)
+                for (j = groups; j > i; j--)
                     group_list[j] = group_list[j - 1];
                 group_list[i] = group;
             }
-- 
2.43.0


From 6e6ac80cb5fe29d8a692c9f18ea4e0e3329989e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:12 +0000
Subject: [PATCH 23/48] fix: who hid groups from registered users invited by
 site

A registered-only site invitation lets a user into a group, but the who
listing looked for it in the list of ordinary site invitations.
---
 server/s_who.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/s_who.c b/server/s_who.c
index 44a8efb..b95c22f 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -229,7 +229,7 @@ void print_group_header(int n, int grp)
                               *g_tab[grp].nr_invites)) && 
                    (strlen(u_tab[n].realname) > 0)) ||
                   (nlmatch(one, *g_tab[grp].s_invites)) ||
-                  ((nlmatch(one, *g_tab[grp].s_invites)) &&
+                  ((nlmatch(one, *g_tab[grp].sr_invites)) &&
                    (strlen(u_tab[n].realname) > 0)) ||
                   (! strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)));
     if ((g_tab[grp].visibility == SECRET) ||
@@ -299,7 +299,7 @@ void doAll(int n, int flags)
                                   *g_tab[group].nr_invites)) && 
                        (strlen(u_tab[n].realname) > 0)) ||
                       (nlmatch(one, *g_tab[group].s_invites)) ||
-                      ((nlmatch(one, *g_tab[group].s_invites)) &&
+                      ((nlmatch(one, *g_tab[group].sr_invites)) &&
                        (strlen(u_tab[n].realname) > 0)) ||
                       (! strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)));
         if( (strlen(g_tab[group].name)!=0) &&
-- 
2.43.0


From 08d7ef2f3dd40494a579dbc66d734e3829574ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:57 +0000
Subject: [PATCH 24/48] fix: an idle-boot message of the maximum length
 overflowed its buffer

idleboot_msg[] holds IDLEBOOT_MSG_LEN bytes including the NUL.
---
 server/s_group.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index 7879d54..6ac79fe 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1552,11 +1552,11 @@ visible.
                             p1 = get_tail(p1);
 
                             if ( p1 == (char *) NULL || *p1 == '\0'
-                                 || strlen (p1) > IDLEBOOT_MSG_LEN )
+                                 || strlen (p1) >= IDLEBOOT_MSG_LEN )
                             {
                                 sprintf(mbuf,
                                         "Idle-Boot message length must be between 1 and %d (yours was %zu).",
-                                        IDLEBOOT_MSG_LEN, p1?strlen(p1):0);
+                                        IDLEBOOT_MSG_LEN - 1, p1?strlen(p1):0);
                                 senderror (n, mbuf);
                                 cp = NULL;
                             }
-- 
2.43.0


From 99f733916b8675c2a4af8ae60752a505f2b53bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:57 +0000
Subject: [PATCH 25/48] fix: replacing a talk list used names that were just
 freed

talk_delete() frees the list node that holds the name it was given, and the
name was then used to look up the user and to report the removal.
---
 server/s_group.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index 6ac79fe..3046786 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -2129,14 +2129,15 @@ fields[1] is nickname of person to invite
                     NAMLIST    *nl;
                     int        count,
                             i;
-                    char    *cp;
+                    char    cp[MAX_PKT_LEN];
 
                     nl = g_tab[gi].n_talk;
                     count = nlcount(*nl);
                     for ( i = 0; i < count; i++)
                     {
-                        cp = nlget (nl);
-                        if (cp && *cp) {
+                        /* talk_delete() frees the list's own copy */
+                        snprintf (cp, sizeof (cp), "%s", nlget (nl));
+                        if (*cp) {
                             if ( talk_delete (cp, gi) > 0
                                  && quiet == 0 )
                             {
@@ -2150,8 +2151,9 @@ fields[1] is nickname of person to invite
                     count = nlcount(*nl);
                     for ( i = 0; i < count; i++)
                     {
-                        cp = nlget (nl);
-                        if (cp && *cp) {
+                        /* talk_delete() frees the list's own copy */
+                        snprintf (cp, sizeof (cp), "%s", nlget (nl));
+                        if (*cp) {
                             if ( talk_delete (cp, gi) > 0
                                  && quiet == 0 )
                             {
-- 
2.43.0


From 4cd2aa95e44fd34ff9d9463f8025a207151ff963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:57 +0000
Subject: [PATCH 26/48] fix: the echo of an away message used it as a format
 string

The away message holds two %s (the server's own and the one the user's text
must contain), or half of one if it was cut off, and only one argument was
passed. Echo what was sent instead.
---
 server/s_person.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server/s_person.c b/server/s_person.c
index d7f03e3..dd28c38 100644
--- a/server/s_person.c
+++ b/server/s_person.c
@@ -122,8 +122,7 @@ void away_handle (int src, int dest)
                          t->tm_hour > 11 ? "pm" : "am",
                          u_tab[dest].awaymsg);
 
-                snprintf(mbuf, MAX_PKT_DATA, tbuf, u_tab[dest].nickname);
-                sends_cmdout(dest, mbuf);
+                sends_cmdout(dest, tbuf);
             }
         }
     }
-- 
2.43.0


From e35c37d9f9e44b6d6f63e45f779ed90caea9d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:17 +0000
Subject: [PATCH 27/48] fix: whois of a nickname of the maximum length read
 past nickstr[]

strncpy() didn't terminate it, and nothing else did either.
---
 server/access.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/access.c b/server/access.c
index db81a41..fc3abe0 100644
--- a/server/access.c
+++ b/server/access.c
@@ -546,7 +546,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
 {
     char           line[255];
     char           temp[255];
-    char           nickstr[MAX_NICKLEN+1];
+    char           nickstr[MAX_NICKLEN+1] = "";
     char           *value;
     int            retval;
     int            count = 0;
-- 
2.43.0


From c6d804a17e8aeed50e5eac976bb1c70b70d5a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:17 +0000
Subject: [PATCH 28/48] fix: registrations and stored messages were lost when
 the server stopped

The user database was only written out by dbm_close(), which only happened
in multiuser mode, so nothing that was registered ever reached the disk.
Flush it when the last user of an operation is done with it. An open that
failed leaked a reference, which would have kept that from happening.
---
 server/dbm.h     |  5 +++--
 server/icb_dbm.c |  7 +++++++
 server/icbdb.c   | 12 ++++++++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/server/dbm.h b/server/dbm.h
index aaf90c5..bd12fdb 100644
--- a/server/dbm.h
+++ b/server/dbm.h
@@ -17,8 +17,8 @@
  *     key[klen]  = key bytes
  *     val[vlen]  = value bytes
  *
- * Mutations are buffered in memory and flushed atomically on dbm_close()
- * (write-to-tmp + rename) so a crash never corrupts the file.
+ * Mutations are buffered in memory and flushed atomically on dbm_flush() and
+ * dbm_close() (write-to-tmp + rename) so a crash never corrupts the file.
  */
 
 #include <stddef.h>
@@ -38,6 +38,7 @@ typedef struct icb_dbm DBM;
 
 /* ---- public API ---- */
 DBM  *dbm_open(const char *file, int flags, int mode);
+int   dbm_flush(DBM *db);
 void  dbm_close(DBM *db);
 datum dbm_fetch(DBM *db, datum key);
 int   dbm_store(DBM *db, datum key, datum content, int flags);
diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index 0bedf2b..e7608b4 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -11,6 +11,7 @@
  *               internal buffer valid until the next fetch.
  * - dbm_store() updates the in-memory table and marks it dirty.
  * - dbm_delete() removes from memory and marks dirty.
+ * - dbm_flush() writes dirty state to disk and keeps the database open.
  * - dbm_close() flushes dirty state to disk (write-to-tmp + rename for
  *               crash safety), then frees all memory.
  *
@@ -329,6 +330,12 @@ DBM *dbm_open(const char *file, int flags, int mode)
     return db;
 }
 
+int dbm_flush(DBM *db)
+{
+    if (!db) return -1;
+    return flush_file(db);
+}
+
 void dbm_close(DBM *db)
 {
     if (!db) return;
diff --git a/server/icbdb.c b/server/icbdb.c
index 0009b60..97820d4 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -62,11 +62,19 @@ icbdb_open (void)
 void
 icbdb_close (void)
 {
-    if (--open_count > 0 || !icbdb_multiuser)
+    if (--open_count > 0)
     {
         return;
     }
 
+    if (!icbdb_multiuser)
+    {
+        /* keep it open, but don't lose what was just changed */
+        if (db != NULL && dbm_flush (db) < 0)
+            vmdb (MSG_ERR, "User Database Flush: %s", strerror(errno));
+        return;
+    }
+
     if (db != NULL)
     {
         dbm_close (db);
@@ -75,7 +83,7 @@ icbdb_close (void)
     db = NULL;
 }
 
-#define ICBDB_OPEN()    if (icbdb_open() == 0) return (0)
+#define ICBDB_OPEN()    if (icbdb_open() == 0) { icbdb_close (); return (0); }
 
 #define ICBDB_DONE(r)    icbdb_close (); return (r)
 
-- 
2.43.0


From 85465e1907f883a0178eba16a17d8a09127f732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:17 +0000
Subject: [PATCH 29/48] fix: a database value longer than databuf[] overflowed
 it

The database allows values of up to 1 MiB.
---
 server/icbdb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/icbdb.c b/server/icbdb.c
index 97820d4..bf14549 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -135,6 +135,8 @@ icbdb_get (const char *category, const char *attribute, icbdb_type type,
               data.dsize, data.dptr);
 
         if (value != NULL) {
+            if (data.dsize >= (int) sizeof (databuf))
+                data.dsize = sizeof (databuf) - 1;
             bcopy (data.dptr, databuf, data.dsize);
             databuf[data.dsize] = '\0';
 
-- 
2.43.0


From d3b5ea0aef354e8b9795204b5bf16f01a99023d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:17 +0000
Subject: [PATCH 30/48] fix: restarting the server lost when away messages were
 last sent

---
 server/icbutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/icbutil.c b/server/icbutil.c
index 8adaac7..f7c620f 100644
--- a/server/icbutil.c
+++ b/server/icbutil.c
@@ -281,7 +281,7 @@ void icbload(int sig)
         fscanf(dump, "%d\n", &j);
         u_tab[i].lastaway = j;
         fscanf(dump, "%ld\n", &k);
-        u_tab[i].lastawaytime = j;
+        u_tab[i].lastawaytime = k;
         fscanf(dump, "%d\n", &j);
         u_tab[i].login = j;
         fscanf(dump, "%d\n", &j);
-- 
2.43.0


From 1141698860fca57e31b06fdcc0f068ae880895b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:18 +0000
Subject: [PATCH 31/48] fix: s_lost_user() was defined with another type than
 it is declared and called with

---
 server/ipcf.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 9d70b9c..ffe7494 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -317,7 +317,7 @@ void c_userchar(void)
     mdb(MSG_ERR, "server erroneously got client userchar call");
 }
 
-int s_lost_user(int n)         /* n = fd of that user */
+void s_lost_user(int n)        /* n = fd of that user */
 {
     int num_left;
     int was_mod;
@@ -337,7 +337,7 @@ int s_lost_user(int n)         /* n = fd of that user */
         sprintf(mbuf,"[LOST] %d: >= %d (MAX_REAL_USERS)", n,
                 MAX_REAL_USERS);
         mdb(MSG_INFO, mbuf);
-        return 0;
+        return;
     }
 
     /* Make sure the user was logged in at all */
@@ -347,7 +347,7 @@ int s_lost_user(int n)         /* n = fd of that user */
         /* they were NOT logged in */
         /* just clear their entry and return */
         clear_user_item(n);
-        return 0;
+        return;
     }
     else {
         sprintf(mbuf,"[LOST] %d: %s@%s", n, 
@@ -470,7 +470,6 @@ int s_lost_user(int n)         /* n = fd of that user */
             }
         }
     }
-    return 0;
 }
 
 void s_packet(int x, char *pkt)
-- 
2.43.0


From bc4c2d27a5d7f27c6646323d6602a625ccfc481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:52 +0000
Subject: [PATCH 32/48] fix: s_group.c declared add_item() with another type
 than it is defined with

---
 server/s_group.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/s_group.c b/server/s_group.c
index 3046786..7fbc552 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -549,7 +549,7 @@ if failure, message given and return is -1
     return 0;
 }
 
-extern void add_item(int n, const char* item, char *buf);
+extern int add_item(int n, const char* item, char *buf);
 
 int list_invites (int n, int gi)
 {
-- 
2.43.0


From c6e4a34ba44cb1fb78911df061ff9137e96ef6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:23 +0000
Subject: [PATCH 33/48] fix: /exclude let users speak in a controlled group
 without permission

---
 server/s_group.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/s_group.c b/server/s_group.c
index 7fbc552..bfecbb9 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1865,6 +1865,17 @@ int s_exclude(int n, int argc)
                 return 0;
             }
 
+            /* the same goes for the talk list of a controlled group */
+            if (gi != -1 && g_tab[gi].control == CONTROLLED
+                && g_tab[gi].mod != n
+                && nlpresent (u_tab[n].nickname, *g_tab[gi].n_talk) == 0
+                && (strlen (u_tab[n].realname) == 0
+                    || nlpresent (u_tab[n].nickname, *g_tab[gi].nr_talk) == 0)) {
+                senderror (n,
+                           "You do not have permission to send open messages in this group.");
+                return 0;
+            }
+
             strcpy(my_group, u_tab[n].group);
             sprintf(one, "%s@%s", u_tab[n].loginid, u_tab[n].nodeid);
             ucaseit(one);
-- 
2.43.0


From 7b2a48a35233bc6bd09cb6bf9d51acb2c896ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:07 +0000
Subject: [PATCH 34/48] fix: users were booted for spamming without having sent
 several messages

---
 server/msgs.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/msgs.c b/server/msgs.c
index a317d9b..43d2b16 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -191,6 +191,7 @@ long get_perms (int n, char *login)
  */
 
 int u_recv_count[MAX_USERS];
+static time_t u_recv_time[MAX_USERS];   /* when they last sent an open message */
 
 void openmsg(int n, char *pkt)
 {
@@ -208,7 +209,7 @@ void openmsg(int n, char *pkt)
         if ( !strcmp (u_tab[n].group, "1") )
         {
             u_recv_count[n]++;
-            if ( u_tab[n].t_recv == TheTime )
+            if ( u_recv_time[n] == TheTime )
             {
                 if ( u_recv_count[n] > 2 )
                 {
@@ -231,6 +232,7 @@ void openmsg(int n, char *pkt)
             {
                 u_recv_count[n] = 0;
             }
+            u_recv_time[n] = TheTime;
         }
 
         /* record the time */
@@ -565,6 +567,8 @@ int loginmsg(int n, char *pkt)
         /* fill in last members of table entry */
         /* strcpy(u_tab[n].group, which_group); */
         u_tab[n].login = LOGIN_PENDING;
+        u_recv_count[n] = 0;
+        u_recv_time[n] = 0;
         u_tab[n].t_on = TheTime;
         u_tab[n].t_recv = TheTime;
         u_tab[n].t_sent = TheTime;
-- 
2.43.0


From 72c8fcacfa6f09bc477191bd839bad85597a2464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:15 +0000
Subject: [PATCH 35/48] fix: a long argument of /news overran the file name
 buffer

---
 server/s_news.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/s_news.c b/server/s_news.c
index 5cf0af6..de31399 100644
--- a/server/s_news.c
+++ b/server/s_news.c
@@ -62,7 +62,7 @@ int s_news(int n, int argc)
         if (first == 0)
             sendstatus(n, "News", "No news.");
     } else {
-        sprintf(fname, "news.%s", fields[1]);
+        snprintf(fname, sizeof(fname), "news.%s", fields[1]);
         if ((news_fd = open(fname, O_RDONLY)) >= 0) {
             sends_cmdout(n, "--------------------------------------");
             memset(tbuf, 0, 255);
-- 
2.43.0


From df115dfc215a987c6c93f354efeb672a46d8b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:12 +0000
Subject: [PATCH 36/48] fix: a group cannot be renamed to the idle or the boot
 group

---
 server/s_group.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/s_group.c b/server/s_group.c
index bfecbb9..cbbb5f1 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1060,6 +1060,13 @@ int set_name(int n, int group, char *name)
         return -1;
     }
 
+    /* users get put into these without being asked, so they have to stay
+     * what s_change() makes of them */
+    if (!strcasecmp(n_g_n, IDLE_GROUP) || !strcasecmp(n_g_n, BOOT_GROUP)) {
+        senderror (n, "Cannot change name to that group.");
+        return -1;
+    }
+
     /* make sure that group doesn't already exist */
     if ((find_group(n_g_n) >= 0) && (find_group(n_g_n) != group)) {
         senderror(n, "That group already exists.");
-- 
2.43.0


From da3ef3768176ba47043ada153950c19ead670123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:34 +0000
Subject: [PATCH 37/48] fix: whereis reports an address it never got when the
 peer's is unknown

---
 server/s_info.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/s_info.c b/server/s_info.c
index 1927c90..b4c1337 100644
--- a/server/s_info.c
+++ b/server/s_info.c
@@ -52,6 +52,7 @@ int s_info(int n, int argc)
             idle = time(NULL) - u_tab[TheirIndex].t_recv;
 
             aw = (strlen(u_tab[TheirIndex].awaymsg) > 0);
+            memset(&rs, 0, sizeof(rs));
             getpeername(TheirIndex, (struct sockaddr*)&rs, &rs_size);
 
             /* Get numeric IP address string (works for both IPv4 and IPv6) */
-- 
2.43.0


From 9bd71b53c19c736876b22bde50640e5d56adc062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:07 +0000
Subject: [PATCH 38/48] fix: no nickname becomes registered while the user
 database cannot be read

---
 server/access.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/access.c b/server/access.c
index fc3abe0..63df633 100644
--- a/server/access.c
+++ b/server/access.c
@@ -459,7 +459,12 @@ int nickwrite(int forWhom, char *password, int verifyOnly, DBM *openDb)
     if ( strlen(password) > MAX_PASSWDLEN )
         password[MAX_PASSWDLEN] = '\0';
 
-    icbdb_open ();
+    if (!icbdb_open ()) {
+        /* don't take a nick for unregistered because we cannot look it up */
+        senderror (forWhom, "The user database is not available.");
+        icbdb_close ();
+        return (retval);
+    }
 
     nick = u_tab[forWhom].nickname;
 
-- 
2.43.0


From 85428949157147e07fa3c6bfb89d7acf62a2517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:08 +0000
Subject: [PATCH 39/48] fix: authenticating at login copied the password onto
 itself

---
 server/access.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/access.c b/server/access.c
index 63df633..22492ae 100644
--- a/server/access.c
+++ b/server/access.c
@@ -508,7 +508,8 @@ int nickwrite(int forWhom, char *password, int verifyOnly, DBM *openDb)
             sendstatus(forWhom, "Register", "Nick registered");
             strcpy(u_tab[forWhom].realname, "registered");
             nickwritetime(forWhom, 0, NULL);
-            strcpy(u_tab[forWhom].password, password); /* jonl */
+            if (password != u_tab[forWhom].password) /* as at login */
+                strcpy(u_tab[forWhom].password, password); /* jonl */
             for (i = 1; i < MAX_GROUPS; i++)
                 if ((g_tab[i].modtimeout > 0.0) &&
                     (strcmp(g_tab[i].missingmod, 
-- 
2.43.0


From a1aa81dd3eaaa091ed47379d74d15e1f39ca1e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:09 +0000
Subject: [PATCH 40/48] fix: a permission string without a permission in it
 crashed the server

---
 server/msgs.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 43d2b16..08ee85c 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -46,13 +46,12 @@ long perm2val(char *str)
     long    perm = PERM_NULL;
     char    *cp;
 
-    cp = strtok (str, "|");
-    do
+    for ( cp = strtok (str, "|"); cp != (char *)NULL; cp = strtok ((char *) NULL, "|") )
     {
         if ( !strcasecmp (cp, "perm_null") ) { perm |= PERM_NULL; }
         else if ( !strcasecmp (cp, "perm_deny") ) { perm |= PERM_DENY; }
         else if ( !strcasecmp (cp, "perm_slowmsgs") ) { perm |= PERM_SLOWMSGS; }
-    } while ( (cp = strtok ((char *) NULL, "|")) != (char *)NULL );
+    }
 
     return (perm);
 }
-- 
2.43.0


From a3a565a29269a07b94dd61b635c88f5f06c99808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:16 +0000
Subject: [PATCH 41/48] fix: the last entry of the deny file was ignored unless
 white space followed it

---
 server/msgs.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 08ee85c..ec32916 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -461,9 +461,10 @@ int loginmsg(int n, char *pkt)
         access_file = open(ACCESS_FILE, O_RDONLY);
         if (access_file >= 0)
         {
-            while ((i = read(access_file, &c, 1)) > 0)
+            do
             {
-                if (isspace(c))
+                /* the end of the file ends an entry, too */
+                if ((i = read(access_file, &c, 1)) <= 0 || isspace(c))
                 {
                     ucaseit(three);
                     if (wildmat(one, three))
@@ -501,7 +502,7 @@ int loginmsg(int n, char *pkt)
                         three[len + 1] = '\0';
                     }
                 }
-            }
+            } while (i > 0);
 
             if (close(access_file) != 0)
             {
-- 
2.43.0


From aab30bc27b54ee0ec129f740756dd059820e0315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:42 +0000
Subject: [PATCH 42/48] fix: one TLS connection's error no longer drops another

SSL_get_error() looks at the thread's error queue, which has to be empty
before each call.  A failed handshake that queued more than one error (an
invalid key share, say) left some of them behind, and the next connection
whose SSL_read() had to wait was taken for failed and disconnected.
---
 pktserv/sslsocket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pktserv/sslsocket.c b/pktserv/sslsocket.c
index 6f61dca..b061ca9 100644
--- a/pktserv/sslsocket.c
+++ b/pktserv/sslsocket.c
@@ -94,6 +94,8 @@ int sslsocket_accept(cbuf_t *cbuf)
         SSL_set_fd(cbuf->ssl_con, cbuf->fd);
     }
 
+    /* errors left over from other connections would be taken for ours */
+    ERR_clear_error();
     result = SSL_accept(cbuf->ssl_con);
     if (result == 1) {
         vmdb(MSG_INFO,
@@ -182,6 +184,7 @@ int sslsocket_read(cbuf_t *cbuf, void *buf, size_t nbytes)
 {
     int result, ssl_error;
 
+    ERR_clear_error();
     result = SSL_read(cbuf->ssl_con, buf, nbytes);
     if (result > 0) {
         /* successful write, but we need to check to see if we need to
@@ -264,6 +267,7 @@ int sslsocket_write(cbuf_t *cbuf, void *buf, size_t nbytes)
 {
     int result, ssl_error;
 
+    ERR_clear_error();
     result = SSL_write(cbuf->ssl_con, buf, nbytes);
     if (result > 0) {
         /* successful write, but we need to check to see if we need to
-- 
2.43.0


From cdeca0c6cd785feffda7454c86ef91c3d8a6d678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:34 +0000
Subject: [PATCH 43/48] fix: do not read and close the motd file again once it
 is closed

A motd file that ends in a lone '%' was closed inside the loop, then read
from and closed a second time.
---
 server/s_motd.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/server/s_motd.c b/server/s_motd.c
index d3fecd5..791798b 100644
--- a/server/s_motd.c
+++ b/server/s_motd.c
@@ -36,12 +36,8 @@ int s_motd(int n, int argc)
             if (c == '%') 
             {
                 i = read(motd_fd, &c, 1);
-                if (i <= 0) {
-                    if (close(motd_fd) != 0) {
-                        sprintf(mbuf, "MOTD File Close: %s", strerror(errno));
-                        mdb(MSG_ERR, mbuf);
-                    }
-                }
+                if (i <= 0)
+                    break;
                 else if (c == 'U') {
                     char    *value;
                     if (icbdb_get ("server", "signon", ICBDB_STRING, &value)) {
-- 
2.43.0


From 04b62e57ff93ace10b26de3c54c91cded95f7e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:34 +0000
Subject: [PATCH 44/48] fix: /news must only show the news files

The argument became part of a file name as it was, so that with a directory
news.d, say, '/news d/../icbd.pem' showed the server's private key.
---
 server/s_news.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/s_news.c b/server/s_news.c
index de31399..f8c8ea2 100644
--- a/server/s_news.c
+++ b/server/s_news.c
@@ -63,7 +63,9 @@ int s_news(int n, int argc)
             sendstatus(n, "News", "No news.");
     } else {
         snprintf(fname, sizeof(fname), "news.%s", fields[1]);
-        if ((news_fd = open(fname, O_RDONLY)) >= 0) {
+        /* news items are files of our own directory, never a path */
+        if (strchr(fields[1], '/') == NULL
+            && (news_fd = open(fname, O_RDONLY)) >= 0) {
             sends_cmdout(n, "--------------------------------------");
             memset(tbuf, 0, 255);
             while ((j = read(news_fd, &c, 1)) > 0) {
-- 
2.43.0


From 00d9d3a95a76fcbc786a6774a1c071f9ed8bfc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:57 +0000
Subject: [PATCH 45/48] fix: show names that are too long for a shared line in
 group listings

---
 server/s_who.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/server/s_who.c b/server/s_who.c
index b95c22f..961945a 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -25,8 +25,12 @@
 int add_item(int n, const char * item, char *buf)
 {
     if ((strlen(item) + 1) >= MAX_LINE) {
-        mdb(MSG_ERR, "Attempted to add_item something too big");
-        return -1;
+        /* too long to share a line */
+        if (buf[0] != '\0')
+            sends_cmdout(n, buf);
+        sends_cmdout(n, item);
+        memset(buf, 0, MAX_LINE);
+        return 0;
     }
     if ((strlen(item) + strlen(buf) + 1) >= MAX_LINE) {
         sends_cmdout(n, buf);
@@ -35,7 +39,7 @@ int add_item(int n, const char * item, char *buf)
         if (strcmp(item, ", ") != 0) {
             strcpy(buf, item);
         }
-    } else {
+    } else if (buf[0] != '\0' || strcmp(item, ", ") != 0) {
         strcat(buf, item);
     }
     return 0;
-- 
2.43.0


From bfbd0c1981329ea62b1ee45564bb1b75815a3c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:57 +0000
Subject: [PATCH 46/48] fix: whois does not repeat the line before when the
 text ends at a line break

---
 server/access.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/access.c b/server/access.c
index 22492ae..179a439 100644
--- a/server/access.c
+++ b/server/access.c
@@ -728,10 +728,11 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
                 }
 
                 if (count > 0)
+                {
                     strcpy(temp, "Text: ");
-
-                strcat(temp, s);
-                sends_cmdout(forWhom, temp);
+                    strcat(temp, s);
+                    sends_cmdout(forWhom, temp);
+                }
             }
         }
         else
-- 
2.43.0


From 79c350c436883e3cafb0bb91dd8fe1c35069d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 47/48] fix: give the five-minute notice of a shutdown
 announced less than 300 minutes ahead

---
 server/s_admin.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/s_admin.c b/server/s_admin.c
index f2b8c2e..f97d43b 100644
--- a/server/s_admin.c
+++ b/server/s_admin.c
@@ -112,7 +112,8 @@ int s_shutdown(int n, int argc)
                 sendimport(user,"Shutdown", line);
         TimeToDie = time(NULL) + 60.0 * atol(fields[1]);
         ShutdownNotify = 0;
-        if (atol(fields[1]) < 300)
+        /* less than five minutes: too late for that notice */
+        if (atol(fields[1]) < 5)
             ShutdownNotify++;
     } else {
         mdb(MSG_INFO, "shutdown: wrong number of parz");
-- 
2.43.0


From 48b7e97f2ea08b9311f41f60fef40b3b99e80bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 48/48] fix: cancel and boot take an invitation off both lists

---
 server/s_group.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index cbbb5f1..4cf1426 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -100,7 +100,7 @@ fields[1] is nickname of person for cancel
         if (can_do)
         {
             if ((mode == 0) &&
-                ((nldelete(g_tab[gi].n_invites,who) == 0) ||
+                ((nldelete(g_tab[gi].n_invites,who) == 0) |
                  (nldelete(g_tab[gi].nr_invites,who) == 0)))
             {
                 if (quiet == 0)
@@ -115,7 +115,7 @@ fields[1] is nickname of person for cancel
                 }
             }
             else if ((mode == 1) &&
-                     ((nldelete(g_tab[gi].s_invites,who) == 0) ||
+                     ((nldelete(g_tab[gi].s_invites,who) == 0) |
                       (nldelete(g_tab[gi].sr_invites,who) == 0)))
             {
                 if (quiet == 0)
@@ -964,7 +964,7 @@ fields[1] is nickname of person to boot
                 if (gi == destgi) {
                     /* send status to group */
                     if ((nldelete(g_tab[destgi].n_invites,
-                                  u_tab[dest].nickname) == 0) ||
+                                  u_tab[dest].nickname) == 0) |
                         (nldelete(g_tab[destgi].nr_invites,
                                   u_tab[dest].nickname) == 0)) {
                         sprintf(mbuf, "%s cancelled",
-- 
2.43.0

