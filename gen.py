#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and spec.py.
(run by hand after editing; the checks do not need it)"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import spec

PR = []
def P(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    PR.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))

P("P01", "Every packet a client sends is processed exactly once, intact and in order",
  "The byte stream of a plain connection is cut into packets at its length bytes only, however the network splits or delays it: each complete packet reaches the server exactly once, in the order sent, with exactly the bytes sent, and an incomplete one never does. A packet announced as longer than the protocol allows, or as empty, ends the connection without a byte of it being processed. Nothing one connection sends changes what another one's packets are. While the server holds a client back (one with the slow-messages permission is heard at most once a second), nothing is read from it.",
  ["inputs", "schedules", "fault_sequences"], "for every byte stream and every way the kernel delivers it (short reads, would-block, end of file and errors at any byte)",
  "Tests run over loopback, where a packet practically always arrives in one read; the split points, the would-block returns and the error positions are combinatorial.",
  ["pktserv/pktserv.c", "pktserv/pktsocket.c", "pktserv/pktbuffers.c"],
  [("read state machine", "pktserv/pktsocket.c: pktsocket_read"), ("poll event handling", "pktserv/pktserv.c: handle_pollfds")],
  [("cbufs[fd].rbuf", "packet being assembled", "pktserv/pktbuffers.h")], ["the dispatch callback of the network layer"])
P("P02", "TLS connections keep packet boundaries and lose nothing",
  "On a TLS connection each complete packet the peer sends is processed exactly once, intact and in order, whatever mixture of partial records, want-read and want-write results and handshake delays occurs, and data already decrypted inside the TLS layer is processed without waiting for more network traffic. A fatal TLS error or end of stream closes that connection, is reported once, is never taken for would-block, and does not affect any other connection. A packet sent to a TLS client is retried with the same bytes until the TLS layer has taken all of it.",
  ["inputs", "schedules", "fault_sequences"], "for every byte stream and every sequence of results the TLS library may return for handshake, read and write",
  "A loopback TLS test sees one record per packet and never a want-write during a read or a half-written record.",
  ["pktserv/sslsocket.c", "pktserv/pktserv.c"],
  [("TLS read/accept/write", "pktserv/sslsocket.c"), ("pending data", "pktserv/pktserv.c: handle_pollfds")],
  [("cbufs[fd].state", "what the connection waits for", "pktserv/pktbuffers.h")], ["dispatch callback", "SSL_write arguments"])
P("P03", "Outgoing packets reach each client whole, in order and without duplicates",
  "For every connection, the bytes written are exactly the concatenation, in order, of the packets the server queued for it, whatever partial writes and would-block results occur; a packet that cannot be sent at once is kept and continued later from the right byte. The queue of a client that does not read is bounded: a packet that finds it full is refused whole and reported as not sent, and once the retries are exhausted the connection is given up and closed. Sending to one client never alters what another one receives, and waiting output does not corrupt the input being assembled.",
  ["inputs", "schedules", "fault_sequences"], "for every sequence of queued packets and every sequence of write results (full, partial, would-block, error)",
  "Partial writes need a full socket buffer at a chosen byte; tests never fill one.",
  ["pktserv/pktserv.c", "pktserv/pktsocket.c", "pktserv/pktbuffers.c"],
  [("send and queue", "pktserv/pktserv.c: pktserv_send, handle_pollfds"), ("write", "pktserv/pktsocket.c: pktsocket_write")],
  [("cbufs[fd].wlist", "queued packets", "pktserv/pktbuffers.h")], ["write calls on the descriptor"])
P("P04", "Each connection is announced once, closed once, and its loss reported once",
  "Every accepted connection is announced to the server exactly once before any of its packets; when it ends, for whatever reason and at whatever point (peer close, error, hang-up, or the server's own request even from inside packet processing), the loss is reported exactly once, its descriptor is closed exactly once, and it is polled no more. After that nothing is read from, written to or processed for that descriptor until it is accepted again, and a reused descriptor starts with fresh state. Handling one connection's event never skips, repeats or ends another's.",
  ["schedules", "fault_sequences", "histories"], "for every set of connections, readiness combination and order of events, including disconnects requested during processing",
  "Depends on several descriptors being ready in one poll round and one of them disappearing meanwhile.",
  ["pktserv/pktserv.c", "pktserv/pktsocket.c", "server/unix.c"],
  [("poll set maintenance", "pktserv/pktserv.c: add_pollfd, delete_pollfd, handle_pollfds"), ("disconnect", "pktserv/pktserv.c: pktserv_disconnect")],
  [("g_pollset", "descriptors polled", "pktserv/pktserv.c")], ["callbacks new_client/lost_client", "close calls"])
P("P05", "Every packet the server emits is a well-formed ICB packet",
  "Each packet handed to a client consists of a length byte, a packet type, and text that is at most 254 bytes and ends with its only NUL byte, the length byte counting exactly the type, the text and that NUL. The fields it is built from appear in their protocol positions: sender and text for open and personal messages, category and text for status messages, output type and text for command output. User text is whole up to 240 bytes in open and personal messages, 232 in status messages and 250 in command output; longer text is cut, and never overruns a buffer or spills into another packet.",
  ["inputs"], "for every text, nickname and category handed to the message constructors, up to the longest the input protocol admits",
  "The limits interact (nickname length, category length, text length); a test tries one or two lengths.",
  ["server/send.c", "server/ipcf.c"], [("packet constructors", "server/send.c"), ("length byte", "server/send.c: doSend")],
  [("packetbuffer", "packet under construction", "server/globals.c")], ["pktserv_send arguments"])
P("P06", "User text is filtered to printable, valid UTF-8 before it is passed on",
  "Text passes through one filter on its way from a user to others, whatever kind of message or command it came by. The filter keeps every well-formed UTF-8 character and every printable ASCII character unchanged and in order, drops control characters, replaces ill-formed, overlong, surrogate or out-of-range sequences by a question mark, and drops a sequence cut off at the end. It never reads beyond the text's terminator or writes beyond the given size.",
  ["inputs"], "for every byte string and every destination size", "There are 2^32 four-byte strings alone, and the interesting ones sit at the edges of the encoding's ranges.",
  ["server/strutil.c", "server/utf8.c"], [("filtertext", "server/strutil.c"), ("UTF-8 decoding", "server/utf8.c")], (), ["open and personal messages received by other clients"])
P("P07", "Wildcard patterns match exactly the strings they denote",
  "A wildcard pattern (literal characters, backslash escapes, '?', '*', bracket classes with ranges and negation) accepts exactly the strings it denotes, as used for bans, invitations and permissions: no pattern accepts a string outside its meaning or rejects one inside it. Matching always terminates and never reads outside the pattern or the string, unclosed classes included.",
  ["inputs"], "for every pattern and every string", "Patterns compose (star after class after escape); a test has a dozen pairs.",
  ["server/wildmat.c"], [("wildmat", "server/wildmat.c")], (), ["return value; access decisions"])
P("P08", "Name lists behave as bounded, case-insensitive, most-recent-first sets",
  "The lists behind invitations, hushes, notifications and talk permissions contain exactly the names added and not removed since (compared without regard to case), each once, most recently added first; adding to a full list drops its oldest name, clearing empties it, and no list's operations affect another. Cycling through a list shows every name once before any again, and matching against it succeeds exactly when some entry, read as a pattern, matches. No operation reads or writes freed or foreign memory.",
  ["inputs", "histories"], "for every sequence of additions, removals, lookups, matches and clears", "A linked list breaks at particular positions (first, last, only element) reached by particular sequences.",
  ["server/namelist.c", "server/strlist.c"], [("nlput/nldelete/nlpresent/nlmatch/nlget/nlclear", "server/namelist.c"), ("list primitives", "server/strlist.c")], (), ["hush/notify/invite behaviour"])
P("P09", "Packet fields and command words are split without loss or overrun",
  "Splitting a packet body yields exactly its separator-delimited fields, in order and unaltered; missing ones read as empty, never as remains of an earlier packet, and more fields than the limit never overrun the table. Taking the first word of a command argument and the remainder after it partitions the argument: the word is what precedes the first blank, the remainder everything after it.",
  ["inputs", "histories"], "for every packet body and every sequence of packets", "Stale-field and overrun bugs need a particular predecessor packet or an unusual number of separators.",
  ["server/ipcf.c", "server/strutil.c", "server/globals.c"], [("split", "server/ipcf.c"), ("getword, get_tail", "server/strutil.c")], [("fields", "current packet's fields", "server/globals.c")], ["commands' arguments"])
P("P10", "A login is granted only with a valid, free nickname and exactly as requested",
  "A login succeeds only with a login id of 1-12 letters or digits and a nickname that after filtering is 1-12 characters and not in use (compared without regard to case); the client is then in the requested group (or the default one) under that nickname, is told so, and the group hears the sign-on. A refused login leaves no trace: no nickname is taken, no group created or joined, nobody hears a sign-on, and the client is told why and dropped. A second login on the same connection is refused without effect.",
  ["inputs", "histories"], "for every login packet and every state of users and groups", "The refusal reasons combine with every state of the other users; tests try each reason once in an empty server.",
  ["server/msgs.c", "server/dispatch.c", "server/users.c"], [("loginmsg", "server/msgs.c"), ("dispatch of login packets", "server/dispatch.c")], [("u_tab", "who is logged in", "server/globals.c")], ["login-ok/error/exit packets", "who output"])
P("P11", "Nicknames are unique and change only to permitted names",
  "At any time no two users have the same nickname (compared without regard to case), through any sequence of logins, renames and departures. A rename takes effect exactly when the filtered, truncated new name is non-empty and nobody else's, and then the group is told the old and the new name, the old name is free, and the user's registration status is recomputed for the new name; otherwise the user is told and nothing changes. The administrator's name can only be taken with the administrator's password.",
  ["inputs", "histories"], "for every requested name and every set of names in use", "Collisions appear only after filtering, truncation or case folding of both names.",
  ["server/s_user.c", "server/msgs.c", "server/users.c"], [("s_name", "server/s_user.c"), ("find_user", "server/lookup.c")], [("u_tab[].nickname", "names in use", "server/globals.c")], ["Name status packets"])
P("P12", "Unauthenticated clients can do nothing and administration needs the admin",
  "Before a completed login, no packet other than the login itself changes any user or group or causes anything to be sent to another client, and clients marked for dropping are ignored. Shutting down, restarting, broadcasting to everyone and changing the log level happen only at the request of a client that holds the administrator's name and password; dropping another client additionally is possible with that client's own registration password. Anyone else gets an error and nothing changes.",
  ["inputs", "histories"], "for every packet in every login state, and every command argument and identity", "Tests check one forbidden command per role, not all packets in all states.",
  ["server/dispatch.c", "server/msgs.c", "server/s_admin.c"], [("login check", "server/msgs.c"), ("check_auth", "server/access.c"), ("admin commands", "server/s_admin.c")], [("S_kill", "clients to be dropped", "server/globals.c")], ["packets to others", "disconnects", "exit"])
P("P13", "Groups are entered only as their access rules allow",
  "A user enters an existing restricted group only as its moderator, with a matching invitation (registered-only invitations counting only for registered users), as the administrator, or by the server's own act of moving someone; a size limit of a moderated group is not exceeded except by its moderator. Following another user by name works only into visible groups. A refused change leaves the user where they were; a granted one puts them in exactly that group, tells the new and the old group, creates a new group with the requester as moderator, and removes a group that became empty.",
  ["inputs", "histories"], "for every group state, invitation list, membership and requested group name", "The rule is a product of control, visibility, size, invitation kind, registration and moderator state.",
  ["server/s_group.c", "server/groups.c"], [("s_change", "server/s_group.c")], [("g_tab", "groups", "server/globals.c")], ["status packets to both groups", "who output"])
P("P14", "Only a group's moderator can exercise the moderator's powers",
  "Passing the moderator role, booting, changing a moderated group's status, topic, size, visibility, invitation and talk lists take effect only when requested by the group's moderator (or the administrator for passing and booting), or where the group is public or has no moderator and the command is open to its members; in every other case the requester gets an error and no group, list or membership changes. The moderator of a group is always a logged-in user or nobody. A boot moves exactly the named member of that group out of it and never the administrator. What is granted changes exactly what it names, and a group held for its absent registered moderator goes back to exactly that one.",
  ["inputs", "histories"], "for every command, argument, role of the requester and group state", "The check is repeated in each command with different exceptions; tests cover a few combinations.",
  ["server/s_group.c"], [("s_pass, s_boot, s_status, s_topic, s_invite, s_cancel, s_talk", "server/s_group.c")], [("g_tab[].mod", "moderator", "server/globals.c")], ["status packets", "group state shown by who"])
P("P15", "An open message reaches exactly the members of the sender's group",
  "An open message is delivered once, unaltered after filtering and under the sender's nickname, to every logged-in member of the sender's group who has not hushed the sender, to the sender only with echo enabled, and to nobody else; an exclude message omits exactly the named user. In a quiet group nobody can speak, in a controlled group only the moderator and those allowed to talk; a message that may not be delivered reaches nobody and the sender is told. A sender of more than three open messages within the same second in the open default group is moved out of it and that message is not delivered there.",
  ["inputs", "histories", "configurations"], "for every membership, volume, control, hush and echo setting, text and timing", "The recipient set is a function of the whole user table; tests have two or three clients in default settings.",
  ["server/msgs.c", "server/s_group.c", "server/send.c"], [("openmsg", "server/msgs.c"), ("s_send_group, s_exclude", "server/s_group.c")], [("u_tab[].group", "membership", "server/globals.c")], ["open packets received"])
P("P16", "Personal messages, beeps, pings reach only their addressee, as settings allow",
  "A personal message is delivered once to exactly the named user, unaltered after filtering and under the sender's nickname, unless that user has hushed the sender, in which case the sender is told it bounced; an unknown addressee only produces an error to the sender. A beep reaches exactly its addressee unless they refuse beeps; a ping reaches its addressee and the answer is reported to the one who asked. An away user's message is shown to the sender of a personal message (unless the last such notice since it was set went to the same sender within ten seconds), and echo settings return the sender's own message to the sender only. A look-up without a name shows the sender of the last message that was delivered.",
  ["inputs", "histories", "configurations"], "for every sender, addressee, hush, beep, echo and away setting and text", "Settings combine; leakage to a third client is never tested for.",
  ["server/s_person.c", "server/s_beep.c", "server/send.c", "server/s_user.c"], [("s_personal", "server/s_person.c"), ("s_beep", "server/s_beep.c"), ("away_handle, s_ping, pong", "server/s_user.c, server/msgs.c")], (), ["personal, beep, ping and status packets"])
P("P17", "Hidden groups stay hidden from those outside them",
  "The listing of everyone never shows the name of a secret or super-secret group, nor that a super-secret group exists or who is in it, to a user who is neither a member, nor invited, nor the administrator; members, invited users and the administrator do see it, and visible groups and their members are shown to everyone, each user once and under their own group. Looking up or following a user in a super-secret group does not reveal the group.",
  ["inputs", "configurations"], "for every set of groups, visibilities, memberships and invitation lists, and every requester", "Secrecy is about what does not appear, for every state; tests compare a few expected outputs.",
  ["server/s_who.c", "server/s_group.c"], [("s_who and helpers", "server/s_who.c")], [("g_tab[].visibility", "secrecy", "server/globals.c")], ["command output packets of who and whereis"])
P("P18", "Registered nicknames and their data are protected by their password",
  "A nickname counts as registered for a user only after the right password was given or, if not forbidden by the owner, from the registered login and address; a first registration stores the password given, and no later command of someone else without it changes or deletes the registration, its password, details or stored messages. A wrong password never yields registered status, and nobody becomes registered while the database cannot be read. A message stored for a registered nickname is returned to its owner, in order and unaltered, exactly once, and at most the limit of messages is stored.",
  ["inputs", "histories"], "for every sequence of registrations, password changes, deletions, stored messages and identities", "Needs multi-step histories across identities with adversarial passwords.",
  ["server/access.c", "server/s_auto.c", "server/icbdb.c"], [("nickwrite, nickchpass, nickdelete, nicklookup, nickwritemsg, nickreadmsg", "server/access.c")], [("user database", "registrations", "server/icbdb.c")], ["realname status", "database contents"])
P("P19", "The user database is an exact map",
  "After any sequence of stores, replacements, deletions and lookups, and after closing and reopening the file, a lookup returns exactly the last value stored under that key if it has not been deleted, and nothing otherwise, for all keys and values of up to 1 MiB including empty and binary ones. Growth of the table and colliding keys change nothing, and a file that ends early or states impossible lengths is refused, never overrun.",
  ["inputs", "histories"], "for every operation sequence, key and value contents, and every file content", "Collisions, resizing and truncated files are corner cases of the contents, not of the API.",
  ["server/icb_dbm.c"], [("dbm_store, dbm_fetch, dbm_delete, load/save", "server/icb_dbm.c")], (), ["dbm_* results", "file contents"])
P("P20", "A crash or failed write never loses the committed database",
  "At every point of saving the database, a crash or a failing system call leaves on disk either the complete previous contents or the complete new contents, which then load without error; a save that reports success is durable (renaming a file over another is taken to be atomic). When no call fails, a registration, change or deletion the user was told succeeded is on disk once the command is processed; after a failure nothing is lost from memory and the next save writes it.",
  ["crash_points", "fault_sequences", "histories"], "for every system-call boundary as crash point, every failing call and short write, and every prior contents", "Tests never crash the process between two system calls or fail one.",
  ["server/icb_dbm.c", "server/icbdb.c"], [("temporary file, fsync, rename", "server/icb_dbm.c"), ("flush on close", "server/icbdb.c: icbdb_close")], (), ["the files in the data directory"])
P("P21", "A departing user leaves nothing behind",
  "When a logged-in client's connection is lost, its nickname and group membership disappear at once, its group hears exactly one sign-off (or the group vanishes if it was the last member), those who asked for notification are told, and no one else is told. Every group it moderated gets a logged-in member as new moderator, is held for the registered moderator's return, or is left with none, never with the departed user. Nothing addressed to the connection afterwards refers to the departed user, and the other users and groups are unchanged.",
  ["histories", "configurations"], "for every state of users and groups, and every user that leaves", "The clean-up touches several tables whose combinations (moderator elsewhere, last member, registered) tests do not build.",
  ["server/unix.c", "server/msgs.c", "server/groups.c", "server/users.c"], [("s_lost_user", "server/unix.c, server/msgs.c")], [("u_tab, g_tab", "users and groups", "server/globals.c")], ["Sign-off and Notify packets"])
P("P22", "Idle handling boots, replaces and drops exactly those who are due",
  "The periodic pass moves a user to the idle group exactly when their idle time (since their last message or command) exceeds a non-zero limit of their group (never out of the idle group itself), telling them and the group; a group such a user moderated goes to its most recently active member. It replaces a moderator only of a non-public group, when the moderator has been idle longer than the group's limit or has not come back in the time allowed, and only by a less idle, present member. It disconnects exactly the clients marked for dropping and exits exactly when the announced shutdown time has come; everything else is unchanged.",
  ["schedules", "configurations", "histories"], "for every clock value, idle time, limit and group state", "The thresholds are hours long; tests do not wait.",
  ["server/unix.c", "server/msgs.c"], [("s_didpoll, check_idle and friends", "server/msgs.c, server/unix.c")], [("t_recv, idleboot, idlemod, modtimeout", "timers", "server/globals.c")], ["status packets", "group changes"])
P("P23", "Messages supplied by users are never interpreted beyond their one slot",
  "Texts that users supply as templates are used with exactly one place holder: in the boot and idle-boot messages it is replaced by the nickname (or by \"you\" for the user concerned), in the away message it is shown as given. A text with no place holder, a second one or any other percent sequence is refused or shown as plain text. No such text can make the server read or write memory it should not, or produce anything other than the text with its place holder filled in, cut to the packet size.",
  ["inputs"], "for every template and every text substituted into it", "Format-string faults need directives no ordinary message contains.",
  ["server/strutil.c", "server/s_user.c", "server/s_group.c"], [("filterfmt", "server/strutil.c"), ("away, boot, idleboot messages", "server/s_user.c, server/s_group.c, server/msgs.c")], (), ["Away, Boot and Idle-Boot status packets"])
P("P24", "No packet, in any login state, can crash, hang or corrupt the server",
  "Whatever bytes a client sends as a packet, before, during or after login, the server processes it in bounded time without reading or writing outside its buffers, and goes on serving. Afterwards the user and group tables are consistent: names are unique and terminated, every logged-in user is in an existing group, every group has a member, moderators are logged-in users.",
  ["inputs", "histories"], "for every packet content up to the bound, every command name with arbitrary arguments, in every state", "Memory faults need the one length or character no test uses.",
  ["server/dispatch.c", "server/msgs.c", "server/s_group.c", "server/s_user.c", "server/s_who.c", "server/s_auto.c"], [("dispatch", "server/dispatch.c"), ("command tables", "server/globals.c")], [("u_tab, g_tab", "users and groups", "server/globals.c")], ["process alive; later packets answered"])
P("P25", "Nicknames and group names contain only permitted characters",
  "Whatever bytes are given as a nickname or group name, the name in effect contains only letters, digits and the permitted punctuation: a blank becomes an underscore, every other character a question mark, in place and without changing the length or touching anything else.",
  ["inputs"], "for every byte string", "256 characters at every position, two different sets; tests use names people would choose.",
  ["server/strutil.c"], [("filternickname, filtergroupname", "server/strutil.c")], (), ["nicknames and group names shown by who"])
P("P26", "Login access control denies exactly the denied",
  "A login is refused when the permission file denies the client (by login id and host name, or by IPv4 address and mask, also of an IPv4 client on an IPv6 socket) or an entry of the denial list matches LOGIN@HOST without regard to case, and is not refused for these reasons otherwise. The first matching entry of the permission file decides; lines that are comments or incomplete are ignored, and the last entry of the denial list counts whether or not anything follows it. A client whose address cannot be determined is refused.",
  ["inputs", "configurations"], "for every permission file, denial list, login id and host", "File contents and wildcards multiply.",
  ["server/msgs.c", "server/wildmat.c"], [("get_perms", "server/msgs.c"), ("denial list", "server/msgs.c")], (), ["login-ok or error packets"])
P("P27", "A restart keeps all connections and state",
  "After an administrator's restart, every connection, user, group and setting continues as before in the new process.",
  ["histories"], "for every state at the time of restart", "The state is arbitrary and the process image changes.",
  ["server/s_admin.c", "server/icbutil.c", "pktserv/pktserv.c"], [("icbdump/icbload, execve", "server/icbutil.c, server/s_admin.c")])
P("P28", "Those who asked, and only those, are told who signs on and off",
  "A user who put a nickname or an address pattern on their notify list is told once, at once, each time a user matching it signs on or off, with that user's nickname and address, unless that user is then in a super-secret group. Nobody else is told, nobody is told of a login that was refused, of a change of nickname or group, or of themselves, and taking the pattern off the list ends it.",
  ["inputs", "histories"], "for every pattern, every group's visibility, every outcome of the login and every history of requests, sign-ons, sign-offs, renames and moves", "Patterns, visibilities and histories multiply; tests try one nickname.",
  ["server/msgs.c", "server/ipcf.c", "server/s_who.c", "server/s_user.c", "server/namelist.c"], [("notification at login", "server/msgs.c: loginmsg"), ("notification at departure", "server/ipcf.c: s_lost_user"), ("the lists", "server/s_user.c: s_notify")], [("u_tab[i].n_notifies, s_notifies", "patterns to be told of", "server/users.h")], ["Notify-On and Notify-Off status packets"])
P("P29", "Message of the day, news and help are shown as written, and no other file",
  "/motd, /news and /s_help show the asking user, and nobody else, every complete line of the file in order, filtered as all text is and cut to the packet size (in the message of the day %U stands for the number of sign-ons and %c for the character c). /news with an argument shows the news item of that name or reports that there is none: no argument makes the server open, show or create any other file. A missing file is reported, and no file is left open.",
  ["inputs"], "for every file content and every argument", "File contents and arguments are arbitrary bytes, and line lengths around the packet size matter.",
  ["server/s_motd.c", "server/s_news.c", "server/s_user.c"], [("s_motd", "server/s_motd.c"), ("s_news", "server/s_news.c"), ("s_help", "server/s_user.c")], (), ["command output packets", "paths opened"])
P("P30", "Personal settings do what was asked, to the asking user only",
  "hush and notify put a nickname or address on exactly the lists the flags name, or take it off if it was there, without regard to case; without a name they show the lists; contradicting, repeated or unknown flags are refused and change nothing; a full list refuses another name and keeps those it has. echoback and nobeep set exactly what was asked or refuse it. A hush takes effect at once on open and personal messages, as asked, until it is taken back or the other user no longer matches. None of this changes anything of another user or a group.",
  ["inputs", "histories"], "for every combination of flags, every name, every previous content of the lists and every setting", "Flags combine with four lists and their contents; tests try one of them.",
  ["server/s_user.c", "server/send.c", "server/s_group.c", "server/namelist.c"], [("s_hush, s_notify, s_echoback, s_nobeep", "server/s_user.c"), ("hushed messages", "server/send.c: sendperson; server/s_group.c: s_send_group")], [("u_tab[i].pri_n_hushed and the like", "what a user does not want to see", "server/users.h")], ["packets delivered; lists shown"])
P("P31", "A client's host name is one that leads back to its address",
  "The host name a user is known by, and by which access is decided, is the name of the client's address only if that name resolves back to this very address; otherwise it is the address in brackets. No reply or failure of the name service makes the server believe another name, lose what it allocated, or use another client's address. The name is noted for that connection alone, cut to its field, and gone when the connection is.",
  ["inputs", "fault_sequences"], "for every address, every name, every set of addresses the name resolves to and every failure of each lookup", "Tests run on the loopback address, whose lookups never disagree or fail.",
  ["pktserv/getrname.c", "server/send.c"], [("double reverse lookup", "pktserv/getrname.c: getremotename"), ("s_new_user", "server/send.c")], [("u_tab[i].nodeid", "host name", "server/users.h")], ["addresses shown by who and whereis; access decisions"])
P("P32", "What is reported about groups, users and the server is what is in force",
  "A group's status shows its members the moderator (or for whom the group is held), visibility, control, volume, size and idle limits in force, and every name on its invitation and talk lists once, whole and as belonging to that list, marked if it holds for registered users only, however many and long the names are. A listing shows for each user the idle and sign-on time, who moderates and whether they are unregistered, away or on TLS, and counts users and groups; whereis tells the same of one user. The statistics count exactly the sign-ons granted, boots, drops, idle-boots and idle moderators. Reports go to the asking user only and change nothing.",
  ["inputs", "histories"], "for every setting, membership, moderator and list, all lengths of names, every idle time and every history of counted events", "Settings and lists combine, and the lines that show them break at lengths tests do not try.",
  ["server/s_group.c", "server/s_who.c", "server/s_info.c", "server/s_stats.c"], [("s_status, list_invites", "server/s_group.c"), ("add_item, print_group_header, pgm_long", "server/s_who.c"), ("s_server_stats", "server/s_stats.c")], [("g_tab, u_tab, server_stats", "what is reported", "server/globals.c")], ["command output packets of status, invite, w, whereis and stats"])
P("P33", "Whois shows a nickname's details as its owner set them",
  "Each detail a registered user sets (real name, telephone, e-mail, address, page, text) is stored as given, cut to its limit with notice of it, and shown by whois to anyone who asks, once and as it was set: the address line by line, the text broken into lines without losing, adding or repeating anything but the blank or hyphen at the break. Details not set are shown as such or not at all; passwords and details of other nicknames never. A nickname that is not registered is reported as such. Asking changes nothing.",
  ["inputs"], "for every detail, all lengths, contents and positions of blanks and separators, and every combination with other details", "Line breaks depend on the length and on where the blanks are; tests show a short text.",
  ["server/access.c", "server/s_auto.c", "server/icbdb.c"], [("nicklookup, nickchinfo", "server/access.c")], [("user database", "details", "server/icbdb.c")], ["command output packets of whois"])
P("P34", "A scheduled shutdown is announced in time and happens when announced",
  "When the administrator schedules a shutdown, everyone logged in is told once, at once, in how many minutes; again once at the first periodic pass within five minutes of the end (unless fewer than five minutes were given) and once within the last minute; nothing else is said. The server stops at the first pass at or after that time, never before, having closed every connection; a shutdown announced anew replaces the earlier one, with its own notices. Whoever asks is told how long is left, right to the unit shown, or that no shutdown is scheduled; asking and waiting change nothing.",
  ["inputs", "histories"], "for every time announced, every sequence of announcements and passes, at any times", "The outcome depends on clock times and on earlier announcements; tests neither wait nor stop the server.",
  ["server/s_admin.c", "server/ipcf.c", "server/s_shuttime.c"], [("s_shutdown, s_didpoll, s_shuttime", "server/s_admin.c, server/ipcf.c")], [("TimeToDie, ShutdownNotify", "the time and how far it was announced", "server/globals.c")], ["important-message packets", "process exit"])
P("P35", "Groups, members and moderators stay as the rules have it through any history",
  "Through any sequence of entering, creating, restricting, opening, inviting, passing and giving up moderation, booting, signing off and coming back, and waiting, everybody is in exactly the group the rules put them in: a group exists exactly as long as somebody is in it and begins anew, without the old one's moderator, invitations or settings, after that; whoever creates one moderates it (the open group excepted) and stays its moderator elsewhere until it is passed on or empties; a restricted group lets in its moderator and those invited since it was restricted and not booted, nobody else; a registered moderator who signs off gets the role back on coming back within the time allowed, otherwise the least idle member has it. The periodic work changes nothing else.",
  ["histories", "inputs"], "for every sequence of these operations by any of the users, in every order", "Moderation outlives membership and connections; what must hold depends on long histories with several users, of which tests replay a few.",
  ["server/s_group.c", "server/groups.c", "server/ipcf.c", "server/msgs.c"], [("s_change, s_pass, s_boot, s_invite, s_status", "server/s_group.c"), ("s_lost_user, s_didpoll", "server/ipcf.c"), ("loginmsg", "server/msgs.c")], [("g_tab", "groups with moderators, invitations and who is awaited", "server/globals.c")], ["group listings", "refusals"])

NA = {
 "P27": "restarting replaces the process by execve() and hands descriptors and the state file to a new image; the new image at this commit does not rebuild its connection buffers, so the guarantee does not hold end to end, and the hand-over across process images cannot be encoded in one symbolic execution. Listed for completeness, not claimed.",
}

def main():
    claimed = [p["id"] for p in PR if p["id"] in spec.PROPS]
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in PR:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for pid in claimed:
        b = "; ".join(dict.fromkeys(f"{j['harness']}: {j['bounds']}" for j in spec.PROPS[pid]["jobs"]))
        checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid}", thorough_cmd=f"python3 check.py {pid} --thorough",
            technique="symbolic execution of the real code (LLVM bitcode of /repo's sources), every branch and assertion decided by Z3; counterexamples replayed natively under ASan",
            level="other",
            level_note="Bounded: all inputs and schedules within these bounds, none beyond: " + b + ". Trusts engine/symx, Z3, clang and the models in lib/ (" + ("; ".join(spec.PROPS[pid]["assumptions"]) or "libc string functions") + ")."))
    na = [dict(property=p["id"], reason=NA.get(p["id"], "not claimed yet: its check is not built")) for p in PR if p["id"] not in claimed]
    m = dict(version=1, setup_cmd="python3 check.py --build", hooks=dict(guard="VP_HOOKS (unused: no hooks were needed)", enable="nothing to enable", source_commits=[]),
             checks=checks, not_applicable=na, notes="All checks: check.py with harnesses in harness/, run by engine/symx. See DESIGN.md.")
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    print(len(claimed), "claimed,", len(na), "not claimed")
main()
