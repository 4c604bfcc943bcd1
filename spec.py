"""Which harnesses decide which property, with which bounds."""
PROPS = {}
def P(pid, *jobs, assumptions=()):
    PROPS[pid] = dict(jobs=list(jobs), assumptions=list(assumptions))
def J(harness, bounds, **kw):
    return dict(harness=harness, bounds=bounds, **kw)

MAPDB = "the user database is an exact map (what P19 and P20 check of server/icb_dbm.c)"
D5 = ["VP_USERS=5", "VP_GROUPS=4"]
P("P06", J("filter", "texts of up to 4 (thorough: 5) arbitrary bytes, destination of 1..N+2 bytes", quick=["N=4"], deep=["N=5"]),
         J("text", "8 kinds of messages with 1-2 (thorough: 1-3) arbitrary bytes from the packet received to those sent; 19 commands with arguments of 1-2 arbitrary bytes", cases=[0, 1], defs=D5, set="mapdb"), assumptions=[MAPDB])
P("P07", J("wild", "patterns of up to 5 (thorough: 6) and strings of up to 3 arbitrary 7-bit characters; classes of 2-4 (5) arbitrary characters after or before a star or a character, on strings of up to 2 characters; patterns of 5 and 7 stars, question marks and letters on strings of up to 4", cases=[0, 1, 2], quick=["NP=5", "NT=3", "CLS=3"], deep=["NP=6", "NT=3", "CLS=4"]))
P("P08", J("nl", "sequences of 4 (thorough: 5) operations on a list of capacity 3, names of 1-2 arbitrary characters; matching two patterns of 2-3 arbitrary characters against names of two", cases=[0, 1], quick=["K=4"], deep=["K=5"]))
P("P09", J("split", "bodies of up to 6 arbitrary bytes after another packet, and 25 separators", cases=[0, 1]),
         J("word", "arguments of up to 6 bytes", cases=[0, 1]))
P("P23", J("fmt", "templates of up to 5 arbitrary bytes"),
         J("use", "away, boot and idle-boot messages of up to 3 (thorough: 4) arbitrary printable characters, up to two conversions and as many characters more, from setting them to showing them; 28 lengths up to the longest packet with the slot at 3 places", cases=[0, 1, 2, 3], quick=["N=3"], deep=["N=4"], defs=D5, set="mapdb"), assumptions=[MAPDB])
P("P25", J("names", "names of up to 3 arbitrary bytes"),
         J("login", "nicknames of up to 3 arbitrary bytes at login, group names of 1-2", cases=[0, 5], defs=D5, set="mapdb", witnesses=["granted into an existing group", "a group name with a forbidden character"]),
         J("nick", "new nicknames of up to 3 arbitrary bytes", cases=[0], defs=D5, set="mapdb", quick=["K=3"], deep=["K=4"], witnesses=[]),
         J("group", "new groups with names of up to 2 (thorough: 3) arbitrary bytes", cases=[2], defs=D5, set="mapdb", quick=["N=2"], deep=["N=3"], witnesses=[]),
         J("mod", "groups renamed to 1-2 arbitrary bytes", cases=[3], defs=D5, set="mapdb", witnesses=["renamed"]), assumptions=[MAPDB])
P("P15", J("open", "3 clients (any membership in 2 groups), any settings of the group, hushes by nick, site or pattern, talk lists, echo; messages of 3 characters; floods: histories of 6 messages with any clock ticks",
           cases=[0, 1, 2, 3, 4, 5], defs=D5),
         J("lost", "the next user of a connection after messages of the one before", cases=[1], defs=D5, set="mapdb", witnesses=[]), assumptions=[MAPDB])
P("P16", J("pers", "3 clients (any membership), any 3-letter addressee, texts of 3 printable characters, any hush, echo, away and beep setting; histories of 4 messages with clock ticks, and of 3 (thorough: 4) pings, answers and departures",
           cases=[0, 1, 2, 3], defs=D5))
P("P10", J("login", "slots 1 and 3 in any state (absent or in one of two groups with any settings and moderator); nicknames of up to 3 arbitrary bytes and lengths 12, 13; login ids of up to 3 arbitrary bytes and lengths 12, 13; 7 requested groups and names of 1-2 arbitrary bytes, following a user, administrator's name with 5 passwords, packets with too few fields, who requests",
           cases=[0, 1, 2, 3, 4, 5], defs=D5, set="mapdb"),
    assumptions=[MAPDB])
P("P11", J("nick", "3 clients (any membership in 2 groups, any volume); names of up to 3 arbitrary bytes and of 14, the administrator's name with 3 passwords; any registration of the new name; histories of 3 (thorough: 4) logins, renames and departures of 3 clients over 5 names",
           cases=[0, 1, 2], defs=D5, set="mapdb", quick=["K=3"], deep=["K=4"]),
         J("login", "logins with nicknames of up to 3 arbitrary bytes; the administrator's name with 5 passwords", cases=[0, 2], defs=D5, set="mapdb", witnesses=["administrator", "nickname in use"]), assumptions=[MAPDB])
P("P12", J("priv", "3 clients; before login or marked for dropping: every packet type, those the server handles with 2 arbitrary bytes, and 42 commands with 7 arguments; administration: 5 names with any password of 0 or 3 characters, drops with any 0-4 letter password; 6 packets on the descriptors of the resident user",
           cases=[0, 1, 2], defs=D5, set="mapdb"),
         J("login", "logins with the administrator's name and 5 passwords", cases=[2], defs=D5, set="mapdb", witnesses=["administrator"]), assumptions=[MAPDB])
P("P13", J("group", "3 clients, two existing groups with any settings, size limit 0-3, any moderator, 8 kinds of invitation lists, registered or not, administrator or not; following by 7 names; new groups with names of up to 2 (thorough: 3) arbitrary bytes after up to one dot, of 8, 9 and more characters, and the special names; with and without a free slot; a name used again",
           cases=[0, 1, 2, 3, 4], defs=D5, set="mapdb", quick=["N=2"], deep=["N=3"]),
         J("login", "logins into 7 groups, and following a user", cases=[2, 4], defs=D5, set="mapdb", witnesses=["following a user", "restricted group"]), assumptions=[MAPDB])
P("P14", J("mod", "3 clients, two groups with any settings; the moderator anyone logged in, nobody, or held for someone absent; the requester with and without the administrator's name and password; pass with 7, boot with 21, status with 16, list commands with 24 arguments; new group names of 1-2 arbitrary bytes and 7 special ones; topics of 2 arbitrary characters and one too long; 27 numbers and combinations of options in 4 kinds of groups; a group held for its moderator, 4 nicknames coming back by login, password or rename",
           cases=[0, 1, 2, 3, 4, 5, 6, 7, 8], defs=D5, set="mapdb"), assumptions=[MAPDB])
P("P19", J("dbm", "sequences of 4 (thorough: 5) stores, replacements, deletions and reopenings, with values of changing or all of the same length, over 3-4 colliding keys (empty, with NUL bytes, differing in one bit or in case, prefixes) and values of 0-2 arbitrary bytes; 94-97, 192, 193 or 258 other records; keys of up to one arbitrary byte and a fixed one; files of up to 30 arbitrary bytes with 14 values for each length field",
           cases=[0, 1, 2, 3, 4, 5], quick=["K=4"], deep=["K=5"]),
         J("dbm", "keys of 1-3 and 255-257, values of 255-257, 65535, 65536 and 70000 bytes", cases=[6], quick=["FS_SIZE=71000", "FS_FILES=2"]))
P("P20", J("dbmcrash", "the earlier file missing, empty, with 1 or 2 records, and any remains of a temporary file; 2 changes with arbitrary values; any one (thorough: two) failing or short calls and a crash before any call; unsynced data lost wholly, in half or not at all; 9 commands with one failing call; loading, and 6 commands, with a failing open or read",
           cases=[0, 1, 2], defs=D5), assumptions=["the file system's rename() is atomic and, like fsync(), durable when it returns"])
P("P17", J("who", "3 clients, two groups of any visibility (thorough: and any control and volume); 14 kinds of invitation, identity and group names, registered or not; any moderator; listings with 4 options, look-ups with 11 arguments, listings instead of a login in 2 ways with 8 arguments",
           cases=[0, 1, 2, 3], defs=D5, set="mapdb"),
         J("who", "a group of 7 with names of 3-12 characters, in full and in short", defs=["VP_USERS=9", "VP_GROUPS=4"], set="mapdb", witnesses=["two lines"]), assumptions=[MAPDB])
P("P18", J("reg", "one command (16, direct or through Server) with passwords of 0, 2, 3 or 4 arbitrary characters in any state of the record; logins and renames with any 3-character password and 6 registered addresses; histories of 3 (thorough: 4) messages with 2 arbitrary characters, and near the limit of 20; histories of 4 (thorough: 5) registrations, password changes, deletions and renames by 2 clients over 3 names and 2 passwords; messages of 19 lengths up to 223 between names of up to 12 characters, directly and through Server",
           cases=[0, 1, 2, 3, 4, 5], defs=D5 + ["VP_RECS=100"], set="mapdb", quick=["K=3"], deep=["K=4"]), assumptions=[MAPDB])
P("P21", J("lost", "3 clients (any membership), groups with any volume, control and visibility; the leaving user registered or not, dropped or not, moderator of any of the two groups; 5 kinds of notification lists; any activity times; the next user of the same connection after pings, messages and away notices",
           cases=[0, 1, 2], defs=D5, set="mapdb"), assumptions=[MAPDB])
P("P22", J("idle", "3 clients (any membership), idle times of 101-102 s (thorough: 101-104) and limits of none or those times, any volume and control, any moderator or one awaited, away or not; the custom idle message in 3 forms; any clients marked for dropping; an announced end up to 1000 s before or after now; 7 kinds of activity, up to 1 s before and 2 s after a limit",
           cases=[0, 1, 2, 3], defs=D5, set="mapdb", quick=["LO=101", "HI=102"], deep=["LO=101", "HI=104"]), assumptions=[MAPDB])
P("P26", J("access", "every IPv4 address, native, mapped or within IPv6, or unknown; permission files of up to 2 lines (one line: 7 kinds of ignored lines, 16 user lines, masks with an arbitrary digit, 7 permission words; two lines: a choice of these); denial lists of 1 or 2 entries of 7 shapes with 2 arbitrary letters, ended 4 ways; login ids of 2 arbitrary characters, hosts with 2 arbitrary letters",
           cases=[0, 1, 2, 3], defs=D5, set="mapdb"), assumptions=[MAPDB])
P("P05", J("wire", "9 constructors with texts of 0-3 and 222-258 (thorough: 0-520) characters, the first and last kept of them arbitrary ASCII, a 2-byte character across the limit, nicknames of 1 and 12; who lines with longest fields; 10 kinds of messages and commands through the server with 0-3 and 222-246 (thorough: 0-246) characters",
           cases=[0, 1, 2], defs=D5, set="mapdb"), assumptions=[MAPDB])
N6 = ["VP_USERS=6", "NCONN=2"]
P("P01", J("frame", "one connection with any 1-6 (thorough: 1-8) bytes arriving in any pieces and ending in any way; two connections of 3 (4) bytes each, answered while they arrive; sends within a packet with any 2 failed or partial writes; a client slowed down any 3 times",
           cases=[0, 1, 2, 4], defs=N6, set="pkt", quick=["B=6"], deep=["B=8"]),
         J("frame", "two packets of 1, 2, 252-255 bytes with 2 arbitrary bytes each, arriving in pieces of 1, 2, 100, 253-255 or all bytes", cases=[3], defs=N6 + ["NIN=600"], set="pkt"),
         J("slow", "any client with any permissions, any times of up to 100 s", defs=D5))
P("P03", J("outq", "3 packets of 1-3 arbitrary bytes with any 3 (thorough: 4) writes would-block, partial or failing; 2 (3) packets to 2 clients at any time while they are in the middle of a packet; a client that does not read while 12 packets are sent to it; one that never takes another byte; one being dropped; 14 packets each needing a second attempt; 10 packets to the next client on a descriptor whose last one left 1-10 unread",
           cases=[0, 1, 2, 3, 4, 5, 6], defs=N6, set="pkt"),
         J("tls", "a TLS client with packets sent at any time and any 2 (3) calls to be repeated", cases=[2], defs=N6, set="pkt", quick=["B=5"], deep=["B=6"], witnesses=["two packets"]),
         J("giveup", "a client given up in the middle of a personal message, an open message or a beep", defs=D5, set="mapdb"), assumptions=[MAPDB])
P("P04", J("life", "up to 3 connections, histories of 1-3 (thorough: 2-4) rounds; in each, any connections open, send a packet, end, reset or hang up at once; in any callback the server may, up to 2 times, drop or send to any of them; the same with a write that blocks, is partial or fails",
           cases=[0, 1, 2, 3], defs=["VP_USERS=6", "NCONN=3"], set="pkt", quick=["S=2"], deep=["S=3"]),
         J("life", "one connection more than the server has room for, an accept that fails", cases=[4], defs=["VP_USERS=6", "NCONN=4"], set="pkt", quick=["S=2"], deep=["S=3"]),
         J("outq", "10 packets to the next client on a descriptor whose last one left 1-10 unread", cases=[6], defs=N6, set="pkt", witnesses=["a descriptor used again"]),
         J("tls", "TLS connections any call of which fails for good; two, one of which fails", cases=[1, 4], defs=N6, set="pkt", quick=["B=5"], deep=["B=6"], witnesses=["failed handshake", "another connection fails"]))
P("P02", J("tls", "one TLS connection with any 5 (thorough: 6) non-zero bytes in any records and arrivals, ending in any way, and any 2 calls of the library to be repeated; any call failing for good; packets sent at any time with any 2 (3) calls to be repeated; next to a plain connection; two, one of which fails at any call",
           cases=[0, 1, 2, 3, 4], defs=N6, set="pkt", quick=["B=5"], deep=["B=6"]))
P("P24", J("arb", "packets of 1-3 (thorough: 1-4) arbitrary bytes, logged in or not; 36 commands with 12 beginnings and up to 2 (3) arbitrary bytes; 18 requests to the resident user with 3 beginnings and up to 2 (3) arbitrary bytes, registered or not, the database unreachable or not; all of these and messages and logins with 32 lengths up to the longest packet, made of 14 characters, the last one arbitrary; 8 kinds of stored values with 17 lengths, shown afterwards; 7 lists filled up",
           cases=[7, 0, 1, 2, 3, 4, 5, 6, 8], time=400, defs=D5 + ["VP_MAXEV=120"], set="mapdb", quick=["N=2"], deep=["N=3"]), assumptions=[MAPDB])
P("P28", J("notify", "sign-ons (granted and refused) and sign-offs in 4 kinds of groups; patterns of 3 arbitrary characters for the nickname or before the host's; histories of 4 (thorough: 5) requests, sign-ons and -offs, renames and moves", cases=[0, 1], defs=D5, set="mapdb", quick=["K=3"], deep=["K=4"]),
         J("lost", "departures with 5 kinds of lists", cases=[0], defs=D5, set="mapdb", witnesses=[]), assumptions=[MAPDB])
P("P30", J("set", "hush and notify with any 2 (thorough: 3) flag characters, a second flag word or none, 3 names or none, any of them listed before; full lists; echo and beep settings with 3 words or 0-3 arbitrary bytes; 7 hushes and what they let through, before and after taking them back", cases=[0, 1, 2, 3, 4], defs=D5 + ["VP_MAXEV=60"], set="mapdb", quick=["N=2"], deep=["N=3"]), assumptions=[MAPDB])
P("P29", J("files", "message of the day, help, news and one news item: files with 3 (thorough: 4) arbitrary bytes, alone, after another line or at the end of a line of 248-257 bytes, followed by further lines or not, or missing; items asked for with 1-3 (1-4) arbitrary bytes, alone or behind two beginnings", cases=[0, 1, 2, 3], defs=D5, set="mapdb", quick=["N=3"], deep=["N=4"]), assumptions=[MAPDB])
P("P31", J("host", "IPv4 and IPv6 addresses of arbitrary bytes; every failure of each lookup; names of 11 lengths up to 255; 1-2 (thorough: 1-3) addresses of arbitrary bytes for the name, readable or not", cases=[0], defs=N6, set="pkt", quick=["NA=2"], deep=["NA=3"]),
         J("conn", "names of 9 lengths with two arbitrary characters, plain or TLS, the slot fresh or used before", cases=[0], defs=D5, set="mapdb"), assumptions=[MAPDB])
P("P32", J("show", "every control, visibility, volume, moderator, size (4), idle limit (9 each) and idle message (3) of the own group; two of the 6 lists with names of 15 lengths up to 200, or one and the others nearly empty; lists of 10-50 names of 1-12 characters; 10 idle times, away, registered or TLS or not; histories of 3 (thorough: 4) sign-ons, boots, drops and idle users, counted",
           cases=[0, 1, 2, 3, 4], defs=D5 + ["VP_MAXEV=60"], set="mapdb", quick=["K=3"], deep=["K=4"]), assumptions=[MAPDB])
P("P33", J("whois", "4 details of 7 lengths with 2-3 arbitrary characters, the others given or not, set in 2 ways and asked for in 3; texts of 18 lengths up to 215 with a blank anywhere and one or two (thorough: three) near where lines end; any 2 (thorough: 3) characters at the end of texts of 61-66; addresses with any 3 (4) characters, and of 78-80 and 200 with separators; unknown nicknames of 3 (4) characters and 4 others",
           cases=[0, 1, 2, 3, 4], defs=D5 + ["VP_RECS=30"], set="mapdb", quick=["N=2"], deep=["N=3"]), assumptions=[MAPDB])
P("P34", J("shut", "3 clients (any membership); an end announced in 10 ways up to a day ahead, at once or after other polls, and announced anew; histories of 4 (thorough: 5) announcements and polls at any times up to 100,000 s apart; the time left in 20 cases up to a day",
           cases=[0, 1], defs=D5, set="mapdb", quick=["K=4"], deep=["K=5"]), assumptions=[MAPDB])
P("P35", J("hist", "3 clients (2 registered), 4 groups, from 4 situations (all in the open group; a restricted group; a controlled one; one waiting for its moderator); any 3 (thorough: 4) of: entering 3 groups, restricting, making public, inviting, passing to the others or to nobody, booting, signing off and on again",
           cases=list(range(12)), defs=["VP_USERS=5", "VP_GROUPS=6"], set="mapdb", quick=["K=3"], deep=["K=4"]), assumptions=[MAPDB])
