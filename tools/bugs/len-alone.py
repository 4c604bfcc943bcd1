PROP="P01"
NEEDS="a packet whose length byte arrives on its own, the rest later"
BREAKS="the header is read again: the type byte is taken for the length of the next packet and the stream is cut at the wrong places"
EDITS=[("pktserv/pktsocket.c","            cbuf->state = WANT_READ;\n            return 0;\n        }\n        vmdb(MSG_ERR, \"fd%d%s: Couldn't read packet body.\"","            return 0;\n        }\n        vmdb(MSG_ERR, \"fd%d%s: Couldn't read packet body.\"")]
DEMO='''
S = Server()
a = S.client("Anna"); b = S.client("Berta")
body = b"bhello there\\0"
a.raw(bytes([len(body)])); time.sleep(0.3)
a.raw(body[:1]); time.sleep(0.3)
a.raw(body[1:])
check(has(b.get(), "Anna", "hello there"), "the message sent in pieces does not arrive")
a.open("again")
check(has(b.get(), "Anna", "again"), "the next message does not arrive")
'''
