PROP="P18"
NEEDS="a message stored by a user whose nickname has twelve characters"
BREAKS="the message comes back with another sender"
EDITS=[("server/access.c","                strncpy(from, value, MAX_NICKLEN);\n                from[MAX_NICKLEN] = '\\0';","                strncpy(from, value, MAX_NICKLEN - 1);\n                from[MAX_NICKLEN - 1] = '\\0';")]
DEMO='''
S = Server()
a = S.client("Annabellaxyz"); b = S.client("Bert")
a.cmd("p", "secret"); a.get(); b.cmd("p", "secret2"); b.get()
a.cmd("write", "Bert hello you"); a.get()
b.get(); b.cmd("read", ""); p = b.get(); print(p)
check(has(p, "hello you") and has(p, "Annabellaxyz"), "the message does not come from its sender")
'''
