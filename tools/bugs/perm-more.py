PROP="P26"
NEEDS="a permission file whose first entry matching the client's address grants everything and a later one that denies it"
BREAKS="an entry that takes nothing away does not end the search, so the later one decides"
EDITS=[("server/msgs.c","                if ( (client_v4.s_addr & mask) == addr )\n                {\n                    perm = perm2val (perms);\n                    break;","                if ( (client_v4.s_addr & mask) == addr )\n                {\n                    perm = perm2val (perms);\n                    if ( perm != PERM_NULL )\n                        break;")]
DEMO='''
def login(perms):
    S = Server(files={"icbd.perms": perms}); c = S.client(); c.get(); c.login("Anna", "1", "anna"); p = c.get(); S.stop(); return "a" in types(p)
check(login(""), "login with an empty permission file")
check(not login("mask 127.0.0.0 255.0.0.0 perm_deny\\n"), "a denied address logs in")
check(login("mask 127.0.0.1 255.255.255.255 perm_null\\nmask 127.0.0.0 255.0.0.0 perm_deny\\n"), "the first matching entry does not decide")
'''
