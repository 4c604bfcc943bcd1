PROP="P35"
NEEDS="an unregistered user who moderates two groups signing off while the first group's heir is less idle than the second's members"
BREAKS="the second group is given to somebody outside it"
EDITS=[("server/ipcf.c","                newmod = -1;\n                for (i=0; i<MAX_USERS; i++) \n","                for (i=0; i<MAX_USERS; i++) \n"),
("server/ipcf.c","    while ( (was_mod = check_mods(n)) != -1 )","    newmod = -1;\n    while ( (was_mod = check_mods(n)) != -1 )")]
DEMO='''
import time
S = Server()
a = S.client("Ann"); b = S.client("Bob"); c = S.client("Cat")
a.cmd("g", "Den"); a.get(); b.cmd("g", "Den"); b.get()
a.cmd("g", "Room"); a.get(); c.cmd("g", "Room"); c.get()
time.sleep(1.3)
b.cmd("beep", ""); b.get()
a.s.close(); time.sleep(0.5)
b.get(); c.get()
c.cmd("status", ""); p = c.get(); print(p)
check(has(p, "Mod: Cat"), "the group does not go to its member")
b.cmd("status", ""); p = b.get(); print(p)
check(has(p, "Mod: Bob"), "the group does not go to its member")
'''
