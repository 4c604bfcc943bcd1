PROP="P34"
NEEDS="a shutdown announced anew after the notice of one minute was given for the first announcement"
BREAKS="nobody is told one minute before the new time"
EDITS=[("server/s_admin.c","        ShutdownNotify = 0;\n","        if (ShutdownNotify < 2)\n            ShutdownNotify = 0;\n")]
DEMO='''
import time
S = Server()
a = S.client("Admin", pw="ci_test_pwd"); b = S.client("Bert")
a.get(); b.get()
def announce():
    a.cmd("shutdown", "1")
    end = time.time() + 45; p = []
    while time.time() < end and not has(p, "in 1 minute!"): p += b.get(quiet=1)
    print(p)
    check(has(p, "going down in 1 minute"), "not announced")
    check(has(p, "in 1 minute!"), "no notice of one minute before")
announce()
announce()
'''
