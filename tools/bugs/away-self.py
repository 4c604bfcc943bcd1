PROP="P16"
NEEDS="an away user whose last away reply went to A; B writes to them, then A writes again within ten seconds of B's message"
BREAKS="the away reply to B is not remembered as the last one, so B writing again at once gets the reply again and again, or A is not told"
EDITS=[("server/s_person.c","            u_tab[dest].lastaway = src;\n            u_tab[dest].lastawaytime = time(NULL);","            if (u_tab[dest].lastawaytime == 0)\n                u_tab[dest].lastaway = src;\n            u_tab[dest].lastawaytime = time(NULL);")]
DEMO='''
S = Server()
a = S.client("Anna"); b = S.client("Berta"); c = S.client("Carla")
c.cmd("away", "%s lunch"); c.get()
def away(x):
    x.cmd("m", "Carla hello"); return sum(t == "d" and f[0] == "Away" for t, f in x.get())
check(away(a) == 1, "first reply to Anna")
check(away(b) == 1, "first reply to Berta")
check(away(b) == 0, "Berta gets the reply again at once")
check(away(a) == 1, "Anna is not told though the last reply went to Berta")
'''
