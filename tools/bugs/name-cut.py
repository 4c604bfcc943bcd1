PROP="P11"
NEEDS="a rename to a name of more than 12 characters whose first 12 are another user's nickname"
BREAKS="the check for the name in use looks at the name before it is cut, so two users end up with the same nickname"
EDITS=[("server/s_user.c","        if ((find_user(new_name) >= 0) &&\n            (strcasecmp(new_name, u_tab[n].nickname) != 0)) {","        if ((find_user(fields[1]) >= 0) &&\n            (strcasecmp(new_name, u_tab[n].nickname) != 0)) {")]
DEMO='''
S = Server()
a = S.client("Wolfgang1234"); b = S.client("Berta"); c = S.client("Carla")
b.cmd("name", "wolfgang1234567"); p = b.get()
check("e" in types(p), "the rename is not refused")
c.cmd("m", "Berta hi"); check("c" in types(b.get()), "Berta is no longer Berta")
'''
