PROP="P33"
NEEDS="a text of more than one line whose first line is broken just behind a hyphen"
BREAKS="whois shows the text without the hyphen"
EDITS=[("server/access.c","                    if (*p == ' ')\n                        lastw = p;","                    if (*p == ' ' || *p == '-')\n                        lastw = p;")]
DEMO='''
S = Server()
a = S.client("Anna"); b = S.client("Bert")
a.cmd("p", "secret"); a.get()
for k in (48, 55, 60, 61, 62):
    t = "word " + "x" * (k - 5) + "-" + "y" * 30
    a.cmd("text", t); a.get()
    b.cmd("whois", "Anna"); p = b.get()
    ls = [f[1][6:] for ty, f in p if ty == "i" and len(f) > 1 and f[1].startswith("Text: ")]
    print(ls)
    check(len(ls) >= 2, "not broken into lines")
    rest = t
    while ls:
        l = ls.pop(0)
        if rest.startswith(l) and not (l.endswith("-") and ls and rest[len(l):].startswith("y") and ls[0][:1] != rest[len(l):len(l)+1]):
            rest = rest[len(l):].lstrip(" ")
        else:
            check(l.endswith("-") and rest.startswith(l[:-1]), "the text is not as it was set"); rest = rest[len(l) - 1:]
    check(rest.strip("-") == "" and rest == "", "the text is not complete")
'''
