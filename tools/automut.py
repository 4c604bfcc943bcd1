#!/usr/bin/env python3
"""makes small random changes in the functions the checks encode and runs the
checks that encode each one on it:  automut.py SEED COUNT LOG [FILE-REGEX]
(a development tool; no check uses it)"""
import glob, json, os, random, re, shutil, subprocess, sys, time, concurrent.futures as cf
W = "/tmp/automut"; V = os.environ.get("V", "/verif")
seed, count, log = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
only = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
rnd = random.Random(seed)
fn, size = {}, {}
for f in glob.glob(f"{V}/evidence/P*.json"):
    d = json.load(open(f)); p = d["property"]; fs = d["coverage"]["functions_encoded"]
    size[p] = len(fs)
    for x in fs: fn.setdefault(x, []).append(p)
ANCH = {}
for l in open(f"{V}/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"]: ANCH.setdefault(f, set()).add(d["id"])
LATE = ["P25", "P23", "P05", "P06", "P24"]
SKIP = re.compile(r"mdb *\(|server_stats|^\s*(/?\*|//|#)|assert|extern|static const|^\s*(int|char|long|unsigned|size_t|NAMLIST|time_t|struct|DBM|FILE)\b[^=]*;")
OPS = [(r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r"(?<![-<>])<(?![<=])", "<="), (r"(?<![->])>(?![>=])", ">="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\+ ?1\b", ""), (r"- ?1\b(?! *[,)]*;? *$)", ""), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\bstrcasecmp\b", "strcmp"),
       (r"\bMAX_REAL_USERS\b", "MAX_USERS"), (r"\bLOGIN_COMPLETE\b", "LOGIN_PENDING"), (r"!(?![=])", ""), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"),
       (r"\+\+", "--"), (r"\bog?i\b", "ngi"), (r"\bdest\b", "n"), (r"\bto\b", "from"), (r"\bn_(?=(invites|talk|bars|hushed|notifies))", "s_"), (r"\bpri_", "pub_")]
def bodies(path):
    s = open(path).read().split("\n"); out = []
    i = 0
    while i < len(s):
        m = re.match(r"^(?!typedef|struct|enum|static const|extern|#|\s)(?:[\w\*]+[ \*]+)*\*?(\w+) *\(", s[i])
        if m and not s[i].rstrip().endswith(";"):
            j = i
            while j < len(s) and not s[j].startswith("{") and not s[j].rstrip().endswith("{"):
                if s[j].rstrip().endswith(";"): break
                j += 1
            if j < len(s) and (s[j].startswith("{") or s[j].rstrip().endswith("{")):
                k = j
                while k < len(s) and not s[k].startswith("}"): k += 1
                out.append((m.group(1), j + 1, k)); i = k
        i += 1
    return s, out
cands = []
for key in fn:
    f, name = key.split(":")
    if not only.search(key) or not os.path.exists("/repo/" + f): continue
    s, bs = bodies("/repo/" + f)
    for nm, a, b in bs:
        if nm != name: continue
        incom = False
        for ln in range(a, b):
            t = s[ln]
            if "/*" in t and "*/" not in t: incom = True; continue
            if incom:
                if "*/" in t: incom = False
                continue
            if SKIP.search(t) or not t.strip(): continue
            code = re.sub(r'"(\\.|[^"])*"', lambda m: '"' + "\x00" * (len(m.group(0)) - 2) + '"', t)
            code = re.sub(r"/\*.*?\*/", lambda m: "\x00" * len(m.group(0)), code)
            for pat, new in OPS:
                for m in re.finditer(pat, code):
                    cands.append((f, name, ln, t[:m.start()] + new + t[m.end():]))
            if re.match(r"^\s*[\w\->\[\]\.\*\(].*;\s*$", code) and not re.match(r"^\s*(return|break|goto|case|default|else|continue|for|while|do|if)\b", code) and re.match(r"^\s*[^=]*(\([^;]*\)|=[^;]*|\+\+|--);\s*$", code) and code.count("(") == code.count(")"):
                cands.append((f, name, ln, re.match(r"^\s*", t).group(0) + ";"))
cap = {}
for c in cands: cap[c[0] + c[1]] = cap.get(c[0] + c[1], 0) + 1
cap = {k: max(2, min(v // 10, 40)) for k, v in cap.items()}
rnd.shuffle(cands)
per = {}; sel = []
done = set()
if os.path.exists(log):
    done = {tuple(json.loads(l)["m"][:3]) + (json.loads(l)["m"][3],) for l in open(log)}
for c in cands:
    k = c[0] + c[1]
    if c in done or per.get(k, 0) >= cap[k]: continue
    per[k] = per.get(k, 0) + 1; sel.append(c)
sel = sel[:count]
def one(m):
    f, name, ln, new = m
    d = f"{W}/{abs(hash(m))}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call(f"cp -a /repo/server /repo/pktserv /repo/*.h {d}/ && mkdir -p {d}/v && cd {V} && cp -a check.py spec.py engine harness lib known_findings.txt {d}/v/ && mkdir -p {d}/v/build && cp -a build/symx-* {d}/v/build/", shell=True)
    s = open(f"{d}/{f}").read().split("\n"); old = s[ln]; s[ln] = new
    open(f"{d}/{f}", "w").write("\n".join(s))
    ps = sorted(fn[f"{f}:{name}"], key=lambda p: (p not in ANCH.get(f, ()), p in LATE, LATE.index(p) if p in LATE else size[p]))
    ps = ps[:6] + ([p for p in ("P24",) if p in ps[6:]])
    res = "survived"; t0 = time.time(); rcs = []
    for p in ps:
        r = subprocess.run(["timeout", "880", "python3", f"{d}/v/check.py", p], env=dict(os.environ, VP_REPO=d), capture_output=True, text=True)
        rcs.append((p, r.returncode))
        if r.returncode == 1:
            v = re.findall(r"^violated: (.*?) at ", r.stdout, re.M); res = "caught " + p + " " + "; ".join(sorted(set(v)))[:100]; break
        if r.returncode not in (0, 1) and "error:" in r.stdout + r.stderr: res = "nocompile"; break
    shutil.rmtree(d)
    with open(log, "a") as o: o.write(json.dumps(dict(m=m, old=old, res=res, rcs=rcs, s=round(time.time() - t0))) + "\n")
print(len(cands), "candidates", len(sel), "selected")
with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex: list(ex.map(one, sel))
