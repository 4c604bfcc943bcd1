#!/usr/bin/env python3
"""runs checks against many small changes, each in a copy of /repo's sources:
mut.py FILE [ID...]   FILE defines M = [(id, "P01 P02", file, old, new), ...]
Prints which are caught. (a development tool; no check uses it)"""
import os, shutil, subprocess, sys, concurrent.futures as cf, re, time
W = "/tmp/mut"; V = os.environ.get("V", "/verif")
def one(m):
    mid, props, f, old, new = m[:5]
    d = f"{W}/{mid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(f"cp -a /repo/server /repo/pktserv /repo/*.h {d}/ && mkdir -p {d}/v && cd {V} && cp -a check.py spec.py engine harness lib known_findings.txt {d}/v/ && mkdir -p {d}/v/build && cp -a build/symx-* {d}/v/build/", shell=True)
    for ff, o, n in ([(f, old, new)] + list(m[5] if len(m) > 5 else [])):
        s = open(f"{d}/{ff}").read()
        if s.count(o) != 1:
            shutil.rmtree(d); return mid, f"BAD EDIT: {s.count(o)} matches in {ff}"
        open(f"{d}/{ff}", "w").write(s.replace(o, n))
    out = []
    for p in props.split():
        t = time.time()
        r = subprocess.run(["timeout", "880", "python3", f"{d}/v/check.py", p], env=dict(os.environ, VP_REPO=d), capture_output=True, text=True)
        v = re.findall(r"^violated: (.*?) at ", r.stdout, re.M)
        notes = re.findall(r"^note: (.*)$", r.stdout, re.M)
        out.append(f"{p}:{'CAUGHT ' + '; '.join(sorted(set(v)))[:150] if r.returncode == 1 else 'missed rc=%d' % r.returncode} {time.time()-t:.0f}s" + (f" [{notes[0][:200]}]" if notes and r.returncode != 1 else ""))
    shutil.rmtree(d)
    return mid, " | ".join(out)
g = {}
exec(open(sys.argv[1]).read(), g)
sel = [m for m in g["M"] if len(sys.argv) < 3 or m[0] in sys.argv[2:]]
with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for r in ex.map(one, sel): print(*r, flush=True)
