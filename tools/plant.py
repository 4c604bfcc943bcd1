#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from tools/bugs/<id>.py and confirms the bug in
a scratch copy of /repo: it applies, builds, passes the stable tests, and the
demonstration tells the two trees apart."""
import json, os, re, shutil, subprocess, sys
V = "/verif"; W = "/tmp/plant"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def prepare():
    if os.path.exists(W): shutil.rmtree(W)
    sh(f"mkdir -p {W}; cp -a /repo {W}/repo; cp -a /opt/vp {W}/vp")
    for f in os.listdir(f"{W}/vp"):
        p = f"{W}/vp/{f}"
        if os.path.isfile(p) and f.endswith((".sh", ".py")):
            s = open(p).read().replace("/repo", f"{W}/repo").replace("/opt/vp", f"{W}/vp")
            open(p, "w").write(s)
    shutil.rmtree(f"{W}/repo/_build", ignore_errors=True)
def build(): return sh(f"bash {W}/vp/build.sh")
def plant(bid):
    g = {}
    exec(open(f"{V}/tools/bugs/{bid}.py").read(), g)
    d = f"{V}/seeded/{bid}"
    sh(f"git -C {W}/repo checkout -- . && git -C {W}/repo clean -fdq -e _build")
    os.makedirs(d, exist_ok=True)
    for n, t in g.get("FILES", {}).items(): open(f"{d}/{n}", "w").write(t)
    if "DEMO" in g:
        open(f"{d}/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom icbdemo import *\n" + g["DEMO"].strip("\n") + "\n")
        shutil.copy(f"{V}/tools/icbdemo.py", d)
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
    else:
        open(f"{d}/demo.sh", "w").write(g["SH"].lstrip("\n"))
    json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(f"{d}/meta.json", "w"), indent=1)
    demo = lambda: sh(f"bash {d}/demo.sh", cwd=f"{W}/repo")
    r = build()
    if r.returncode: return f"clean build fails {r.stderr[-500:]}"
    r = demo()
    if r.returncode: return f"demo fails on the clean tree: {r.stdout[-800:]}{r.stderr[-800:]}"
    for f, old, new in g["EDITS"]:
        p = f"{W}/repo/{f}"; s = open(p).read()
        if s.count(old) != 1: return f"{f}: {s.count(old)} matches of {old!r}"
        open(p, "w").write(s.replace(old, new))
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {W}/repo diff").stdout)
    r = build()
    if r.returncode: return f"does not build {r.stdout[-1500:]}"
    r = sh(f"bash {W}/vp/test.sh {W}/t.json")
    t = json.load(open(f"{W}/t.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("passed") or base.get("tests") or base.get("stable")
    lost = [n for n in names if n not in t["passed"]]
    if lost: return f"tests lost: {lost}"
    r = demo()
    if r.returncode == 0: return "demo passes with the bug"
    return "ok: " + (r.stdout.strip() or r.stderr.strip())[-150:]
if __name__ == "__main__":
    prepare()
    for b in sys.argv[1:]: print(b, plant(b), flush=True)
    shutil.rmtree(W)
