#!/usr/bin/env python3
"""Decide one property of hoche/icbd by symbolic execution of the real code.

usage: check.py PID [--thorough] [--keep]      run the check of a property
       check.py --build                        build the engine only
       check.py --replay FILE                  replay a recorded violation

Every run compiles /repo's current sources to LLVM bitcode together with the
harnesses of the property, lets engine/symx explore every feasible path (Z3
decides each branch and each assertion), and replays what it finds against a
native build of the same sources with AddressSanitizer.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, V)
NCPU = os.cpu_count() or 4
ENGINE_SRC = ["expr.h", "expr.cpp", "symx.cpp"]

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ building
def engine():
    h = hashlib.sha256()
    for f in ENGINE_SRC:
        h.update(open(f"{V}/engine/{f}", "rb").read())
    exe = f"{V}/build/symx-{h.hexdigest()[:12]}"
    if os.path.exists(exe):
        return exe
    os.makedirs(f"{V}/build", exist_ok=True)
    flags = subprocess.check_output(["llvm-config-18", "--cppflags"], text=True).split()
    tmp = f"{exe}.{os.getpid()}"
    objs = []
    procs = []
    for f in ("expr", "symx"):
        o = f"{tmp}.{f}.o"
        objs.append(o)
        procs.append(subprocess.Popen(["g++", "-O2", "-std=c++17", "-fno-rtti", *flags, "-fexceptions", "-w", "-c",
                                       f"{V}/engine/{f}.cpp", "-o", o]))
    if any(p.wait() for p in procs):
        raise SystemExit("engine does not compile")
    subprocess.check_call(["g++", *objs, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
    for o in objs:
        os.unlink(o)
    os.rename(tmp, exe)
    return exe

SETS = {
    # all of the server but its main program and its log file
    "server": dict(src=lambda: [f for f in sorted(glob.glob(f"{REPO}/server/*.c")) if os.path.basename(f) not in ("main.c", "mdb.c")],
                   env=["server_env.c"]),
    # the same with an ideal user database instead of the real one
    "mapdb": dict(src=lambda: [f for f in SETS["server"]["src"]() if os.path.basename(f) != "icb_dbm.c"], env=["server_env.c", "mapdb.c"]),
    # the network layer
    "pkt": dict(src=lambda: sorted(glob.glob(f"{REPO}/pktserv/*.c")), env=["pkt_env.c"], defs=["VP_PKT"]),
}
INC = ["-I", f"{V}/lib", "-I", REPO, "-I", f"{REPO}/server", "-I", f"{REPO}/pktserv", "-DPKTSERV_INTERNAL", "-w"]
SYM = ["-O1", "-g", "-emit-llvm", "-DVP_SYM", "-fno-builtin", "-fno-inline", "-fno-pic", "-fno-PIE", "-fno-vectorize",
       "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-D__NO_CTYPE", "-U_FORTIFY_SOURCE", "-ftrivial-auto-var-init=pattern",
       "-fsanitize=bounds", "-fsanitize-trap=bounds"]
NAT = ["-O1", "-g", "-fno-omit-frame-pointer", "-fno-inline", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,bounds",
       "-fno-sanitize-recover=all"]

class Build:
    """Bitcode and native objects of the real sources, per set and defines."""
    def __init__(self, tmp):
        self.tmp = tmp
        self.cache = {}
        self.pool = cf.ThreadPoolExecutor(NCPU)

    def objects(self, sset, defs, native):
        key = (sset, tuple(defs), native)
        if key in self.cache:
            return self.cache[key]
        d = tempfile.mkdtemp(dir=self.tmp)
        ext = "o" if native else "bc"
        flags = (NAT if native else SYM) + INC + [f"-D{x}" for x in defs + SETS[sset].get("defs", [])]
        jobs = [(f, ["-include", f"{V}/lib/rename.h"], f"{d}/r_{i}_{os.path.basename(f)[:-2]}.{ext}") for i, f in enumerate(SETS[sset]["src"]())]
        jobs += [(f"{V}/lib/{e}", [], f"{d}/e_{e[:-2]}.{ext}") for e in SETS[sset]["env"]]
        jobs += [(f"{V}/lib/extra.c", [], f"{d}/e_extra.{ext}")]
        jobs += [(f"{V}/lib/{'native.c' if native else 'libc.c'}", [], f"{d}/vp_libc.{ext}")]
        def one(j):
            r = subprocess.run(["clang", *flags, *j[1], "-c", j[0], "-o", j[2]], capture_output=True, text=True)
            return (j[0], r.stderr) if r.returncode else None
        bad = [x for x in self.pool.map(one, jobs) if x]
        if bad:
            raise RuntimeError("does not compile: " + "; ".join(f"{a}: {b[:500]}" for a, b in bad))
        self.cache[key] = [j[2] for j in jobs]
        return self.cache[key]

    def harness(self, job, native):
        key = (job["set"], tuple(job["defs"]), tuple(job["hdefs"]), job["harness"], native)
        if key in self.cache:
            return self.cache[key]
        objs = self.objects(job["set"], job["defs"], native)
        d = tempfile.mkdtemp(dir=self.tmp)
        flags = (NAT if native else SYM) + INC + [f"-D{x}" for x in job["defs"] + job["hdefs"] + SETS[job["set"]].get("defs", [])]
        h = f"{d}/h.{'o' if native else 'bc'}"
        r = subprocess.run(["clang", *flags, "-c", f"{V}/harness/{job['harness']}.c", "-o", h], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(f"harness {job['harness']} does not compile: {r.stderr[:1500]}")
        out = f"{d}/{'native' if native else 'all.bc'}"
        cmd = ["clang", "-fsanitize=address,bounds", h, *objs, "-o", out] if native else ["llvm-link-18", h, *objs, "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(f"linking {job['harness']}: {r.stderr[:1500]}")
        self.cache[key] = out
        return out

# ------------------------------------------------------------------ replay
def replay(exe, job, inputs, tmp, deep):
    """run the native build on recorded inputs; what happened?"""
    d = tempfile.mkdtemp(dir=tmp)
    f = f"{d}/in"
    open(f, "w").write(" ".join(map(str, inputs)) + "\n")
    env = dict(os.environ, VP_INPUT=f, VP_CASE=str(job["case"]), VP_DEEP=str(deep),
               ASAN_OPTIONS="detect_leaks=0:malloc_fill_byte=170:max_malloc_fill_size=1000000:abort_on_error=0:exitcode=43:handle_abort=1",
               UBSAN_OPTIONS="exitcode=44")
    try:
        r = subprocess.run([exe], env=env, cwd=d, capture_output=True, text=True, errors="replace", timeout=job.get("replay_timeout", 20))
    except subprocess.TimeoutExpired:
        return dict(outcome="hang", detail="the native build does not terminate")
    out = r.stdout + r.stderr
    wit = re.findall(r"^VP-WITNESSED (.*)$", r.stdout, re.M)
    m = re.search(r"^VP-FAILED (.*)$", r.stdout, re.M)
    if m:
        return dict(outcome="failed", detail=m.group(1), witnessed=wit)
    if "AddressSanitizer" in out or r.returncode in (43, 44) or "runtime error:" in out or r.returncode < 0:
        m = re.search(r"(ERROR: AddressSanitizer.*|.*runtime error:.*)", out)
        return dict(outcome="crash", detail=m.group(1)[:300] if m else f"exit status {r.returncode}", witnessed=wit)
    m = re.search(r"^VP-(DIVERGED|BOUND) (.*)$", r.stdout, re.M)
    if m:
        return dict(outcome="diverged", detail=m.group(0), witnessed=wit)
    return dict(outcome="done" if "VP-DONE" in r.stdout else "ended", detail=f"exit {r.returncode}", witnessed=wit)

# ------------------------------------------------------------------ main
def known_findings(pid):
    """lines 'finding: property=ID harness=H msg=TEXT' suppress exactly that"""
    res = []
    try:
        for l in open(f"{V}/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) harness=(\S+) msg=(.*)$", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return res

def main():
    args = sys.argv[1:]
    if "--build" in args:
        engine()
        return 0
    if "--replay" in args:
        return do_replay(args[args.index("--replay") + 1])
    pid = [a for a in args if not a.startswith("-")][0]
    thorough = "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough"
    only = [a[len("--only="):] for a in args if a.startswith("--only=")]
    import spec
    prop = spec.PROPS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp-")
    try:
        return run(pid, prop, thorough, tmp, t0, only)
    finally:
        if "--keep" in args:
            log("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)

def expand(prop, thorough):
    jobs = []
    for j in prop["jobs"]:
        if j.get("thorough_only") and not thorough:
            continue
        for c in (j.get("deep_cases") or j.get("cases", [0])) if thorough else j.get("cases", [0]):
            jobs.append(dict(harness=j["harness"], set=j.get("set", "server"), case=c,
                             defs=j.get("defs", []), hdefs=j.get("hdefs", []) + (j.get("deep", j.get("quick", [])) if thorough else j.get("quick", [])),
                             time=j.get("deep_time", 1500) if thorough else j.get("time", 120),
                             bounds=j.get("bounds", ""), insts=j.get("insts", 30000000), witnesses=j.get("witnesses"), weight=j.get("weight", 0)))
    return jobs

def run(pid, prop, thorough, tmp, t0, only):
    deep = 1 if thorough else 0
    tier = "thorough" if thorough else "quick"
    problems, results = [], []
    eng = engine()
    b = Build(tmp)
    jobs = expand(prop, thorough)
    if only:
        jobs = [j for j in jobs if j["harness"] in only]
    # compile each distinct harness once
    ready = []
    for j in jobs:
        try:
            j["bc"] = b.harness(j, False)
            ready.append(j)
        except RuntimeError as e:
            problems.append(str(e))
    deadline = t0 + (3000 if thorough else 600)
    def one(j):
        out = f"{tmp}/res-{id(j)}.json"
        limit = max(5, min(j["time"], deadline - time.time()))
        cmd = [eng, j["bc"], f"--time={limit}", f"--max-insts={j['insts']}", f"--set=vp_case={j['case']}", f"--set=vp_deep={deep}", f"--out={out}"]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=limit + 120)
            return json.load(open(out)), ""
        except subprocess.TimeoutExpired:
            return None, "engine timeout"
        except Exception as e:
            return None, f"engine failed: {e} {r.stderr[:300]}"
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = {ex.submit(one, j): j for j in sorted(ready, key=lambda j: -j["weight"])}
        for f in cf.as_completed(fs):
            j = fs[f]
            r, err = f.result()
            if r is None:
                problems.append(f"{j['harness']}/{j['case']}: {err}")
            else:
                results.append((j, r))
    results.sort(key=lambda x: (x[0]["harness"], str(x[0]["case"])))

    # violations: confirmed by the native build, or not reported
    known = known_findings(pid)
    confirmed, unconfirmed, seen_known = [], [], set()
    todo = []
    for j, r in results:
        if not r["violations"]:
            continue
        try:
            todo.append((j, r, b.harness(j, True)))
        except RuntimeError as e:
            problems.append(str(e))
    t_rep = time.time()
    def confirm(x):
        """replay a run's violations; a build that hangs is not waited for again and again"""
        j, r, exe = x
        done, probs, hangs = set(), [], 0
        for v in r["violations"]:
            if v["kind"] == "bound":
                probs.append(f"{j['harness']}/{j['case']}: bound exceeded: {v['msg']} ({v['stack']})")
                continue
            key = (v["kind"], v["msg"], "" if v["kind"] == "hang" else v["loc"])
            if key in done:
                continue
            late = time.time() - t_rep
            if late > 240 or (late > 60 and confirmed) or hangs >= 4:
                probs.append(f"{j['harness']}/{j['case']}: not all violations replayed")
                break
            rep = replay(exe, j, v["inputs"], tmp, deep)
            hangs += rep["outcome"] == "hang"
            ok = rep["outcome"] in ("failed", "crash") or (rep["outcome"] == "hang" and v["kind"] != "assert")
            if ok:
                done.add(key)
                if any(h == j["harness"] and m in (v["msg"], rep["detail"]) for h, m in known):
                    seen_known.add((j["harness"], v["msg"]))
                    continue
                confirmed.append((j, v, rep))
            else:
                unconfirmed.append((j, v, rep))
        return probs
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for probs in ex.map(confirm, todo):
            problems += probs
    order = lambda x: (x[0]["harness"], str(x[0]["case"]), x[1]["msg"])
    confirmed.sort(key=order)
    unconfirmed.sort(key=order)

    # vacuity: every witness of a harness must have been reached, and the
    # native build must agree on some of them
    import itertools
    wanted, got, wrep = {}, {}, []
    for j in ready:
        txt = open(f"{V}/harness/{j['harness']}.c").read()
        wanted.setdefault(j["harness"], set(re.findall(r"VP_WITNESS\(.*?\"([^\"]*)\"\);", txt)) if j["witnesses"] is None else set(j["witnesses"]))
    for j, r in results:
        for w in r["witnesses"]:
            got.setdefault(j["harness"], {}).setdefault(w["msg"], (j, w))
    if not confirmed:
        for h, ws in got.items():
            for msg, (j, w) in ws.items():
                try:
                    exe = b.harness(j, True)
                except RuntimeError as e:
                    problems.append(str(e))
                    break
                rep = replay(exe, j, w["inputs"], tmp, deep)
                ok = msg in rep.get("witnessed", []) and rep["outcome"] in ("done", "ended")
                wrep.append(dict(harness=h, case=j["case"], witness=msg, inputs=w["inputs"], native=rep["outcome"] if ok else f"MISMATCH {rep}"))
                if not ok:
                    problems.append(f"{h}: native replay of witness '{msg}' disagrees: {rep}")
    missing = [f"{h}: witness '{m}' not reached" for h, ms in wanted.items() for m in ms if m not in got.get(h, {})]

    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(f"{V}/out", exist_ok=True)
    viol_files = []
    for i, (j, v, rep) in enumerate(confirmed):
        p = f"{V}/out/{pid}-{i}.json"
        json.dump(dict(property=pid, harness=j["harness"], set=j["set"], defs=j["defs"], hdefs=j["hdefs"], case=j["case"], deep=deep,
                       message=v["msg"], kind=v["kind"], where=v["stack"], inputs=v["inputs"], log=v["log"], native=rep,
                       how=f"python3 {V}/check.py --replay {p}"), open(p, "w"), indent=1)
        viol_files.append((p, j, v, rep))

    tot = lambda k: sum(r[k] for _, r in results)
    incomplete = [f"{j['harness']}/{j['case']}" for j, r in results if not r["exhausted"]]
    errs = sorted({f"{j['harness']}/{j['case']}: {e}" for j, r in results for e, n in r["errors"].items() if n})
    funcs = sorted({f.replace(REPO + "/", "") for _, r in results for f in r["functions"] if f.startswith(REPO)})
    exhaustive = bool(results) and len(results) == len(jobs) and not incomplete and not errs and not problems and not missing
    obligations = {}
    for _, r in results:
        for m, n in r["assertions"].items():
            obligations[m] = obligations.get(m, 0) + n
    cov = dict(
        explanation="Symbolic execution of the real sources (compiled to LLVM bitcode from /repo's working tree in this run) by engine/symx; "
                    "Z3 decides every branch and every assertion for all values of the symbolic inputs within the bounds; every memory access is checked. "
                    + ("All feasible paths within the bounds were explored." if exhaustive else "The exploration was NOT complete: see incomplete/problems."),
        exhaustive=exhaustive, bounds=sorted({f"{j['harness']}: {j['bounds']}" for j in jobs}), harness_runs=len(results),
        paths=tot("paths"), instructions=tot("instructions"), solver_queries=tot("queries"), queries_answered_from_cache=tot("cache_hits"),
        sat=tot("sat"), unsat=tot("unsat"), unknown=tot("unknown"), solver_s=round(tot("solver_s"), 2),
        assertion_checks=sum(obligations.values()), assertions=obligations, functions_encoded=funcs,
        runs=[dict(harness=j["harness"], case=j["case"], paths=r["paths"], queries=r["queries"], solver_s=round(r["solver_s"], 2), wall_s=round(r["wall_s"], 1), exhausted=r["exhausted"]) for j, r in results],
        incomplete=incomplete, problems=problems + errs + missing,
        native_replays=wrep, unconfirmed=[dict(harness=j["harness"], case=j["case"], kind=v["kind"], msg=v["msg"], where=v["stack"], inputs=v["inputs"], native=rep) for j, v, rep in unconfirmed],
        violations=[dict(harness=j["harness"], case=j["case"], msg=v["msg"], where=v["stack"], replay=p) for p, j, v, rep in viol_files],
        samples=[dict(w) for w in wrep[:5]])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov,
              assumptions=prop.get("assumptions", []) , wall_s=round(time.time() - t0, 1), violations=len(confirmed))
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)

    log(f"{pid} [{tier}]: {len(results)}/{len(jobs)} runs, {cov['paths']} paths, {cov['solver_queries']} queries, solver {cov['solver_s']} s, wall {ev['wall_s']} s, "
        + ("complete within the bounds" if exhaustive else "NOT complete"))
    problems = sorted(set(problems))
    for x in problems + errs + missing + [f"not exhausted: {i}" for i in incomplete]:
        log("note:", x[:600])
    for j, v, rep in unconfirmed:
        log(f"note: unconfirmed {j['harness']}/{j['case']} {v['kind']}: {v['msg']} ({v['stack'][:300]}) inputs={v['inputs']} native={rep}")
    for h, m in sorted(seen_known):
        log(f"KNOWN-FINDING: property={pid} {h}: {m}")
    for p, j, v, rep in viol_files:
        log(f"violated: {j['harness']}/{j['case']}: {v['msg']} at {v['stack'][:300]}; native replay: {rep['outcome']} {rep['detail']}")
        log(f"VIOLATION property={pid} replay={p}")
    if viol_files:
        return 1
    if not results:
        log("note: nothing could be decided")
        return 2
    return 0

def do_replay(path):
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="vp-")
    try:
        b = Build(tmp)
        rep = replay(b.harness(d, True), d, d["inputs"], tmp, d["deep"])
        log(json.dumps(rep, indent=1))
        return 1 if rep["outcome"] in ("failed", "crash", "hang") else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # an error of the machinery is not a verdict
        import traceback
        traceback.print_exc()
        log(f"note: machinery error, nothing decided: {e}")
        sys.exit(2)
