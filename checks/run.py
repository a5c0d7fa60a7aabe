#!/usr/bin/env python3
"""run.py <property>: decides one property on /repo's working tree.

Every job is one process (a driver built from /repo's sources, or a script which
uses a binding) that prints JSON lines: {"viol":..}, {"cov":..}, {"error":..} and
at its end {"done":true}. Exit 0: held on what was run. Exit 1: violated. Exit 2:
could not decide (build failure, harness failure, too little observed)."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, specs
V = build.V

KNOWN = json.load(open(V + "/known_findings.json"))

def scratch_base():
    for d in (os.environ.get("VP_SCRATCH"), tempfile.gettempdir()):
        if d: return tempfile.mkdtemp(prefix="vp-", dir=d)

def crash_key(err, rc):
    for pat, name in ((r"ThreadSanitizer: ([a-z -]+)", "tsan"), (r"AddressSanitizer: ([A-Za-z-]+)", "asan"),
                      (r"runtime error: ([a-z ]+)", "ubsan"), (r"(terminate called)", "abort"),
                      (r"==\d+== (Invalid (?:read|write)|Conditional jump|Use of uninit|Syscall param)", "memcheck")):
        m = re.search(pat, err)
        if m: return name + ":" + m.group(1).strip()
    if rc < 0: return "signal:" + signal.Signals(-rc).name
    return "exit:%d" % rc

enough = threading.Event()  # the verdict is known: what still runs is cut short

def run_job(job, base, seed):
    d = tempfile.mkdtemp(prefix="j-", dir=base)
    r = dict(viol=[], cov=[], error=None, done=False, hang=False, cut=False, crash=None, err="")
    t = time.time()
    try:
        os.makedirs(d + "/s")
        argv, env = job["cmd"](d + "/s", seed)
        e = dict(os.environ, TMPDIR=d, LC_ALL="C.UTF-8",
                 ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:exitcode=77:abort_on_error=0:handle_abort=0:allocator_may_return_null=1",
                 UBSAN_OPTIONS="print_stacktrace=1:exitcode=77",
                 TSAN_OPTIONS="exitcode=66:halt_on_error=0:second_deadlock_stack=1:report_thread_leaks=0:history_size=4")
        e.update(env or {})
        r["argv"] = argv
        with open(d + "/out", "wb") as fo, open(d + "/err", "wb") as fe:
            p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, env=e, cwd=d + "/s", start_new_session=True)
            rc, left = None, job["timeout"]
            try:
                while rc is None and left > 0 and not enough.is_set():
                    t1 = time.monotonic()
                    try: rc = p.wait(0.5)
                    except subprocess.TimeoutExpired: left -= min(time.monotonic() - t1, 1)  # a machine that stood still is not a hang
                if rc is None: r["hang" if left <= 0 else "cut"] = True
            finally:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait()
        r["rc"] = rc
        for l in open(d + "/out", errors="replace"):
            try: x = json.loads(l)
            except ValueError: continue
            if not isinstance(x, dict): continue
            if "viol" in x: r["viol"].append(x["viol"])
            elif "cov" in x: r["cov"].append(x["cov"])
            elif "error" in x: r["error"] = x["error"]
            elif "done" in x: r["done"] = True
        err = open(d + "/err", errors="replace").read()
        r["err"] = err[:20000]
        if not r["hang"] and not r["cut"] and r["error"] is None and (rc != 0 or not r["done"]): r["crash"] = crash_key(err, rc)
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", d], stderr=subprocess.DEVNULL)
        subprocess.run(["rm", "-rf", d])
    r["s"] = time.time() - t
    return r

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"): tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = specs.SPECS[prop]
    os.makedirs(V + "/evidence", exist_ok=True)
    for f in os.listdir(V + "/evidence"):
        if f.startswith("replay-%s-" % prop): os.unlink(V + "/evidence/" + f)
    try:
        build.prune()
        jobs = spec["jobs"](tier)
        need = {j["name"].split("#")[0]: j["build"] for j in jobs}
        with cf.ThreadPoolExecutor(6) as ex:
            for f in [ex.submit(b) for b in {id(b): b for b in need.values()}.values()]: f.result()
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e); return 2
    tb = time.time() - t0
    base = scratch_base()
    res, errors = [], []
    hung, first = [], []
    def hang_of(j): return dict(prop=prop, key="hang:" + j["name"].split("#")[0], detail="the workload did not finish within %d s, twice, or %d others did not either" % (j["timeout"], 2))
    def one(i, j):
        if enough.is_set(): return
        s = seed * 100003 + i * 17 + j.get("seed", 0)
        r = run_job(j, base, s)
        if r["hang"]: hung.append(j)
        if r["hang"] and len(hung) >= 3:
            r["viol"].append(hang_of(j))
        elif r["hang"] or r["error"]:
            r2 = run_job(j, base, s)      # once more before it is believed
            if r["hang"] and r2["hang"]: r2["viol"].append(hang_of(j))
            elif r2["error"]: errors.append("%s seed %d: %s" % (j["name"], s, r2["error"]))
            r2["viol"] = r["viol"] + r2["viol"]
            r = r2
        if r["crash"]: r["viol"].append(dict(prop=prop, key="crash:" + r["crash"], detail=r["err"][:3000] or "no output"))
        r["job"], r["seed"] = j, s
        res.append(r)
        if any(v["prop"] == prop and not known(prop, v, j) for v in r["viol"]):
            first.append(time.monotonic())
            if tier == "quick" and (len(first) >= 3 or r["hang"]): enough.set()
        if tier == "quick" and first and time.monotonic() - first[0] > 100: enough.set()
    try:
        with cf.ThreadPoolExecutor(spec.get("width", 8)) as ex:
            fs = [ex.submit(one, i, j) for i, j in enumerate(jobs)]
            for f in fs: f.result()
    finally:
        subprocess.run(["rm", "-rf", base])
    # verdict
    bad, seen, other = [], {}, {}
    for r in res:
        for v in r["viol"]:
            if v["prop"] != prop:
                other.setdefault(v["prop"] + " " + v["key"], v["detail"][:300])
                continue
            k = known(prop, v, r["job"])
            if k: seen[k["key"]] = k
            else: bad.append((r, v))
    for k in seen.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    S, M, D, smp, shim = {}, {}, {}, [], {}
    for r in res:
        for c in r["cov"]:
            for k, x in c.get("sum", {}).items(): S[k] = S.get(k, 0) + x
            for k, x in c.get("max", {}).items(): M[k] = max(M.get(k, 0), x)
            for k, x in c.get("distinct", {}).items(): D.setdefault(k, set()).update(x)
            if c.get("samples"): smp.append("%s: %s" % (r["job"]["name"], c["samples"][0]))
            for k, x in c.get("shim", {}).items():
                if k == "max_batch": shim[k] = max(shim.get(k, 0), x)
                else: shim[k] = shim.get(k, 0) + x
    per = {}
    for r in res:
        n = r["job"]["name"].split("#")[0]
        p = per.setdefault(n, dict(processes=0, seconds=0, slowest=0))
        p["processes"] += 1; p["seconds"] = round(p["seconds"] + r["s"], 1); p["slowest"] = max(p["slowest"], round(r["s"], 1))
    cov = dict(evaluations=int(sum(S.get(k, 0) for k in spec["evaluations"])),
               distinct_nontrivial=int(sum(len(D.get(k, ())) for k in spec["distinct"])),
               rule=spec["rule"], samples=smp[:8] or ["none"], observed=dict(sorted(S.items())), maxima=M,
               distinct={k: len(v) for k, v in sorted(D.items())}, system_call_boundary=shim, jobs=per,
               processes=len(res), build_s=round(tb, 1), known_findings_reproduced=sorted(seen), alarms_for_other_properties=other)
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(bad))
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    done = set()
    for n, (r, v) in enumerate(bad):
        if v["key"] in done or len(done) >= 5: continue
        done.add(v["key"])
        path = "%s/evidence/replay-%s-%d.json" % (V, prop, len(done))
        json.dump(dict(property=prop, key=v["key"], detail=v["detail"], job=r["job"]["name"], seed=r["seed"],
                       argv=r.get("argv"), how="VERIF_SEED=%d VERIF_TIER=%s python3 checks/run.py %s, or run argv with scratch= an empty directory" % (seed, tier, prop),
                       stderr=r["err"]), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s [%s, seed %d]: %s" % (v["key"], r["job"]["name"], r["seed"], v["detail"][:600].replace("\n", "\n    ")))
    print("%s %s: %d processes, %d evaluations, %d distinct, %.0f s (build %.0f s)%s" % (
        prop, tier, len(res), cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, tb,
        "; other alarms: " + "; ".join(sorted(other)) if other else ""))
    if bad: return 1
    if errors:
        print("INCONCLUSIVE: " + "; ".join(errors[:5])); return 2
    few = ["%s=%d<%d" % (k, S.get(k, 0), n) for k, n in spec.get("need", {}).items() if S.get(k, 0) < n]
    if few:
        print("INCONCLUSIVE: too little observed: " + ", ".join(few)); return 2
    return 0

def known(prop, v, job):
    for k in KNOWN["findings"]:
        if k["property"] == prop and k["key"] == v["key"] and k["job"] == job["name"].split("#")[0]: return k
    return None

if __name__ == "__main__": sys.exit(main())
