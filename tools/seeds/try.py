"""python3 try.py [--tests] [--demo] [--check] [id...]: confirms the planted changes in scratch copies."""
import json, os, shutil, subprocess, sys, tempfile, time
D = os.path.dirname(os.path.abspath(__file__)); S = os.path.join(D, "../../seeded"); V = os.path.abspath(os.path.join(D, "../.."))
opts = [a for a in sys.argv[1:] if a.startswith("--")]; ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(S))
def sh(cmd, cwd, t=600, **env):
    try: r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=dict(os.environ, **env)); return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e: return 124, (e.stdout or b"").decode(errors="replace")
for id in ids:
    d = S + "/" + id; meta = json.load(open(d + "/meta.json")); prop = meta["property"]; out = [id]
    t = tempfile.mkdtemp(prefix="try-", dir="/tmp"); r = t + "/repo"; os.mkdir(r); demo = t + "/elsewhere"; shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    sh("git -C /repo archive HEAD | tar x -C " + r, t); sh("git init -q; git add -A; git -c user.name=x -c user.email=x commit -qm x", r)
    try:
        if "--demo" in opts:
            rc, o = sh("bash %s/demo.sh" % demo, r, 300); out.append("clean:%d" % rc)
            if rc: print(o[-1500:])
        rc, o = sh("git apply %s/patch.diff" % d, r)
        if rc: print(id, "patch does not apply", o[:300]); continue
        if "--demo" in opts:
            t0 = time.time(); rc, o = sh("bash %s/demo.sh" % demo, r, 300); out.append("patched:%d(%ds)" % (rc, time.time() - t0))
            out.append("<" + o.strip().replace("\n", " | ")[:160] + ">")
        if "--check" in opts:
            t0 = time.time(); rc, o = sh("python3 checks/run.py " + prop, V, 900, VP_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            hit = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + prop)]
            out.append("check:%d %s (%ds)" % (rc, "CAUGHT" if rc == 1 and hit else "MISSED", time.time() - t0))
            more = [l for l in o.splitlines() if l.startswith("  ")]
            out.append(more[0].strip()[:140] if more else o[-300:])
        if "--tests" in opts:
            sh("git -C /repo apply %s/patch.diff" % d, r); rc, o = sh("setpriv --bounding-set -sys_admin bash /tmp/tst.sh", r); sh("git -C /repo checkout -- .", r); out.append("tests:" + o.strip()[-200:])
    finally: shutil.rmtree(t)
    print(" ".join(out), flush=True)
