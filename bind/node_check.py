"""Runs the Node.js binding and judges its record. Arguments prop= seed= rounds= scratch= dir=
asan= (path of libasan or empty)."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import ET
PT = ["dir", "file", "hardLink", "symLink", "watcher", "other"]
a = dict(x.split("=", 1) for x in sys.argv[1:])
R = common.Report(a["prop"])
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.dirname(a["scratch"])
LOG, OUT = top + "/tee.log", top + "/out.jsonl"
env = dict(os.environ, VP_LOG=LOG)
if a.get("asan"): env["LD_PRELOAD"] = a["asan"]
if a.get("what") == "ends":
    p = subprocess.Popen(["node", "--no-warnings", here + "/node_ends.mjs", a["dir"], OUT, a["seed"], a["rounds"], a["scratch"]], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        o, e = p.communicate(timeout=150)
        if p.returncode != 0 or b"ended" not in o: R.viol("crash-at-end", "node ended with status %d: %s" % (p.returncode, e.decode(errors="replace")[:3000]))
    except subprocess.TimeoutExpired: p.kill(); p.communicate(); R.viol("hang-at-end", "node did not end")
    L = common.read_log(LOG)
    R.add("environments", int(a["rounds"]) + 1); R.add("watches", len(L)); R.add("events", sum(len(w.events) for w in L.values()))
    for i in sorted(L)[:-3]:     # the process's own, the last three, go with it
        w = L[i]
        if not w.closes: R.viol("not-closed-at-end", "the environment of watch %r ended, and its C watcher was never closed" % w.path)
    R.see("kinds", "ends"); R.samples.append("%d environments ended with %d watchers" % (int(a["rounds"]) + 1, len(L)))
    R.end(); sys.exit(0)
p = subprocess.Popen(["node", "--expose-gc", "--no-warnings", "--force-node-api-uncaught-exceptions-policy=true", here + "/node_run.mjs", a["dir"], OUT, a["seed"], a["rounds"], a["scratch"], here + "/node_mut.py"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
hung = False
try: err = p.communicate(timeout=int(a.get("limit", 200)))[1]
except subprocess.TimeoutExpired: p.kill(); err = p.communicate()[1]; hung = True
err = err.decode(errors="replace")
recs, asked, got, closes, ended, balance = [], {}, {}, {}, False, None
for l in (open(OUT, encoding="utf-8", errors="surrogateescape") if os.path.exists(OUT) else []):
    try: x = json.loads(l)
    except ValueError: continue
    if "asked" in x: asked[x["id"]] = bytes.fromhex(x["asked"])
    elif "refused" in x: R.add("refused")
    elif "e" in x: got.setdefault(x["id"], []).append(x)
    elif "close" in x: closes.setdefault(x["id"], []).append(x)
    elif "end" in x: ended = True
    elif "before" in x: balance = x
    elif "uncaught" in x: R.viol("exception", x["uncaught"])
    elif "changed" in x: R.viol("changed-later", "an event was %s when it came, and %s later" % (x["changed"], x["to"]))
    elif "kept" in x: R.add("events_kept", x["kept"])
    elif "kind" in x: R.see("kinds", x["kind"])
if hung: R.viol("hang", "node did not exit; the script %s. %s" % ("was at its end: something was not let go" if ended else "was not at its end", err[:1000]))
elif p.returncode != 0 or not ended: R.viol("crash", "node ended with status %d before the end of the script: %s" % (p.returncode, err[:3000]))
L = common.read_log(LOG)
for i, w in sorted(L.items()):
    R.add("watches"); g = got.get(i, [])
    if i in asked and w.path != asked[i]: R.viol("other-path", "asked to watch %r, the C library was given %r" % (asked[i][-120:], w.path[-120:])); continue
    text = w.path is not None and not any(common.shape(e)[4] == "b" for e in w.events)
    if ended and len(g) != len(w.events): R.viol("count", "watch of %r: the C library delivered %d events, the callback was called %d times" % (w.path, len(w.events), len(g)))
    for k, (e, x) in enumerate(zip(w.events, g)):
        t, et, pt, pn, an = e
        R.add("events"); R.see("event_shapes", common.shape(e))
        if x["argc"] != 1 or x["keys"] != ["associatedPathName", "effectTime", "effectType", "pathName", "pathType"]: R.viol("form", repr(x)); break
        gt, gp, ga, ge, gy = x["e"]
        bad = []
        if not isinstance(gt, (int, float)) or abs(gt - t) > abs(t) * 2.0**-52: bad.append("effectTime")
        if ge != ET[et]: bad.append("effectType")
        if gy != PT[pt]: bad.append("pathType")
        dec = lambda b: b.decode()
        try:
            if gp != dec(pn): bad.append("pathName")
        except UnicodeDecodeError: R.add("names_not_text")
        try:
            if (ga is None) != (an is None) or an is not None and ga != dec(an): bad.append("associatedPathName")
        except UnicodeDecodeError: pass
        if bad: R.viol("field:" + ",".join(bad), "event %d of watch %r: the C library delivered %r, the callback got %r" % (k, w.path, e, x["e"])); break
    c = closes.get(i, [])
    R.add("closes", len(c))
    if any(x["type"] != "boolean" for x in c): R.viol("close-type", repr(c))
    if c:
        want = [bool(w.closes and w.closes[0])] + [False] * (len(c) - 1)
        if [x["close"] for x in c] != want: R.viol("close-result", "watch of %r: close gave %r instead of %r" % (w.path, [x["close"] for x in c], want))
        if not w.closes: R.viol("not-closed", "watch of %r: closed, but its C watcher never" % w.path)
if balance:
    b, e = balance["before"], balance["after"]
    for what, x, y in (("allocations", b[0], e[0]), ("references", b[1], e[1]), ("thread-safe functions", b[2], e[2])):
        if y - x >= 3: R.viol("leak:" + what, "3 rounds of opening and closing 12 watchers left %d more %s" % (y - x, what))
    R.add("allocations", e[3])
elif ended: R.viol("no-balance", "")
if L: R.samples.append("watch %r: %d events, %d calls, closes %r" % (L[1].path, len(L[1].events), len(got.get(1, [])), [x["close"] for x in closes.get(1, [])]))
R.end()
